"""X01: an exported model answers as the model does with the documented features and the restored parameters."""
import functools
import os
import random
import shutil
import tempfile
import types

import flax
from flax.linen import partitioning as fp
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import seqio
import tensorflow as tf

from checks import model_common as mc
from core import Skip, Sub, require
from t5x import checkpoints, decoding, export_lib, models, optimizers, partitioning, train_state as ts, utils

BUDGET = (40, 1500)
EOS = 1
UNK = mc.V - 1
ALPHABET = 'bcdefgh'   # tokens 2 to 8
LI, LT = 5, 4


class Letters(seqio.Vocabulary):
  """One token per byte: 'b' is 2 and so on, everything else is unknown."""

  def __init__(self, eos=EOS):
    super().__init__(extra_ids=0)
    self._eos = eos

  bos_id = None
  unk_id = UNK
  eos_id = property(lambda self: self._eos)
  _base_vocab_size = mc.V

  def _encode(self, s):
    return letters(s)

  def _decode(self, ids):
    return ''.join(letter(i) for i in ids)

  def _encode_tf(self, s):
    b = tf.cast(tf.io.decode_raw(s, tf.uint8), tf.int32) - ord('a') + 1
    b = tf.where((b >= 2) & (b <= 8), b, UNK)
    b.set_shape([None])
    return b

  def _decode_tf(self, ids):
    table = tf.constant([letter(i) for i in range(mc.V)])
    return tf.strings.reduce_join(tf.gather(table, tf.clip_by_value(ids, 0, UNK)), axis=-1)


def letters(s):
  return [b - 96 if 98 <= b <= 104 else UNK for b in s.encode()]


def letter(i):
  return chr(96 + i) if 2 <= i <= 8 else '?' if i >= UNK else ''


def feature(vocab, add_eos):
  return seqio.Feature(vocab, add_eos=add_eos, dtype=tf.int32)


# --- what the features are --------------------------------------------------------------------------------------------


def fit(tokens, length, add_eos, buckets=None, eos=EOS):
  """Trims, appends the end token, pads."""
  t = list(tokens)
  if add_eos:
    t = t[:length - 1] + [eos]
  if buckets:
    length = min([b for b in buckets if b >= len(t)] or [max(buckets)])
  return mc.pad(t, length)


def rect(rows):
  n = max(map(len, rows))
  return np.array([mc.pad(r, n) for r in rows], np.int32)


def encdec_features(inputs, targets):
  t = rect(targets)
  return dict(encoder_input_tokens=rect(inputs), decoder_target_tokens=t, decoder_input_tokens=np.concatenate([0 * t[:, :1], t[:, :-1]], 1), decoder_loss_weights=(t != 0).astype(np.int32))


def deconly_features(rows, total, prompt):
  t = np.array([mc.pad(r, total) for r in rows], np.int32)
  n = np.array([len(r) for r in rows])
  pos = np.arange(total)
  return dict(decoder_target_tokens=t, decoder_input_tokens=np.concatenate([0 * t[:, :1], t[:, :-1]], 1),
              decoder_causal_attention=(pos[None] < n[:, None] + 1).astype(np.int32) if prompt else 0 * t,
              decoder_loss_weights=0 * t if prompt else (t != 0).astype(np.int32))


def same_features(got, want, what, known=None):
  """Decoder inputs are compared where `known` says; other positions are beyond a row's own bucket and have no weight."""
  got = {k: np.asarray(v) for k, v in got.items()}
  require(set(got) == set(want), lambda: f'{what}: features {sorted(got)}, expected {sorted(want)}')
  for k, w in want.items():
    if k == 'decoder_input_tokens' and known is not None and got[k].shape == w.shape:
      got[k], w = got[k] * known, w * known
    require(got[k].shape == w.shape and np.array_equal(got[k], w), lambda: f'{what}: {k} is {got[k].tolist()}, expected {w.tolist()}')


texts = st.text(ALPHABET, max_size=8)
tokens = st.lists(st.integers(2, UNK), max_size=8)


@st.composite
def buckets_of(draw, length):
  return sorted(set(draw(st.lists(st.integers(1, length), max_size=3)) + [length]))


@st.composite
def preprocess_case(draw):
  kind = draw(st.sampled_from(['encdec', 'encdec', 'dual', 'deconly', 'deconly-targets']))
  tokenized = draw(st.booleans())
  n = draw(st.integers(1, 4))
  sep = draw(st.sampled_from([None, '|', '::'])) if kind in ('encdec', 'dual') and not tokenized else None
  li, lt = draw(st.integers(1, 7)), draw(st.integers(1, 7))
  if tokenized:
    rows = [draw(tokens) for _ in range(n)]
  else:
    rows = [draw(texts) + ''.join(sep + draw(texts) for _ in range(draw(st.integers(0, 2)))) if sep else draw(st.one_of(texts, texts, st.text(max_size=4))) for _ in range(n)]
  rows = [r.replace('\0', '') if isinstance(r, str) else r for r in rows]
  return dict(kind=kind, tokenized=tokenized, rows=rows, sep=sep, li=li, lt=lt, width=draw(st.integers(1, 9)), eos=draw(st.lists(st.booleans(), min_size=2, max_size=2)) if not tokenized else [False, False],
              buckets={k: draw(buckets_of(l)) for k, l in (('inputs', li), ('targets', lt)) if draw(st.booleans())} if kind in ('encdec', 'dual') and draw(st.booleans()) else None,
              fixed=draw(st.booleans()), name=draw(st.sampled_from(['text_batch', 'x'])), graph=draw(st.booleans()), shuffled=draw(st.booleans()))


def preprocess(c, rec):
  v = Letters()
  out = {'inputs': feature(v, c['eos'][0]), 'targets': feature(v, c['eos'][1])}
  lengths = {'inputs': c['li'], 'targets': c['lt']}
  rows = c['rows']
  if c['tokenized']:
    width = c['li'] if c['graph'] or c['kind'] in ('encdec', 'dual') else c['width']
    rows = [r[:width] for r in rows]
    x = tf.constant([mc.pad(r, width) for r in rows], tf.int32)
    src, dst = rows, [[] for _ in rows]
  else:
    x = tf.constant([r.encode() for r in rows])
    src = [r.split(c['sep'], 1)[0] if c['sep'] else r for r in rows]
    dst = [(r.split(c['sep'], 1) + [''])[1] if c['sep'] else '' for r in rows]
    src, dst = [letters(r) for r in src], [letters(r) for r in dst]
  bs = len(rows) if c['fixed'] else None
  known = None
  what = f'{c["kind"]} {rows} (lengths {lengths}, buckets {c["buckets"]}, end tokens {c["eos"]}, separator {c["sep"]})'
  if c['kind'] in ('encdec', 'dual'):
    b = dict(c['buckets'] or {})
    make = export_lib.create_preprocessor if c['kind'] == 'encdec' else export_lib.create_dual_encoder_preprocessor
    given = {k: list(reversed(w)) if c['shuffled'] else list(w) for k, w in b.items()} if c['buckets'] is not None else None
    f, sig = make(bs, out, lengths, c['tokenized'], input_tensor_name=c['name'], split_separator=c['sep'], bucket_keys=given)
    want_sig = (tf.TensorSpec([bs, c['li']], tf.int32, name=c['name']) if c['tokenized'] else tf.TensorSpec([bs], tf.string, name=c['name']),)
    require(tuple(sig) == want_sig, lambda: f'signature {sig}, expected {want_sig}')
    if c['tokenized'] and b:
      # The width of the batch, padding included, is what is bucketed.
      src = [mc.pad(r, c['li']) for r in src]
      dst = [[0] * c['li'] for _ in src]
    si = [fit(r, c['li'], c['eos'][0], b.get('inputs')) for r in src]
    ti = [fit(r, c['lt'], c['eos'][1], b.get('targets')) for r in dst]
    want = encdec_features(si, ti)
    known = rect([[1] * len(t) for t in ti])
    if c['kind'] == 'dual':
      want = dict(left_encoder_input_tokens=want['encoder_input_tokens'], right_encoder_input_tokens=want['decoder_target_tokens'])
    rec.nontrivial(len({len(r) for r in src}) > 1 and any(dst) or bool(b))
    rec.label('buckets', bool(b))
  else:
    which = 'inputs' if c['kind'] == 'deconly' else 'targets'
    f = export_lib.create_decoder_preprocessor(out, lengths, c['tokenized'], which)
    sig = export_lib.create_single_tensor_input_signature(bs, lengths, c['tokenized'])
    eos = c['eos'][0 if which == 'inputs' else 1]
    seqs = [r + [EOS] * eos for r in src]
    if not any(seqs) and not c['tokenized']:
      raise Skip()
    want = deconly_features(seqs, c['li'] + c['lt'], which == 'inputs')
    rec.nontrivial(len({len(r) for r in seqs}) > 1)
  if c['graph']:
    f = tf.function(f, input_signature=sig, autograph=False)
  same_features(f(x), want, what, known)
  rec.label(c['kind'] + (' tokens' if c['tokenized'] else ' texts'))
  rec.label('split', c['sep'] is not None)


# --- a seqio task as the preprocessor ---------------------------------------------------------------------------------


@seqio.utils.map_over_dataset
def bump(ex):
  return {**ex, 'targets': ex['targets'] + 1}


@seqio.utils.map_over_dataset
def double(ex):
  return {**ex, 'inputs': tf.concat([ex['inputs'], ex['inputs'][:1]], 0)}


TASK_SPECS = {'inputs': tf.TensorSpec([None], tf.int32), 'targets': tf.TensorSpec([None], tf.int32)}


@functools.lru_cache(None)
def task(cache, eos, fixed):
  name = f'verif_x01_{cache}_{eos}_{fixed}'
  spec = {k: tf.TensorSpec([3] if fixed and k == 'inputs' else [None], tf.int64) for k in TASK_SPECS}

  def source(split, shuffle_files, seed=None):
    return tf.data.Dataset.from_generator(lambda: iter(()), output_signature=spec)
  pre = [double] + ([seqio.CacheDatasetPlaceholder()] if cache else []) + [bump, cast] + ([seqio.preprocessors.append_eos_after_trim] if eos else [])
  v = Letters()
  seqio.TaskRegistry.add(name, source=seqio.FunctionDataSource(source, splits=['test']), preprocessors=pre, output_features={k: feature(v, eos) for k in TASK_SPECS}, metric_fns=[])
  return name


@seqio.utils.map_over_dataset
def cast(ex):
  return {k: tf.cast(v, tf.int32) for k, v in ex.items()}


@st.composite
def task_case(draw):
  fixed = draw(st.booleans())
  rows = draw(st.lists(st.tuples(st.lists(st.integers(2, 7), min_size=3 if fixed else 0, max_size=3 if fixed else 7), st.lists(st.integers(2, 7), max_size=6)).map(list), min_size=1, max_size=4))
  return dict(rows=rows, fixed=fixed, cache=draw(st.booleans()), precache=draw(st.booleans()), eos=draw(st.booleans()), serialized=draw(st.booleans()), kind=draw(st.sampled_from(['encdec', 'deconly'])),
              bs=draw(st.booleans()), graph=draw(st.booleans()), drop=draw(st.booleans()))


def from_task(c, rec):
  rows = c['rows']
  if not c['serialized']:
    rows = [[r[0][:3] + [2] * (3 - len(r[0])), (r[1] + [3, 3])[:2]] for r in rows]  # unserialized batches are rectangular
  ex = []
  for i, (a, b) in enumerate(rows):
    f = {'inputs': tf.train.Feature(int64_list=tf.train.Int64List(value=a)), 'targets': tf.train.Feature(int64_list=tf.train.Int64List(value=b))}
    if c['drop'] and i == 0 and c['serialized']:
      del f['targets']
      rows = [[rows[0][0], []]] + rows[1:]
    ex.append(tf.train.Example(features=tf.train.Features(feature=f)).SerializeToString())
  model = mc.encdec() if c['kind'] == 'encdec' else mc.deconly()
  lengths = {'inputs': LI, 'targets': LT}
  bs = len(rows) if c['bs'] else None
  f, sig = export_lib.create_preprocessor_from_task(bs, {}, lengths, False, model=model, task_name=task(c['cache'], c['eos'], c['fixed']), serialized_examples=c['serialized'], run_precache=c['precache'],
                                                    input_tensor_name='examples')
  require(tuple(sig) == (tf.TensorSpec([bs], tf.string, name='examples'),), lambda: f'signature {sig}')
  x = tf.constant(ex) if c['serialized'] else {'inputs': tf.constant([r[0] for r in rows], tf.int64), 'targets': tf.constant([r[1] for r in rows], tf.int64)}
  src = [a + a[:1] if c['precache'] or not c['cache'] else a for a, _ in rows]
  dst = [[t + 1 for t in b] for _, b in rows]
  if c['eos']:
    src, dst = [a[:LI - 1] + [EOS] for a in src], [b[:LT - 1] + [EOS] for b in dst]
  long = any(len(a) > LI for a in src) or any(len(b) > LT for b in dst)
  src, dst = [a[:LI] for a in src], [b[:LT] for b in dst]
  if c['kind'] == 'encdec':
    want = encdec_features([mc.pad(a, LI) for a in src], [mc.pad(b, LT) for b in dst])
  else:
    total = LI + LT
    both = [a + b for a, b in zip(src, dst)]
    want = deconly_features(both, total, False)
    pos, n = np.arange(total)[None], np.array([len(a) for a in src])[:, None]
    want['decoder_causal_attention'] = (pos < n + 1).astype(np.int32)
    want['decoder_loss_weights'] = ((pos >= n) & (want['decoder_target_tokens'] != 0)).astype(np.int32)
  if c['graph'] and c['serialized']:
    f = tf.function(f, autograph=False)
  try:
    got = dict(f(x))
  except tf.errors.InvalidArgumentError as e:
    # Requests longer than the model takes may be refused when the task does not trim them itself.
    require(long, lambda: f'{rows} refused: {e}')
    rec.label('refused')
    return
  what = f'{c["kind"]} {rows} (end tokens {c["eos"]}, cached {c["cache"]}, precache {c["precache"]})'
  want = {k: w for k, w in want.items()}
  same_features(got, want, what)
  rec.nontrivial(len(rows) > 1 and len({len(a) for a in src}) > 1)
  rec.label('serialized' if c['serialized'] else 'tensors')


# --- answers ----------------------------------------------------------------------------------------------------------


@st.composite
def postprocess_case(draw):
  n, l, d = draw(st.integers(1, 3)), draw(st.integers(1, 6)), draw(st.sampled_from([0, 0, 2]))
  return dict(n=n, l=l, d=d, tokens=draw(st.lists(st.integers(0, UNK), min_size=n * l * max(d, 1), max_size=n * l * max(d, 1))), eos=draw(st.sampled_from([EOS, EOS, None])), mode=draw(st.sampled_from(['predict', 'predict', 'predict', 'score', 'custom'])),
              decode=draw(st.booleans()), lengths=draw(st.booleans()), names=draw(st.sampled_from([None, 'right', 'right', 'short'])))


def first_eos(row, eos):
  return row.index(eos) if eos in row else len(row)


def postprocess(c, rec):
  shape = [c['n']] + ([c['d']] if c['d'] else []) + [c['l']]
  toks = np.array(c['tokens'], np.int32).reshape(shape)
  scores = np.arange(np.prod(shape[:-1]), dtype=np.float32).reshape(shape[:-1]) - 1.5
  v = Letters(c['eos'])
  flat = toks.reshape(-1, c['l']).tolist()
  decoded = np.array([''.join(letter(i) for i in (r[:first_eos(r, c['eos'])] if c['eos'] else r)).encode() for r in flat], object).reshape(shape[:-1])
  before = np.array([first_eos(r, c['eos']) for r in flat], np.int32).reshape(shape[:-1])
  if c['mode'] == 'predict':
    want = (decoded, scores) + ((np.full(shape[:-1], c['l'], np.int32), before) if c['lengths'] else ()) if c['decode'] else (toks, scores)
    given = (tf.constant(toks), tf.constant(scores))
  else:
    want = given = (tf.constant(scores),)
  names = None if not c['names'] else [f'n{i}' for i in range(len(want) - (c['names'] == 'short'))]
  f = export_lib.create_postprocessor(v, c['mode'] if c['mode'] != 'custom' else export_lib.CustomInferenceMode('f'), c['decode'], names, c['lengths'])
  try:
    got = f(given)
  except ValueError as e:
    require(c['names'] == 'short', lambda: f'{c}: {e}')
    rec.nontrivial()
    return
  require(c['names'] != 'short', f'{len(want)} outputs were named {names}')
  if names:
    require(list(got) == names, lambda: f'outputs {list(got)}, expected {names}')
    got = tuple(got.values())
  require(len(got) == len(want), lambda: f'{len(got)} outputs, expected {len(want)}')
  for g, w in zip(got, want):
    g, w = np.asarray(g), np.asarray(w)
    require(g.shape == w.shape and np.array_equal(g, w), lambda: f'{c["mode"]} of {toks.tolist()}: {g.tolist()}, expected {w.tolist()}')
  rec.nontrivial(c['mode'] == 'predict' and c['decode'] and c['eos'] is not None and len(set(before.ravel().tolist())) > 1)
  rec.label(c['mode'] + (' decoded' if c['decode'] else ''))


# --- where and what -----------------------------------------------------------------------------------------------------


@st.composite
def place_case(draw):
  base = draw(st.sampled_from(['/a/b', 'x', '/models/m_cpu', '/m/3', 'gs://bucket/m']))
  version = draw(st.sampled_from(['1', '007', '20240101', 'v1', '', '1a']))
  form = draw(st.sampled_from(['str', 'tpu', 'cpu', 'both', 'none', 'other']))
  shapes = draw(st.lists(st.lists(st.one_of(st.none(), st.integers(1, 4)), max_size=3), min_size=1, max_size=3))
  return dict(base=base, version=version, form=form, shapes=shapes, nest=draw(st.booleans()), over=draw(st.booleans()))


def places(c, rec):
  tpu, cpu = f'{c["base"]}/{c["version"]}', '/somewhere/else'
  given = {'str': tpu, 'tpu': {'tpu': tpu}, 'cpu': {'cpu': cpu}, 'both': {'cpu': cpu, 'tpu': tpu}, 'none': None, 'other': {'gpu': tpu}}[c['form']]
  good = c['version'].isdigit()
  want = {'str': {'tpu': tpu, 'cpu': f'{c["base"]}_cpu/{c["version"]}'} if good else None, 'cpu': {'cpu': cpu}, 'both': given, 'none': None, 'other': None}.get(c['form'] if c['form'] != 'tpu' else 'str')
  before = dict(given) if isinstance(given, dict) else given
  try:
    got = export_lib._standardize_output_dirs(given)  # pylint: disable=protected-access
  except ValueError:
    got = None
  require(got == want, lambda: f'directories for {given}: {got}, expected {want}')
  require(given == before, f'the caller\'s directories changed to {given}')
  # Signatures and the symbolic batch size.
  specs = [tf.TensorSpec(s, tf.int32 if i % 2 else tf.float32, name=f'x{i}') for i, s in enumerate(c['shapes'])]
  poly = any(None in s for s in c['shapes'])
  bad = any(None in s[1:] for s in c['shapes'])
  sig = {'a': specs[0], 'b': tuple(specs[1:])} if c['nest'] else tuple(specs)
  try:
    fake = export_lib.create_fake_input(sig)
  except ValueError:
    require(bad, f'no input could be made for {sig}')
    rec.nontrivial()
    return
  require(not bad, f'{sig} has more than a batch dimension unknown, input {fake}')
  for x, s in zip(jax.tree_util.tree_leaves(fake), specs):
    w = [1 if d is None else d for d in s.shape.as_list()]
    require(x.shape.as_list() == w and x.dtype == s.dtype and not np.any(np.asarray(x)), lambda: f'{s} became {x}')
  pre = lambda *a: {'f': jnp.zeros(3), 'g': {'h': jnp.zeros(2)}}
  over = {'f': 'b, 7'} if c['over'] else None
  got = export_lib.create_batch_polymorphic_shapes(tuple(specs), pre, overrides=over)
  d = 'b, ...' if poly else None
  want = None if not poly and not over else {'f': over['f'] if over else d, 'g': {'h': d}}
  require(got == want, lambda: f'shapes {got}, expected {want}')
  rec.nontrivial(poly or c['form'] != 'str')


def protos():
  """The messages of tensorflow_serving that warm-up requests consist of, with their field numbers."""
  global _PROTOS
  if _PROTOS is None:
    from google.protobuf import descriptor_pb2, descriptor_pool, message_factory
    from tensorflow.core.framework import tensor_pb2
    pool = descriptor_pool.Default()
    f = descriptor_pb2.FileDescriptorProto(name='verif/x01.proto', package='verif.x01', syntax='proto3', dependency=[tensor_pb2.DESCRIPTOR.name])

    def message(name, *fields):
      m = f.message_type.add(name=name)
      for n, num, t in fields:
        x = m.field.add(name=n, number=num, label=1)
        if isinstance(t, str):
          x.type, x.type_name = 11, t
        else:
          x.type = t
      return m
    message('ModelSpec', ('name', 1, 9), ('signature_name', 3, 9))
    m = message('PredictRequest', ('model_spec', 1, '.verif.x01.ModelSpec'))
    e = m.nested_type.add(name='InputsEntry')
    e.options.map_entry = True
    e.field.add(name='key', number=1, label=1, type=9)
    e.field.add(name='value', number=2, label=1, type=11, type_name='.tensorflow.TensorProto')
    m.field.add(name='inputs', number=2, label=3, type=11, type_name='.verif.x01.PredictRequest.InputsEntry')
    message('PredictLog', ('request', 1, '.verif.x01.PredictRequest'))
    message('PredictionLog', ('predict_log', 6, '.verif.x01.PredictLog'))
    pool.Add(f)
    _PROTOS = types.SimpleNamespace(**{n: message_factory.GetMessageClass(pool.FindMessageTypeByName('verif.x01.' + n)) for n in ('PredictRequest', 'PredictLog', 'PredictionLog')})
    for mod in (export_lib.predict_pb2, export_lib.prediction_log_pb2):
      for n in ('PredictRequest', 'PredictLog', 'PredictionLog'):
        setattr(mod, n, getattr(_PROTOS, n))
  return _PROTOS


_PROTOS = None


def read_requests(path):
  out = []
  for r in tf.data.TFRecordDataset(path).as_numpy_iterator():
    q = protos().PredictionLog.FromString(r).predict_log.request
    out.append((q.model_spec.name, q.model_spec.signature_name, {k: tf.make_ndarray(v) for k, v in q.inputs.items()}))
  return out


@st.composite
def warmup_case(draw):
  what = draw(st.sampled_from(['texts', 'texts', 'bytes', 'tokens', 'generated']))
  w = draw(st.integers(1, 4))
  row = {'texts': texts, 'bytes': texts, 'tokens': st.lists(st.integers(0, 9), min_size=w, max_size=w), 'generated': texts}[what]
  return dict(what=what, rows=draw(st.lists(row, min_size=1, max_size=5)), sizes=draw(st.lists(st.one_of(st.none(), st.integers(1, 7)), min_size=1, max_size=3)), name=draw(st.sampled_from(['text_batch', 'x'])),
              sig=draw(st.sampled_from(['serving_default', 'serve'])), lengths=draw(st.lists(st.integers(1, 9), min_size=1, max_size=3)), room=draw(st.booleans()), how=draw(st.sampled_from(['vocabulary', 'vocabulary', 'token', 'default'])),
              bound=draw(st.sampled_from([1, 2, 10])), params=draw(st.booleans()), state=draw(st.integers(0, 99)))


def warmup(c, rec):
  P = protos()
  del P
  if c['what'] == 'generated':
    v = seqio.ByteVocabulary()
    lengths = [n - c['room'] for n in c['lengths']]
    given = list(c['lengths'])
    kw = {'vocabulary': v, 'chars_per_token_upper_bound': c['bound']} if c['how'] == 'vocabulary' else {'single_token_example': 'z'} if c['how'] == 'token' else {}
    random.seed(c['state'])
    got = export_lib.generate_examples_with_sequence_lengths(given, leave_room_for_eos=c['room'], **kw)
    random.seed(c['state'] + 1)
    again = export_lib.generate_examples_with_sequence_lengths(given, leave_room_for_eos=c['room'], **kw)
    require(got == again, lambda: f'other examples the second time: {got}, {again}')
    require([[len(v.encode(x)) for x in b] for b in got] == [[n] for n in lengths], lambda: f'examples {got} have not {lengths} tokens')
    require(given == c['lengths'], 'the list of lengths changed')
    if c['how'] == 'token':
      require(all(set(x) <= {'z'} for b in got for x in b), lambda: f'{got} do not repeat the token')
    batches = got
    generate = lambda: got
    rec.nontrivial(len(set(lengths)) > 1)
  else:
    batches = [c['rows'] if c['what'] != 'bytes' else [r.encode() for r in c['rows']]]
    generate = None
    rec.nontrivial(any(s not in (None, len(c['rows'])) for s in c['sizes']) and len(c['rows']) > 1)
  top = tempfile.mkdtemp(prefix='x01-')
  try:
    spec = [('temperature', tf.float32, ()), ('k', tf.int32, (2,))] if c['params'] else None
    export_lib.write_warmup_examples(batches[0] if generate is None else None, top, 'the model', signature_name=c['sig'], generate_examples_fn=generate, batch_sizes=list(c['sizes']), input_tensor_name=c['name'], decoder_params_spec=spec)
    got = read_requests(os.path.join(top, 'assets.extra', 'tf_serving_warmup_requests'))
  finally:
    shutil.rmtree(top)
  want = []
  for b in batches:
    b = [x.encode() if isinstance(x, str) else x for x in b]
    for s in c['sizes']:
      rows = b if s is None else [b[i % len(b)] for i in range(s)]
      inputs = {c['name']: np.array(rows, np.int32) if c['what'] == 'tokens' else np.array(rows, object)}
      if c['params']:
        inputs.update(temperature=np.zeros(len(rows), np.float32), k=np.zeros((len(rows), 2), np.int32))
      want.append(('the model', c['sig'], inputs))
  require(len(got) == len(want), lambda: f'{len(got)} requests, expected {len(want)}')
  for g, w in zip(got, want):
    require(g[:2] == w[:2] and set(g[2]) == set(w[2]), lambda: f'request {g}, expected {w}')
    for k in w[2]:
      require(g[2][k].shape == w[2][k].shape and g[2][k].dtype == w[2][k].dtype and np.array_equal(g[2][k], w[2][k]), lambda: f'{k} of the request is {g[2][k]}, expected {w[2][k]}')
  rec.label(c['what'])


# --- the whole export -----------------------------------------------------------------------------------------------------


class Axes:
  """Initial variables with the names of their axes."""

  def get_initial_variables(self, rng, input_shapes, input_types=None):
    p = mc.params(self.kind, 99)
    return variables(p)


class EncDecModel(Axes, models.EncoderDecoderModel):
  kind = 'encdec'


class DecOnlyModel(Axes, models.DecoderOnlyModel):
  kind = 'deconly'


def variables(p):
  names = {'emb': ('vocab', 'embed'), 'enc_emb': ('vocab', 'embed'), 'out': ('embed', 'vocab'), 'mix': ('embed', 'mlp')}

  def axes(t):
    return {k if isinstance(v, dict) else k + '_axes': axes(v) if isinstance(v, dict) else fp.AxisMetadata(names=names[k]) for k, v in t.items()}
  return flax.core.freeze({'params': p, 'params_axes': axes(p)})


def partitioner():
  return partitioning.PjitPartitioner(num_partitions=1)


@functools.lru_cache(None)
def stored(kind, how):
  """A directory with checkpoints of two steps."""
  d = tempfile.mkdtemp(prefix='x01-ckpt-')
  for step in (3, 20):
    p = mc.params(kind, step)
    state = ts.FlaxOptimTrainState.create(optimizers.sgd(0.1), variables(p))
    state = jax.tree_util.tree_map(jnp.asarray, state).replace_step(jnp.int32(step))
    if how == 'orbax':
      m = checkpoints.OrbaxCheckpointManagerInterface(d, jax.eval_shape(lambda s: s, state), partitioner())
      m.save(state)
      m.wait_until_finished()
      m.close()
    else:
      checkpoints.Checkpointer(state, partitioner(), d, save_dtype=jnp.bfloat16 if how == 'bf16' else jnp.float32).save(state)
  return d


def build_model(kind, fn, defaults, alpha):
  if fn == 'sample':
    decode = functools.partial(decoding.temperature_sample, topk=0, rescale_log_probs=False)
  else:
    decode = functools.partial(decoding.beam_search, alpha=alpha)
  v = Letters()
  if kind == 'encdec':
    kw = {} if not defaults else {'default_decoder_params': models.DecoderParams(num_decodes=defaults)}
    return EncDecModel(mc.EncDec(), v, v, optimizers.sgd(0.1), decode_fn=decode, **kw)
  return DecOnlyModel(mc.DecOnly(), v, optimizers.sgd(0.1), decode_fn=decode, inputs_bidirectional_attention=True)


def scores_and_tokens(out):
  return tuple(jax.tree_util.tree_leaves(out))


@st.composite
def export_case(draw):
  kind = draw(st.sampled_from(['encdec', 'encdec', 'deconly']))
  mode = draw(st.sampled_from(['predict', 'predict', 'score', 'custom']))
  batch = draw(st.sampled_from(['fixed', 'fixed', 'any', 'batching', 'sizes']))
  source = draw(st.sampled_from(['texts', 'texts', 'tokens'] + (['task'] if kind == 'encdec' else [])))
  fn = draw(st.sampled_from(['sample', 'beam']))
  part = draw(st.booleans())
  row = tokens.map(lambda r: r[:LI]) if source == 'tokens' else texts
  return dict(kind=kind, mode=mode, batch=batch, bs=draw(st.integers(1, 3)), source=source, fn=fn, part=part, how=draw(st.sampled_from(['t5x', 'bf16'] + (['orbax'] if part else []))),
              restore=draw(st.sampled_from(['first', 'last', 'latest'])) if part else draw(st.sampled_from(['first', 'last'])), dtype=draw(st.sampled_from(['float32', 'bfloat16', None])),
              rename=draw(st.booleans()), eos=draw(st.booleans()), sep=draw(st.sampled_from([None, '|'])), decode=draw(st.sampled_from([None, None, True, False])), names=draw(st.booleans()), lengths=draw(st.booleans()),
              signature=draw(st.sampled_from([None, 'ask'])), temperature=draw(st.sampled_from([None, None, [0.0, 1.0, 0.4]])), defaults=draw(st.sampled_from([0, 2])), extra=draw(st.booleans()),
              calls=draw(st.lists(st.lists(st.tuples(row, texts).map(list), min_size=1, max_size=4), min_size=1, max_size=4)), warm=draw(st.one_of(st.none(), st.lists(row, min_size=1, max_size=4))), base=draw(st.booleans()),
              version=draw(st.sampled_from(['1', '20'])))


def export(c, rec):
  protos()
  kind, mode = c['kind'], c['mode']
  lengths = {'inputs': LI, 'targets': LT}
  tokenized = c['source'] == 'tokens'
  eos = c['eos'] and not tokenized
  bs = c['bs'] if c['batch'] in ('fixed', 'batching') else None
  # What stays the same for every size of batch needs no randomness in it.
  temperature = c['temperature'] if c['fn'] == 'sample' and mode == 'predict' and kind == 'encdec' and c['source'] != 'task' else None
  greedy = c['fn'] == 'sample' and temperature is None
  sep = c['sep'] if kind == 'encdec' and c['source'] == 'texts' and mode != 'predict' else None
  if c['fn'] == 'sample' and greedy:
    # Without a temperature among the inputs, 0 is the model's own.
    model = build_model(kind, 'sample', c['defaults'], 0.6)
    model._decode_fn = functools.partial(model._decode_fn, temperature=0.0)  # pylint: disable=protected-access
  else:
    model = build_model(kind, c['fn'], c['defaults'], 0.6)
  out = {k: feature(Letters(), eos) for k in lengths}
  if c['source'] == 'task':
    pre = functools.partial(export_lib.create_preprocessor_from_task, model=model, task_name=task(True, eos, False))
    input_name = 'text_batch'
  elif kind == 'encdec':
    input_name = 'question'
    pre = functools.partial(export_lib.create_preprocessor, input_tensor_name=input_name, split_separator=sep)
  else:
    input_name = 'text_batch'
    pre = functools.partial(export_lib.create_decoder_preprocessor, input_feature='inputs' if mode == 'predict' else 'targets')
  if temperature:
    pre = functools.partial(export_lib.create_preprocessor_with_decoder_params, create_preprocessor_fn=pre, decoder_params_spec=[('temperature', tf.float32, ())])
  nd = 2 if c['extra'] and mode == 'predict' and kind == 'encdec' else None
  inference = export_lib.create_inference_function
  if nd:
    inference = functools.partial(inference, model_fn_extra_kwargs={'num_decodes': nd, 'return_all_decodes': True})
  # Everything the three modes answer.
  if mode == 'custom':
    inference_mode = export_lib.CustomInferenceMode('score_batch', fetch_output=lambda o: (o[0], o[1]['decoder']['token_scores'][0]), model_fn_const_kwargs={'return_intermediates': True})
  else:
    inference_mode = mode
  decode = (not tokenized if c['decode'] is None else c['decode']) and mode == 'predict'
  n_out = {'score': 1, 'custom': 2, 'predict': 4 if decode and c['lengths'] else 2}[mode]
  names = [f'answer_{i}' for i in range(n_out)] if c['names'] else None
  post = functools.partial(export_lib.create_postprocessor, output_feature_names=names, add_token_length_to_output=c['lengths'])
  allowed = [2, 4]
  cls = export_lib.ExportableModule
  if c['batch'] == 'batching':
    cls = functools.partial(cls, use_batch_function=True, batch_timeout_micros=1000)
  elif c['batch'] == 'sizes':
    cls = functools.partial(cls, use_batch_function=True, batch_timeout_micros=1000, allowed_batch_sizes=allowed)
  d = stored(kind, c['how'])
  step = 3 if c['restore'] == 'first' else 20
  rename = c['rename'] and c['how'] != 'orbax' and kind == 'encdec'
  cfg = utils.RestoreCheckpointConfig(path=d if c['restore'] == 'latest' else os.path.join(d, f'checkpoint_{step}'), mode='latest' if c['restore'] == 'latest' else 'specific', dtype=c['dtype'])
  if rename:
    cfg.state_transformation_fns = [swap]
  params = mc.params(kind, step)
  cast = lambda t, dt: jax.tree_util.tree_map(lambda x: jnp.asarray(x).astype(dt), t)
  if c['how'] == 'bf16':
    params = cast(params, jnp.bfloat16)
  if c['dtype']:
    params = cast(params, c['dtype'])
  if rename:
    params = swapped(params)
  top = tempfile.mkdtemp(prefix='x01-')
  try:
    base = os.path.join(top, 'exported', c['version'])
    place = os.path.join(top, 'exported_cpu', c['version']) if c['base'] else base
    warm = list(c['warm']) if c['warm'] and c['source'] != 'task' else None
    if warm and tokenized:
      warm = [mc.pad(r, LI) for r in warm]
    given = list(warm) if warm else None
    kw = {'signature_name': c['signature']} if c['signature'] else {}
    what = f'{kind} {mode} ({c["fn"]}) of {c["source"]}, batch {c["batch"]}, partitioner {c["part"]}, checkpoint {c["how"]} {c["restore"]} as {c["dtype"]}'
    export_lib.save(model=model, inference_mode=inference_mode, restore_checkpoint_cfg=cfg, exportable_module_cls=cls, create_preprocessor_fn=pre, create_inference_function_fn=inference, create_postprocessor_fn=post,
                    partitioner=partitioner() if c['part'] else None, output_features=out, task_feature_lengths=lengths, batch_size=bs, output_dir=base if c['base'] else {'cpu': place}, model_name='the model', warmup_examples=given,
                    tokenized_inputs=tokenized, decode_outputs=c['decode'], **kw)
    require(os.path.exists(os.path.join(place, 'saved_model.pb')), lambda: f'{what}: no model in {place}')
    weights = tf.train.load_checkpoint(os.path.join(place, 'variables', 'variables'))
    weights = [weights.get_tensor(k) for k, t in weights.get_variable_to_dtype_map().items() if t.is_floating]
    key = lambda x: (str(x.dtype), x.shape, x.astype(np.float64).ravel().tolist())
    got, want = sorted(map(key, map(np.asarray, weights))), sorted(map(key, map(np.asarray, jax.tree_util.tree_leaves(params))))
    require(got == want, lambda: f'{what}: the exported parameters are {[x[:2] for x in got]}, those of the checkpoint {[x[:2] for x in want]}' + ('' if [x[:2] for x in got] != [x[:2] for x in want] else ' with other values'))
    loaded = tf.saved_model.load(place)
    require(list(loaded.signatures) == [c['signature'] or 'serving_default'], lambda: f'{what}: signatures {list(loaded.signatures)}')
    sig = loaded.signatures[c['signature'] or 'serving_default']
    spec = sig.structured_input_signature[1]
    require(set(spec) == {input_name} | ({'temperature'} if temperature else set()), lambda: f'{what}: inputs {list(spec)}')
    for rows in c['calls']:
      if bs:
        rows = (rows * bs)[:bs]
      if c['batch'] == 'sizes':
        rows = rows[:4]
      n = len(rows)
      if tokenized:
        x = tf.constant([mc.pad(r[0], LI) for r in rows], tf.int32)
        src, dst = [r[0] for r in rows], [[] for _ in rows]
      elif c['source'] == 'task':
        rows = [[letters(a)[:LI], [min(t, 7) for t in letters(b)][:LT]] for a, b in rows]
        x = tf.constant([tf.train.Example(features=tf.train.Features(feature={k: tf.train.Feature(int64_list=tf.train.Int64List(value=v)) for k, v in zip(('inputs', 'targets'), r)})).SerializeToString() for r in rows])
        src, dst = [r[0] for r in rows], [[t + 1 for t in r[1]] for r in rows]
      else:
        x = tf.constant([(a + sep + b if sep else a).encode() for a, b in rows])
        src, dst = [letters(a) for a, _ in rows], [letters(b) if sep else [] for _, b in rows]
      if kind == 'encdec':
        feats = encdec_features([fit(a, LI, eos) for a in src], [fit(b, LT, eos) for b in dst])
      else:
        feats = deconly_features([a + [EOS] * eos for a in src], LI + LT, mode == 'predict')
      args, dp = {input_name: x}, None
      if temperature:
        dp = {'temperature': jnp.asarray(np.resize(temperature, n).astype(np.float32))}
        args['temperature'] = tf.constant(np.resize(temperature, n).astype(np.float32))
      got = sig(**args)
      got = [np.asarray(got[k]) for k in (names or [f'output_{i}' for i in range(n_out)])] if set(got) == set(names or [f'output_{i}' for i in range(n_out)]) else require(False, f'{what}: outputs {sorted(got)}')
      if mode == 'predict':
        kw = {'decoder_params': dp} if dp else {}
        if nd:
          kw.update(num_decodes=nd, return_all_decodes=True)
        if temperature and c['batch'] in ('batching', 'sizes') and n not in allowed + [bs]:
          continue  # sampled along with the batch's padding
        toks, aux = model.predict_batch_with_aux(params, feats, **kw)
        toks, scores = np.asarray(toks), np.asarray(aux['scores'])
        if decode:
          flat = toks.reshape(-1, toks.shape[-1]).tolist()
          text = np.array([''.join(letter(i) for i in r[:first_eos(r, EOS)]).encode() for r in flat], object).reshape(toks.shape[:-1])
          want = [text, scores] + ([np.full(toks.shape[:-1], toks.shape[-1]), np.array([first_eos(r, EOS) for r in flat]).reshape(toks.shape[:-1])] if c['lengths'] else [])
        else:
          want = [toks, scores]
      else:
        s, inter = model.score_batch(params, feats, return_intermediates=True)
        want = [np.asarray(s)] + ([np.asarray(inter['decoder']['token_scores'][0])] if mode == 'custom' else [])
      low = c['dtype'] == 'bfloat16' or (c['dtype'] is None and c['how'] == 'bf16')
      tol = 0.1 if low else 2e-3
      ties = False
      for i, (g, w) in enumerate(zip(got, want)):
        require(g.shape == w.shape, lambda: f'{what}: {rows}: output {i} has shape {g.shape}, expected {w.shape}')
        if w.dtype.kind == 'f':
          ok = np.abs(g - w) <= tol * (1 + np.abs(w))
          require(ok.all(), lambda: f'{what}: {rows}: output {i} is {g.tolist()}, the model gives {w.tolist()}')
        elif not np.array_equal(g, w):
          # Two decodes about as likely.
          require(mode == 'predict' and (low or np.all(np.abs(got[1] - want[1]) <= 1e-4 * (1 + np.abs(want[1])))) , lambda: f'{what}: {rows}: output {i} is {g.tolist()}, the model gives {w.tolist()}')
          ties = True
      rec.label('near tie', ties)
      rec.nontrivial(n > 1 or c['batch'] != 'fixed')
    path = os.path.join(place, 'assets.extra', 'tf_serving_warmup_requests')
    require(os.path.exists(path) == bool(warm), f'{what}: warm-up requests: {os.path.exists(path)}, examples given: {warm}')
    if warm:
      require(given == warm, lambda: f'{what}: the list of examples changed to {given}')
      filled = warm if not bs else (warm + [[0] * LI if tokenized else ''] * bs)[:bs]
      sizes = allowed if c['batch'] == 'sizes' else [bs]
      want = [[filled[i % len(filled)] for i in range(n)] if n else filled for n in sizes]
      got = [[x.decode() if isinstance(x, bytes) else list(x) for x in q[2]['text_batch']] for q in read_requests(path)]
      require(got == want, lambda: f'{what}: warm-up requests {got}, expected {want}')
    rec.label(f'{kind} {mode}')
    rec.label('batch ' + c['batch'])
    rec.label('source ' + c['source'])
    rec.label('partitioned', c['part'])
  finally:
    shutil.rmtree(top, ignore_errors=True)


def swapped(p):
  """Each embedding under the other's name."""
  return {**p, 'enc_emb': p['decoder']['emb'], 'decoder': {**p['decoder'], 'emb': p['enc_emb']}}


def swap(state_dict, target_state_dict=None, *, is_resuming=False):
  return {**state_dict, 'target': swapped(state_dict['target'])}


SUBS = [
    Sub('preprocess', preprocess, strategy=preprocess_case(), quick=60, thorough=3000, weight=1.5),
    Sub('from-task', from_task, strategy=task_case(), quick=30, thorough=1000),
    Sub('postprocess', postprocess, strategy=postprocess_case(), quick=60, thorough=2000, weight=0.5),
    Sub('places', places, strategy=place_case(), quick=100, thorough=1000, weight=0.3),
    Sub('warm-up', warmup, strategy=warmup_case(), quick=60, thorough=2000, weight=0.5),
    Sub('export', export, strategy=export_case(), quick=12, thorough=800, timeout=400, weight=4),
]
