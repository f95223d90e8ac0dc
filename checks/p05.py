"""P05: input shards together hold every example exactly once; training input follows its seed."""
import collections
import functools
import os
import time
from unittest import mock

import hypothesis.strategies as st
import numpy as np
import seqio
import tensorflow as tf

from checks import ckpt_common as cc
from core import Skip, Sub, raises, require
from t5x import utils

BUDGET = (40, 1500)
VOCAB = seqio.PassThroughVocabulary(100000)
SPLITS = ['train', 'validation', 'test']
# A task's example i of split s has the tokens code(s, i) repeated; lengths vary with i.


def code(task, split, i):
  return 1000 * (10 * task + SPLITS.index(split) + 1) + i + 1


def lengths(i, salt):
  return 1 + (i * 7 + salt) % 4, 1 + (i * 5 + salt) % 3


def source(t, files_dir):
  if t['files']:
    patterns = {}
    for s in t['splits']:
      patterns[s] = os.path.join(files_dir, f'{t["id"]}-{s}-*')
      for k in range(t['files']):
        with open(os.path.join(files_dir, f'{t["id"]}-{s}-{k:03d}'), 'w') as f:
          for i in range(k, t['n'], t['files']):
            f.write(f'{i}\n')
    return seqio.TextLineDataSource(split_to_filepattern=patterns)
  def fn(split, shuffle_files, seed=None):
    del split, shuffle_files, seed
    return tf.data.Dataset.from_tensor_slices([str(i) for i in range(t['n'])])
  return seqio.FunctionDataSource(fn, splits=t['splits'], num_input_examples={s: t['n'] for s in t['splits']} if t['counted'] else None)


def make_task(t, split, files_dir, name, quick=False):
  def to_example(line):
    i = tf.strings.to_number(line, tf.int32)
    c = i + (code(t['id'], split, 0))
    li, lt = 1 + (i * 7 + t['salt']) % 4, 1 + (i * 5 + t['salt']) % 3
    return {'inputs': tf.fill([li], c), 'targets': tf.fill([lt], c)}
  pre = [seqio.map_over_dataset(to_example)] if not t['files'] else [seqio.map_over_dataset(lambda x: to_example(x))]
  if t['keep'] > 1:
    pre.append(functools.partial(lambda ds, k: ds.filter(lambda ex: (ex['targets'][0] % k) == 0), k=t['keep']))
  if t['keep'] < 0:
    pre.append(lambda ds: ds.filter(lambda ex: ex['targets'][0] < 0))
  feats = {'inputs': seqio.Feature(VOCAB, add_eos=False), 'targets': seqio.Feature(VOCAB, add_eos=False)}
  if quick:
    task = QuickTask(name, source=seqio.FunctionDataSource(lambda split, shuffle_files, seed=None: None, splits=t['splits']), preprocessors=[], output_features={k: seqio.Feature(VOCAB, add_eos=False) for k in ('encoder_input_tokens', 'decoder_target_tokens')})
    task.made_from = t
    return task
  return seqio.Task(name, source=source(t, files_dir), preprocessors=pre, output_features=feats)


class QuickTask(seqio.Task):
  """A task whose examples are made in advance, so that many more cases can be run than with SeqIO's own pipeline."""

  def get_dataset(self, sequence_length=None, split='train', use_cached=False, shuffle=True, shuffle_buffer_size=None, seed=None, shard_info=None, num_epochs=1, trim_output_features=True, try_in_mem_cache=True):
    t = self.made_from
    codes = kept(t, split)
    arrays = {'encoder_input_tokens': np.zeros([len(codes), sequence_length['inputs']], np.int32), 'decoder_target_tokens': np.zeros([len(codes), sequence_length['targets']], np.int32)}
    for r, x in enumerate(codes):
      for a, n in zip(arrays.values(), lengths(r, t['salt'])):
        a[r, :n] = x
    # The shards are those of the unfiltered examples, as with a real source.
    keep = np.ones([len(codes)], bool)
    if shard_info and shard_info.num_shards > 1:
      pos = np.array([x - code(t['id'], split, 0) for x in codes], int)
      keep = pos % shard_info.num_shards == shard_info.index
    ds = tf.data.Dataset.from_tensor_slices({k: a[keep] for k, a in arrays.items()})
    if num_epochs != 1:
      ds = ds.repeat(num_epochs)
    return ds.shuffle(50, seed=seed) if shuffle else ds


class Plain(seqio.FeatureConverter):
  """Passes on features that are already those of a model."""
  TASK_FEATURES = MODEL_FEATURES = PACKING_FEATURE_DTYPES = {}

  def __call__(self, ds, task_feature_lengths):
    return ds

  def _convert_features(self, ds, task_feature_lengths):
    return ds

  def get_model_feature_lengths(self, task_feature_lengths):
    return task_feature_lengths


class Registered:
  """Tasks and mixtures registered for one case and removed afterwards."""

  def __init__(self, tasks, split, mixture=None, quick=False):
    self.quick = quick
    self.tasks, self.split, self.mixture = tasks, split, mixture

  def __enter__(self):
    self.scratch = cc.Scratch()
    d = self.scratch.__enter__()
    self.names = []
    for t in self.tasks:
      name = f'p05_task{t["id"]}'
      seqio.TaskRegistry.add_provider(name, make_task(t, self.split, d, name, self.quick))
      self.names.append(name)
    if self.mixture:
      seqio.MixtureRegistry.add('p05_mix', [(n, float(r)) for n, r in zip(self.names, self.mixture)])
    return 'p05_mix' if self.mixture else self.names[0]

  def __exit__(self, *a):
    for n in self.names:
      if n in seqio.TaskRegistry.names():
        seqio.TaskRegistry.remove(n)
    if self.mixture:
      seqio.MixtureRegistry.remove('p05_mix')
    self.scratch.__exit__(*a)


def kept(t, split):
  return [code(t['id'], split, i) for i in range(t['n']) if t['keep'] == 1 or (t['keep'] > 1 and code(t['id'], split, i) % t['keep'] == 0)]


def examples(batch, pack):
  """The example codes of one batch in order; checks that each is whole."""
  out = []
  enc, dec = batch.get('encoder_input_tokens'), batch['decoder_target_tokens']
  for r in range(dec.shape[0]):
    if not pack:
      c = int(dec[r][0])
      out.append(c)
      rows = [(dec[r], 1)] if enc is None else [(dec[r], 1), (enc[r], 0)]
      for row, which in rows:
        n = int((np.asarray(row) != 0).sum())
        require(np.all(row[:n] == c) and not np.any(row[n:]), lambda: f'mixed example {row}')
    else:
      seg = batch['decoder_segment_ids'][r]
      for s in range(1, int(seg.max()) + 1):
        c = dec[r][seg == s]
        require(len(c) and len(set(c.tolist())) == 1, lambda: f'mixed packed example {c}')
        if enc is not None:
          e = enc[r][batch['encoder_segment_ids'][r] == s]
          require(len(e) and set(e.tolist()) == {int(c[0])}, lambda: f'packed inputs {e} with targets {c}')
        out.append(int(c[0]))
  return out


CONVERTERS = {'encdec': seqio.EncDecFeatureConverter, 'lm': seqio.LMFeatureConverter, 'plain': Plain}


def spec_of(kind, lens, pack):
  return {'inputs': lens[0], 'targets': lens[1]} if kind != 'lm' else {'targets': lens[1]}


def task_strategy(i):
  return st.fixed_dictionaries(dict(id=st.just(i), n=st.integers(1, 24), files=st.sampled_from([0, 0, 1, 2, 3, 5]), counted=st.booleans(), salt=st.integers(0, 5),
                                    keep=st.sampled_from([1, 1, 1, 2, 3]), splits=st.sampled_from([['train'], ['train', 'validation'], SPLITS, ['validation']])))


@st.composite
def train_case(draw):
  t = dict(draw(task_strategy(0)), splits=['train', 'validation'])
  shards = draw(st.integers(1, 5))
  return dict(task=t, split=draw(st.sampled_from(['train', 'train', 'validation'])), shards=shards, per=draw(st.integers(1, 4)), off=draw(st.sampled_from([0] * 8 + [1])),
              shuffle=draw(st.booleans()), seed=draw(st.sampled_from([0, 1, 7, 123, None])), epochs=draw(st.integers(1, 3)), pack=draw(st.sampled_from([False, False, True])),
              kind=draw(st.sampled_from(['plain'] * 9 + ['encdec', 'encdec', 'lm'])), by=draw(st.sampled_from(['name', 'name', 'object'])), lens=draw(st.sampled_from([(4, 3), (8, 6), (5, 9)])))


def train(c, rec):
  t = c['task']
  t = dict(t, files=0) if c['kind'] == 'plain' else t
  c = dict(c, pack=c['pack'] and c['kind'] != 'plain')
  with Registered([t], c['split'], quick=c['kind'] == 'plain') as name:
    bs = c['per'] * c['shards'] + (c['off'] if c['shards'] > 1 else 0)
    cfg = utils.DatasetConfig(mixture_or_task_name=seqio.get_mixture_or_task(name) if c['by'] == 'object' else name, task_feature_lengths=spec_of(c['kind'], c['lens'], c['pack']), split=c['split'],
                              batch_size=bs, shuffle=c['shuffle'], seed=c['seed'], pack=c['pack'])
    conv = CONVERTERS[c['kind']]
    def get(i, **kw):
      # Without a seed, all processes agree on the time of one of them.
      with mock.patch.object(time, 'time', return_value=1.7e9 + c['per']):
        return utils.get_dataset(cfg, i, c['shards'], conv, num_epochs=c['epochs'], **kw)
    if bs % c['shards']:
      require(raises(lambda: get(0), ValueError), f'batch size {bs} over {c["shards"]} shards is accepted')
      rec.label('refused')
      return
    require(raises(lambda: get(0, continue_from_last_checkpoint=True), ValueError), 'continuing from a checkpoint is accepted though not supported')
    shards = []
    for i in range(c['shards']):
      ds = get(i)
      batches = list(ds.as_numpy_iterator())
      for b in batches:
        for k, v in b.items():
          require(v.shape[0] == c['per'], lambda: f'{k} has {v.shape[0]} rows, expected {bs} over {c["shards"]}')  # pylint: disable=cell-var-from-loop
          require(v.shape[1] == c['lens'][0 if k.startswith('encoder') else 1], lambda: f'{k} has length {v.shape}')  # pylint: disable=cell-var-from-loop
      shards.append([examples(b, c['pack']) for b in batches])
      if c['seed'] is not None and i == 0:
        again = [examples(b, c['pack']) for b in get(i).as_numpy_iterator()]
        require(again == shards[i], lambda: f'the same seed gives {again}, then {shards[0]}')
    want = collections.Counter(kept(t, c['split']))
    total = collections.Counter()
    where = {}
    for i, s in enumerate(shards):
      for x in (x for b in s for x in b):
        total[x] += 1
        moves = t['files'] and c['shuffle'] and c['epochs'] > 1  # SeqIO orders the files anew for every epoch
        require(where.setdefault(x, i) == i or moves, f'example {x} is in shards {where[x]} and {i}')
    bad = [x for x in total if x not in want or total[x] > c['epochs']]
    require(not bad, lambda: f'{total} after {c["epochs"]} epochs of {sorted(want)}')
    # Only an incomplete last batch may be missing.
    per_shard = collections.Counter(where.values())
    missing = sum(c['epochs'] - total[x] for x in want)
    if c['shards'] == 1:
      if not c['pack']:
        require(missing < c['per'] and missing == len(want) * c['epochs'] % c['per'], lambda: f'{missing} of {len(want)} examples times {c["epochs"]} missing in batches of {c["per"]}')
    elif not c['pack']:
      require(missing <= c['shards'] * (c['per'] - 1), lambda: f'{missing} of {len(want)} x {c["epochs"]} examples missing in {c["shards"]} shards of batches of {c["per"]}')
    if c['per'] == 1 and not c['pack']:
      require(missing == 0, lambda: f'{missing} examples missing')
    if not c['shuffle'] and not c['pack'] and not t['files']:
      order = [code(t['id'], c['split'], i) for i in range(t['n'])]
      for i, s in enumerate(shards):
        mine = [x for x in order[i::c['shards']] if x in want] * c['epochs']
        got = [x for b in s for x in b]
        require(got == mine[:len(mine) // c['per'] * c['per']], lambda: f'shard {i} holds {got}, expected {mine}')  # pylint: disable=cell-var-from-loop
  rec.nontrivial(c['shards'] > 1 and len(want) > 1)
  rec.label('dropped remainder', missing)
  rec.label('sharded files', t['files'] >= c['shards'] > 1)
  rec.label('more shards than files', t['files'] and t['files'] < c['shards'])
  rec.label('empty shard', len(per_shard) < c['shards'])
  rec.label('packed', c['pack'])
  rec.label('SeqIO pipeline', c['kind'] != 'plain')


@st.composite
def eval_case(draw):
  n = draw(st.integers(1, 3))
  tasks = [draw(task_strategy(i)) for i in range(n)]
  for t in tasks:
    if draw(st.integers(0, 9)) == 0:
      t['keep'] = -1
  shards = draw(st.sampled_from([1, 1, 2, 3, 4]))
  return dict(tasks=tasks, mixture=draw(st.lists(st.integers(1, 3), min_size=n, max_size=n)) if n > 1 or draw(st.booleans()) else None, split=draw(st.sampled_from(SPLITS)),
              shards=shards, per=draw(st.integers(1, 3)), off=draw(st.sampled_from([0] * 8 + [1])), steps=draw(st.integers(1, 4)), shuffle=draw(st.booleans()), seed=draw(st.integers(0, 99)),
              memory=draw(st.booleans()), kind=draw(st.sampled_from(['plain'] * 9 + ['encdec', 'encdec', 'lm'])), by=draw(st.sampled_from(['name', 'name', 'object', 'unregistered'])), pack=draw(st.sampled_from([False] * 4 + [True])))


def evals(c, rec):
  tasks = c['tasks']
  lens = (6, 5)
  c = dict(c, pack=c['pack'] and c['kind'] != 'plain')
  with Registered(tasks, c['split'], c['mixture'], c['kind'] == 'plain') as name:
    provider = name if c['by'] == 'name' else seqio.get_mixture_or_task(name)
    if c['by'] == 'unregistered' and not c['mixture']:
      seqio.TaskRegistry.remove(name)
    bs = c['per'] * c['shards'] + (c['off'] if c['shards'] > 1 else 0)
    cfg = utils.DatasetConfig(mixture_or_task_name=provider, task_feature_lengths=spec_of(c['kind'], lens, c['pack']), split=c['split'],
                              batch_size=bs, shuffle=c['shuffle'], seed=c['seed'], pack=c['pack'], use_memory_cache=c['memory'])
    get = lambda i, n, b: utils.get_training_eval_datasets(utils.dataclasses.replace(cfg, batch_size=b), i, n, c['steps'], CONVERTERS[c['kind']])
    if bs % c['shards']:
      require(raises(lambda: get(0, c['shards'], bs), ValueError), f'batch size {bs} over {c["shards"]} shards is accepted')
      rec.label('refused')
      return
    have = [t for t in tasks if c['split'] in t['splits']]
    if c['mixture'] and (len(have) < len(tasks) or any(not kept(t, c['split']) for t in tasks)):
      # A mixture of a task without the split, or without examples, is refused by SeqIO or depends on its sampling.
      raise Skip()
    want_names = [f'p05_task{t["id"]}' for t in have] + (['p05_mix'] if c['mixture'] else [])
    per_shard = [get(i, c['shards'], bs) for i in range(c['shards'])]
    whole = get(0, 1, bs) if c['shards'] > 1 else None
    for i, got in enumerate(per_shard):
      require(sorted(got) == sorted(want_names), lambda: f'datasets {sorted(got)}, expected {sorted(want_names)}')  # pylint: disable=cell-var-from-loop
    for nm in want_names:
      streams = []
      for got in per_shard:
        bl = []
        for b in got[nm].as_numpy_iterator():
          for k, v in b.items():
            require(v.shape == (c['per'], lens[0 if k.startswith('encoder') else 1]), lambda: f'{nm}: {k} has shape {v.shape}')  # pylint: disable=cell-var-from-loop
          bl.append([examples({k: v[r:r + 1] for k, v in b.items()}, c['pack']) for r in range(c['per'])])
        again = [[examples({k: v[r:r + 1] for k, v in b.items()}, c['pack']) for r in range(c['per'])] for b in got[nm].as_numpy_iterator()]
        if c['memory'] or not c['shuffle']:
          require(bl == again, lambda: f'{nm}: the second evaluation sees {again}, the first {bl}')  # pylint: disable=cell-var-from-loop
        streams.append([x for b in bl for x in b])
      ks = [kept(t, c['split']) for t in have if nm == 'p05_mix' or nm == f'p05_task{t["id"]}']
      allowed = [x for k in ks for x in k]
      n = c['per'] * c['steps']
      if not allowed:
        require(not any(streams), f'{nm} has no examples but yields {streams}')
        rec.label('nothing kept')
        continue
      require(all(len(s) == n for s in streams), lambda: f'{nm}: {[len(s) for s in streams]} rows per shard, expected {c["steps"]} batches of {c["per"]}')  # pylint: disable=cell-var-from-loop
      # Row j of the evaluation is on shard j % shards.
      inter = [streams[j % c['shards']][j // c['shards']] for j in range(n * c['shards'])]
      flat = [x for row in inter for x in row]
      require(set(flat) <= set(allowed), lambda: f'{nm} yields {sorted(set(flat) - set(allowed))}')  # pylint: disable=cell-var-from-loop
      if whole is not None:
        one = [examples({k: v[r:r + 1] for k, v in b.items()}, c['pack']) for b in whole[nm].as_numpy_iterator() for r in range(bs)]
        require(inter == one, lambda: f'{nm}: {c["shards"]} shards evaluate {inter}, one evaluates {one}')  # pylint: disable=cell-var-from-loop
      if nm != 'p05_mix' and not c['pack']:
        m = len(allowed)
        count = collections.Counter(flat)
        lo, hi = len(flat) // m, -(-len(flat) // m)
        if not c['shuffle']:
          # Every pass over the task holds each example once.
          for p in range(0, len(flat), m):
            part = flat[p:p + m]
            require(len(set(part)) == len(part), lambda: f'{nm}: a pass holds {part}')  # pylint: disable=cell-var-from-loop
          require(all(lo <= count[x] <= hi for x in allowed), lambda: f'{nm}: {count}')  # pylint: disable=cell-var-from-loop
  rec.nontrivial(c['shards'] > 1 or len(tasks) > 1)
  rec.label('task outside the registry', c['by'] == 'unregistered' and not c['mixture'])
  rec.label('mixture', c['mixture'])
  rec.label('skipped task', len(have) < len(tasks))
  rec.label('repeated', any(len(kept(t, c['split'])) < bs * c['steps'] for t in have))


# ---------------------------------------------------------------- vocabularies
VOCABS = {'p5': lambda: seqio.PassThroughVocabulary(5), 'p9': lambda: seqio.PassThroughVocabulary(9), 'b': seqio.ByteVocabulary, 'b3': lambda: seqio.ByteVocabulary(extra_ids=3)}
VNAMES = list(VOCABS)


@st.composite
def vocab_case(draw):
  return dict(feats=draw(st.dictionaries(st.sampled_from(['inputs', 'targets', 'other', 'more']), st.sampled_from(VNAMES), min_size=1, max_size=4)).copy(),
              model=[draw(st.sampled_from(VNAMES)), draw(st.sampled_from(VNAMES))], same=draw(st.booleans()), by=draw(st.sampled_from(['name', 'object'])), size=draw(st.integers(1, 5000)), div=draw(st.integers(1, 300)))


def vocab(c, rec):
  class Sized(seqio.PassThroughVocabulary):
    pass
  n = utils.round_vocab_size_to_multiple(Sized(c['size']), c['div'])
  require(n % c['div'] == 0 and c['size'] <= n < c['size'] + c['div'], f'vocabulary of {c["size"]} rounded to {n} for {c["div"]}')
  require(utils.round_vocab_size_to_multiple(Sized(c['size'])) == -(-c['size'] // 128) * 128, 'default multiple')
  v = {k: VOCABS[x]() for k, x in c['feats'].items()}
  feats = {k: seqio.Feature(x, add_eos=False) for k, x in v.items()}
  name = 'p05_vocab'
  task = seqio.Task(name, source=seqio.FunctionDataSource(lambda split, shuffle_files, seed=None: None, splits=['train']), preprocessors=[], output_features=feats)
  if 'inputs' in c['feats'] and 'targets' in c['feats']:
    want = [c['feats']['inputs'], c['feats']['targets']]
  else:
    real = [x for x in c['feats'].values() if not x.startswith('p')] or list(c['feats'].values())
    want = [real[0]] * 2 if len(set(real)) == 1 else None
  class Model:
    pass
  m = Model()
  pair = want if c['same'] and want else c['model']
  m.input_vocabulary, m.output_vocabulary = VOCABS[pair[0]](), VOCABS[pair[1]]()
  seqio.TaskRegistry.add_provider(name, task)
  try:
    cfg = utils.DatasetConfig(mixture_or_task_name=name if c['by'] == 'name' else task, task_feature_lengths={}, split='train', batch_size=1, shuffle=False, seed=0)
    if want is None:
      require(raises(lambda: utils.get_vocabulary(cfg), ValueError), lambda: f'{c["feats"]} accepted')
      require(raises(lambda: utils.verify_matching_vocabs(cfg, m), ValueError), lambda: f'{c["feats"]} accepted')
    else:
      got = utils.get_vocabulary(cfg)
      require(tuple(got) == tuple(VOCABS[x]() for x in want), lambda: f'vocabularies {got} of {c["feats"]}, expected {want}')
      ok = not raises(lambda: utils.verify_matching_vocabs(cfg, m), ValueError)
      require(ok == (pair == want), lambda: f'model {pair}, task {want}: accepted is {ok}')
  finally:
    seqio.TaskRegistry.remove(name)
  rec.nontrivial(len(c['feats']) > 1)
  rec.label('ambiguous', want is None)


# ---------------------------------------------------------------- empty batches
@st.composite
def zeros_case(draw):
  return dict(feats=draw(st.dictionaries(st.sampled_from('abc'), st.tuples(st.lists(st.integers(1, 4), max_size=2), st.sampled_from(['int32', 'float32', 'bool', 'uint8'])).map(list), min_size=1, max_size=3)),
              n=draw(st.integers(1, 9)), per=draw(st.integers(1, 4)), drop=draw(st.booleans()), bs=draw(st.sampled_from([None, 1, 3, 8])))


def zeros(c, rec):
  data = {k: np.ones([c['n'], *s], d) for k, (s, d) in c['feats'].items()}
  ds = tf.data.Dataset.from_tensor_slices(data).batch(c['per'], drop_remainder=c['drop'])
  if not c['drop'] and c['bs'] is None:
    raise Skip()
  got = utils.get_zeros_batch_like_dataset(ds, batch_size=c['bs'])
  require(set(got) == set(data), 'other features')
  for k, (s, d) in c['feats'].items():
    require(got[k].shape == (c['bs'] or c['per'], *s) and got[k].dtype == np.dtype(d) and not np.any(np.asarray(got[k])), lambda: f'{k}: {got[k]}')  # pylint: disable=cell-var-from-loop
  rec.nontrivial(c['bs'] not in (None, c['per']))


SUBS = [
    Sub('train', train, strategy=train_case(), quick=600, thorough=20000, weight=4),
    Sub('evals', evals, strategy=eval_case(), quick=300, thorough=10000, weight=4),
    Sub('vocab', vocab, strategy=vocab_case(), quick=2000, thorough=30000),
    Sub('zeros', zeros, strategy=zeros_case(), quick=400, thorough=6000),
]
