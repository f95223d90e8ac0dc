"""C09: importing legacy TensorFlow checkpoints places every weight and slot unchanged; lazy arrays are the arrays."""
import asyncio
import os
import shutil
import tempfile

import flax
import flax.linen.partitioning as flax_partitioning
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import ml_dtypes
import numpy as np
import tensorflow as tf
import tensorstore

from checks import ckpt_common as cc
from checks import state_common as sc
from core import Skip, Sub, require
from t5x import adafactor, checkpoint_importer as imp, checkpoints, train_state as train_state_lib, utils

BUDGET = (40, 1500)
DIMS = [1, 2, 3, 4, 6, 8]


def layout(c):
  """[(name in the TensorFlow checkpoint, path in the model, shape)]."""
  d, f, a, v = c['dims']
  out = []

  def add(tf_name, path, *shape):
    out.append((tf_name, path, shape))
  towers = [('encoder', 'encoder', c['enc']), ('decoder', 'decoder', c['dec'])] if c['family'] == 'encdec' else [('transformer', 'decoder', c['dec'])]
  if c['family'] == 'encdec' and c['tied'] or c['family'] == 'lm' and c['tied']:
    add('shared/embedding', 'token_embedder/embedding', v, d)
  else:
    for t, m, _ in towers:
      add(f'{t}/embedding', f'{m}/token_embedder/embedding', v, d)
  for t, m, n in towers:
    for i in range(n):
      subs = [('SelfAttention', 'attention' if t == 'encoder' else 'self_attention')]
      if t == 'decoder':
        subs.append(('EncDecAttention', 'encoder_decoder_attention'))
      for j, (s, target) in enumerate(subs):
        for q, kernel in zip('qkvo', ['query', 'key', 'value', 'out']):
          add(f'{t}/block_{i:03}/layer_{j:03}/{s}/{q}', f'{m}/layers_{i}/{target}/{kernel}/kernel', *((a, d) if q == 'o' else (d, a)))
      j = len(subs)
      for w in (['wi_0', 'wi_1', 'wo'] if c['gated'] else ['wi', 'wo']):
        add(f'{t}/block_{i:03}/layer_{j:03}/DenseReluDense/{w}/kernel', f'{m}/layers_{i}/mlp/{w}/kernel', *((f, d) if w == 'wo' else (d, f)))
      norms = {'encoder': ['pre_attention', 'pre_mlp'], 'decoder': ['pre_self_attention', 'pre_cross_attention', 'pre_mlp'], 'transformer': ['pre_self_attention', 'pre_mlp']}[t]
      for j, x in enumerate(norms):
        add(f'{t}/block_{i:03}/layer_{j:03}/{c["norm"]}/scale', f'{m}/layers_{i}/{x}_layer_norm/scale', d)
      if i == 0 or c['relpos'] == 'layer':
        add(f'{t}/block_{i:03}/layer_000/SelfAttention/relative_attention_bias', f'{m}/layers_{i}/relpos_bias/rel_embedding' if c['relpos'] == 'layer' else f'{m}/relpos_bias/rel_embedding', 2, c['buckets'])
    add(f'{t}/{c["final"]}/scale', f'{m}/{m}_norm/scale', d)
  if c['logits']:
    add(f'{towers[-1][0]}/logits/kernel', 'decoder/logits_dense/kernel', d, v)
  return out


def build(c, rng):
  """(TensorFlow variables, the flat state they stand for, the model state to load into)."""
  names = layout(c)
  params = [(p.split('/'), np.zeros(s, np.float32)) for _, p, s in names]
  axes = [(p.split('/')[:-1] + [p.split('/')[-1] + '_axes'], flax_partitioning.AxisMetadata(names=(None,) * len(s))) for _, p, s in names]
  v = flax.core.freeze({'params': sc.nest(params), 'params_axes': sc.nest(axes)})
  if c['optimizer']:
    state = train_state_lib.FlaxOptimTrainState.create(adafactor.Adafactor(0.1, min_dim_size_to_factor=c['factor']), v)
  else:
    state = train_state_lib.InferenceState.create(v)
  state = state.restore_state(jax.tree_util.tree_map(lambda x: np.asarray(x, np.int32) if isinstance(x, int) else x, state.state_dict()))
  spec = {k: (tuple(x.shape), np.asarray(x).dtype) for k, x in sc.flat(state.state_dict()).items()}
  variables, want = {}, {}

  def value(shape, weight=False):
    x = sc.values(rng, shape, 'float32', c['specials'])
    return x.astype(ml_dtypes.bfloat16) if weight and c['bf16'] and rng.random() < 0.5 else x
  for tf_name, path, shape in names:
    want['target/' + path] = variables[tf_name] = value(shape, True)
    if not c['optimizer'] and not c['slots']:
      continue
    prefix = f'state/param_states/{path}/'
    if c['optimizer']:
      factored = spec[prefix + 'v_row'][0] != (1,) or spec[prefix + 'v'][0] == (1,) and shape != (1,)
      for slot in ('m', 'v', 'v_row', 'v_col'):
        want[prefix + slot] = np.zeros((1,), np.float32)
      for short, slot in ([('_slot_vr', 'v_row'), ('_slot_vc', 'v_col')] if factored else [('_slot_v', 'v')]):
        want[prefix + slot] = variables[tf_name + short] = value(spec[prefix + slot][0])
    else:
      variables[tf_name + '_slot_v'] = value(shape)
  variables['global_step'] = np.asarray(c['step'], np.int64)
  want['state/step'] = np.asarray(c['step'], np.int32)
  require(set(want) == set(spec), lambda: f'harness: {sorted(set(want) ^ set(spec))}')
  return variables, want, state


def write(path, variables):
  names = sorted(variables)
  tf.raw_ops.SaveV2(prefix=path, tensor_names=names, shape_and_slices=[''] * len(names), tensors=[tf.constant(variables[n]) for n in names])
  tf.compat.v1.train.update_checkpoint_state(os.path.dirname(path), path, [path])


def load(c, state, path, d):
  """The flat state that an entry point gives, and a check of its partitioning."""
  p = sc.make_partitioner(1)
  spec = cc.abstract(state)
  strict = c['strict']
  if c['entry'] == 'function':
    return sc.flat(imp.restore_from_t5_checkpoint(spec.state_dict(), path, strict=strict))
  if c['entry'] == 'lazy':
    flat = sc.flat(imp.restore_from_t5_checkpoint(spec.state_dict(), path, lazy_parameters=True, strict=strict))
    for k, x in flat.items():
      if isinstance(x, imp.LazyArray):
        v = asyncio.run(x.get_async())
        require(v.shape == x.shape and v.dtype == x.dtype and np.asarray(x.get()).tobytes() == np.asarray(v).tobytes() and x.nbytes == v.nbytes, lambda: f'lazy {k}: {x} gives {v.shape} {v.dtype}')
    return {k: x.get() if isinstance(x, imp.LazyArray) else x for k, x in flat.items()}
  if c['entry'] == 'classic':
    return sc.flat(checkpoints.Checkpointer(spec, p, d, restore_dtype=c['dtype'] and jnp.dtype(c['dtype'])).restore_from_tf_checkpoint(path, strict=strict).state_dict())
  if c['entry'] == 'orbax':
    m = checkpoints.OrbaxCheckpointManagerInterface(d, spec, p, restore_dtype=c['dtype'] and jnp.dtype(c['dtype']))
    return sc.flat(m.restore_from_tf_checkpoint(path, strict=strict).state_dict())
  if c['entry'] == 'convert':
    ck = checkpoints.Checkpointer(spec, p, d)
    ck.convert_from_tf_checkpoint(path, concurrent_gb=1)
    require(list(ck.all_steps()) == [c['step']], lambda: f'converted steps {ck.all_steps()}')
    return sc.flat(ck.restore(step=c['step']).state_dict())
  cfg = utils.RestoreCheckpointConfig(path=path, mode='specific', strict=strict, dtype=c['dtype'])
  m = utils.LegacyCheckpointManager(save_cfg=None, restore_cfg=cfg, train_state_shape=spec, partitioner=p)
  return sc.flat(m.restore([path], cfg).state_dict())


def imports(c, rec):
  rng = np.random.default_rng(c['seed'])
  variables, want, state = build(c, rng)
  d = tempfile.mkdtemp(prefix='c09-')
  edit = c['edit']
  strict = c['strict'] or c['entry'] == 'convert'
  try:
    keys = sorted(variables)
    pick = keys[int(c['pick'] * len(keys))]
    refuse = False
    if edit == 'missing':
      refuse = pick != 'global_step' or True
      if not c['optimizer'] and '_slot_' in pick:
        refuse = False
      del variables[pick]
    elif edit == 'shape':
      if pick == 'global_step':
        raise Skip()
      x = variables[pick]
      variables[pick] = np.zeros([*x.shape[:-1], x.shape[-1] + 1], x.dtype) if c['seed'] % 2 else np.zeros([1, *x.shape], x.dtype)
      refuse = c['optimizer'] or '_slot_' not in pick
    elif edit == 'extra':
      t = 'encoder' if c['family'] == 'encdec' else 'transformer'
      n = c['enc'] if t == 'encoder' else c['dec']
      variables[f'{t}/block_{n:03}/layer_000/SelfAttention/q'] = np.zeros([2, 2], np.float32)
      refuse = strict
    elif edit == 'unknown':
      variables[['Adam/beta', 'encoder/block_000/layer_000/SelfAttention/z', 'xshared/embedding/y', 'decoder/block_0x0/layer_000/SelfAttention/q'][c['seed'] % 4]] = np.zeros([2], np.float32)
      refuse = True
    if not c['optimizer'] and strict:
      # The importer adds placeholder slots, which such a model has no place for.
      raise Skip()
    src = os.path.join(d, 'tf ckpt')
    os.makedirs(src)
    prefix = os.path.join(src, 'model.ckpt-' + str(c['step']))
    write(prefix, variables)
    dst = os.path.join(d, 'dst')
    os.makedirs(dst)
    path = prefix if c['by_prefix'] or c['entry'] == 'manager' else src
    try:
      got = load(c, state, path, dst)
    except Exception as e:  # pylint: disable=broad-except
      require(refuse, lambda: f'{c["entry"]}: import failed: {type(e).__name__}: {e}')
      rec.label('refused: ' + edit)
      rec.nontrivial(edit != 'unknown')
      return
    require(not refuse, lambda: f'{c["entry"]}, strict={strict}: {edit} ({pick}) was not noticed')
    if c['dtype'] and c['entry'] in ('classic', 'orbax', 'manager'):
      want = {k: v.astype(c['dtype'] if k.startswith('target/') else v.dtype) for k, v in want.items()}
    if c['entry'] == 'convert':  # Saved in the type of the model's arrays, which holds every value.
      want = {k: v.astype(np.float32) if v.dtype == ml_dtypes.bfloat16 else v for k, v in want.items()}
    cc.compare(got, want, c['entry'])
    rec.nontrivial(len(want) > 3)
    rec.label(c['entry'])
    rec.label('ignored: ' + edit, edit != 'none')
  finally:
    shutil.rmtree(d, ignore_errors=True)


@st.composite
def cases(draw):
  relpos = draw(st.sampled_from(['shared', 'layer']))
  family = draw(st.sampled_from(['encdec', 'encdec', 'lm']))
  enc, dec = draw(st.sampled_from([1, 2, 3])), draw(st.sampled_from([1, 2, 3]))
  if draw(st.integers(0, 15)) == 0:
    dec = draw(st.sampled_from([10, 11, 12]))
  if relpos == 'layer' and max(dec, enc if family == 'encdec' else 0) == 1:
    dec = 2
  optimizer = draw(st.booleans())
  entry = draw(st.sampled_from(['function', 'lazy', 'classic', 'orbax', 'convert', 'manager']))
  return dict(family=family, enc=enc, dec=dec, dims=[draw(st.sampled_from(DIMS)) for _ in range(4)], buckets=draw(st.sampled_from([1, 4, 5])), tied=draw(st.booleans()), gated=draw(st.booleans()), relpos=relpos,
              norm=draw(st.sampled_from(['layer_norm', 'rms_norm'])), final=draw(st.sampled_from(['final_layer_norm', 'rms_norm'])), logits=draw(st.booleans()), optimizer=optimizer,
              slots=not optimizer and draw(st.sampled_from([True, False])), factor=draw(st.sampled_from([2, 4, 128])), step=draw(st.sampled_from([0, 1, 1000, 999999, 2**31 - 1])),
              bf16=draw(st.booleans()), specials=draw(st.booleans()), strict=draw(st.booleans()), dtype=draw(st.sampled_from([None, None, 'float32', 'bfloat16'])), by_prefix=draw(st.booleans()),
              entry=entry, edit=draw(st.sampled_from(['none', 'none', 'none', 'missing', 'shape', 'extra', 'unknown'])), pick=draw(st.floats(0, 0.999)), seed=draw(st.integers(0, 10**6)))


# -- lazy arrays
def lazy(c, rec):
  rng = np.random.default_rng(c['seed'])
  x = sc.values(rng, c['shape'], c['dtype'], c['specials'])
  calls = []
  if c['kind'] == 'thread':
    def get():
      calls.append(1)
      return x
    a = imp.LazyThreadPoolArray(c['shape'], x.dtype, get)
  else:
    async def aget():
      calls.append(1)
      return x
    if c['kind'] == 'array':
      a = imp.LazyAwaitableArray.from_tensor_store_spec_or_array(x, aget, dtype=c['cast'])
    elif c['kind'] == 'spec':
      meta = {'shape': list(c['shape']), 'chunks': [max(1, s) for s in c['shape']], 'dtype': {'bfloat16': 'bfloat16', 'bool': '|b1', 'uint8': '|u1'}.get(c['dtype'], '<' + x.dtype.str[1:] if c['dtype'] != 'bfloat16' else '')}
      spec = tensorstore.Spec({'driver': 'zarr', 'kvstore': {'driver': 'memory'}, 'metadata': meta, 'dtype': c['dtype']})
      a = imp.LazyAwaitableArray.from_tensor_store_spec_or_array(spec, aget, dtype=c['cast'])
    else:
      a = imp.LazyAwaitableArray(c['shape'], x.dtype, aget)
  dtype = jnp.dtype(c['cast']) if c['cast'] and c['kind'] in ('array', 'spec') else x.dtype
  for t in c['casts']:
    b = a
    a = a.astype(np.dtype(jnp.dtype(t)))
    require(b.dtype == dtype, 'astype changed the array it was called on')
    dtype = jnp.dtype(t)
  require(tuple(a.shape) == tuple(c['shape']) and a.dtype == dtype and a.nbytes == x.size * dtype.itemsize, lambda: f'{a}: shape {a.shape} dtype {a.dtype} nbytes {a.nbytes}, expected {x.shape} {dtype}')
  require(not calls, 'the array was read before it was needed')
  # A cast is applied to what is read, however often it was announced.
  want = np.asarray(x).astype(dtype)
  for got in (a.get(), asyncio.run(a.get_async()), a.get()):
    require(got.dtype == want.dtype and got.shape == want.shape and np.asarray(got).tobytes() == want.tobytes(), lambda: f'{a} gives {got}, expected {want}')
  rec.nontrivial(bool(c['casts'] or c['cast']))


@st.composite
def lazy_cases(draw):
  dts = ['float32', 'bfloat16', 'float16', 'int32', 'uint8', 'bool']
  return dict(kind=draw(st.sampled_from(['thread', 'await', 'array', 'spec'])), shape=draw(st.lists(st.sampled_from([0, 1, 2, 3]), max_size=3)), dtype=draw(st.sampled_from(dts)),
              cast=draw(st.sampled_from([None, 'float32', 'bfloat16'])), casts=draw(st.lists(st.sampled_from(dts[:4]), max_size=2)), specials=False, seed=draw(st.integers(0, 10**6)))


# -- the rule table
def translator(c, rec):
  t = imp.CheckpointTranslator()
  rules = c['rules']
  for i, r in enumerate(rules):
    pat = {'exact': r['a'], 'prefix': r['a'] + r'/(.+)', 'number': r['a'] + r'_(\d+)/(\w+)', 'either': f'({r["a"]}|{r["b"]})/{r["b"]}'}[r['kind']]

    @t.add(pat)
    def fn(opts, key, val, *groups, i=i, r=r):
      if r['drop']:
        return None, None
      return f'{i}:' + '|'.join(groups) + opts.get('suffix', '') + '<' + key, (val, i)
  del fn

  def apply(key):
    parts = key.split('/')
    for i, r in enumerate(rules):
      if r['kind'] == 'exact' and key == r['a']:
        return i, []
      if r['kind'] == 'prefix' and len(parts) > 1 and parts[0] == r['a'] and '/'.join(parts[1:]):
        return i, ['/'.join(parts[1:])]
      if r['kind'] == 'number' and len(parts) == 2 and parts[0].startswith(r['a'] + '_') and parts[0][len(r['a']) + 1:].isdigit() and parts[1]:
        return i, [parts[0][len(r['a']) + 1:], parts[1]]
      if r['kind'] == 'either' and len(parts) == 2 and parts[1] == r['b'] and parts[0] in (r['a'], r['b']):
        return i, [parts[0]]
    return None
  data = {k: j for j, k in enumerate(c['keys'])}
  opts = {'suffix': '!'} if c['opts'] else {}
  hits = {k: apply(k) for k in data}
  try:
    got = t.apply(dict(data), **opts)
  except ValueError:
    require(any(h is None for h in hits.values()), lambda: f'{data} was refused though every name has a rule')
    rec.label('unmapped')
    return
  require(all(hits.values()), lambda: f'unmapped names went unnoticed: {[k for k in hits if not hits[k]]}')
  want = {f'{i}:' + '|'.join(g) + opts.get('suffix', '') + '<' + k: (data[k], i) for k, (i, g) in hits.items() if not rules[i]['drop']}
  require(got == want, lambda: f'{got}, expected {want}')
  rec.nontrivial(len(rules) > 1 and len(data) > 1)


@st.composite
def translator_cases(draw):
  w = st.sampled_from(['a', 'b', 'enc', 'x'])
  rules = draw(st.lists(st.fixed_dictionaries(dict(kind=st.sampled_from(['exact', 'prefix', 'number', 'either']), a=w, b=w, drop=st.sampled_from([False, False, True]))), min_size=1, max_size=5))
  keys = draw(st.lists(st.one_of(w, st.tuples(w, w).map('/'.join), st.tuples(w, st.integers(0, 12), w).map(lambda t: f'{t[0]}_{t[1]:03}/{t[2]}'), st.tuples(w, w, w).map('/'.join)), max_size=4, unique=True))
  return dict(rules=rules, keys=keys, opts=draw(st.booleans()))


SUBS = [Sub('translator', translator, strategy=translator_cases(), quick=200, thorough=4000, weight=0.4),
        Sub('lazy', lazy, strategy=lazy_cases(), quick=150, thorough=3000, weight=0.6),
        Sub('imports', imports, strategy=cases(), quick=60, thorough=3000, timeout=300, weight=3)]
