"""C01: a saved checkpoint restores to exactly the saved training state."""
import os

import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from jax.sharding import NamedSharding, PartitionSpec

from checks import ckpt_common as cc
from checks import state_common as sc
from core import Skip, Sub, require
from t5x import checkpoint_importer, checkpoints

BUDGET = (28, 1200)
DT = [None, None, 'float32', 'bfloat16', 'float16']


@st.composite
def case(draw):
  return dict(state=draw(sc.state_case()), n_save=draw(st.sampled_from([1, 2, 4, 8])), n_load=draw(st.sampled_from([1, 2, 4, 8])),
              rules=draw(st.sampled_from(['1d', '2d'])),
              placed=draw(st.sampled_from(['sharded', 'numpy', 'single', 'lazy'])),
              spec_from=draw(st.sampled_from(['state', 'abstract'])),
              save_dtype=draw(st.sampled_from(DT)), restore_dtype=draw(st.sampled_from(DT)),
              step=draw(st.one_of(st.integers(0, 3), st.integers(0, 2**31 - 1))),
              how=draw(st.sampled_from(['latest', 'step', 'dir', 'file', 'moved'])),
              loader=draw(st.sampled_from(['devices', 'host', 'lazy'])),
              gb=draw(st.sampled_from([128, 128, 1, 1e-6, 3e-8])))


def build(c):
  """Returns (case, state with arbitrary contents)."""
  sd = dict(c['state'])
  for f in ('params', 'mut'):
    sd[f] = sc.pad_shapes(sd[f], 8, 8 if c['rules'] == '2d' else 1)
    if c['rules'] == '2d':
      sd[f] = [dict(p, shape=[min(s, 8) for s in p['shape']]) for p in sd[f]]
  if not sd['params']:
    raise Skip()
  rng = np.random.default_rng(sd['seed'])
  s = sc.fill(sc.make_state(sd, rng), rng, sd['specials'])
  return sd, s.replace_step(np.int32(c['step'])), rng


def lazify(state):
  def f(x):
    if isinstance(x, np.ndarray) and x.ndim:
      return checkpoint_importer.LazyThreadPoolArray(x.shape, x.dtype, lambda: x)
    return x
  return state.restore_state(jax.tree_util.tree_map(f, state.state_dict()))


def check(c, rec):
  sd, s, rng = build(c)
  want_raw = cc.snapshot(s)
  p1 = sc.make_partitioner(c['n_save'], rules=c['rules'])
  given = s
  if c['placed'] == 'sharded':
    given = sc.place(s, p1)
  elif c['placed'] == 'single':
    given = s.restore_state(jax.tree_util.tree_map(jnp.asarray, s.state_dict()))
  spec = given if c['spec_from'] == 'state' and c['placed'] != 'lazy' else cc.abstract(s)
  if c['placed'] == 'lazy':
    given = lazify(s)
  with cc.Scratch() as d:
    ck = checkpoints.Checkpointer(spec, p1, d, save_dtype=c['save_dtype'] and jnp.dtype(c['save_dtype']))
    ck.save(given, concurrent_gb=c['gb'])
    if c['placed'] != 'lazy':
      cc.compare(cc.snapshot(given), want_raw, 'saving changed the state in memory')
    path = os.path.join(d, f"checkpoint_{c['step']}")
    require(os.path.isdir(path) and os.listdir(d) == [os.path.basename(path)], lambda: f'after save: {os.listdir(d)}')
    require(list(checkpoints.all_steps(d)) == [c['step']], 'the saved step is not listed')
    # Saving the same step again changes nothing.
    other = s.restore_state(jax.tree_util.tree_map(lambda x: x if x.ndim == 0 else x * 0, s.state_dict())).replace_step(np.int32(c['step']))
    ck.save(other)
    root = d
    if c['how'] == 'moved':
      root = os.path.join(d, 'elsewhere')
      os.makedirs(root)
      os.rename(path, os.path.join(root, os.path.basename(path)))
      path = os.path.join(root, os.path.basename(path))
    want = cc.expected(want_raw, c['save_dtype'], c['restore_dtype'])
    # The same format read by two readers.
    p2 = sc.make_partitioner(c['n_load'], params_on_devices=c['loader'] == 'devices', rules=c['rules'])
    fresh = cc.abstract(s) if c['loader'] != 'devices' or sd['seed'] % 2 else sc.fill(s, rng)
    rd = c['restore_dtype'] and jnp.dtype(c['restore_dtype'])
    ck2 = checkpoints.Checkpointer(fresh, p2, root, restore_dtype=rd)
    kw = dict(latest={}, step=dict(step=c['step']), dir=dict(path=path), file=dict(path=os.path.join(path, 'checkpoint')), moved={})[c['how']]
    r = ck2.restore(lazy_parameters=c['loader'] == 'lazy', **kw)
    got = sc.flat(r.state_dict())
    if c['loader'] == 'lazy':
      for k, v in got.items():
        if sc.is_array(want[k]):
          require(tuple(v.shape) == want[k].shape and v.dtype == want[k].dtype, lambda: f'lazy {k}: {v.shape} {v.dtype}, want {want[k].shape} {want[k].dtype}')
    cc.compare(cc.get_lazy(got), want, 'Checkpointer.restore')
    require(int(np.asarray(cc.get_lazy({'s': r.step})['s'])) == c['step'], 'step')
    if c['loader'] == 'devices':
      axes = sc.flat(p2.get_mesh_axes(s).state_dict())
      for k, v in got.items():
        if sc.is_array(want[k]) and want[k].ndim:
          target = NamedSharding(p2.mesh, axes.get(k) or PartitionSpec())
          require(isinstance(v, jax.Array) and v.sharding.is_equivalent_to(target, v.ndim), lambda: f'{k} restored with sharding {getattr(v, "sharding", type(v))}, want {target}')
    x = checkpoints.load_t5x_checkpoint(root, step=c['step'], restore_dtype=rd, lazy_parameters=c['loader'] == 'lazy')
    cc.compare(cc.get_lazy(sc.flat(x)), want, 'load_t5x_checkpoint')
  big = [p for p in sd['params'] if np.prod(p['shape']) > 1]
  rec.nontrivial(len(big) >= 2 or (big and sd['mut']))
  rec.label(c['placed'])
  rec.label('cast', c['save_dtype'] or c['restore_dtype'])
  rec.label('reshard', c['n_save'] != c['n_load'])
  rec.label(c['loader'])
  rec.label(sd['opt'])


@st.composite
def chunk_case(draw):
  return dict(shape=draw(st.lists(st.one_of(st.integers(1, 12), st.sampled_from([7, 64, 97, 128, 360])), max_size=4)),
              target=draw(st.one_of(st.integers(1, 5000), st.floats(1, 1e6))))


def check_chunk(c, rec):
  """Any array is cut into equal chunks, none larger than asked for, that tile it."""
  out = checkpoints._choose_chunk_shape(tuple(c['shape']), c['target'])
  require(len(out) == len(c['shape']), 'rank')
  require(all(s % o == 0 and o >= 1 for s, o in zip(c['shape'], out)), lambda: f'{out} does not divide {c["shape"]}')
  require(np.prod(out, dtype=np.float64) <= c['target'], lambda: f'{out} exceeds {c["target"]}')
  if np.prod(c['shape'], dtype=np.float64) <= c['target']:
    require(list(out) == list(c['shape']), 'an array that fits was cut')
  rec.nontrivial(list(out) != list(c['shape']))


SUBS = [
    Sub('round-trip', check, strategy=case(), quick=400, thorough=20000, weight=8),
    Sub('chunk-shape', check_chunk, strategy=chunk_case(), quick=300, thorough=5000, weight=1),
]
