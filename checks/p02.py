"""P02: per-host chunks tile every array exactly once."""
import itertools
from unittest import mock

import hypothesis.strategies as st
import jax
import numpy as np
from jax.sharding import Mesh, PartitionSpec

from checks import ckpt_common as cc
from checks import mesh_common as mc
from checks import state_common as sc
from core import Skip, Sub, require
from t5x import checkpoints, partitioning

BUDGET = (16, 900)
AXES = {2: ('data', 'model'), 3: ('replica', 'data', 'model')}


@st.composite
def grid(draw, rank=None):
  """A mesh as a grid of host blocks, hosts numbered in any order."""
  rank = rank or draw(st.sampled_from([2, 2, 3]))
  block = [draw(st.sampled_from([1, 1, 2, 3, 4])) for _ in range(rank)]
  hosts = [draw(st.sampled_from([1, 1, 2, 3, 4])) for _ in range(rank)]
  while np.prod(hosts) > 16:
    hosts[int(np.argmax(hosts))] -= 1
  return dict(block=block, hosts=hosts, order=draw(st.integers(0, 5)))


def mesh_of(c):
  shape = [b * h for b, h in zip(c['block'], c['hosts'])]
  n = int(np.prod(c['hosts']))
  names = list(range(n))
  if c['order']:
    np.random.default_rng(c['order']).shuffle(names)
  devs = np.empty(shape, object)
  for i, ix in enumerate(np.ndindex(*shape)):
    h = 0
    for k, b, m in zip(ix, c['block'], c['hosts']):
      h = h * m + k // b
    devs[ix] = mc.Dev(i, names[h], 'cpu', 'cpu')
  return Mesh(devs, AXES[len(shape)])


@st.composite
def chunk_case(draw):
  g = draw(grid())
  names = AXES[len(g['block'])]
  arrays = []
  for _ in range(draw(st.integers(1, 4))):
    rank = draw(st.integers(0, 4))
    spec = [None] * rank
    for a in names:
      if rank and draw(st.booleans()):
        spec[draw(st.integers(0, rank - 1))] = a
    arrays.append(dict(spec=spec, mult=[draw(st.sampled_from([1, 1, 2, 3, 5])) for _ in range(rank)], spec_type=draw(st.sampled_from(['spec', 'tuple', 'short']))))
  return dict(g, arrays=arrays)


def spec_of(a):
  s = list(a['spec'])
  if a['spec_type'] == 'short':
    while s and s[-1] is None:
      s.pop()
  return tuple(s) if a['spec_type'] == 'tuple' else PartitionSpec(*s)


def box(sl, shape):
  require(len(sl) == len(shape), lambda: f'slice {sl} for shape {shape}')
  return tuple(s.indices(n)[:2] for s, n in zip(sl, shape))


def held(mesh, host, spec, shape):
  """The box an array's shards on one host span, from first principles."""
  names = mesh.axis_names
  sizes = dict(zip(names, mesh.devices.shape))
  lo, hi = [None] * len(shape), [None] * len(shape)
  for ix, d in np.ndenumerate(mesh.devices):
    if d.process_index != host:
      continue
    for i, n in enumerate(shape):
      a = spec[i]
      k = n // sizes[a] if a else n
      s = ix[names.index(a)] * k if a else 0
      lo[i] = s if lo[i] is None else min(lo[i], s)
      hi[i] = s + k if hi[i] is None else max(hi[i], s + k)
  return tuple(zip(lo, hi))


def tile_check(what, shape, boxes):
  """boxes: per host (box, replica id)."""
  groups = {}
  for h, (b, r) in boxes.items():
    groups.setdefault(b, []).append((h, r))
  count = np.zeros(shape, np.int32)
  for b, lst in groups.items():
    count[tuple(slice(*x) for x in b)] += 1
    ids = [r for _, r in lst]
    require(len(set(ids)) == len(ids), lambda: f'{what}: hosts of chunk {b} share replica ids {lst}')
    require(ids.count(0) == 1, lambda: f'{what}: chunk {b} has {ids.count(0)} writers among (host, replica id) {lst}')
  require(bool(np.all(count == 1)), lambda: f'{what}: {int(np.sum(count == 0))} elements are written by no chunk, {int(np.sum(count > 1))} by several; chunks {sorted(groups)}')
  return len(groups), max(len(l) for l in groups.values())


def chunks(c, rec):
  mesh = mesh_of(c)
  devs = list(mesh.devices.reshape(-1))
  sizes = dict(zip(mesh.axis_names, mesh.devices.shape))
  n = int(np.prod(c['hosts']))
  with mc.world(devs):
    parts = {}
    for h in range(n):
      mc.at(h)
      parts[h] = mc.with_mesh(partitioning.PjitPartitioner, mesh, num_partitions=1)
      parts[h].get_local_chunk_info((), ())
    for a in c['arrays']:
      shape = tuple(m * (sizes[x] if x else 1) for m, x in zip(a['mult'], a['spec']))
      what = f'mesh {dict(sizes)}, host block {c["block"]}, shape {shape}, spec {a["spec"]}'
      boxes = {}
      for h in range(n):
        mc.at(h)
        info = parts[h].get_local_chunk_info(shape, spec_of(a))
        b = box(info.slice, shape)
        want = held(mesh, h, a['spec'], shape)
        require(b == want, lambda: f'{what}: host {h} is given {b}, its devices hold {want}')
        boxes[h] = (b, int(info.replica_id))
      k, r = tile_check(what, shape, boxes)
      rec.nontrivial(k > 1 and r > 1)
      rec.label('several chunks', k > 1)
      rec.label('replicated chunk', r > 1)
  mc.forget()


# --- The chunk grid of the array store ----------------------------------------


@st.composite
def shape_case(draw):
  dim = st.one_of(st.integers(1, 12), st.sampled_from([16, 30, 60, 64, 97, 128, 360, 1024, 1000, 1536, 32128]))
  shape = draw(st.lists(dim, max_size=5))
  return dict(shape=shape, target=draw(st.one_of(st.integers(1, 50), st.sampled_from([1.5, 2.25, 1000, 4096, 12345.75, 1e6, 16777216.0]))))


def grid_ok(what, write, chunk, target):
  chunk = [int(x) for x in chunk]
  require(len(chunk) == len(write), lambda: f'{what}: chunk {chunk}')
  require(all(x >= 1 and w % x == 0 for w, x in zip(write, chunk)), lambda: f'{what}: chunk {chunk} does not divide the write shape')
  require(np.prod(chunk, dtype=float) <= target, lambda: f'{what}: chunk {chunk} has more than {target} elements')
  if np.prod(write, dtype=float) <= target:
    require(chunk == list(write), lambda: f'{what}: chunk {chunk} splits an array that fits')
    return
  # As large as possible: half of the target is always reachable when the largest dimension left is finely divisible; without that, a single step up overshoots.
  require(any_step_up_overshoots(write, chunk, target), lambda: f'{what}: chunk {chunk} could be enlarged in every dimension it was split and still fit')


def any_step_up_overshoots(write, chunk, target):
  for i, (w, x) in enumerate(zip(write, chunk)):
    if x < w:
      nxt = min(d for d in mc.divisors(w) if d > x)
      if np.prod(chunk, dtype=float) / x * nxt > target:
        return True
  return False


def choose(c, rec):
  fn = getattr(checkpoints, '_choose_chunk_shape', None)
  if fn is None:
    raise Skip('no such helper')
  shape = list(c['shape'])
  got = fn(shape, c['target'])
  require(shape == c['shape'], 'the argument was changed')
  grid_ok(f'write shape {shape}, target {c["target"]}', shape, got, c['target'])
  rec.nontrivial(np.prod(shape, dtype=float) > c['target'] and len(shape) > 1)


# --- What a host tells the array store -----------------------------------------


@st.composite
def spec_case(draw):
  g = draw(grid(2))
  axes = {}
  params = draw(sc.flat_tree(max_size=4))
  return dict(g, params=params, limit=draw(st.sampled_from([4, 8, 16, 64, 1 << 26])))


def infos(c, rec):
  mesh = mesh_of(c)
  sizes = dict(zip(mesh.axis_names, mesh.devices.shape))
  mesh_axis = dict(sc.RULES)
  def legal(p):
    # Whichever of its axes ends up sharded.
    return dict(p, shape=[s * (sizes[mesh_axis[a]] if mesh_axis[a] else 1) for a, s in zip(p['axes'], p['shape'])])
  case = dict(params=[legal(p) for p in c['params']], opt='sgd_mom', mut=[], mut_name='cache', seed=0)
  state = cc.abstract(sc.make_state(case))
  n = int(np.prod(c['hosts']))
  seen = {}
  if not hasattr(checkpoints, '_DESIRED_CHUNK_SIZE_BYTES'):
    raise Skip('no such limit')
  with mc.world(list(mesh.devices.reshape(-1))), mock.patch.object(checkpoints, '_DESIRED_CHUNK_SIZE_BYTES', c['limit']), cc.Scratch() as d:
    for h in range(n):
      mc.at(h)
      p = mc.with_mesh(partitioning.PjitPartitioner, mesh, num_partitions=1, logical_axis_rules=list(sc.RULES))
      ck = checkpoints.Checkpointer(state, p, d)
      info = getattr(ck, '_parameter_infos', None)
      if info is None:
        raise Skip('no such attribute')
      for i in jax.tree_util.tree_leaves(info):
        if getattr(i, 'ts_spec', None) is None:
          continue
        seen.setdefault(i.name, []).append((h, tuple(i.shape), i.local_chunk_info, i.ts_spec.to_json()))
  dtypes = {k: v.dtype for k, v in sc.flat(state.state_dict()).items() if sc.is_array(v)}
  for name, lst in seen.items():
    require(len({str(j) for *_, j in lst}) == 1, lambda: f'{name}: hosts disagree on the array\'s specification')
    shape = lst[0][1]
    meta = lst[0][3]['metadata']
    require(tuple(meta['shape']) == shape, lambda: f'{name}: stored as {meta["shape"]}, array has {shape}')
    write = [hi - lo for lo, hi in box(lst[0][2].slice, shape)]
    grid_ok(f'{name} on {dict(sizes)} in host blocks {c["block"]}', write, meta['chunks'], max(1, c['limit'] / dtypes[name].itemsize))
    k, r = tile_check(name, shape, {h: (box(i.slice, shape), int(i.replica_id)) for h, _, i, _ in lst})
    rec.nontrivial(k > 1)
  require(len({j['kvstore'] if isinstance(j['kvstore'], str) else j['kvstore']['path'] for lst in seen.values() for *_, j in lst[:1]}) == len(seen), lambda: f'two arrays share one place: {sorted(seen)}')
  mc.forget()


SUBS = [Sub('chunks', chunks, strategy=chunk_case(), quick=250, thorough=20000, weight=2, timeout=60),
        Sub('grid', choose, strategy=shape_case(), quick=300, thorough=20000, weight=1, timeout=60),
        Sub('infos', infos, strategy=spec_case(), quick=60, thorough=4000, weight=2, timeout=60)]
