"""P01: device meshes use every device exactly once and split the batch exactly."""
import itertools

import hypothesis.strategies as st
import numpy as np
from jax.sharding import Mesh

from checks import mesh_common as mc
from core import Sub, raises, require
from t5x import partitioning

BUDGET = (18, 900)
REJECT = (AssertionError, ValueError)


def check_mesh(mesh, devs, names, what):
  got = sorted(d.id for d in mesh.devices.reshape(-1))
  require(got == sorted(d.id for d in devs), lambda: f'{what}: mesh holds devices {got[:20]}..., not each of {len(devs)} once')
  require(tuple(mesh.axis_names) == names, lambda: f'{what}: axes {mesh.axis_names}')


def layouts(make, mesh, devs, batch, data_axes, what, ordered=True):
  """Every host's data layout against the rows its devices hold."""
  sizes = dict(zip(mesh.axis_names, mesh.devices.shape))
  where = {d.id: dict(zip(mesh.axis_names, ix)) for ix, d in np.ndenumerate(mesh.devices)}
  blocks = int(np.prod([sizes[a] for a in data_axes]))
  def block(d):
    b = 0
    for a in data_axes:
      b = b * sizes[a] + where[d.id][a]
    return b
  hosts = sorted({d.process_index for d in devs})
  per_host = {h: frozenset(block(d) for d in devs if d.process_index == h) for h in hosts}
  seen = {}
  for h in hosts:
    mc.at(h)
    p = make()
    lay = p.get_data_layout(batch)
    want_batch = batch or blocks
    require(lay.batch_size == want_batch, lambda: f'{what}: host {h} has batch size {lay.batch_size}, expected {want_batch}')
    require(p.data_mesh_size == blocks if ordered else True, lambda: f'{what}: data mesh size {p.data_mesh_size}, expected {blocks}')
    require(lay.num_shards * len(per_host[h]) == blocks, lambda: f'{what}: {lay.num_shards} shards, but host {h} holds {len(per_host[h])} of {blocks} row blocks')
    require(0 <= lay.shard_id < lay.num_shards, lambda: f'{what}: shard {lay.shard_id} of {lay.num_shards}')
    if ordered:
      require(p.data_shards == lay.num_shards and p.data_shard_id == lay.shard_id, lambda: f'{what}: data_shards {p.data_shards}, data_shard_id {p.data_shard_id}, layout {lay}')
      k = blocks // lay.num_shards
      want = frozenset(range(lay.shard_id * k, (lay.shard_id + 1) * k))
      require(per_host[h] == want, lambda: f'{what}: host {h} reads shard {lay.shard_id} of {lay.num_shards}, but its devices hold row blocks {sorted(per_host[h])} of {blocks}')
    seen.setdefault(lay.shard_id, []).append((h, per_host[h], lay.is_first_host_in_replica_set, lay.num_shards))
  require(set(seen) == set(range(next(iter(seen.values()))[0][3])), lambda: f'{what}: shards read are {sorted(seen)}')
  for s, lst in seen.items():
    require(len({b for _, b, _, _ in lst}) == 1, lambda: f'{what}: shard {s} is read by hosts of different rows {lst}')
    require(sum(f for _, _, f, _ in lst) == 1, lambda: f'{what}: shard {s} has {sum(f for _, _, f, _ in lst)} first hosts among {[h for h, *_ in lst]}')
  require(len({b for lst in seen.values() for _, b, _, _ in lst}) == len(seen), lambda: f'{what}: the same rows are read as different shards')
  return len(hosts), len(seen)


def batches(c, blocks):
  return None if c['mult'] is None else blocks * c['mult']


# --- A given model-parallel submesh on TPU topologies -------------------------


@st.composite
def submesh_case(draw):
  c = draw(mc.tpu_case())
  dims = c['chips'] + [c['cores']]
  m = [draw(st.sampled_from(mc.divisors(g))) for g in dims]
  special = draw(st.integers(0, 3))
  if special == 0:
    m = [dims[0], 1, 1, dims[3]]
  elif special == 1:
    m = [1, dims[1], dims[2], dims[3]]
  if draw(st.integers(0, 11)) == 0:
    i = draw(st.integers(0, 3))
    m[i] = draw(st.sampled_from([3, 5, dims[i] * 2]))
  return dict(c, m=m, mult=draw(st.sampled_from([None, 1, 2, 3])), host_tiling=draw(st.integers(0, 7)) > 0)


def z_major(g, m):
  gx, gy, gz, _ = g
  mx, my, mz, _ = m
  return ((mx == gx > 1 and my == mz == 1) or (mx == 1 and my == gy > 1 and mz == gz > 1)
          or (my == gy > 1 and mx == mz == 1) or (my == 1 and mx == gx > 1 and mz == gz > 1))


def submesh(c, rec):
  g, m, l = c['chips'] + [c['cores']], c['m'], c['host'] + [c['cores']]
  devs = mc.tpu(c)
  n = int(np.prod(m))
  divides = all(a % b == 0 for a, b in zip(g, m))
  special = z_major(g, m)
  tiles = all(a % b == 0 or b % a == 0 for a, b in zip(m, l))
  ok = divides and (m[3] == g[3] if special else tiles or not c['host_tiling'])
  what = f'{c["kind"]} chips {g} host {l} submesh {m}'
  with mc.world(devs):
    make_mesh = lambda: partitioning.get_mesh(tuple(m), tile_by_host_if_needed=c['host_tiling'])
    if not ok:
      e = raises(make_mesh, *REJECT)
      if not divides:
        require(e is not None, lambda: f'{what}: a submesh that does not divide the device mesh is accepted')
      rec.label('rejected')
      rec.nontrivial()
      mc.forget()
      return
    mesh = make_mesh()
    check_mesh(mesh, devs, ('data', 'model'), what)
    require(mesh.devices.shape == (len(devs) // n, n), lambda: f'{what}: mesh shape {mesh.devices.shape}')
    for row in mesh.devices:
      # A model replica is one tile of the physical mesh.
      co = np.array([d.coords + (d.core_on_chip,) for d in row])
      lo, hi = co.min(0), co.max(0)
      require(list(hi - lo + 1) == list(m) and all(a % b == 0 for a, b in zip(lo, m)), lambda: f'{what}: a model replica spans {lo}..{hi}')
    if c['host_tiling'] or len({d.process_index for d in devs}) == 1:
      p = lambda: mc.with_mesh(partitioning.PjitPartitioner, mesh, num_partitions=n)
      if raises(lambda: mesh.local_mesh, ValueError):
        require(False, f'{what}: the devices of a host are not one block of the mesh')
      h, s = layouts(p, mesh, devs, batches(c, len(devs) // n), ('data',), what)
      bad = len(devs) // n * 2 + 1
      if len(devs) // n > 1:
        require(raises(lambda: p().get_data_layout(bad), ValueError), lambda: f'{what}: batch size {bad} accepted')
      rec.nontrivial(h > 1 and n > 1)
      rec.label('several hosts read one shard', h > s)
      rec.label('several shards', s > 1)
    rec.label('z-major', special)
  mc.forget()


# --- The default meshes -------------------------------------------------------


@st.composite
def default_case(draw):
  c = draw(mc.tpu_case())
  return dict(c, n=draw(st.sampled_from([1, 2, 2, 4, 4, 8, 8, 16, 16, 3])), mult=draw(st.sampled_from([None, 1, 2])))


def default(c, rec):
  devs = mc.tpu(c)
  devs.sort(key=lambda d: d.coords + (d.core_on_chip,))  # jax.devices() ends with the corner device.
  what = f'{c["kind"]} chips {c["chips"]} x {c["cores"]}, {c["n"]} partitions'
  with mc.world(devs):
    mesh = []
    e = raises(lambda: mesh.append(partitioning.default_mesh(c['n'])), *REJECT)
    if e is not None:
      # Documented default: one chip per model on every supported kind.
      known = c['kind'] in ('TPU v2', 'TPU v3') or (c['kind'].startswith('TPU v4') and c['cores'] == 1)
      require(not (c['n'] == 1 and known), lambda: f'{what}: no mesh for one partition: {e!r}')
      rec.label('rejected')
      mc.forget()
      return
    mesh = mesh[0]
    check_mesh(mesh, devs, ('data', 'model'), what)
    require(mesh.devices.shape == (len(devs) // c['n'], c['n']), lambda: f'{what}: mesh shape {mesh.devices.shape}')
    p = lambda: partitioning.PjitPartitioner(num_partitions=c['n'])
    require(p().mesh.devices.shape == mesh.devices.shape, lambda: f'{what}: the partitioner\'s mesh is {p().mesh.devices.shape}')
    hs = layouts(p, mesh, devs, batches(c, len(devs) // c['n']), ('data',), what)
    rec.nontrivial(len(devs) > 1 and c['n'] > 1)
    rec.label('several shards', hs[1] > 1)
  mc.forget()


@st.composite
def flat_case(draw):
  return dict(platform=draw(st.sampled_from(['cpu', 'gpu', 'gpu'])), hosts=draw(st.sampled_from([1, 2, 3, 4, 8])), per=draw(st.sampled_from([1, 2, 4, 8])),
              n=draw(st.sampled_from([1, 2, 3, 4, 8, 16, 32])), order=draw(st.sampled_from([0, 1, 2])), mult=draw(st.sampled_from([None, 1, 3])))


def flat(c, rec):
  devs = mc.reorder([mc.Dev(h * c['per'] + i, h, c['platform'], c['platform']) for h in range(c['hosts']) for i in range(c['per'])], c['order'])
  what = f'{c["hosts"]} {c["platform"]} hosts of {c["per"]}, {c["n"]} partitions'
  with mc.world(devs):
    mesh = []
    e = raises(lambda: mesh.append(partitioning.default_mesh(c['n'])), *REJECT)
    if c['platform'] == 'cpu':
      data, model, ok = c['hosts'], c['per'], True
    else:
      n, per = c['n'], c['per']
      ok = (per % n == 0 or n % per == 0) and (n <= per or (c['hosts'] % (n // per) == 0))
      data, model = (c['hosts'] * per // n, n) if ok else (0, 0)
    if not ok:
      require(e is not None, lambda: f'{what}: an impossible layout is accepted')
      rec.label('rejected')
      rec.nontrivial()
      mc.forget()
      return
    require(e is None, lambda: f'{what}: rejected with {e!r}')
    mesh = mesh[0]
    check_mesh(mesh, devs, ('data', 'model'), what)
    require(mesh.devices.shape == (data, model), lambda: f'{what}: mesh shape {mesh.devices.shape}, expected {(data, model)}')
    if c['platform'] == 'gpu' and c['n'] <= c['per']:
      for row in mesh.devices:
        require(len({d.process_index for d in row}) == 1, lambda: f'{what}: a model replica that fits one host spans several')
    layouts(lambda: partitioning.PjitPartitioner(num_partitions=c['n']), mesh, devs, batches(c, data), ('data',), what)
    rec.nontrivial(c['hosts'] > 1 and c['per'] > 1)
  mc.forget()


@st.composite
def slices_case(draw):
  return dict(slices=draw(st.sampled_from([1, 2, 3, 4])), ici=draw(st.sampled_from([[1, 1, 1], [1, 4, 1], [1, 2, 2], [1, 8, 1], [1, 4, 2], [1, 1, 8], [1, 2, 4], [2, 2, 2]])),
              mode=draw(st.sampled_from(['replica', 'replica', 'data'])), host=draw(st.sampled_from([1, 2, 4, 8])), mult=draw(st.sampled_from([None, 1, 2])))


def slices(c, rec):
  per = int(np.prod(c['ici']))
  host = min(c['host'], per)
  devs = [mc.Dev(s * per + i, s * (per // host) + i // host, 'cpu', 'cpu', slice_index=s) for s in range(c['slices']) for i in range(per)]
  dcn = [c['slices'], 1, 1] if c['mode'] == 'replica' else [1, c['slices'], 1]
  shape = tuple(a * b for a, b in zip(c['ici'], dcn))
  what = f'{c["slices"]} slices of {c["ici"]}, dcn {dcn}, {host} devices a host'
  with mc.world(devs):
    p = lambda: partitioning.PjitPartitioner(num_partitions=1, ici_mesh_shape=tuple(c['ici']), dcn_mesh_shape=tuple(dcn))
    mesh = p().mesh
    check_mesh(mesh, devs, ('replica', 'data', 'model'), what)
    require(mesh.devices.shape == shape, lambda: f'{what}: mesh shape {mesh.devices.shape}, expected {shape}')
    for row in mesh.devices.reshape(-1, shape[2]):
      require(len({d.slice_index for d in row}) == 1, lambda: f'{what}: a model replica spans slices')
    if raises(lambda: [mc.at(h) or mesh.local_mesh for h in range(len(devs) // host)], ValueError):
      mc.forget()
      rec.label('host not a block')
      return
    h, s = layouts(p, mesh, devs, batches(c, shape[0] * shape[1]), ('replica', 'data'), what, ordered=c['mode'] == 'replica')
    rec.nontrivial(c['slices'] > 1 and h > 1)
    rec.label('several hosts read one shard', h > s)
  mc.forget()


SUBS = [Sub('submesh', submesh, strategy=submesh_case(), quick=220, thorough=20000, weight=2, timeout=60),
        Sub('default', default, strategy=default_case(), quick=150, thorough=15000, weight=1, timeout=60),
        Sub('flat', flat, strategy=flat_case(), quick=120, thorough=4000, weight=1),
        Sub('slices', slices, strategy=slices_case(), quick=100, thorough=4000, weight=1)]
