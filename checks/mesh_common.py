"""Simulated device topologies: hosts, coordinates, kinds; no real accelerators."""
import contextlib
import itertools
from unittest import mock

import hypothesis.strategies as st
import jax
from jax._src import xla_bridge
import numpy as np

from t5x import partitioning

_HOST = [0]


class _Client:

  def process_index(self):
    return _HOST[0]


_CLIENT = _Client()


class Dev:
  """A device as partitioning sees it."""

  def __init__(self, id, process_index, platform, kind, coords=None, core=0, slice_index=0):  # pylint: disable=redefined-builtin
    self.id, self.process_index, self.platform, self.device_kind, self.slice_index = id, process_index, platform, kind, slice_index
    self.client = _CLIENT
    if coords is not None:
      self.coords, self.core_on_chip = tuple(coords), core

  def __repr__(self):
    return f'D{self.id}@{self.process_index}'


@contextlib.contextmanager
def world(devices, host=0):
  """jax sees these devices, from one host."""
  old = _HOST[0]
  _HOST[0] = host
  local = lambda process_index=None, *a, **k: [d for d in devices if d.process_index == (_HOST[0] if process_index is None else process_index)]
  repl = dict(
      devices=lambda *a, **k: list(devices), local_devices=local, process_index=lambda *a, **k: _HOST[0],
      process_count=lambda *a, **k: len({d.process_index for d in devices}), device_count=lambda *a, **k: len(devices),
      local_device_count=lambda *a, **k: len(local()))
  with contextlib.ExitStack() as s:
    for m in (jax, xla_bridge):
      for k, v in repl.items():
        s.enter_context(mock.patch.object(m, k, v))
    try:
      yield
    finally:
      _HOST[0] = old


def at(host):
  _HOST[0] = host


KINDS = {  # kind: cores per chip, chips of one host
    'TPU v2': (2, (2, 2, 1)), 'TPU v3': (2, (2, 2, 1)), 'TPU v4': (1, (2, 2, 1)), 'TPU v4 lite': (1, (2, 4, 1)), 'TPU v5': (1, (2, 2, 1))}


def tpu(c):
  """Builds the devices of a case: kind, chips, host chips, cores, order."""
  gx, gy, gz = c['chips']
  lx, ly, lz = c['host']
  hx, hy = gx // lx, gy // ly
  cells = list(itertools.product(range(gz), range(gy), range(gx), range(c['cores'])))
  devs = []
  for i, (z, y, x, k) in enumerate(cells):
    h = (x // lx) + hx * ((y // ly) + hy * (z // lz))
    devs.append(Dev(i, h, 'tpu', c['kind'], (x, y, z), k))
  return reorder(devs, c['order'])


def reorder(devs, order):
  if order:
    np.random.default_rng(order).shuffle(devs)
  return devs


@st.composite
def tpu_case(draw, max_devices=256):
  kind = draw(st.sampled_from(list(KINDS)))
  cores, host = KINDS[kind]
  if draw(st.integers(0, 5)) == 0:
    host = (1, 1, 1)
  if draw(st.integers(0, 5)) == 0:
    cores = 3 - cores
  mults = [1, 2, 3, 4, 8]
  chips = [host[0] * draw(st.sampled_from(mults)), host[1] * draw(st.sampled_from(mults)), host[2] * draw(st.sampled_from([1, 1, 2, 4, 8, 16] if 'v4' in kind or 'v5' in kind else [1]))]
  while np.prod(chips) * cores > max_devices:
    i = int(np.argmax([c // h for c, h in zip(chips, host)]))
    q = chips[i] // host[i]
    chips[i] = host[i] * (q // 2 if q % 2 == 0 else 1)
  return dict(kind=kind, cores=cores, host=list(host), chips=chips, order=draw(st.sampled_from([0, 0, 1, 2, 3])))


def divisors(n):
  return [d for d in range(1, n + 1) if n % d == 0]


def n_hosts(devs):
  return len({d.process_index for d in devs})


def with_mesh(cls, mesh, *a, **k):
  """A partitioner of class cls on a given mesh."""
  sub = type('Fixed' + cls.__name__, (cls,), dict(mesh=property(lambda self: mesh)))
  return sub(*a, **k)


def forget():
  """Meshes are interned by jax; drop the simulated ones."""
  from jax._src import mesh as m
  m._mesh_object_dict.clear()  # pylint: disable=protected-access
