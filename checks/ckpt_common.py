"""Shared by the checkpoint checks."""
import os
import shutil
import tempfile

import jax
import jax.numpy as jnp
import numpy as np
from jax.sharding import NamedSharding, PartitionSpec

from checks import state_common as sc
from core import Violation, require


class Scratch:
  """A scratch directory under the run's own work directory."""

  def __enter__(self):
    self.d = tempfile.mkdtemp(prefix='ck-', dir=os.environ.get('VERIF_WORK'))
    return self.d

  def __exit__(self, *a):
    shutil.rmtree(self.d, ignore_errors=True)


def snapshot(state):
  """Deep numpy copy of a state dict, flat."""
  return {k: (np.array(v) if sc.is_array(v) else v) for k, v in sc.flat(state.state_dict()).items()}


def cast(x, dtype):
  return x if dtype is None else np.asarray(x).astype(jnp.dtype(dtype))


def expected(flat, save_dtype, restore_dtype):
  out = {}
  for k, v in flat.items():
    if k.startswith('target/') and sc.is_array(v):
      v = cast(cast(v, save_dtype), restore_dtype)
    out[k] = v
  return out


def compare(got, want, what):
  gk, wk = set(got), set(want)
  require(gk == wk, lambda: f'{what}: missing {sorted(wk - gk)[:5]} extra {sorted(gk - wk)[:5]}')
  for k in sorted(want):
    w, g = want[k], got[k]
    if not sc.is_array(w):
      require(not sc.is_array(g) and type(g) is type(w), lambda: f'{what}: {k} is {g!r}, saved was the empty value {w!r}')
      continue
    require(sc.is_array(g), lambda: f'{what}: {k} is {type(g)} not an array')
    g = np.asarray(g)
    require(sc.same(g, w), lambda: f'{what}: {k} differs: got {g.dtype}{g.shape} {g.reshape(-1)[:6]}, want {w.dtype}{w.shape} {w.reshape(-1)[:6]}')


def get_lazy(flat):
  from t5x import checkpoint_importer
  return {k: (v.get() if isinstance(v, checkpoint_importer.LazyArray) else v) for k, v in flat.items()}


def abstract(state):
  return state.restore_state(jax.tree_util.tree_map(lambda x: jax.ShapeDtypeStruct(x.shape, x.dtype), state.state_dict()))
