"""O02: optimizer state and its axis metadata always have the same structure."""
import copy

import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from flax import traverse_util

from checks import ckpt_common as cc
from checks import opt_common as oc
from checks import state_common as sc
from core import Sub, Violation, raises, require

BUDGET = (22, 900)


def tree_check(c, state, what):
  d, a = sc.flat(state.state_dict()), oc.flat_axes(state.as_logical_axes())
  require(set(d) == set(a), lambda: f'{what}: state has {sorted(set(d) - set(a))[:4]} without axes, axes have {sorted(set(a) - set(d))[:4]} without state')
  slots = 0
  for k, v in d.items():
    names = a[k]
    if not sc.is_array(v):
      require(names is None or not hasattr(names, '_partitions') or not tuple(names), lambda: f'{what}: {k} is {v!r} but has axes {names}')
      continue
    if names is not None:
      require(len(tuple(names)) == v.ndim, lambda: f'{what}: {k} of shape {v.shape} has axes {names}')
    p = oc.param_of(k, c) if k.startswith('state/param_states') else next((p for p in c['params'] if 'target/' + '/'.join(p['path']) == k), None)
    if p is not None and tuple(v.shape) == tuple(p['shape']) and v.dtype != bool and tuple(v.shape) not in ((), (1,)):
      if k.rsplit('/', 1)[-1] in ('v_row', 'v_col'):
        continue  # Factored statistics whose shape happens to be the parameter's.
      require(names is not None and tuple(names) == tuple(p['axes']), lambda: f'{what}: {k} belongs to a parameter with axes {p["axes"]} but has {names}')
      slots += k.startswith('state/')
  return slots


def grads_of(c, state, n):
  rng = np.random.default_rng([c['seed'], n])
  return jax.tree_util.tree_map(lambda x: jnp.asarray(rng.standard_normal(x.shape), x.dtype), state.params)


def shapes(state):
  return {k: (tuple(v.shape), str(v.dtype)) if sc.is_array(v) and k != 'state/step' else None for k, v in sc.flat(state.state_dict()).items()}


def structure(c, rec):
  state = oc.make(c)
  slots = tree_check(c, state, 'new state')
  before = shapes(state)
  d0 = cc.snapshot(state)
  fresh = oc.make(dict(c, seed=c['seed'] + 1)).restore_state(state.state_dict())
  cc.compare(cc.snapshot(fresh), d0, 'serialised and restored state')
  for i in range(c['steps']):
    g = grads_of(c, state, i)
    state = state.apply_gradient(g, learning_rate=0.1, flax_mutables=state.flax_mutables)
    after = shapes(state)
    require(after == before, lambda: f'after {i + 1} steps the state changed from {sorted(set(before.items()) - set(after.items()), key=str)[:4]} to {sorted(set(after.items()) - set(before.items()), key=str)[:4]}')  # pylint: disable=cell-var-from-loop
  if c['steps']:
    tree_check(c, state, f'after {c["steps"]} steps')
    fresh = oc.make(dict(c, seed=c['seed'] + 1)).restore_state(state.state_dict())
    cc.compare(cc.snapshot(fresh), cc.snapshot(state), 'state serialised after training')
    g = grads_of(c, state, 99)
    cc.compare(cc.snapshot(fresh.apply_gradient(g, learning_rate=0.1)), cc.snapshot(state.apply_gradient(g, learning_rate=0.1)), 'next step of the restored state')
  rec.nontrivial(slots > 0 and c['steps'] > 0)
  rec.label(c['opt'])


@st.composite
def struct_case(draw):
  return dict(draw(oc.case(max_size=3, dims=(1, 2, 4, 8))), steps=draw(st.sampled_from([0, 0, 1, 2])))


def missing(c, rec):
  """An entry that is not there is not silently replaced."""
  state = oc.make(c)
  flat = traverse_util.flatten_dict(state.state_dict())
  keys = sorted(k for k, v in flat.items() if sc.is_array(v) or isinstance(v, int))
  for pick in c['picks']:
    k = keys[pick % len(keys)]
    if k[0] == 'flax_mutables':
      continue
    d = traverse_util.unflatten_dict({q: v for q, v in flat.items() if q != k})
    e = raises(lambda: state.restore_state(d), ValueError, KeyError)  # pylint: disable=cell-var-from-loop
    require(e is not None, lambda: f'{"/".join(k)} is missing from the serialised state ({c["opt"]}), and no error is raised')  # pylint: disable=cell-var-from-loop
    rec.nontrivial()
    rec.label('slot removed', k[0] == 'state' and len(k) > 2)


@st.composite
def missing_case(draw):
  return dict(draw(oc.case(max_size=3, dims=(1, 2, 4))), picks=draw(st.lists(st.integers(0, 60), min_size=1, max_size=4)))


SUBS = [Sub('structure', structure, strategy=struct_case(), quick=70, thorough=4000, weight=4, timeout=90),
        Sub('missing', missing, strategy=missing_case(), quick=30, thorough=3000, weight=1, timeout=90)]
