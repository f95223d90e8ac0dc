"""O05: training state conversions and updates lose nothing."""
import copy

import flax
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from flax import traverse_util
from jax.sharding import PartitionSpec

from checks import ckpt_common as cc
from checks import state_common as sc
from core import Sub, raises, require
from t5x import train_state as ts

BUDGET = (16, 900)


def filled(c, salt=0):
  return sc.fill(sc.make_state(c), np.random.default_rng([c['seed'], salt]))


def parts(state):
  """Everything a state holds, by part, as flat numpy snapshots."""
  out = {'step': {'': np.array(state.step)}, 'params': flatten(state.params), 'mutables': flatten(state.flax_mutables),
         'params_axes': flatten(state.params_axes), 'mutables_axes': flatten(state.flax_mutables_axes)}
  if not isinstance(state, ts.InferenceState):
    out['param_states'] = {str(jax.tree_util.keystr(k)): np.array(v) for k, v in jax.tree_util.tree_leaves_with_path(state.param_states)}
  return out


def flatten(tree):
  if not tree:
    return {}
  return {'/'.join(k): (np.array(v) if sc.is_array(v) else v) for k, v in traverse_util.flatten_dict(flax.core.unfreeze(tree)).items()}


def same_part(a, b):
  if set(a) != set(b):
    return False
  for k in a:
    if sc.is_array(a[k]) != sc.is_array(b[k]):
      return False
    if sc.is_array(a[k]):
      if not sc.same(a[k], b[k]):
        return False
    elif a[k] != b[k]:
      return False
  return True


def check_parts(got, want, what, changed=()):
  for k in want:
    if k not in changed:
      require(same_part(got[k], want[k]), lambda: f'{what}: {k} changed from {str(want[k])[:300]} to {str(got[k])[:300]}')  # pylint: disable=cell-var-from-loop


def roundtrip(c, rec):
  state = filled(c)
  before = parts(state)
  d = state.state_dict()
  want_keys = {'target', 'state'} | ({'flax_mutables'} if c['mut'] else set())
  require(set(d) == want_keys, lambda: f'serialised form has {sorted(d)}, expected {sorted(want_keys)}')
  fd = sc.flat(d)
  for p in c['params']:
    k = 'target/' + '/'.join(p['path'])
    require(k in fd and sc.same(fd[k], before['params']['/'.join(p['path'])]), lambda: f'{k} is not in the serialised form')
  for p in c['mut']:
    k = 'flax_mutables/' + c['mut_name'] + '/' + '/'.join(p['path'])
    require(k in fd and sc.same(fd[k], before['mutables'][c['mut_name'] + '/' + '/'.join(p['path'])]), lambda: f'{k} is not in the serialised form')
  require(np.array(fd['state/step']) == before['step'][''], 'the step is not in the serialised form')
  other = filled(c, 1)
  back = other.restore_state(d)
  check_parts(parts(back), before, 'restoring the serialised form')
  cc.compare(cc.snapshot(back), {k: (np.array(v) if sc.is_array(v) else v) for k, v in fd.items()}, 'serialised form of the restored state')
  require(type(back) is type(state), lambda: f'restored state is {type(back)}')
  # The serialised form is the caller's own.
  def scribble(x):
    for k in list(x):
      if isinstance(x[k], dict):
        scribble(x[k])
      x[k] = None
  scribble(d)
  check_parts(parts(state), before, 'editing the serialised form')
  check_parts(parts(back), before, 'editing the serialised form after restoring from it')
  # A state without mutables loses the old ones.
  if c['mut']:
    d2 = state.state_dict()
    d2.pop('flax_mutables')
    require(not other.restore_state(d2).flax_mutables, 'mutables survive restoring a state without any')
  leaves, tree = jax.tree_util.tree_flatten(state)
  check_parts(parts(jax.tree_util.tree_unflatten(tree, leaves)), before, 'flattening the state as a tree')
  rec.nontrivial(len(c['params']) > 1)
  rec.label('mutables', bool(c['mut']))


@st.composite
def op_case(draw):
  c = draw(sc.state_case(max_size=3))
  ops = draw(st.lists(st.tuples(st.sampled_from(['params', 'step', 'mutables', 'clear mutables', 'gradient', 'roundtrip']), st.integers(0, 100)).map(list), min_size=1, max_size=5))
  return dict(c, ops=ops, specials=False)


def ops(c, rec):
  state = filled(c)
  state = state.replace_step(jnp.int32(c['seed'] % 1000))
  inference = c['opt'] == 'inference'
  for op, n in c['ops']:
    before = parts(state)
    old = state
    src = filled(c, n)
    if op == 'params':
      state = old.replace_params(src.params)
      check_parts(parts(state), before, 'replacing the parameters', ('params',))
      require(same_part(parts(state)['params'], flatten(src.params)), 'the parameters were not replaced')
    elif op == 'step':
      state = old.replace_step(jnp.int32(n))
      check_parts(parts(state), before, 'replacing the step', ('step',))
      require(int(state.step) == n, lambda: f'the step is {state.step}, not {n}')
    elif op in ('mutables', 'clear mutables'):
      new = src.flax_mutables if op == 'mutables' else flax.core.freeze({})
      state = old.replace_flax_mutables(new)
      check_parts(parts(state), before, 'replacing the mutables', ('mutables',))
      require(same_part(parts(state)['mutables'], flatten(new)), 'the mutables were not replaced')
    elif op == 'roundtrip':
      state = filled(c, 7).restore_state(old.state_dict())
      check_parts(parts(state), before, 'serialising and restoring')
    else:
      grads = jax.tree_util.tree_map(lambda x: jnp.asarray(np.random.default_rng(n).standard_normal(x.shape), jnp.float32), old.params)
      if inference:
        require(raises(lambda: old.apply_gradient(grads, learning_rate=0.1), NotImplementedError), 'an inference state accepts gradients')
        continue
      opt = old._optimizer  # pylint: disable=protected-access
      hp = opt.optimizer_def.update_hyper_params(learning_rate=0.1 + n / 100)
      want_p, want_s = opt.optimizer_def.apply_gradient(hp, opt.target, opt.state, grads)
      state = old.apply_gradient(grads, learning_rate=0.1 + n / 100, flax_mutables=src.flax_mutables)
      got = parts(state)
      check_parts(got, before, 'applying a gradient', ('params', 'step', 'mutables', 'param_states'))
      require(int(state.step) == int(old.step) + 1, lambda: f'the step went from {old.step} to {state.step}')
      require(same_part(got['mutables'], flatten(src.flax_mutables)), 'the given mutables were not stored')
      require(same_part(got['params'], flatten(want_p)), 'the parameters are not the optimizer\'s')
      want_s = {str(jax.tree_util.keystr(k)): np.array(v) for k, v in jax.tree_util.tree_leaves_with_path(want_s.param_states)}
      require(same_part(got['param_states'], want_s), 'the slots are not the optimizer\'s')
      rec.label('gradient')
    check_parts(parts(old), before, f'the state the operation "{op}" was called on')
  rec.nontrivial(len(c['ops']) > 1)


def axes(c, rec):
  """Axis names follow the parameters, and missing ones are refused."""
  state = filled(c)
  la = state.as_logical_axes()
  def spec(tree):
    return {'/'.join(k): v for k, v in traverse_util.flatten_dict(flax.core.unfreeze(tree), is_leaf=lambda k, v: isinstance(v, PartitionSpec)).items()} if tree else {}
  got = spec(la.params)
  want = {'/'.join(p['path']): tuple(p['axes']) for p in c['params']}
  require({k: tuple(v) for k, v in got.items()} == want, lambda: f'axis names {got}, expected {want}')
  got = spec(la.flax_mutables)
  want = {c['mut_name'] + '/' + '/'.join(p['path']): tuple(p['axes']) for p in c['mut']}
  require({k: tuple(v) for k, v in got.items()} == want, lambda: f'axis names of mutables {got}, expected {want}')
  # Dropping one parameter's names is refused.
  v = flax.core.unfreeze(sc.variables(c))
  for col in ['params'] + ([c['mut_name']] if c['mut'] else []):
    w = copy.copy(v)
    flat = traverse_util.flatten_dict(w[col + '_axes'])
    victim = sorted(flat)[c['seed'] % len(flat)]
    flat.pop(victim)
    w[col + '_axes'] = traverse_util.unflatten_dict(flat)
    if not flat:
      continue
    make = (lambda: ts.InferenceState.create(flax.core.freeze(w))) if c['opt'] == 'inference' else (lambda: ts.FlaxOptimTrainState.create(sc.optimizer_def(c['opt']), flax.core.freeze(w)))  # pylint: disable=cell-var-from-loop
    e = raises(make, ValueError)
    require(e is not None, lambda: f'names of {victim} are missing in {col}_axes, and no error is raised')  # pylint: disable=cell-var-from-loop
    rec.label('missing names refused')
  rec.nontrivial(len(c['params']) > 1)


SUBS = [Sub('roundtrip', roundtrip, strategy=sc.state_case(), quick=60, thorough=6000, weight=2, timeout=60),
        Sub('operations', ops, strategy=op_case(), quick=50, thorough=6000, weight=3, timeout=60),
        Sub('axes', axes, strategy=sc.state_case(), quick=50, thorough=6000, weight=1, timeout=60)]
