"""O03: optimizers act on exactly the parameters they were assigned."""
import flax
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax import struct, traverse_util

from checks import ckpt_common as cc
from checks import opt_common as oc
from checks import state_common as sc
from core import Sub, Violation, raises, require
from t5x import adafactor, optimizers as o

BUDGET = (20, 900)


@struct.dataclass
class _HP:
  learning_rate: float
  decay: float


class Momentum(o.OptimizerDef):
  """A minimal per-parameter optimizer written for this check; remembers which gradient it saw."""

  def __init__(self, lr, decay):
    super().__init__(_HP(lr, decay))

  def init_state(self, params):
    return o.OptimizerState(jnp.asarray(0, jnp.int32), jax.tree_util.tree_map(jnp.zeros_like, params))

  def apply_gradient(self, hp, params, state, grads):
    new = jax.tree_util.tree_map(lambda m, g: hp.decay * m + g, state.param_states, grads)
    return jax.tree_util.tree_map(lambda p, m: p - hp.learning_rate * m, params, new), o.OptimizerState(state.step + 1, new)


SUBS_ = {
    'adafactor': lambda: adafactor.Adafactor(0.1, min_dim_size_to_factor=2),
    'adafactor_mom': lambda: adafactor.Adafactor(0.3, beta1=0.9, min_dim_size_to_factor=2),
    'adafactor_full': lambda: adafactor.Adafactor(0.05, factored=False, decay_rate=0.6, step_offset=0),
    'momentum': lambda: Momentum(0.1, 0.9),
    'momentum2': lambda: Momentum(0.01, 0.5),
}


@st.composite
def multi_case(draw):
  params = draw(sc.flat_tree(min_size=1, max_size=6, dtypes=['float32', 'float32', 'bfloat16'], dims=(1, 2, 4), max_rank=2))
  k = draw(st.integers(1, 3))
  owner = [draw(st.integers(-1, k - 1)) for _ in params]
  over = draw(st.sampled_from([False] * 5 + [True]))
  steps = []
  for _ in range(draw(st.integers(1, 3))):
    steps.append(draw(st.sampled_from(['none', 'lr', 'lr', 'list', 'other'])))
  return dict(params=params, owner=owner, subs=[draw(st.sampled_from(sorted(SUBS_))) for _ in range(k)], overlap=over,
              frozen=draw(st.booleans()), steps=steps, seed=draw(st.integers(0, 10**6)))


def paths_of(c):
  return ['/'.join(p['path']) for p in c['params']]


def tree(c, rng, only=None, frozen=None):
  t = sc.nest([(p['path'], jnp.asarray(sc.values(rng, p['shape'], p['dtype']))) for i, p in enumerate(c['params'])])
  return t


def cut(t, names):
  flat = traverse_util.flatten_dict(t)
  return traverse_util.unflatten_dict({k: v for k, v in flat.items() if '/'.join(k) in names})


def ice(t, frozen):
  return flax.core.freeze(t) if frozen else t


def flat(t):
  return {'/'.join(k): v for k, v in traverse_util.flatten_dict(flax.core.unfreeze(t)).items()}


def plain(x):
  if isinstance(x, jax.Array) and jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key):
    x = jax.random.key_data(x)
  return np.asarray(x)


def same_tree(a, b, what):
  la, lb = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
  require(len(la) == len(lb), lambda: f'{what}: {len(la)} leaves, expected {len(lb)}')
  for x, y in zip(la, lb):
    x, y = plain(x), plain(y)
    require(x.dtype == y.dtype and x.shape == y.shape and x.tobytes() == y.tobytes(), lambda: f'{what}: {x!r}, expected {y!r}')  # pylint: disable=cell-var-from-loop


def multi(c, rec):
  names = paths_of(c)
  owner = dict(zip(names, c['owner']))
  rng = np.random.default_rng(c['seed'])
  params = tree(c, rng)
  k = len(c['subs'])
  match = lambda i: (lambda path, _: owner[path.lstrip('/')] == i or (c['overlap'] and i != 0 and path.lstrip('/') == names[0]))
  multi_def = o.MultiOptimizer([(traverse_util.ModelParamTraversal(match(i)), SUBS_[s]()) for i, s in enumerate(c['subs'])])
  hits = sum(owner[names[0]] == i or (c['overlap'] and i != 0) for i in range(k))
  make = lambda: multi_def.create(ice(params, c['frozen']))
  if hits > 1:
    require(raises(make, ValueError) is not None, lambda: f'{names[0]} is matched by {hits} optimizers and no error is raised')
    rec.label('overlap')
    rec.nontrivial()
    return
  own = {n: (c['subs'][i] if i >= 0 else None, i) for n, i in owner.items()}
  if c['overlap'] and hits == 1 and owner[names[0]] < 0:
    own[names[0]] = (c['subs'][1], 1)
  opt = make()
  alone = []
  for i, s in enumerate(c['subs']):
    mine = {n for n in names if own[n][1] == i}
    alone.append((mine, SUBS_[s]().create(cut(params, mine))))
  for step, kind in enumerate(c['steps']):
    g = tree(c, rng)
    kw = {}
    lr = [0.01 * (j + 1) for j in range(k)]
    if kind in ('lr', 'other'):
      lr = [float(2.0 ** -step)] * k
    if kind == 'lr':
      kw = dict(learning_rate=lr[0])
    elif kind == 'list':
      kw = dict(hyper_params=[h.replace(learning_rate=r) for h, r in zip(multi_def.hyper_params, lr)])
    elif kind == 'other':
      kw = dict(hyper_params=[h.replace(learning_rate=9.0) for h in multi_def.hyper_params], learning_rate=lr[0])
    old = flat(opt.target)
    opt = opt.apply_gradient(ice(g, c['frozen']), **kw)
    require(isinstance(opt.target, flax.core.FrozenDict) == c['frozen'] or not params, 'the kind of dictionary changed')
    require(int(opt.state.step) == step + 1, lambda: f'step {opt.state.step} after {step + 1} updates')  # pylint: disable=cell-var-from-loop
    got, gotps = flat(opt.target), traverse_util.flatten_dict(flax.core.unfreeze(opt.state.param_states))
    gotps = {'/'.join(q): v for q, v in gotps.items()}
    require(set(got) == set(names) == set(gotps), lambda: f'parameters {sorted(got)}, slots {sorted(gotps)}')
    new = []
    for i, (mine, a) in enumerate(alone):
      if mine:
        a = a.apply_gradient(cut(g, mine), **({} if kind == 'none' else dict(learning_rate=lr[i])))
        want, wps = flat(a.target), flat(a.state.param_states)
        for n in mine:
          same_tree(got[n], want[n], f'step {step}: {n} under {c["subs"][i]}')
          same_tree(gotps[n], wps[n], f'step {step}: slots of {n} under {c["subs"][i]}')
      new.append((mine, a))
    alone = new
    for n in names:
      if own[n][1] < 0:
        require(gotps[n] is None, lambda: f'{n} is matched by no optimizer but has slots {gotps[n]}')  # pylint: disable=cell-var-from-loop
        same_tree(got[n], old[n], f'{n}, matched by no optimizer')
  used = {i for _, i in own.values() if i >= 0}
  rec.nontrivial(len(used) > 1 or (used and any(i < 0 for _, i in own.values())))


def multi_optax(c, rec):
  """The documented combination of wrapped optax optimizers."""
  kernel = traverse_util.ModelParamTraversal(lambda p, _: 'kernel' in p)
  bias = traverse_util.ModelParamTraversal(lambda p, _: 'bias' in p)
  params = {'a': {'kernel': jnp.ones((2,)), 'bias': jnp.ones((3,))}}
  d = o.MultiOptimizer([(kernel, oc.KINDS[c['kind']]()), (bias, oc.KINDS[c['kind']]())])
  rec.nontrivial()
  try:
    opt = d.create(params).apply_gradient(params)
  except Exception as e:
    raise Violation(f'MultiOptimizer of wrapped optax optimizers ({c["kind"]}): {type(e).__name__} {e}', key='multi-of-optax-raises')
  alone = oc.KINDS[c['kind']]().create(params).apply_gradient(params)
  cc.compare(flat(opt.target), flat(alone.target), 'combined optimizer')


# --- Wrapped optax transformations ---------------------------------------------

OPTAX = {
    'adabelief': (o.adabelief, optax.adabelief, dict(b1=0.8)), 'adagrad': (o.adagrad, optax.adagrad, dict(initial_accumulator_value=0.2)),
    'adam': (o.adam, optax.adam, dict(b2=0.9, eps=1e-4)), 'adamw': (o.adamw, optax.adamw, dict(weight_decay=0.3)), 'fromage': (o.fromage, optax.fromage, dict(min_norm=1e-3)),
    'lars': (o.lars, optax.lars, dict(momentum=0.7)), 'lamb': (o.lamb, optax.lamb, dict(weight_decay=0.1)), 'lion': (o.lion, optax.lion, dict(b1=0.5)),
    'radam': (o.radam, optax.radam, dict(threshold=2.0)), 'rmsprop': (o.rmsprop, optax.rmsprop, dict(decay=0.5, centered=True)), 'sgd': (o.sgd, optax.sgd, dict(momentum=0.9, nesterov=True)),
    'yogi': (o.yogi, optax.yogi, dict(b1=0.3)), 'noisy_sgd': (o.noisy_sgd, optax.noisy_sgd, dict(seed=3)),
    'chain': (lambda lr, **k: o.chain([optax.clip_by_global_norm(0.5), optax.adamw(lr, **k)]), lambda lr, **k: optax.chain(optax.clip_by_global_norm(0.5), optax.adamw(lr, **k)), dict(b1=0.4)),
}


@st.composite
def wrap_case(draw):
  sched = draw(st.sampled_from([None, None, 'linear', 'piecewise']))
  return dict(params=draw(sc.flat_tree(min_size=1, max_size=3, dtypes=['float32', 'float32', 'bfloat16'], dims=(1, 2, 4), max_rank=2)),
              opt=draw(st.sampled_from(sorted(OPTAX))), kw=draw(st.booleans()), lr=draw(st.sampled_from([1.0, 0.1, 0.003])), sched=sched,
              passed=draw(st.sampled_from([None, 0.0, 0.7])), steps=draw(st.integers(1, 4)), restart=draw(st.integers(-1, 3)), frozen=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


def lr_of(c):
  if c['opt'] == 'fromage':
    return c['lr']
  if c['sched'] == 'linear':
    return optax.linear_schedule(c['lr'], c['lr'] / 16, 3)
  if c['sched'] == 'piecewise':
    return optax.piecewise_constant_schedule(c['lr'], {1: 0.5, 2: 0.25})
  return c['lr']


def wrap(c, rec):
  wrapped, direct, kw = OPTAX[c['opt']]
  kw = kw if c['kw'] else {}
  rng = np.random.default_rng(c['seed'])
  params = ice(tree(c, rng), c['frozen'])
  d, tx = wrapped(lr_of(c), **kw), direct(lr_of(c), **kw)
  opt = d.create(params)
  want, state = params, tx.init(params)
  same_tree(opt.state.param_states, state, 'initial state')
  for step in range(c['steps']):
    if step == c['restart']:
      opt = d.create(jax.tree_util.tree_map(lambda x: x + 1, params)).restore_state(opt.state_dict())
    g = ice(jax.tree_util.tree_map(lambda x: (x * jnp.asarray(rng.choice([1e-3, 1, 30]), x.dtype)).astype(x.dtype), tree(c, rng)), c['frozen'])
    opt = opt.apply_gradient(g, **({} if c['passed'] is None else dict(learning_rate=c['passed'])))
    upd, state = tx.update(g, state, want)
    want = optax.apply_updates(want, upd)
    require(opt.state.step == step + 1, lambda: f'step {opt.state.step}')
    same_tree(opt.target, want, f'{c["opt"]} parameters after step {step + 1}')
    same_tree(opt.state.param_states, state, f'{c["opt"]} state after step {step + 1}')
  rec.nontrivial(c['steps'] > 1)
  rec.label('restarted', 0 <= c['restart'] < c['steps'])


SUBS = [Sub('multi', multi, strategy=multi_case(), quick=60, thorough=6000, weight=3, timeout=90),
        Sub('multi_optax', multi_optax, cases=lambda rng, tier: [dict(kind=k) for k in ('adam', 'sgd_mom')], weight=.1),
        Sub('wrap', wrap, strategy=wrap_case(), quick=40, thorough=4000, weight=2, timeout=90)]
