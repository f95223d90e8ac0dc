"""T01: microbatched gradient accumulation equals the full-batch gradient."""
import clu.metrics
import flax
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from flax import traverse_util

from checks import state_common as sc
from core import Sub, raises, require
from t5x import metrics as mm, optimizers as o, train_state as ts, trainer

BUDGET = (25, 900)
BUF = 32


class Model:
  """A loss that is a sum over examples; with integer data every sum is exact in float32.

  Records, in the mutable variables, which examples and which randomness every call got.
  """

  def __init__(self, c):
    self.c = c

  def loss_fn(self, params, batch, rng, flax_mutables=None):
    c = self.c
    x, y, w, ids = batch['x'], batch['y'], batch['w'], batch['ids']
    pred = jnp.einsum('bf,fk->bk', x, params['dense']['kernel'].astype(jnp.float32)) + params['dense']['bias'].astype(jnp.float32)
    per = jnp.sum((pred - y) ** 2, axis=-1) * w
    if 'seq' in batch:
      per = per + jnp.sum(batch['seq'] * params['emb'].astype(jnp.float32)[None, None, :], axis=(1, 2)) * w
    loss = jnp.sum(per)
    out = {
        'loss': clu.metrics.Average(total=loss, count=jnp.sum(w)) if c['avg'] else mm.Sum.from_model_output(loss),
        'count': mm.Sum.from_model_output(jnp.sum(w)),
        'per_step': mm.AveragePerStep.from_model_output(values=loss),
        'pred': clu.metrics.Average.from_model_output(jnp.sum(pred, -1), mask=w > 0),
        'rate': mm.TimeRate.from_model_output(numerator=jnp.sum(w)),
        'steps': mm.StepsPerTime.from_model_output(),
    }
    if flax_mutables is None:
      return loss, out
    st_ = flax.core.unfreeze(flax_mutables)['log']
    n = st_['ptr']
    k = ids.shape[0]
    log = dict(ptr=n + k, calls=st_['calls'] + 1,
               ids=jax.lax.dynamic_update_slice(st_['ids'], ids.astype(jnp.int32), (n,)),
               keys=jax.lax.dynamic_update_slice(st_['keys'], rng_bits(rng)[None], (st_['calls'], 0)),
               total=st_['total'] + jnp.sum(y))
    mut = {'log': log}
    return loss, (out, flax.core.freeze(mut) if isinstance(flax_mutables, flax.core.FrozenDict) else mut)


def rng_bits(rng):
  if jax.dtypes.issubdtype(rng.dtype, jax.dtypes.prng_key):
    rng = jax.random.key_data(rng)
  return rng.astype(jnp.uint32).reshape(2)


@st.composite
def case(draw):
  n = draw(st.sampled_from([1, 2, 3, 4, 6, 8, 12, 16]))
  return dict(n=n, micro=draw(st.sampled_from([None, 0, 1, 2, 3, 4, 6, 8, 12, 16, n])), feat=draw(st.integers(1, 3)), out=draw(st.integers(1, 2)), seq=draw(st.booleans()),
              dtype=draw(st.sampled_from(['float32', 'float32', 'bfloat16'])), mutable=draw(st.booleans()), avg=draw(st.booleans()),
              order=draw(st.booleans()), weightless=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


def data(c):
  r = np.random.default_rng(c['seed'])
  i = lambda *s: r.integers(-3, 4, s).astype(np.float32)
  b = dict(x=i(c['n'], c['feat']), y=i(c['n'], c['out']), w=r.integers(0 if c['weightless'] else 1, 3, (c['n'],)).astype(np.float32), ids=r.permutation(c['n']).astype(np.int32))
  if c['seq']:
    b['seq'] = i(c['n'], 2, c['feat'])
  params = {'dense': {'kernel': i(c['feat'], c['out']), 'bias': i(c['out'])}}
  if c['seq']:
    params['emb'] = i(c['feat'])
  params = jax.tree_util.tree_map(lambda x: jnp.asarray(x, jnp.dtype(c['dtype'])), params)
  if c['order']:
    b = dict(sorted(b.items(), reverse=True))
  return {k: jnp.asarray(v) for k, v in b.items()}, params


def state_of(c, params):
  v = {'params': params}
  if c['mutable']:
    v['log'] = dict(ptr=jnp.asarray(0), calls=jnp.asarray(0), ids=-jnp.ones(BUF, jnp.int32), keys=jnp.zeros((BUF, 2), jnp.uint32), total=jnp.asarray(0.0))
  return ts.FlaxOptimTrainState.create(o.sgd(0.25, momentum=0.5), flax.core.freeze(v))


def oracle(c, b, params):
  """Loss and gradients by hand, in double precision (exact for these integers)."""
  f = lambda x: np.asarray(x).astype(np.float64)
  x, y, w = f(b['x']), f(b['y']), f(b['w'])
  k, bias = f(params['dense']['kernel']), f(params['dense']['bias'])
  pred = x @ k + bias
  res = (pred - y) * w[:, None]
  loss = float(np.sum((pred - y) ** 2 * w[:, None]))
  g = {'dense/kernel': 2 * x.T @ res, 'dense/bias': 2 * res.sum(0)}
  if c['seq']:
    s = f(b['seq'])
    loss += float(np.sum(s * f(params['emb']) * w[:, None, None]))
    g['emb'] = (s * w[:, None, None]).sum((0, 1))
  return loss, g, pred


def flat(t):
  return {'/'.join(k): v for k, v in traverse_util.flatten_dict(flax.core.unfreeze(t)).items()}


def equal(got, want, what, approx=False):
  got = np.asarray(got).astype(np.float64)
  want = np.asarray(want, np.float64)
  ok = np.allclose(got, want, rtol=.02, atol=np.abs(want).max(initial=0) * .01) if approx else got.shape == want.shape and np.array_equal(got, want)
  require(ok, lambda: f'{what}: {got}, expected {want}')


def accumulate(c, rec):
  b, params = data(c)
  state = state_of(c, params)
  model = Model(c)
  rng = jax.random.PRNGKey(c['seed'] % 1000)
  m = c['micro']
  run = lambda st_, ba, r: trainer.accumulate_grads_microbatched(model, st_, ba, r, m)
  what = f'batch of {c["n"]} in {m} microbatches'
  if m and m > 1 and c['n'] % m:
    require(raises(lambda: jax.eval_shape(run, state, b, rng), AssertionError) is not None, lambda: f'{what}: accepted although it cannot be divided evenly')
    rec.label('uneven')
    return
  snap = jax.tree_util.tree_map(np.array, (params, b))
  grads, metrics, mut = jax.jit(run)(state, b, rng)
  require(all(np.array_equal(x, y) for x, y in zip(jax.tree_util.tree_leaves(snap), jax.tree_util.tree_leaves((params, b)))), f'{what}: arguments changed')
  loss, want, pred = oracle(c, b, params)
  got = flat(grads)
  require(set(got) == set(want), lambda: f'{what}: gradients for {sorted(got)}')
  half = c['dtype'] == 'bfloat16'
  for k in want:
    equal(got[k], want[k], f'{what}: gradient of {k}', approx=half)
  w = np.asarray(b['w'], np.float64)
  calls = m if m and m > 1 else 1
  metrics = mm.set_step_metrics_num_steps(mm.set_time_metrics_duration(jax.device_get(metrics), 2.0), 1)
  val = lambda k: metrics[k].compute()
  if not c['avg']:
    equal(val('loss'), loss, f'{what}: loss')
  else:
    equal(metrics['loss'].total, loss, f'{what}: loss total')
    equal(metrics['loss'].count, w.sum(), f'{what}: loss weight')
  equal(val('count'), w.sum(), f'{what}: number of examples')
  equal(val('per_step'), loss, f'{what}: loss per step')
  equal(val('rate'), w.sum() / 2, f'{what}: examples per second')
  equal(val('steps'), 0.5, f'{what}: steps per second')
  equal(metrics['pred'].total, pred.sum(-1)[w > 0].sum(), f'{what}: summed metric')
  equal(metrics['pred'].count, (w > 0).sum(), f'{what}: counted metric')
  if not c['mutable']:
    require(mut is None, lambda: f'{what}: mutable variables {mut} out of nothing')
  else:
    log = jax.device_get(flax.core.unfreeze(mut)['log'])
    require(int(log['calls']) == calls and int(log['ptr']) == c['n'], lambda: f'{what}: the model was called {log["calls"]} times with {log["ptr"]} examples')
    ids = np.asarray(log['ids'])[:c['n']]
    require(sorted(ids) == list(range(c['n'])), lambda: f'{what}: the model saw examples {ids}')
    require(list(ids) == list(np.asarray(b['ids'])), lambda: f'{what}: examples {np.asarray(b["ids"])} were seen in the order {ids}')
    equal(log['total'], np.asarray(b['y']).sum(), f'{what}: mutable variables')
    keys = [tuple(k) for k in np.asarray(log['keys'])[:calls]]
    require(len(set(keys)) == calls, lambda: f'{what}: two microbatches got the same randomness {keys}')
    again = jax.jit(run)(state, b, jax.random.PRNGKey(c['seed'] % 1000 + 1))[2]
    other = [tuple(k) for k in np.asarray(jax.device_get(flax.core.unfreeze(again)['log'])['keys'])[:calls]]
    require(not set(other) & set(keys), lambda: f'{what}: another random key gives the same randomness {keys}')
  rec.nontrivial(calls > 1)
  rec.label('mutable', c['mutable'])


@st.composite
def step_case(draw):
  c = draw(case())
  c['dtype'] = 'float32'
  return dict(c, lr=draw(st.sampled_from([0.5, 0.125])), weights=draw(st.booleans()), start=draw(st.integers(0, 50)))


def step(c, rec):
  """One whole training step, against the optimizer on the whole-batch gradient."""
  m = c['micro']
  if m and m > 1 and c['n'] % m:
    c = dict(c, micro=c['n'])
    m = c['n']
  b, params = data(c)
  from t5x import adafactor
  d = adafactor.Adafactor(9.0, beta1=0.5, factored=False)
  state = ts.FlaxOptimTrainState(d.create(flax.core.freeze(params)), flax_mutables=state_of(c, params).flax_mutables).replace_step(jnp.asarray(c['start']))
  loss, g, _ = oracle(c, b, params)
  wm = trainer.WeightMetricsComputer() if c['weights'] else None
  run = lambda s, ba, r: trainer.train_with_lr(s, ba, jnp.asarray(c['lr']), r, Model(c), m, wm)
  new, metrics = jax.jit(run)(state, b, jax.random.PRNGKey(0))
  what = f'step with batch of {c["n"]} in {m} microbatches'
  require(int(new.step) == c['start'] + 1, lambda: f'{what}: step {new.step} from {c["start"]}')
  gt = traverse_util.unflatten_dict({tuple(k.split('/')): jnp.asarray(x, jnp.float32) for k, x in g.items()})
  ref = jax.jit(lambda s, gr: s.apply_gradient(gr, learning_rate=c['lr']))(state, flax.core.freeze(gt))
  a, r = flat(new.params), flat(ref.params)
  for k in r:
    require(np.allclose(a[k], r[k], rtol=1e-5, atol=1e-6), lambda: f'{what}: {k} became {a[k]}, expected {r[k]}')  # pylint: disable=cell-var-from-loop
  if c['mutable']:
    equal(new.flax_mutables['log']['total'], np.asarray(b['y']).sum(), f'{what}: mutable variables in the new state')
  vals = {k: np.asarray(x.compute()) for k, x in mm.set_step_metrics_num_steps(mm.set_time_metrics_duration(jax.device_get(metrics), 1.0), 1).items()}
  equal(vals['learning_rate'], c['lr'], f'{what}: reported learning rate')
  equal(vals['learning_rate/current'], c['lr'], f'{what}: reported learning rate')
  if c['weights']:
    near = lambda got, w, name: require(np.allclose(got, w, rtol=2e-5, atol=1e-6, equal_nan=True), lambda: f'{what}: {name} is {got}, expected {w}')
    near(vals['weight_gradient_norm'], np.sqrt(sum((x ** 2).sum() for x in g.values())), 'gradient norm')
    old = flat(params)
    for k in r:
      n, p = np.asarray(a[k], np.float64), np.asarray(old[k], np.float64)
      near(vals[f'weight_rms/{k}'], np.sqrt((n ** 2).mean()), f'rms of {k}')
      near(vals[f'weight_gradient_rms/{k}'], np.sqrt((g[k] ** 2).mean()), f'gradient rms of {k}')
      near(vals[f'weight_update_rms/{k}'], np.sqrt(((n - p) ** 2).mean()), f'update rms of {k}')
      near(vals[f'weight_max/{k}'], np.abs(n).max(), f'maximum of {k}')
      if (p != 0).all():
        near(vals[f'weight_update_divided_by_weight_rms/{k}'], np.sqrt((((n - p) / p) ** 2).mean()), f'relative update of {k}')
  rec.nontrivial(bool(m and m > 1))


SUBS = [Sub('accumulate', accumulate, strategy=case(), quick=35, thorough=4000, weight=3, timeout=120),
        Sub('step', step, strategy=step_case(), quick=12, thorough=1500, weight=1, timeout=120)]
