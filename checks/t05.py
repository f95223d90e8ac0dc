"""T05: reported metrics are those of the steps and datasets they name."""
import time

import clu.metrics
import flax
from flax import struct
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from clu import metric_writers
from jax.sharding import PartitionSpec

from checks import train_common as tc
from core import Sub, require
from t5x import metrics as mm, optimizers as o, train_state as ts, trainer

BUDGET = (30, 900)
NAMES = ['t', 'evaluation/two', 'v_3']
F = 2


@struct.dataclass
class _Hyper:
  learning_rate: float


@struct.dataclass
class _State:
  n: jnp.ndarray


class Descent(o.OptimizerDef):
  """Plain gradient descent: exact for the dyadic numbers used here."""

  def __init__(self):
    super().__init__(_Hyper(9.0))

  def init_param_state(self, param):
    return _State(jnp.zeros(()))

  def init_state(self, params):
    return o.OptimizerState(jnp.asarray(0), jax.tree_util.tree_map(self.init_param_state, params))

  def apply_gradient(self, hyper_params, params, state, grads):
    new = jax.tree_util.tree_map(lambda p, g: p - hyper_params.learning_rate * g, params, grads)
    return new, o.OptimizerState(state.step + 1, state.param_states)

  def derive_logical_axes(self, optimizer, param_logical_axes):
    raise NotImplementedError()


class Model:

  def __init__(self, c):
    self.c = c

  def metrics(self, params, batch, key=None):
    x = batch['x'].astype(jnp.float32)
    w = batch['w'].astype(jnp.float32)
    pred = x.reshape(x.shape[0], -1, F).sum(1) @ params['k'].astype(jnp.float32)
    loss = jnp.sum(pred * w)
    out = {
        'loss': mm.AveragePerStep.from_model_output(values=loss),
        'weight': mm.Sum.from_model_output(jnp.sum(w)),
        'mean': clu.metrics.Average(total=loss, count=jnp.sum(w)),
        'last': clu.metrics.LastValue.from_model_output(jnp.asarray([batch['ids'].astype(jnp.float32)[0]])),
        'rate': mm.TimeRate.from_model_output(numerator=jnp.sum(w)),
        'time': mm.Time(),
        'steps_per_second': mm.StepsPerTime.from_model_output(),
    }
    if key is not None:
      out['key'] = clu.metrics.LastValue.from_model_output(jnp.asarray([jax.random.randint(key, (), 0, 1 << 20)]).astype(jnp.float32))
    return loss, out

  def loss_fn(self, params, batch, rng, flax_mutables=None):
    loss, out = self.metrics(params, batch, rng)
    if flax_mutables is None:
      return loss, out
    return loss, (out, flax.core.freeze({'log': {'n': flax_mutables['log']['n'] + jnp.sum(batch['w'].astype(jnp.float32))}}))

  def eval_fn(self, params, batch, flax_mutables=None):
    loss, out = self.metrics(params, batch)
    if flax_mutables is not None:
      out['mutable'] = mm.AveragePerStep.from_model_output(values=flax_mutables['log']['n'])
    return loss, out


class Recorder(metric_writers.MetricWriter):

  def __init__(self, name, log):
    self.name, self.log = name, log

  def write_scalars(self, step, scalars):
    self.log.append((self.name, int(step), {k: float(np.asarray(v)) for k, v in scalars.items()}))

  def write_summaries(self, *a, **k):
    pass

  write_images = write_videos = write_audios = write_texts = write_histograms = write_pointcloud = write_hparams = write_summaries

  def flush(self):
    pass

  close = flush


@st.composite
def case(draw):
  n = draw(st.integers(1, 3))
  sets = [dict(batch=draw(st.sampled_from([1, 2, 2, 4])), extra=draw(st.sampled_from([0, 0, 3])), dtype=draw(st.sampled_from(['float32', 'float32', 'int32', 'bfloat16'])), num=draw(st.integers(1, 4))) for _ in range(n)]
  if n > 1 and draw(st.booleans()):
    sets[1] = dict(sets[0], num=sets[1]['num'])
  which = st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)
  op = st.one_of(st.tuples(st.just('train'), st.integers(1, 4), st.booleans()), st.tuples(st.just('eval'), which, st.integers(0, 99)),
                 st.tuples(st.just('compile_eval'), which, st.integers(0, 99)), st.tuples(st.just('compile_train'), st.just(0), st.just(0)))
  return dict(sets=sets, ops=draw(st.lists(op, min_size=1, max_size=6)), mutable=draw(st.booleans()), micro=draw(st.sampled_from([None, 1, 2])),
              start=draw(st.sampled_from([0, 0, 1, 7])), wait=draw(st.booleans()), seed=draw(st.integers(0, 10**6)), dir=draw(st.booleans()))


def batch_of(r, n, extra, dtype):
  shape = (n, extra, F) if extra else (n, F)
  return dict(x=r.integers(-3, 4, shape).astype(jnp.dtype(dtype)), w=r.integers(0, 3, (n,)).astype(jnp.dtype(dtype)), ids=r.integers(0, 50, (n,)).astype(np.int32))


def schedule(step):
  return jnp.asarray([0.5, 0.25, 0.125, 1.0], jnp.float32)[step % 4]


LR = [0.5, 0.25, 0.125, 1.0]


class Values:
  """The metrics of a list of batches, in double precision."""

  def __init__(self):
    self.losses, self.w, self.last, self.lr, self.key = [], 0.0, None, [], None

  def add(self, k, b):
    x = np.asarray(b['x']).astype(np.float64)
    w = np.asarray(b['w']).astype(np.float64)
    xs = x.reshape(len(w), -1, F).sum(1)
    self.losses.append(float(((xs @ k) * w).sum()))
    self.w += w.sum()
    self.last = float(b['ids'][0])
    return (xs * w[:, None]).sum(0)

  def check(self, got, what, wall, floor, extra=()):
    want = dict(loss=sum(self.losses) / len(self.losses), weight=self.w, last=self.last, **dict(extra))
    if self.w:
      want['mean'] = sum(self.losses) / self.w
    for k, x in want.items():
      require(k in got and abs(got[k] - x) <= 1e-5 * max(1, abs(x)), lambda: f'{what}: {k} is {got.get(k)}, expected {x}')  # pylint: disable=cell-var-from-loop
    d = got['time']
    require(floor <= d <= wall, lambda: f'{what}: took {d} s, measured between {floor} and {wall} s')
    require(abs(got['steps_per_second'] * d - len(self.losses)) < 1e-3 * len(self.losses), lambda: f'{what}: {got["steps_per_second"]} steps per second for {len(self.losses)} steps in {d} s')
    require(abs(got['rate'] * d - self.w) <= 1e-3 * max(1, self.w), lambda: f'{what}: rate {got["rate"]} for {self.w} in {d} s')


def check(c, rec):
  r = np.random.default_rng(c['seed'])
  log = []
  ticks = [0]
  real_time, real_writer = getattr(trainer, '_time', None), metric_writers.create_default_writer

  def clock():
    t = time.time()
    ticks[0] += 1
    return t

  k = r.integers(-2, 3, (F,)).astype(np.float64)
  v = {'params': {'k': jnp.asarray(k, jnp.float32)}}
  if c['mutable']:
    v['log'] = {'n': jnp.asarray(0.0)}
  v = flax.core.freeze(v)
  state = ts.FlaxOptimTrainState(Descent().create(v['params']), flax_mutables=v.pop('params')[0]).replace_step(jnp.asarray(c['start']))
  axes = jax.tree_util.tree_map(lambda x: PartitionSpec(), state)
  key = jax.random.PRNGKey(c['seed'])
  micro = c['micro']
  metric_writers.create_default_writer = lambda logdir, *, collection=None, **kw: Recorder(collection, log)
  if real_time is not None:
    trainer._time = clock  # pylint: disable=protected-access
  names = NAMES[:len(c['sets'])]
  try:
    t = trainer.Trainer(Model(c), state, tc.partitioner(), names, '/nowhere' if c['dir'] else None, axes, key, schedule, micro)
    with t:
      step, total, expected, wants = c['start'], 0.0, [], []
      for op, arg, how in c['ops']:
        what = f'after {c["start"]} steps, {c["ops"]}: {op} {arg} at step {step}'
        if op == 'train':
          vals, batches = Values(), [batch_of(r, 4, 0, 'float32') for _ in range(arg)]
          used = []
          sleep = 0.004
          waited = [False]
          before = ticks[0]

          def source():
            end = time.time() + 2
            while real_time is not None and c['wait'] and ticks[0] == before and time.time() < end:  # pylint: disable=cell-var-from-loop
              time.sleep(0.0005)
            waited[0] = ticks[0] > before  # pylint: disable=cell-var-from-loop
            for b in batches:  # pylint: disable=cell-var-from-loop
              time.sleep(sleep)  # pylint: disable=cell-var-from-loop
              used.append(b)  # pylint: disable=cell-var-from-loop
              yield b
            used.append(None)  # pylint: disable=cell-var-from-loop
            yield batch_of(np.random.default_rng(0), 4, 0, 'float32')

          t0 = time.time()
          fut = t.train(source(), arg, start_step=step if how else None)
          got = {n: float(np.asarray(x.value)) for n, x in fut.result().items()}
          wall = time.time() - t0 + 1e-3
          require(len(used) == arg and used[-1] is not None, lambda: f'{what}: took {len(used)} batches')  # pylint: disable=cell-var-from-loop
          lrs = []
          for i, b in enumerate(batches):
            g = vals.add(k, b)
            lr = LR[(step + i) % 4]
            lrs.append(lr)
            k = k - lr * g
          last = jax.random.fold_in(key, step + arg - 1)
          extra = {'learning_rate': float(np.mean(lrs)), 'learning_rate/current': lrs[-1]}
          if not (micro and micro > 1):
            extra['key'] = float(np.float32(jax.random.randint(last, (), 0, 1 << 20)))
          else:
            # With microbatches, the last value is the last microbatch's.
            vals.last = float(batches[-1]['ids'][4 - 4 // micro])
          vals.check(got, what, wall, sleep * arg * .9 if waited[0] and c['wait'] else 0.0, extra)
          total += vals.w
          step += arg
          require(int(t.train_state.step) == step, lambda: f'{what}: the state is at step {t.train_state.step}')  # pylint: disable=cell-var-from-loop
          require(np.array_equal(np.asarray(t.train_state.params['k']), k), lambda: f'{what}: parameters {t.train_state.params["k"]}, expected {k}')  # pylint: disable=cell-var-from-loop
          if c['mutable']:
            require(float(t.train_state.flax_mutables['log']['n']) == total, lambda: f'{what}: mutable variables {t.train_state.flax_mutables}, expected {total}')  # pylint: disable=cell-var-from-loop
          expected.append(('train', step, got))
          rec.nontrivial(arg > 1)
        elif op == 'eval':
          q = np.random.default_rng([how, c['seed']])
          data = {names[i]: [batch_of(q, c['sets'][i]['batch'], c['sets'][i]['extra'], c['sets'][i]['dtype']) for _ in range(c['sets'][i]['num'])] for i in arg}
          t0 = time.time()
          res = t.eval({n: iter(b) for n, b in data.items()})
          wall = time.time() - t0 + 1e-3
          require(list(res) == list(data), lambda: f'{what}: results for {list(res)}, expected {list(data)}')  # pylint: disable=cell-var-from-loop
          for n, bs in data.items():
            vals = Values()
            for b in bs:
              vals.add(k, b)
            got = {m: float(np.asarray(x.value)) for m, x in res[n].items()}
            vals.check(got, f'{what}, {n}', wall, 0.0, {'mutable': total} if c['mutable'] else {})
            expected.append((f'training_eval/{n}', step, got))
          require(int(t.train_state.step) == step and np.array_equal(np.asarray(t.train_state.params['k']), k), lambda: f'{what}: evaluation changed the state')  # pylint: disable=cell-var-from-loop
          rec.nontrivial(len(arg) > 1 or step > c['start'])
          rec.label('evaluated after compilation', any(x[0] == 'compile_eval' for x in c['ops']))
        elif op == 'compile_eval':
          q = np.random.default_rng(how)
          t.compile_eval({names[i]: {n: np.zeros_like(x) for n, x in batch_of(q, c['sets'][i]['batch'], c['sets'][i]['extra'], c['sets'][i]['dtype']).items()} for i in arg})
        else:
          t.compile_train({n: np.zeros_like(x) for n, x in batch_of(r, 4, 0, 'float32').items()})
      t.train_metrics_manager.flush()
      for m in t.eval_metrics_managers.values():
        m.flush()
    written = [w for w in log if 'loss' in w[2]]
    for coll in sorted({e[0] for e in expected} | {w[0] for w in written}):
      a = [(s, got) for n, s, got in expected if n == coll]
      b = [(s, got) for n, s, got in written if n == coll]
      require([s for s, _ in a] == [s for s, _ in b], lambda: f'{c["ops"]}: {coll} was written at steps {[s for s, _ in b]}, expected {[s for s, _ in a]}')  # pylint: disable=cell-var-from-loop
      for (s, x), (_, y) in zip(a, b):
        require(x.keys() == y.keys() and all(np.isclose(x[n], y[n], rtol=1e-6, equal_nan=True) for n in x), lambda: f'{c["ops"]}: {coll} at step {s}: written {y}, returned {x}')  # pylint: disable=cell-var-from-loop
  finally:
    metric_writers.create_default_writer = real_writer
    if real_time is not None:
      trainer._time = real_time  # pylint: disable=protected-access


SUBS = [Sub('reports', check, strategy=case(), quick=60, thorough=6000, timeout=120)]
