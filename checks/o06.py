"""O06: learning-rate schedules equal their documented formula at every step."""
import math

import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from core import Sub, raises, require
from t5x import utils

BUDGET = (12, 600)
FACTORS = ['constant', 'linear_warmup', 'linear_decay', 'rsqrt_decay', 'rsqrt_normalized_decay', 'decay_every', 'cosine_decay']


@st.composite
def sched_case(draw):
  warm = draw(st.one_of(st.integers(1, 20), st.sampled_from([100, 1000, 10000])))
  per_decay = draw(st.one_of(st.integers(1, 30), st.sampled_from([1000, 20000])))
  cycle = draw(st.one_of(st.integers(1, 40), st.sampled_from([1000, 100000])))
  off = draw(st.sampled_from([0, 0, 0, 1, 7, 100, 5000]))
  near = [0, 1, warm - 1, warm, warm + 1, per_decay - 1, per_decay, per_decay + 1, 2 * per_decay, warm + cycle - 1, warm + cycle, warm + cycle + 1, warm + 2 * cycle, warm + cycle // 2]
  step = st.one_of(st.sampled_from(near).map(lambda s: s + off), st.integers(0, 300), st.integers(0, 2000000), st.sampled_from(near))
  return dict(factors=draw(st.lists(st.sampled_from(FACTORS), min_size=1, max_size=4)), sep=draw(st.sampled_from([' * ', '*', ' *', '  *  '])),
              base=draw(st.sampled_from([1.0, 0.5, 0.01, 3.0, 1e-4])), warm=warm, decay=draw(st.sampled_from([0.5, 0.9, 0.1, 0.001, 1.0])), per_decay=per_decay,
              cycle=cycle, off=off, minimum=draw(st.sampled_from([1e-8, 1e-8, 0.0, 1e-3, 0.1])), steps=draw(st.lists(step, min_size=1, max_size=6)),
              how=draw(st.sampled_from(['int', 'jnp', 'np', 'jit'])))


def formula(c, step):
  """The documented product, and a bound on its float32 rounding."""
  s = max(0, step - c['off'])
  w = c['warm']
  r, err = 1.0, 1e-5
  for f in c['factors']:
    if f == 'constant':
      r *= c['base']
    elif f == 'linear_warmup':
      r *= min(1.0, s / w)
    elif f == 'linear_decay':
      v = min(s / w, 1.0 + c['decay'] * (w - s))
      err += 1e-6 * (1 + c['decay'] * s) / max(abs(v), 1e-9)
      r *= c['base'] * v
    elif f == 'rsqrt_decay':
      r /= math.sqrt(max(s, w))
    elif f == 'rsqrt_normalized_decay':
      r /= math.sqrt(max(s / w, 1.0))
    elif f == 'decay_every':
      n = s // c['per_decay']
      err += 2e-6 * n
      r *= c['decay'] ** n
    elif f == 'cosine_decay':
      p = max(0.0, (s - w) / c['cycle'])
      v = max(0.0, 0.5 * (1.0 + math.cos(math.pi * (p % 1.0))))
      # Rounding of the progress, which jumps at the end of a cycle.
      eps = 3e-7 * max(p, 1.0)
      frac = p % 1.0
      if min(frac, 1 - frac) <= eps and p > 0.5:
        return None, None
      err += 4 * eps / max(v, 1e-9)
      r *= v
  return r, err


def schedule(c, rec):
  fn = utils.create_learning_rate_scheduler(
      factors=c['sep'].join(c['factors']), base_learning_rate=c['base'], warmup_steps=c['warm'], decay_factor=c['decay'],
      steps_per_decay=c['per_decay'], steps_per_cycle=c['cycle'], step_offset=c['off'], min_learning_rate=c['minimum'])
  if c['how'] == 'jit':
    fn = jax.jit(fn)
  conv = dict(int=int, jnp=lambda s: jnp.asarray(s, jnp.int32), np=np.int32, jit=lambda s: jnp.asarray(s, jnp.int32))[c['how']]
  got = [fn(conv(s)) for s in c['steps']]
  for s, g in zip(c['steps'], got):
    require(g.dtype == jnp.float32 and g.shape == (), lambda: f'{g.dtype}{g.shape}')
    g = float(g)
    want, err = formula(c, s)
    if want is None:
      continue
    tol = abs(want) * err + 1e-12
    lo = max(want - tol, c['minimum'])
    hi = max(want + tol, c['minimum'])
    require(lo * (1 - 1e-5) - 1e-12 <= g <= hi * (1 + 1e-5) + 1e-12, lambda: f'step {s}: rate {g}, formula {want} (at least {c["minimum"]}); {c}')
    require(g >= 0, lambda: f'step {s}: negative rate {g}')
    rec.label('floor', want < c['minimum'])
    rec.label('past warm-up', s - c['off'] > c['warm'])
  rec.nontrivial(len(set(c['factors'])) > 1)


def defaults(c, rec):
  fn = utils.create_learning_rate_scheduler()
  d = dict(factors=['constant', 'linear_warmup', 'rsqrt_decay'], base=0.5, warm=1000, decay=0.5, per_decay=20000, cycle=100000, off=0)
  for s in (0, 1, 500, 999, 1000, 1001, 5000, 10**6):
    want, _ = formula(d, s)
    require(math.isclose(float(fn(s)), max(want, 1e-8), rel_tol=1e-4), lambda: f'default schedule at {s}: {float(fn(s))}, documented {want}')  # pylint: disable=cell-var-from-loop
  rec.nontrivial()


@st.composite
def unknown_case(draw):
  return dict(bad=draw(st.sampled_from(['', 'Constant', 'const', 'rsqrt', 'linear-decay', 'decay', 'cosine', '1', 'constant_', 'linear_warmup linear_decay'])),
              good=draw(st.lists(st.sampled_from(FACTORS), max_size=3)), at=draw(st.integers(0, 3)))


def unknown(c, rec):
  fs = list(c['good'])
  fs.insert(c['at'], c['bad'])
  def go():
    return utils.create_learning_rate_scheduler(' * '.join(fs))(5)
  require(raises(go, ValueError), lambda: f'factors {fs} accepted')
  rec.nontrivial()


SUBS = [Sub('schedule', schedule, strategy=sched_case(), quick=250, thorough=30000, weight=3),
        Sub('defaults', defaults, cases=lambda rng, tier: [dict(i=0)], weight=.2),
        Sub('unknown', unknown, strategy=unknown_case(), quick=40, thorough=400, weight=.3)]
