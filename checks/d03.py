"""D03: sampling stays inside the cutoff and follows the renormalised distribution."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from core import Sub, Violation, require

BUDGET = (30, 1500)
N = 2048


@functools.lru_cache(maxsize=None)
def compiled(v, mode, k, p, nd, l):
  from t5x import decoding
  eos = v  # never produced

  @jax.jit
  def run(logits, temp, kt, pt, rng):
    def t2l(state):
      return jnp.broadcast_to(logits, (state.cur_token.shape[0], v)), state.cache

    kw = dict(topk=0)
    if mode in ('k', 'kt'):
      kw = dict(topk=k if mode == 'k' else kt)
    elif mode in ('p', 'pt'):
      kw = dict(topk=0, topp=p if mode == 'p' else pt)
    elif mode == 'dyn':  # both dynamic, at most one non-zero
      kw = dict(topk=kt, topp=pt)
    return decoding.temperature_sample(
        jnp.zeros((N // nd, l), jnp.int32), {'c': jnp.zeros((N // nd, 1))}, t2l, eos, decode_rng=rng,
        num_decodes=nd, temperature=temp, rescale_log_probs=True, **kw)

  return run


@st.composite
def case(draw):
  v = draw(st.sampled_from([2, 3, 5, 9, 40]))
  kind = draw(st.sampled_from(['normal', 'ties', 'peaked', 'flat', 'masked', 'huge']))
  return dict(v=v, kind=kind, seed=draw(st.integers(0, 2**31 - 1)),
              mode=draw(st.sampled_from(['k', 'kt', 'p', 'pt', 'none', 'dyn', 'dyn'])),
              k=draw(st.integers(1, v)), p=draw(st.sampled_from([0.01, 0.2, 0.5, 0.8, 0.9, 0.99, 1.0])),
              zero=draw(st.sampled_from([0, 1, 2, 3])),
              temp=draw(st.sampled_from([0.2, 0.7, 1.0, 1.5, 4.0])), l=draw(st.sampled_from([1, 3])),
              nd=draw(st.sampled_from([1, 2, 4])))


def make_logits(c):
  rng = np.random.RandomState(c['seed'])
  v = c['v']
  z = rng.randn(v).astype(np.float32)
  if c['kind'] == 'ties':
    z = np.round(z).astype(np.float32)
  elif c['kind'] == 'peaked':
    z = z * 6
  elif c['kind'] == 'flat':
    z = z * 0
  elif c['kind'] == 'masked':
    z[rng.permutation(v)[: v // 2]] = -1e7
  elif c['kind'] == 'huge':
    z = z * 1e4
  return z


def candidate_sets(z, temp, k, p):
  """All candidate sets permitted by rounding (more than one only at a boundary)."""
  s = z.astype(np.float64) / np.float64(np.float32(temp))
  if k:
    thr = np.sort(z)[::-1][k - 1]
    s = np.where(z >= thr, s, -np.inf)
  if p:
    e = np.exp(s - s.max())
    probs = e / e.sum()
    order = np.sort(probs)[::-1]
    cum = np.cumsum(order)
    sets = []
    for eps in (-3e-6, 3e-6):
      n = min(int(np.searchsorted(cum, p + eps, side='left')), len(z) - 1)
      keep = probs >= order[n] * (1 - 1e-6)
      if p + eps > cum[-1] or p >= 1:
        keep = probs > 0
      sets.append(keep)
    return [np.where(q, s, -np.inf) for q in sets]
  return [s]


def check(c, rec):
  z = make_logits(c)
  k, p = 0, 0.0
  if c['mode'] in ('k', 'kt'):
    k = c['k']
  elif c['mode'] in ('p', 'pt'):
    p = c['p']
  elif c['mode'] == 'dyn':
    if c['zero'] in (0, 2):
      p = c['p']
    if c['zero'] == 1:
      k = c['k']
  fn = compiled(c['v'], c['mode'], c['k'] if c['mode'] == 'k' else None,
                c['p'] if c['mode'] == 'p' else None, c['nd'], c['l'])
  dec, lp = fn(z, np.float32(c['temp']), np.int32(k), np.float32(p), jax.random.PRNGKey(c['seed']))
  dec, lp = np.asarray(dec).reshape(-1, c['l']), np.asarray(lp).reshape(-1)
  toks = dec.reshape(-1)
  counts = np.bincount(toks, minlength=c['v'])
  require(len(counts) == c['v'], f'tokens outside the vocabulary: {counts}')
  problems = []
  for s in candidate_sets(z, c['temp'], k, p):
    e = np.exp(s - s.max())
    probs = e / e.sum()
    bad = [int(t) for t in np.flatnonzero((probs < 1e-12) & (counts > 0))]
    n = len(toks)
    exp = probs * n
    msg = None
    if bad:
      msg = f'emitted tokens {bad} outside the cutoff (candidates {np.flatnonzero(probs > 0).tolist()})'
    else:
      # Binomial tail bound (Bernstein), failure probability below 1e-12 per token.
      dev = np.abs(counts - exp)
      bound = np.sqrt(2 * exp * (1 - probs) * 30) + 2 * 30 / 3
      if (dev > bound).any():
        msg = f'token frequencies {counts.tolist()} of {n} but the distribution expects {np.round(exp, 1).tolist()}'
      else:
        with np.errstate(divide='ignore'):
          want = np.log(probs)[dec].sum(-1)
        err = np.abs(want - lp)
        if (err > 1e-3 * (1 + np.abs(want)) * (20 if c['kind'] == 'huge' else 1)).any():
          i = int(err.argmax())
          msg = f'score {lp[i]} of {dec[i].tolist()} should be {want[i]}'
        elif c['l'] > 1 and np.sort(probs)[::-1][:2].min() > 0.05:
          # Successive steps and different rows must be drawn independently.
          pairs = (dec[:, 0] == dec[:, 1])
          m = (probs**2).sum() * len(dec)
          b2 = np.sqrt(2 * m * 30) + 20
          if abs(pairs.sum() - m) > b2:
            msg = f'successive draws are correlated: {pairs.sum()} of {len(dec)} equal, expected {m:.0f}'
    if msg is None:
      problems = []
      break
    problems.append(msg)
  require(not problems, lambda: f'k={k} p={p} temperature={c["temp"]} logits={z.tolist()}: {problems}')
  rec.nontrivial((k and k < c['v']) or (p and p < 1))
  rec.label(c['mode'])
  rec.label('kind ' + c['kind'])
  rec.label('dynamic cutoff switched off', c['mode'] == 'dyn' and not (k and p))


def check_reject(c, rec):
  from t5x import decoding
  try:
    decoding.temperature_sample(
        jnp.zeros((1, 2), jnp.int32), {'c': jnp.zeros((1, 1))},
        lambda s: (jnp.zeros((1, 4)), s.cache), 1, topk=c['k'], topp=c['p'])
  except ValueError:
    rec.nontrivial()
    return
  raise Violation('both cutoffs at once were accepted')


@st.composite
def mixed_temps(draw):
  return dict(v=draw(st.sampled_from([3, 6])), seed=draw(st.integers(0, 2**31 - 1)),
              k=draw(st.integers(0, 3)), nd=draw(st.sampled_from([1, 2])),
              temps=draw(st.lists(st.sampled_from([0.0, 0.1, 1.0, 3.0]), min_size=2, max_size=4)))


def check_mixed(c, rec):
  """Per-example temperatures: each example gets its own distribution."""
  from t5x import decoding
  nb = len(c['temps'])
  rep = 512
  z = np.random.RandomState(c['seed']).randn(c['v']).astype(np.float32)
  temps = np.repeat(np.array(c['temps'], np.float32), rep)
  fn = jax.jit(lambda z, temps, rng: decoding.temperature_sample(
      jnp.zeros((nb * rep, 1), jnp.int32), {'c': jnp.zeros((nb * rep, 1))},
      lambda s: (jnp.broadcast_to(z, (s.cur_token.shape[0], c['v'])), s.cache), c['v'],
      decode_rng=rng, num_decodes=c['nd'], temperature=temps, topk=c['k']))
  dec, _ = fn(z, temps, jax.random.PRNGKey(c['seed']))
  dec = np.asarray(dec).reshape(nb, -1)
  for i, t in enumerate(c['temps']):
    counts = np.bincount(dec[i], minlength=c['v'])
    if t == 0:
      require(counts[z.argmax()] == len(dec[i]), f'temperature 0 is not greedy: {counts}')
      continue
    [s] = candidate_sets(z, t, c['k'], 0)
    probs = np.exp(s - s.max())
    probs /= probs.sum()
    exp = probs * len(dec[i])
    require((np.abs(counts - exp) <= np.sqrt(2 * exp * 30) + 20).all() and (counts[probs == 0] == 0).all(),
            f'temperature {t} k={c["k"]}: {counts.tolist()} expected {np.round(exp, 1).tolist()}')
  rec.nontrivial(len(set(c['temps'])) > 1)


SUBS = [
    Sub('distribution', check, strategy=case(), quick=300, thorough=8000, weight=3),
    Sub('per-example-temperature', check_mixed, strategy=mixed_temps(), quick=15, thorough=400, weight=1),
    Sub('both-cutoffs', check_reject, strategy=st.fixed_dictionaries(dict(
        k=st.integers(1, 5), p=st.floats(0.01, 1.0))), quick=5, thorough=20, weight=0.1, shards=1),
]
