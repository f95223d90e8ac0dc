"""D05: threshold searches are exact."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from core import Sub, require

BUDGET = (35, 1200)
FMAX = float(np.finfo(np.float32).max)


def bits(u):
  return np.array(u, np.uint32).view(np.float32)


special = st.sampled_from([0.0, -0.0, 1.0, -1.0, FMAX, -FMAX, 1.17549435e-38, -1.17549435e-38, 1e-30, -1e-30, 1e7, -1e7,
                           2.0, 3.4e37, 0.5, 16777216.0, -16777217.0])
floats = st.one_of(special, st.floats(-10, 10, width=32), st.floats(width=32, allow_nan=False, allow_infinity=False))


def ftz(a):
  """The platform flushes denormals to zero in comparisons; keep them out of ambiguity."""
  a = np.asarray(a, np.float32)
  return np.where(np.abs(a) < 1.17549435e-38, np.float32(0), a)


@functools.lru_cache(maxsize=None)
def topk_fn(shape, k, traced, rv):
  from t5x import binary_search
  if traced:
    f = jax.jit(lambda x, k, rv: binary_search.topk_mask(x, k, rv))
    return lambda x, kk: f(x, np.int32(kk), np.float32(rv))
  return jax.jit(lambda x, kk: binary_search.topk_mask(x, k, rv), static_argnums=1)


@st.composite
def topk_case(draw):
  shape = draw(st.sampled_from([[5], [1], [9], [2, 6], [3, 1], [2, 3, 4], [4, 17]]))
  n = int(np.prod(shape))
  rows = []
  for _ in range(draw(st.integers(1, 4))):
    el = draw(st.sampled_from(['any', 'ties', 'inf', 'normal']))
    if el == 'ties':
      rows.append(draw(st.lists(st.sampled_from([1.0, -1.0, 0.0, -0.0, 2.5]), min_size=n, max_size=n)))
    elif el == 'inf':
      rows.append(draw(st.lists(st.one_of(floats, st.just(float('inf'))), min_size=n, max_size=n)))
    elif el == 'normal':
      rows.append((np.random.RandomState(draw(st.integers(0, 2**31 - 1))).randn(n) * 3).astype(np.float32).tolist())
    else:
      rows.append(draw(st.lists(floats, min_size=n, max_size=n)))
  return dict(shape=shape, rows=rows, k=draw(st.integers(1, shape[-1])), traced=draw(st.booleans()),
              rv=draw(st.sampled_from([-1e7, 0.0, -12.5])))


def check_topk(c, rec):
  fn = topk_fn(tuple(c['shape']), c['k'] if not c['traced'] else 0, c['traced'], c['rv'])
  for row in c['rows']:
    x = ftz(row).reshape(c['shape'])
    out = np.asarray(fn(x, c['k']))
    thr = np.sort(x, axis=-1)[..., ::-1][..., c['k'] - 1:c['k']]
    want = np.where(x >= thr, x, np.float32(c['rv']))
    require(out.shape == x.shape and out.dtype == x.dtype, 'shape or dtype changed')
    require((out == want).all(), f'k={c["k"]} x={x.tolist()} -> {out.tolist()}, want {want.tolist()}')
    rec.nontrivial(c['k'] < c['shape'][-1] and len(set(x.ravel().tolist())) > 1)
    rec.label('ties at the cutoff', (np.sum(x >= thr, axis=-1) > c['k']).any())


@functools.lru_cache(maxsize=None)
def topp_fn(shape, p, rv):
  from t5x import binary_search
  f = jax.jit(lambda x, p: binary_search.topp_mask(x, p, rv))
  return f


@st.composite
def topp_case(draw):
  shape = draw(st.sampled_from([[4], [1], [8], [2, 5], [2, 3, 4], [3, 33]]))
  return dict(shape=shape, rv=draw(st.sampled_from([-3e7, 0.12345])),
              draws=draw(st.lists(st.fixed_dictionaries(dict(
                  seed=st.integers(0, 2**31 - 1), kind=st.sampled_from(['normal', 'ties', 'peaked', 'masked', 'flat', 'exact']),
                  p=st.one_of(st.sampled_from([0.0, 1e-6, 0.1, 0.25, 0.5, 0.75, 0.9, 0.999, 1.0]), st.floats(0.001, 0.999)),
                  shift=st.sampled_from([0.0, 0.0, 50.0, -1000.0]))), min_size=1, max_size=6)))


def check_topp(c, rec):
  fn = topp_fn(tuple(c['shape']), None, c['rv'])
  for d in c['draws']:
    rng = np.random.RandomState(d['seed'])
    x = rng.randn(*c['shape']).astype(np.float32)
    if d['kind'] == 'ties':
      x = np.round(x)
    elif d['kind'] == 'peaked':
      x = x * 5
    elif d['kind'] == 'flat':
      x = x * 0
    elif d['kind'] == 'masked':
      x = np.where(rng.rand(*c['shape']) < 0.4, np.float32(-1e7), x)
      x[..., 0] = 0.5
    elif d['kind'] == 'exact':
      # A power of two of equal entries, the others impossible: the probabilities are exact, so p may meet them.
      n = 2 ** rng.randint(0, int(np.log2(c['shape'][-1])) + 1)
      x = np.where(np.argsort(rng.rand(*c['shape']), axis=-1) < n, np.float32(0), np.float32(-1e7))
      d = dict(d, shift=0.0, p=rng.choice([1.0, 1.0, d['p']]))
    x = (x + np.float32(d['shift'])).astype(np.float32)
    out = np.asarray(fn(x, np.float32(d['p'])))
    require(out.shape == x.shape and out.dtype == x.dtype, 'shape or dtype changed')
    flat, fo = x.reshape(-1, c['shape'][-1]), out.reshape(-1, c['shape'][-1])
    for r, o in zip(flat, fo):
      if d['p'] == 0:
        continue
      z = r.astype(np.float64)
      e = np.exp(z - z.max())
      pr = e / e.sum()
      rv = np.float32(c['rv'])
      kept = o != rv
      ctx = f'p={d["p"]} logits={r.tolist()} -> {o.tolist()}; probabilities {pr.tolist()}'
      require((o[kept] == r[kept]).all(), 'kept values changed; ' + ctx)
      require(kept.any(), 'nothing kept; ' + ctx)
      low = pr[kept].min()
      require(kept.all() or pr[~kept].max() <= low * (1 + 1e-5) + 1e-12, 'kept a less likely entry; ' + ctx)
      require(pr[kept].sum() >= d['p'] - 1e-5, 'kept mass below p; ' + ctx)
      strict = pr[pr > low * (1 + 1e-5)].sum()
      if d['kind'] == 'exact':
        require((kept == (r == 0)).all(), 'kept other entries than the possible ones; ' + ctx)
      require(strict < d['p'] + 1e-5, 'kept more than needed; ' + ctx)
      rec.nontrivial(0 < d['p'] < 1 and len(r) > 1)


@functools.lru_cache(maxsize=None)
def int_fn(shape):
  from t5x import binary_search
  return jax.jit(lambda t: binary_search.int32_bsearch(shape, lambda x: x > t))


@functools.lru_cache(maxsize=None)
def float_fn(shape):
  from t5x import binary_search
  return jax.jit(lambda t: binary_search.float32_bsearch(shape, lambda x: x > t)), jax.jit(
      lambda t: binary_search.float32_bsearch(shape, lambda x: ~(x < t)))


ints = st.one_of(st.integers(-2**31, 2**31 - 1), st.sampled_from(
    [-2**31, -2**31 + 1, -1, 0, 1, 2**31 - 1, 2**31 - 2, 2**30, -2**30, 65536]))
shapes = st.sampled_from([[], [1], [6], [2, 3]])


@st.composite
def int_case(draw):
  shape = draw(shapes)
  n = int(np.prod(shape))
  return dict(shape=shape, rows=draw(st.lists(st.lists(ints, min_size=n, max_size=n), min_size=1, max_size=8)))


def check_int(c, rec):
  fn = int_fn(tuple(c['shape']))
  for row in c['rows']:
    t = np.array(row, np.int64).astype(np.int32).reshape(c['shape'])
    out = np.asarray(fn(t))
    require(out.shape == t.shape and out.dtype == np.int32 and (out == t).all(),
            f'largest value not above {t.tolist()} found as {out.tolist()}')
  rec.nontrivial(True)


@st.composite
def float_case(draw):
  shape = draw(shapes)
  n = int(np.prod(shape))
  return dict(shape=shape, rows=draw(st.lists(st.lists(floats, min_size=n, max_size=n), min_size=1, max_size=8)))


def check_float(c, rec):
  gt, ge = float_fn(tuple(c['shape']))
  for row in c['rows']:
    t = ftz(row).reshape(c['shape'])
    out = np.asarray(gt(t))
    # Largest float that is not > t: t itself (denormals compare equal to 0).
    require(out.shape == t.shape and out.dtype == np.float32 and np.isfinite(out).all() and (ftz(out) == t).all(),
            f'largest float not above {t.tolist()} found as {out.tolist()}')
    # Largest float below t.
    out = np.asarray(ge(t))
    want = np.nextafter(t, np.float32(-np.inf))
    lowest = t == -FMAX  # predicate always true: no answer to give
    zero = (t == 0) | (np.abs(t) <= 1.1754945e-38)
    require(((out == want) | lowest | zero).all(), f'largest float below {t.tolist()} found as {out.tolist()}')
    require(((out < 0) | ~(t == 0)).all(), f'largest float below 0 found as {out.tolist()}')
  rec.nontrivial(True)


SUBS = [
    Sub('top-k-mask', check_topk, strategy=topk_case(), quick=400, thorough=8000, weight=2),
    Sub('top-p-mask', check_topp, strategy=topp_case(), quick=400, thorough=8000, weight=2),
    Sub('int-search', check_int, strategy=int_case(), quick=400, thorough=8000),
    Sub('float-search', check_float, strategy=float_case(), quick=400, thorough=8000),
]
