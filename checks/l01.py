"""L01: cross-entropy with z-loss: value and gradient."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from core import Sub, require

BUDGET = (30, 900)


@functools.lru_cache(maxsize=None)
def fns(shape, dtype, zmode):
  from t5x import losses
  del shape, dtype, zmode
  f = losses.cross_entropy_with_logits

  def grad(x, t, z, g):
    val, vjp = jax.vjp(lambda a, b: f(a, b, z), x, t)
    return val, vjp(g)

  return jax.jit(f), jax.jit(grad)


@st.composite
def case(draw):
  shape = draw(st.sampled_from([[1, 1, 1], [1, 1, 2], [2, 3, 4], [1, 2, 17], [3, 5], [6]]))
  return dict(shape=shape, dtype=draw(st.sampled_from(['float32', 'float32', 'bfloat16'])),
              draws=draw(st.lists(st.fixed_dictionaries(dict(
                  seed=st.integers(0, 2**31 - 1), scale=st.sampled_from([0.0, 0.1, 1.0, 10.0, 100.0]),
                  shift=st.sampled_from([0.0, 0.0, 30.0, -30.0, 500.0, -500.0]),
                  targets=st.sampled_from(['onehot', 'smooth', 'soft', 'zero', 'unnormalised']),
                  z=st.sampled_from([0.0, 1e-4, 0.01, 1.0]), gz=st.booleans(),
                  g=st.sampled_from(['ones', 'random', 'negative', 'sparse']))), min_size=1, max_size=5)))


def check(c, rec):
  shape = tuple(c['shape'])
  run, grad = fns(shape, c['dtype'], None)
  for d in c['draws']:
    rng = np.random.RandomState(d['seed'])
    x = jnp.asarray(rng.randn(*shape) * d['scale'] + d['shift'], c['dtype'])
    v = shape[-1]
    idx = rng.randint(0, v, size=shape[:-1])
    t = np.eye(v)[idx]
    if d['targets'] == 'smooth':
      t = t * 0.9 + 0.1 / v
    elif d['targets'] == 'soft':
      t = rng.dirichlet(np.ones(v), size=shape[:-1])
    elif d['targets'] == 'zero':
      t = t * 0
    elif d['targets'] == 'unnormalised':
      t = rng.rand(*shape) * 2
    t = jnp.asarray(t, c['dtype'])
    g = np.ones(shape[:-1])
    if d['g'] == 'random':
      g = rng.randn(*shape[:-1])
    elif d['g'] == 'negative':
      g = -2 * g
    elif d['g'] == 'sparse':
      g = g * (rng.rand(*shape[:-1]) < 0.5)
    g = jnp.asarray(g, c['dtype'])
    # The z-loss output is for logging only: its cotangent must not matter.
    gz = jnp.asarray(rng.randn(*shape[:-1]) if d['gz'] else np.zeros(shape[:-1]), c['dtype'])
    X, T, G = (np.asarray(a, np.float64) for a in (x, t, g))
    m = X.max(-1, keepdims=True)
    lz = np.log(np.exp(X - m).sum(-1, keepdims=True)) + m
    ls = X - lz
    z = float(np.float32(d['z']))
    zl = z * lz[..., 0]**2
    loss = -(T * ls).sum(-1) + zl
    p = np.exp(ls)
    # d(-T.ls)/dX for targets summing to 1 is p*sum(T) - T; the code documents
    # distributions, so the general form is only used for those.
    mass = T.sum(-1, keepdims=True)
    dist = np.allclose(mass, 1, atol=1e-2)
    gx = G[..., None] * (p * (1.0 + 2 * z * lz) - T)
    gt = -G[..., None] * ls
    mag = 1 + np.abs(X).max()
    tol = (2e-2 if c['dtype'] == 'bfloat16' else 2e-6) * mag * (1 + z * mag) * max(v, 2) * 2
    ctx = f'logits {X.tolist()} targets {T.tolist()} z {z}'
    for name, (a, b) in (('value', run(x, t, d['z'])), ('value under differentiation', grad(x, t, d['z'], (g, gz))[0])):
      a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
      require(a.shape == shape[:-1] and b.shape == shape[:-1], f'{name}: shapes {a.shape} {b.shape}')
      require(np.abs(a - loss).max() <= tol * (1 + mass.max()), f'{name}: {a.tolist()} should be {loss.tolist()}; {ctx}')
      require(np.abs(b - zl).max() <= tol, f'z-loss {name}: {b.tolist()} should be {zl.tolist()}; {ctx}')
    _, (dx, dt) = grad(x, t, d['z'], (g, gz))
    require(dx.dtype == x.dtype and dt.dtype == t.dtype and dx.shape == x.shape and dt.shape == t.shape, 'gradient type')
    gtol = (3e-2 if c['dtype'] == 'bfloat16' else 5e-6) * (1 + np.abs(G).max()) * mag * (1 + z * mag)
    if dist:
      require(np.abs(np.asarray(dx, np.float64) - gx).max() <= gtol,
              f'gradient {np.asarray(dx, np.float64).tolist()} should be {gx.tolist()}; cotangent {G.tolist()}; {ctx}')
    require(np.abs(np.asarray(dt, np.float64) - gt).max() <= gtol,
            f'target gradient {np.asarray(dt, np.float64).tolist()} should be {gt.tolist()}; {ctx}')
    rec.nontrivial(v > 1 and d['scale'] > 0)
    rec.label('z-loss', z > 0)
    rec.label('soft targets', d['targets'] != 'onehot')


SUBS = [Sub('cross-entropy', check, strategy=case(), quick=300, thorough=8000)]
