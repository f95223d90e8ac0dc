"""L02: weighted, smoothed and normalised loss."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from core import Sub, Violation, require

BUDGET = (30, 900)


@functools.lru_cache(maxsize=None)
def loss_fn(shape, smoothing, z, weights, norm):
  from t5x import losses
  del shape

  def f(logits, targets, w, n):
    return losses.compute_weighted_cross_entropy(
        logits, targets, weights=w if weights else None, label_smoothing=smoothing, z_loss=z,
        loss_normalizing_factor={'none': None, 'const': 7.5, 'traced': n}[norm])

  return jax.jit(f)


@st.composite
def loss_case(draw):
  return dict(shape=draw(st.sampled_from([[1, 1, 2], [2, 3, 5], [1, 4, 3], [3, 1, 9]])),
              smoothing=draw(st.sampled_from([0.0, 0.1, 0.5, 0.9])), z=draw(st.sampled_from([0.0, 1e-4, 0.1])),
              weights=draw(st.booleans()), norm=draw(st.sampled_from(['none', 'const', 'traced'])),
              seeds=draw(st.lists(st.integers(0, 2**31 - 1), min_size=1, max_size=5)))


def check_loss(c, rec):
  b, l, v = c['shape']
  fn = loss_fn(tuple(c['shape']), c['smoothing'], c['z'], c['weights'], c['norm'])
  for seed in c['seeds']:
    rng = np.random.RandomState(seed)
    x = (rng.randn(b, l, v) * rng.choice([0.5, 3, 20])).astype(np.float32)
    t = rng.randint(0, v, size=(b, l))
    w = rng.choice([0., 1., 1., 0.25, 2.], size=(b, l)).astype(np.float32)
    n = np.float32(rng.uniform(0.5, 20))
    got = [float(a) for a in fn(x, t, w, n)]
    X = x.astype(np.float64)
    m = X.max(-1, keepdims=True)
    lz = np.log(np.exp(X - m).sum(-1, keepdims=True)) + m
    ls = X - lz
    s = c['smoothing']
    off = s / (v - 1)
    q = np.full((b, l, v), off)
    np.put_along_axis(q, t[..., None], 1 - s, -1)
    ent = -(1 - s) * np.log(1 - s) - (v - 1) * off * np.log(off + 1e-20)
    zl = c['z'] * lz[..., 0]**2
    tok = -(q * ls).sum(-1) + zl - ent
    W = w if c['weights'] else np.ones((b, l))
    f = {'none': 1.0, 'const': 7.5, 'traced': float(n)}[c['norm']]
    want = [(tok * W).sum() / f, (zl * W).sum() / f, W.sum()]
    tol = 1e-4 * (1 + np.abs(tok * W).sum())
    require(all(abs(a - e) < tol for a, e in zip(got, want)), f'{got} should be {want}; logits {x.tolist()} targets {t.tolist()} weights {W.tolist()}')
    # Masked positions do not matter.
    if c['weights'] and (w == 0).any():
      x2, t2 = x.copy(), t.copy()
      x2[w == 0] = rng.randn(v) * 50
      t2[w == 0] = rng.randint(0, v)
      got2 = [float(a) for a in fn(x2, t2, w, n)]
      require(all(abs(a - e) < 1e-5 * (1 + abs(e)) for a, e in zip(got, got2)), f'positions of zero weight changed the loss: {got} {got2}')
      rec.label('masked positions')
    # A model that predicts the smoothed targets exactly has (almost) no loss.
    if s > 0 and c['z'] == 0:
      best = float(fn(np.log(q).astype(np.float32), t, w, n)[0])
      require(abs(best) < 1e-4 * (1 + W.sum()), f'loss of a perfect prediction is {best}')
    rec.nontrivial(v > 1 and b * l > 1)
    rec.label('smoothing', s > 0)
    rec.label('norm ' + c['norm'])


def check_rank(c, rec):
  from t5x import losses
  try:
    losses.compute_weighted_cross_entropy(jnp.zeros(c['a']), jnp.zeros(c['b'], jnp.int32))
  except ValueError:
    rec.nontrivial()
    return
  raise Violation(f'logits of shape {c["a"]} with targets of shape {c["b"]} were accepted')


@st.composite
def norm_case(draw):
  l = draw(st.sampled_from([1, 3, 8, 12]))
  rows = []
  for _ in range(draw(st.integers(1, 3))):
    segs = []
    left = l
    while left > 0 and draw(st.booleans() if segs else st.sampled_from([True, True, False])):
      n = draw(st.integers(1, left))
      segs.append(n)
      left -= n
    rows.append(segs)
  return dict(l=l, rows=rows, packed=draw(st.booleans()),
              wkind=draw(st.sampled_from(['none', 'ones', 'partial', 'frac', 'zeroseg'])),
              seed=draw(st.integers(0, 2**31 - 1)),
              factor=draw(st.sampled_from(['NUM_REAL_TARGET_TOKENS', 'NUM_TOTAL_TARGET_TOKENS', 'AVERAGE_PER_SEQUENCE',
                                           'AVERAGE_PER_SEQUENCE', 'average_per_sequence', 'none', 'const', 'int'])),
              enum=draw(st.booleans()), jit=draw(st.booleans()))


def check_norm(c, rec):
  from t5x import losses
  l, b = c['l'], len(c['rows'])
  rng = np.random.RandomState(c['seed'])
  if not c['packed']:
    c = dict(c, rows=[s[:1] for s in c['rows']])
  tgt = np.zeros((b, l), np.int32)
  seg = np.zeros((b, l), np.int32)
  pos = np.zeros((b, l), np.int32)
  for i, s in enumerate(c['rows']):
    at = 0
    for j, n in enumerate(s):
      tgt[i, at:at + n] = rng.randint(1, 100, size=n)
      seg[i, at:at + n] = j + 1
      pos[i, at:at + n] = np.arange(n)
      at += n
  w = None
  if c['wkind'] != 'none':
    w = (tgt > 0).astype(np.float32)
    if c['wkind'] == 'partial':
      w = w * (rng.rand(b, l) < 0.6)
    elif c['wkind'] == 'frac':
      w = w * rng.choice([0.25, 0.5, 1.0, 2.0], size=(b, l))
    elif c['wkind'] == 'zeroseg':
      w = w * np.where(seg == rng.randint(1, 3), 0, 1)
    w = w.astype(np.float32)
  batch = dict(decoder_target_tokens=jnp.asarray(tgt))
  if w is not None:
    batch['decoder_loss_weights'] = jnp.asarray(w)
  if c['packed']:
    batch.update(decoder_segment_ids=jnp.asarray(seg), decoder_positions=jnp.asarray(pos))
  f = c['factor']
  arg = {'none': None, 'const': 3.5, 'int': 7}.get(f, f)
  if isinstance(arg, str) and c['enum']:
    arg = losses.SpecialLossNormalizingFactor[f.upper()]
  fn = lambda bt: losses.get_loss_normalizing_factor_and_weights(arg, bt)
  if c['jit']:
    fn = jax.jit(fn)
  n, gw = fn(batch)
  ctx = f'{f}: targets {tgt.tolist()} segments {seg.tolist() if c["packed"] else None} weights {None if w is None else w.tolist()} -> {n}, {None if gw is None else np.asarray(gw).tolist()}'
  if f in ('none', 'const', 'int'):
    require((n is None) if arg is None else abs(float(n) - arg) < 1e-6, ctx)
    require((gw is None) == (w is None) and (w is None or (np.asarray(gw) == w).all()), ctx)
    return
  W = w if w is not None else (tgt > 0).astype(np.float64)
  W = W.astype(np.float64)
  up = f.upper()
  if up == 'NUM_REAL_TARGET_TOKENS':
    en, ew = W.sum(), W
  elif up == 'NUM_TOTAL_TARGET_TOKENS':
    en, ew = b * l, W
  else:
    ew = np.zeros_like(W)
    for i in range(b):
      ids = seg[i] if c['packed'] else np.ones(l, int)
      for s in set(ids.tolist()) - {0}:
        m = ids == s
        tot = W[i, m].sum()
        if tot > 0:
          ew[i, m] = W[i, m] / tot
    en = ew.sum()
  require(abs(float(n) - en) < 1e-4 * (1 + en), f'factor should be {en}; ' + ctx)
  require(np.asarray(gw).shape == W.shape and np.abs(np.asarray(gw) - ew).max() < 1e-4, f'weights should be {ew.tolist()}; ' + ctx)
  rec.nontrivial(tgt.any() and (up != 'AVERAGE_PER_SEQUENCE' or max(map(len, c['rows'])) > 1 or b > 1))
  rec.label(up)
  rec.label('packed', c['packed'] and max(map(len, c['rows'])) > 1)
  rec.label('segment without weight', up == 'AVERAGE_PER_SEQUENCE' and c['wkind'] == 'zeroseg')


def check_name(c, rec):
  from t5x import losses
  name = c['name']
  ok = name.upper() in ('NUM_REAL_TARGET_TOKENS', 'NUM_TOTAL_TARGET_TOKENS', 'AVERAGE_PER_SEQUENCE')
  try:
    r = losses.convert_special_loss_normalizing_factor_to_enum(name)
  except ValueError:
    require(not ok, f'{name!r} rejected')
    return
  require(ok and r == losses.SpecialLossNormalizingFactor[name.upper()], f'{name!r} understood as {r}')
  rec.nontrivial()


names = st.one_of(st.sampled_from(['NUM_REAL_TARGET_TOKENS', 'NUM_TOTAL_TARGET_TOKENS', 'AVERAGE_PER_SEQUENCE']).flatmap(
    lambda s: st.sampled_from([s, s.lower(), s.title(), s + ' ', s[:-1]])), st.text(max_size=8))

SUBS = [
    Sub('weighted-loss', check_loss, strategy=loss_case(), quick=120, thorough=3000, weight=2),
    Sub('normalizing-factor', check_norm, strategy=norm_case(), quick=120, thorough=4000, weight=3),
    Sub('factor-names', check_name, strategy=st.fixed_dictionaries(dict(name=names)), quick=30, thorough=300, weight=0.3, shards=2),
    Sub('rank-mismatch', check_rank, cases=lambda rng, tier: [dict(a=a, b=b) for a, b in
        [([2, 3, 4], [2, 3, 4]), ([2, 3], [2, 3]), ([2, 3, 4], [2]), ([4], [2, 4])]], weight=0.2, shards=1),
]
