"""M02: base training metrics equal direct counts."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st
from core import Sub, require

BUDGET = (30, 900)


@functools.lru_cache(maxsize=None)
def base(shape, mask, z, feats):
  from t5x import models
  del shape, feats
  return jax.jit(lambda lg, t, m, loss, zl, seg: models.compute_base_metrics(
      lg, t, m if mask else None, loss, zl if z else None, seg))


@st.composite
def packed_row(draw, l):
  """Segment ids as packing makes them: runs of increasing ids, then padding."""
  row, sid = [], 0
  while len(row) < l and draw(st.sampled_from([True, True, True, False])):
    sid += draw(st.sampled_from([1, 1, 2]))
    row += [sid] * draw(st.integers(1, l - len(row)))
  return row + [0] * (l - len(row))


@st.composite
def case(draw):
  b = draw(st.sampled_from([1, 2, 4]))
  l = draw(st.sampled_from([1, 3, 6]))
  feats = {}
  for f in draw(st.sampled_from([[], ['decoder'], ['encoder', 'decoder'], ['encoder', 'image', 'none', 'empty']])):
    if f == 'none':
      feats[f] = None
    elif f == 'empty':
      feats[f] = [[] for _ in range(b)]
    else:
      lf = l if f == 'decoder' else draw(st.sampled_from([2, 5]))
      feats[f] = [draw(packed_row(lf)) for _ in range(b)]
  return dict(b=b, l=l, v=draw(st.sampled_from([2, 5])), feats=feats, mask=draw(st.booleans()), z=draw(st.booleans()),
              steps=draw(st.integers(1, 4)), dur=draw(st.sampled_from([0.5, 2.0, 10.0])), seed=draw(st.integers(0, 2**31 - 1)),
              parts=draw(st.sampled_from([1, 2, 4])))


def count(rows):
  return sum(len(set(r) - {0}) for r in rows)


def check(c, rec):
  from t5x import metrics as M
  rng = np.random.RandomState(c['seed'])
  b, l, v = c['b'], c['l'], c['v']
  parts = c['parts'] if b % c['parts'] == 0 else 1
  lg = rng.randn(b, l, v).astype(np.float32)
  t = rng.randint(0, v, size=(b, l))
  best = rng.rand(b, l) < 0.5
  np.put_along_axis(lg, t[..., None], np.where(best, 10., -10.)[..., None].astype(np.float32), -1)
  m = (rng.rand(b, l) < 0.7).astype(np.float32)
  m[0, 0] = 1
  losses = rng.uniform(1, 10, size=parts).astype(np.float32)
  zs = rng.uniform(0, 1, size=parts).astype(np.float32)
  acc = None
  n = b // parts
  for i in range(parts):
    s = slice(i * n, (i + 1) * n)
    seg = {k: (None if r is None else jnp.asarray(np.array(r, np.int32).reshape(b, -1)[s])) for k, r in c['feats'].items()} or None
    key = tuple((k, None if r is None else r.shape) for k, r in (seg or {}).items())
    out = base((n, l, v), c['mask'], c['z'], key)(lg[s], t[s], m[s], losses[i], zs[i], seg)
    acc = out if acc is None else {k: acc[k].merge(out[k]) for k in acc}
  acc = M.set_time_metrics_duration(M.set_step_metrics_num_steps(acc, c['steps']), c['dur'])
  got = {k: float(x.compute()) for k, x in acc.items()}
  nd = jax.device_count()
  mm = m if c['mask'] else np.ones_like(m)
  L, Z = float(losses.sum()), float(zs.sum())
  want = {
      'accuracy': float((best * mm).sum() / mm.sum()),
      'loss': L / c['steps'],
      'loss_per_nonpadding_target_token': L / mm.sum(),
      'loss_per_all_target_tokens': L / (b * l),
      'timing/seqs_per_second': b / c['dur'],
      'timing/steps_per_second': c['steps'] / c['dur'],
      'timing/seconds': c['dur'],
      'timing/seqs': b,
      'timing/seqs_per_second_per_core': b / nd / c['dur'],
      'timing/target_tokens_per_second': b * l / c['dur'],
      'timing/target_tokens_per_second_per_core': b * l / nd / c['dur'],
      'non_padding_fraction/loss_weights': mm.sum() / (b * l),
  }
  if c['z']:
    want.update({'z_loss': Z / c['steps'], 'z_loss_per_all_target_tokens': Z / (b * l),
                 'cross_ent_loss': (L - Z) / c['steps'], 'cross_ent_loss_per_all_target_tokens': (L - Z) / (b * l)})
  if c['feats']:
    tot = non = 0
    for k, rows in c['feats'].items():
      if rows is None or not rows[0]:
        continue
      a = np.array(rows)
      want[f'effective_batch_size/{k}'] = count(rows) / c['steps']
      want[f'non_padding_fraction/{k}'] = (a != 0).mean()
      tot += a.size
      non += (a != 0).sum()
    want['non_padding_fraction/overall'] = non / tot if tot else float('nan')
  require(set(got) == set(want), f'metrics {sorted(set(got) ^ set(want))} missing or unexpected')
  for k, w in want.items():
    require(abs(got[k] - w) <= 1e-4 * (1 + abs(w)), f'{k} is {got[k]}, a direct count gives {w}; {c}')
  rec.nontrivial(c['mask'] and (m == 0).any() or any(r and count(r) > b for r in c['feats'].values()))
  rec.label('packed', any(r and count(r) > b for r in c['feats'].values()))
  rec.label('merged from parts', parts > 1)


@st.composite
def seg_case(draw):
  l = draw(st.sampled_from([1, 2, 5, 9]))
  return dict(rows=draw(st.lists(packed_row(l), min_size=1, max_size=5)))


def check_seg(c, rec):
  from t5x import models
  n = int(models.count_packed_examples(jnp.asarray(c['rows'])))
  require(n == count(c['rows']), f'{c["rows"]}: counted {n}, there are {count(c["rows"])}')
  rec.nontrivial(count(c['rows']) > len(c['rows']))


@st.composite
def legacy_case(draw):
  return dict(b=draw(st.integers(1, 3)), l=draw(st.integers(1, 5)), v=draw(st.integers(2, 5)), weights=draw(st.sampled_from(['none', 'binary', 'real'])),
              seed=draw(st.integers(0, 2**31 - 1)))


def legacy(c, rec):
  """The totals of compute_weighted_accuracy and compute_metrics."""
  from t5x import models
  rng = np.random.RandomState(c['seed'])
  lg = rng.randn(c['b'], c['l'], c['v']).astype(np.float32)
  t = rng.randint(0, c['v'], size=(c['b'], c['l']))
  w = {'none': None, 'binary': (rng.rand(c['b'], c['l']) < 0.6).astype(np.float32), 'real': rng.uniform(0, 3, (c['b'], c['l'])).astype(np.float32)}[c['weights']]
  right = lg.argmax(-1) == t
  want = float((right * (1 if w is None else w.astype(np.float64))).sum())
  got = float(models.compute_weighted_accuracy(jnp.asarray(lg), jnp.asarray(t), None if w is None else jnp.asarray(w)))
  require(abs(got - want) <= 1e-5 * (1 + want), f'weighted accuracy {got}, a direct count gives {want}')
  extra = {'other': object()}
  m = models.compute_metrics(jnp.asarray(lg), jnp.asarray(t), None if w is None else jnp.asarray(w), jnp.float32(2.5), jnp.float32(7.0), extra)
  require(m['other'] is extra['other'], 'an additional metric is lost')
  for k, x in dict(loss=2.5, accuracy=want, weight_sum=7.0, num_examples=c['b'], num_tokens=c['b'] * c['l']).items():
    y = float(m[k].compute())
    require(abs(y - x) <= 1e-5 * (1 + abs(x)), f'{k} is {y}, a direct count gives {x}')
  rec.nontrivial(right.any() and not right.all() or c['weights'] == 'real')


SUBS = [
    Sub('legacy-totals', legacy, strategy=legacy_case(), quick=60, thorough=600, weight=0.5),
    Sub('base-metrics', check, strategy=case(), quick=60, thorough=1500, weight=3),
    Sub('packed-examples', check_seg, strategy=seg_case(), quick=60, thorough=1000),
]
