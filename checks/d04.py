"""D04: beam search equals a sequential reference beam search."""
import functools
import numpy as np
import jax
import jax.numpy as jnp
import flax
from hypothesis import strategies as st
from core import Skip, Sub, require
from checks import dec_common as dc

BUDGET = (32, 1800)
NEG = -1.0e7
GAP = 2e-3  # comparisons closer than this are not decidable in float32


class Close(Exception):
  pass


def lsm(z):
  z = z - z.max()
  return z - np.log(np.exp(z).sum())


def pen(alpha, n):
  return ((5.0 + n) / 6.0)**alpha


def best(items, n):
  """The n largest by first element; raises Close if a decision is a near-tie."""
  items = sorted(items, key=lambda t: -t[0])
  for a, b in zip(items[:n], items[1:n + 1]):
    if b[0] > NEG / 2 and a[0] - b[0] < GAP:
      raise Close()
  return items[:n]


def reference(c, d, r):
  """Lock-step over the batch, since the stopping rule is shared by the batch."""
  k, alpha, eos, l = c['k'], c['alpha'], c['eos'], c['l']
  maxlen = (c['mlen'] or l)
  live, fin, models, init = [], [], [], []
  for i in range(c['b']):
    m = dc.RefModel(r['table'], int(r['h0'][i]), c['offset'])
    models.append(m)
    p = d['lens'][i] if c['prefill'] else 0
    init.append(p)
    last = int(r['x'][i, p]) if c['prefill'] else 0
    live.append([(0.0, [last], m.init)])
    fin.append([])
  t = 0
  while True:
    cur = t + min(init)
    if cur >= maxlen:
      break
    if d['mstep'] > 0 and t >= d['mstep']:
      break
    if t > 0 or True:
      mb = pen(alpha, maxlen + 1)
      bl = [max((x[0] for x in live[i]), default=NEG) / mb for i in range(c['b'])]
      worst = [min(x[0] for x in fin[i]) if len(fin[i]) == k else NEG for i in range(c['b'])]
      for a, b in zip(worst, bl):
        if a > NEG / 2 and b > NEG / 2 and abs(a - b) < GAP:
          raise Close()
      if all(a > b for a, b in zip(worst, bl)):
        break
      raw = d['minlp'] / mb
      if t > 0 and any(abs(b - raw) < GAP for b in bl):
        raise Close()
      if t > 0 and all(b < raw for b in bl):
        break
    for i in range(c['b']):
      cands = []
      for lp, seq, hs in live[i]:
        if lp < NEG / 2:
          continue
        # Index known to the model: its own prompt length plus steps taken.
        nhs, logits = models[i].next(hs, seq[-1], init[i] + t)
        cl = lsm(logits)
        for v in range(c['v']):
          cands.append((lp + cl[v], seq + [v], nhs))
      forced = 0
      if not c['prefill'] and t + 1 < l:
        forced = int(r['x'][i, t + 1])
      if forced:
        if not cands:
          continue
        lp, seq, nhs = max(cands, key=lambda q: q[0])
        live[i] = [(0.0, seq[:-1] + [forced], nhs)]
        continue
      cands = best(cands, 2 * k)
      ended = [q for q in cands if q[1][-1] == eos]
      going = [q for q in cands if q[1][-1] != eos]
      live[i] = best(going, k)
      n = init[i] + t + 1
      fin[i] = best(fin[i] + [(q[0] / pen(alpha, n), q[1]) for q in ended], k)
    t += 1
  out = []
  for i in range(c['b']):
    res = [(s, q) for s, q in fin[i]] if fin[i] else [(q[0], q[1]) for q in live[i]]
    res = sorted(res, key=lambda q: q[0])
    seqs = []
    for s, q in res:
      toks = q[1:]
      if c['prefill']:
        toks = [int(z) for z in r['x'][i, 1:1 + d['lens'][i]]] + toks
      toks = toks[:maxlen]
      seqs.append((s, toks + [0] * (maxlen - len(toks))))
    out.append((bool(fin[i]), seqs))
  return out


@functools.lru_cache(maxsize=None)
def compiled(b, l, v, k, alpha, offset, prefill, frozen, eos, mlen, mstep):
  from t5x import decoding

  @jax.jit
  def run(x, table, h0, idx, minlp):
    cache = dc.make_cache(h0, idx if prefill else 0, offset)
    if frozen:
      cache = flax.core.freeze(cache)
    kw = {}
    if mstep:
      kw['max_decode_step'] = mstep
    return decoding.beam_search(
        x, cache, dc.step_logits(table, offset, True), eos, num_decodes=k, alpha=alpha, max_decode_len=mlen,
        cache_offset=offset, initial_index=idx if prefill else None, min_log_prob=minlp, **kw)

  return run


@st.composite
def beam_case(draw, big=False):
  b = 1 if big else draw(st.sampled_from([1, 2, 3]))
  l = draw(st.sampled_from([2, 3, 5, 7]))
  k = 1 if big else draw(st.sampled_from([1, 2, 3, 4]))
  v = draw(st.sampled_from([2500, 3000])) if big else draw(st.sampled_from([x for x in (4, 6, 9) if x >= 2]))
  # The search always keeps 2k of the k*v candidates.
  prefill = draw(st.booleans())
  c = dict(b=b, l=l, v=v, k=k, alpha=draw(st.sampled_from([0.0, 0.6, 1.0, 2.0])),
           offset=draw(st.sampled_from([0, 0, 1])) if not prefill else 0, prefill=prefill,
           frozen=draw(st.sampled_from([False, False, True])),
           eos=draw(st.integers(1, v - 1)),
           mlen=draw(st.sampled_from([None, None, l + 2])) if prefill else None)
  c['mstep'] = draw(st.sampled_from([0, 0, 0, 1, 3]))
  c['data'] = draw(st.lists(st.fixed_dictionaries(dict(
      seed=st.integers(0, 2**31 - 1),
      lens=st.lists(st.integers(0, l - 1), min_size=b, max_size=b),
      eos_bias=st.sampled_from([-8., -2., 0., 1., 2.]), scale=st.sampled_from([0.5, 1., 2.]),
      minlp=st.sampled_from([-1e7, -1e7, -2.0, -5.0]))), min_size=1, max_size=8))
  return c


def check(c, rec):
  decided = 0
  for d in c['data']:
    d = dict(d, mstep=c['mstep'])
    rng = np.random.RandomState(d['seed'])
    x = dc.prompts(rng, d['lens'], c['l'], c['v'], c['eos'], False)
    h0 = rng.randint(0, dc.M, size=c['b'])
    table = dc.make_table(d['seed'] + 1, c['v'], c['eos'], d['eos_bias'], False, d['scale'])
    # Padding must never be generated: make it impossible but finite.
    table[:, 0] = -1e4
    r = dict(x=x, h0=h0, table=table)
    fn = compiled(c['b'], c['l'], c['v'], c['k'], c['alpha'], c['offset'], c['prefill'], c['frozen'],
                  c['eos'], c['mlen'], c['mstep'])
    seqs, scores = fn(x, table, h0, np.array(d['lens'], np.int32), np.float32(d['minlp']))
    seqs, scores = np.asarray(seqs), np.asarray(scores)
    maxlen = c['mlen'] or c['l']
    require(seqs.shape == (c['b'], c['k'], maxlen) and scores.shape == (c['b'], c['k']), f'shapes {seqs.shape} {scores.shape}')
    require((np.diff(scores, axis=1) >= 0).all(), f'not sorted: {scores}')
    try:
      ref = reference(c, d, r)
    except Close:
      rec.label('near-tie, undecided')
      continue
    decided += 1
    for i, (finished, want) in enumerate(ref):
      want = [w for w in want if w[0] > -5e3]
      got = [(float(s), q.tolist()) for s, q in zip(scores[i], seqs[i]) if s > -5e3]
      ctx = (f'row {i}: prompt {x[i].tolist()} lens {d["lens"]} eos {c["eos"]} finished {finished}\n got  {got}\n want {want}')
      require(len(got) == len(want), 'number of hypotheses; ' + ctx)
      for (s, q), (ws, wq) in zip(got, want):
        require(q == wq, 'sequence; ' + ctx)
        require(abs(s - ws) < 1e-3 * (1 + abs(ws)), 'score; ' + ctx)
      rec.nontrivial(c['k'] > 1 and len(want) > 1 or c['v'] > 1000)
      rec.label('finished', finished)
      rec.label('unfinished', not finished)
      rec.label('prefilled', c['prefill'])
      rec.label('prompt forced', not c['prefill'] and d['lens'][i] > 0)
      rec.label('stopped early', d['minlp'] > -1e6)
  if not decided:
    raise Skip()


@st.composite
def gather_case(draw):
  return dict(b=draw(st.integers(1, 3)), o=draw(st.integers(1, 4)), n=draw(st.integers(1, 5)),
              offset=draw(st.sampled_from([0, 1])), one_hot=draw(st.booleans()),
              dtype=draw(st.sampled_from(['float32', 'int32', 'bfloat16', 'bool'])),
              seed=draw(st.integers(0, 2**31 - 1)), frozen=draw(st.booleans()))


def check_gather(c, rec):
  """Beam bookkeeping helpers: gather by index, expand/flatten round trips, excluded leaves."""
  from t5x import decoding
  rng = np.random.RandomState(c['seed'])
  lead = [2] if c['offset'] else []
  arr = jnp.asarray(rng.randint(0, 100, size=lead + [c['b'], c['o'], 3])).astype(c['dtype'])
  idx = rng.randint(0, c['o'], size=(c['b'], c['n']))
  nested = {'a': {'k': arr, 'cache_index': jnp.array(5), 'cached_bias': jnp.ones((1, 2))},
            'p': {'position_embedder_index': jnp.array(2)}}
  if c['frozen']:
    nested = flax.core.freeze(nested)
  out = decoding.cache_gather_beams(nested, jnp.asarray(idx), c['b'], c['o'], c['n'], c['one_hot'], c['offset'])
  require(isinstance(out, flax.core.FrozenDict) == c['frozen'], 'container type changed')
  got = np.asarray(out['a']['k'])
  src = np.asarray(arr)
  for b in range(c['b']):
    for j in range(c['n']):
      w = src[:, b, idx[b, j]] if c['offset'] else src[b, idx[b, j]]
      g = got[:, b, j] if c['offset'] else got[b, j]
      require(g.dtype == w.dtype and (g == w).all(), f'beam {j} of example {b} is not old beam {idx[b, j]}')
  require(int(out['a']['cache_index']) == 5 and out['a']['cached_bias'].shape == (1, 2)
          and int(out['p']['position_embedder_index']) == 2, 'leaves without a beam dimension were changed')
  if not c['offset']:
    g2 = np.asarray(decoding.gather_beams({'x': arr}, jnp.asarray(idx), c['b'], c['o'], c['n'], c['one_hot'])['x'])
    require((g2 == got).all(), 'gather_beams differs')
    # top-k gather: ascending by score.
    sc = rng.randn(c['b'], c['o']).astype(np.float32)
    k = rng.randint(1, c['o'] + 1)
    g3 = np.asarray(decoding.gather_topk_beams({'x': arr}, jnp.asarray(sc), c['b'], k)['x'])
    for b in range(c['b']):
      order = np.argsort(sc[b])[-k:]
      require((g3[b] == src[b, order]).all(), 'top-k beams')
  x = src[:, :, 0] if c['offset'] else src[:, 0]
  ex = np.asarray(decoding.flat_batch_beam_expand(jnp.asarray(x), c['n'], c['offset']))
  require((ex == np.repeat(x, c['n'], axis=c['offset'])).all(), 'beam expansion does not repeat each example in place')
  un = np.asarray(decoding.unflatten_beam_dim(jnp.asarray(ex), c['b'], c['n'], c['offset']))
  require((np.asarray(decoding.flatten_beam_dim(jnp.asarray(un), c['offset'])) == ex).all(), 'flatten/unflatten')
  rec.nontrivial(c['b'] > 1 and c['o'] > 1 and c['n'] > 1)


@st.composite
def topk_case(draw):
  k = draw(st.integers(1, 3))
  return dict(b=draw(st.sampled_from([1, 2, 8, 9])), k=k, n=draw(st.sampled_from([k, 100, 1024, 1025, 2049, 2100, 3200, 3300, 4000])),
              seed=draw(st.integers(0, 2**31 - 1)), neg=draw(st.booleans()), ties=draw(st.booleans()))


def check_topk(c, rec):
  from t5x import decoding
  rng = np.random.RandomState(c['seed'])
  n = max(c['n'], c['k'])
  x = rng.permutation(c['b'] * n).reshape(c['b'], n).astype(np.float32) / 7
  if c['neg']:
    x = x - 1e6
    x[:, rng.rand(n) < 0.5] = -np.inf
  if c['ties']:
    x = np.round(x / 50)
  vals, idx = map(np.asarray, jax.jit(decoding.top_k_two_stage, static_argnums=1)(x, c['k']))
  require((vals == np.sort(x, axis=1)[:, ::-1][:, :c['k']]).all(), f'values {vals}')
  # Indices are meaningless only for entries equal to the padding (-inf).
  fin = np.isfinite(vals)
  ok = np.take_along_axis(x, np.minimum(idx, n - 1), axis=1) == vals
  require((ok | ~fin).all() and (idx[fin] < n).all(), f'indices {idx} do not point at the values')
  for b in range(c['b']):
    require(len(set(idx[b].tolist())) == c['k'], 'an entry was returned twice')
  rec.nontrivial(n > 1024 * c['k'] and c['b'] <= 8)


SUBS = [
    Sub('beam-vs-reference', check, strategy=beam_case(), quick=300, thorough=10000, weight=4),
    Sub('large-vocabulary', check, strategy=beam_case(big=True), quick=5, thorough=100, weight=0.7),
    Sub('beam-gather', check_gather, strategy=gather_case(), quick=40, thorough=500, weight=0.7),
    Sub('two-stage-top-k', check_topk, strategy=topk_case(), quick=15, thorough=200, weight=0.7),
]
