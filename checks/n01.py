"""N01: scoring, loss and prediction of a model agree with each other and with the model."""
import functools

import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from checks import model_common as mc
from core import Skip, Sub, require
from t5x import decoding, losses

BUDGET = (30, 1200)
LE, LD = 5, 7

tokens = st.integers(1, mc.V - 1)


@functools.lru_cache(None)
def model(kind, eos=1, fn='sample', prefill=True, bidirectional=False, embedder=False, **kw):
  decode_fn = {'sample': decoding.temperature_sample, 'beam': decoding.beam_search}[fn]
  if kind == 'encdec':
    return mc.encdec(eos, decode_fn, prefill, embedder, **kw)
  return mc.deconly(eos, decode_fn, bidirectional, **kw)


# --- scores and losses ------------------------------------------------------------------------------------------------


@st.composite
def score_case(draw):
  kind = draw(st.sampled_from(['encdec', 'deconly', 'prefix']))
  row = st.lists(st.tuples(st.lists(tokens, min_size=0 if kind != 'encdec' else 1, max_size=LE), st.lists(tokens, min_size=1, max_size=LD)).map(list), min_size=1, max_size=3)
  b = 3
  return dict(kind=kind, packed=draw(st.booleans()), rows=[draw(row) for _ in range(b)], seed=draw(st.integers(0, 5)), scale=draw(st.sampled_from([0.3, 1.0, 4.0])),
              weights=draw(st.one_of(st.none(), st.lists(st.sampled_from([0.0, 0.0, 1.0, 1.0, 0.5]), min_size=3 * LD, max_size=3 * LD))),
              key=draw(st.integers(0, 99)), reg=draw(st.sampled_from([0, 0, 1])))


def build(c):
  """(batch, [(row, start, enc tokens, dec tokens, prompt length)])."""
  kind = c['kind']
  extra = 4 if c['packed'] else 0
  le, ld = LE + extra, LD + extra + (LE if kind != 'encdec' else 0)
  b = len(c['rows'])
  z = lambda n, t=np.int32: np.zeros((b, n), t)
  enc, epos, eseg = z(le), z(le), z(le)
  inp, tgt, dpos, dseg, causal = z(ld), z(ld), z(ld), z(ld), z(ld)
  w = z(ld, np.float32)
  items = []
  for r, examples in enumerate(c['rows']):
    if not c['packed']:
      examples = examples[:1]
    e0 = d0 = 0
    for k, (src, dst) in enumerate(examples):
      if kind == 'encdec':
        seq, n_prompt = dst, None
        if e0 + len(src) > le or d0 + len(seq) > ld:
          continue
        enc[r, e0:e0 + len(src)] = src
        epos[r, e0:e0 + len(src)] = np.arange(len(src))
        eseg[r, e0:e0 + len(src)] = k + 1
        e0 += len(src)
      else:
        seq = src + dst
        n_prompt = len(src) + 1
        if d0 + len(seq) > ld:
          continue
        causal[r, d0:d0 + min(n_prompt, len(seq))] = 1
      s = slice(d0, d0 + len(seq))
      tgt[r, s] = seq
      inp[r, s] = mc.shift(seq)
      dpos[r, s] = np.arange(len(seq))
      dseg[r, s] = k + 1
      w[r, s] = 1
      if kind != 'encdec':
        w[r, d0:d0 + len(src)] = 0
      items.append((r, d0, src, seq, n_prompt))
      d0 += len(seq)
  if c['weights']:
    ww = np.resize(np.array(c['weights'], np.float32), w.shape)
    w = w * ww
  batch = dict(decoder_input_tokens=inp, decoder_target_tokens=tgt, decoder_loss_weights=w)
  if kind == 'encdec':
    batch['encoder_input_tokens'] = enc
  else:
    batch['decoder_causal_attention'] = causal
  if c['packed']:
    batch.update(decoder_positions=dpos, decoder_segment_ids=dseg)
    if kind == 'encdec':
      batch.update(encoder_positions=epos, encoder_segment_ids=eseg)
  return batch, items


@functools.lru_cache(None)
def score_fns(kind, packed, reg):
  z, smooth = (0.01, 0.1) if reg else (0.0, 0.0)
  m = model('encdec' if kind == 'encdec' else 'deconly', bidirectional=kind == 'prefix', z_loss=z, label_smoothing=smooth)

  def everything(p, b, k1, k2):
    return (m.score_batch(p, b), m.score_batch(p, b, return_intermediates=True), m.eval_fn(p, b), m.loss_fn(p, b, None)[0],
            [m.loss_fn(p, b, k)[0] for k in (k1, k1, k2)])
  return z, smooth, jax.jit(everything)


def score(c, rec):
  kind = c['kind']
  batch, items = build(c)
  p = mc.params('encdec' if kind == 'encdec' else 'deconly', c['seed'], c['scale'])
  z, smooth, everything = score_fns(kind, c['packed'], c['reg'])
  got, (full, inter), (ev, evm), tr, noisy = everything(p, batch, jax.random.PRNGKey(c['key']), jax.random.PRNGKey(c['key'] + 1))
  b, n = batch['decoder_target_tokens'].shape
  want_tok = np.zeros((b, n))
  logits = np.zeros((b, n, mc.V))
  for r, d0, src, seq, n_prompt in items:
    if kind == 'encdec':
      lg = mc.encdec_logits(p, src, mc.shift(seq))
    else:
      lg = mc.deconly_logits(p, mc.shift(seq), min(n_prompt, len(seq)) if kind == 'prefix' else None)
    lp = mc.log_softmax(lg)
    logits[r, d0:d0 + len(seq)] = lg
    want_tok[r, d0:d0 + len(seq)] = lp[np.arange(len(seq)), seq]
  w = batch['decoder_loss_weights'].astype(np.float64)
  want_tok *= w
  want = want_tok.sum(-1)
  got = np.asarray(got)
  tol = 2e-4 * (1 + np.abs(want_tok).sum(-1))
  require(got.shape == want.shape and np.all(np.abs(got - want) <= tol), lambda: f'{kind}: scores {got}, sums of token log-probabilities {want}')
  require(np.all(np.abs(np.asarray(full) - want) <= tol), lambda: f'{kind}: scores with intermediates {np.asarray(full)}, expected {want}')
  dec = inter['decoder']
  ts = np.asarray(dec['token_scores'][0])
  require(ts.shape == (b, n) and np.all(np.abs(ts - want_tok) <= 2e-4 * (1 + np.abs(want_tok))), lambda: f'{kind}: token scores {ts.tolist()}, expected {want_tok.tolist()}')
  require(np.array_equal(dec['target_tokens'][0], batch['decoder_target_tokens']) and np.array_equal(dec['loss_weights'][0], batch['decoder_loss_weights']), f'{kind}: wrong targets or weights among the intermediates')
  require('hidden' in inter, f'{kind}: the values the model recorded are missing: {list(inter)}')
  # Loss: minus the score when nothing is smoothed, regularised otherwise; evaluation is the loss without randomness.
  lse = np.log(np.exp(logits - logits.max(-1, keepdims=True)).sum(-1)) + logits.max(-1)
  lp = logits - lse[..., None]
  s = smooth
  conf, low = 1 - s, s / (mc.V - 1)
  onehot = np.eye(mc.V)[batch['decoder_target_tokens']]
  soft = onehot * conf + (1 - onehot) * low
  const = -(conf * np.log(conf) + (mc.V - 1) * low * np.log(low + 1e-20))
  zl = (z * lse ** 2 * w).sum()
  want_loss = ((-(soft * lp).sum(-1) - const) * w).sum() + zl
  ltol = 1e-3 * (1 + np.abs(want_tok).sum() + abs(want_loss))
  require(abs(float(ev) - want_loss) <= ltol, lambda: f'{kind}: evaluation loss {float(ev)}, expected {want_loss}')
  if not s and not z:
    require(abs(float(ev) + got.sum()) <= ltol, lambda: f'{kind}: loss {float(ev)} is not minus the sum of the scores {got}')
  require(float(tr) == float(ev), lambda: f'{kind}: loss without randomness {float(tr)}, evaluation {float(ev)}')
  noisy = [float(x) for x in noisy]
  require(noisy[0] == noisy[1], lambda: f'{kind}: one random key gave losses {noisy[:2]}')
  if w.sum():
    require(noisy[0] != float(ev) and noisy[0] != noisy[2], lambda: f'{kind}: randomness is not used in training: {noisy}, evaluation {float(ev)}')
  rec.nontrivial(w.sum() > 1 and len(items) > 1)
  rec.label(kind + (' packed' if c['packed'] else ''))
  rec.label('several examples in a row', len({i[0] for i in items}) < len(items))
  del evm


# --- predictions ------------------------------------------------------------------------------------------------------


@st.composite
def predict_case(draw):
  fn = draw(st.sampled_from(['sample', 'sample', 'sample', 'beam']))
  prefill = draw(st.sampled_from(['no', 'yes', 'embedder']))
  nd = draw(st.sampled_from([1, 1, 3]))
  return dict(fn=fn, prefill=prefill, seed=draw(st.integers(0, 30)), scale=draw(st.sampled_from([0.3, 1.0, 3.0])), eos=3 if prefill == 'no' else 1,
              enc=[draw(st.lists(tokens, min_size=1, max_size=LE)) for _ in range(3)], dec=[draw(st.lists(tokens, min_size=0, max_size=LD)) for _ in range(3)],
              prompt=draw(st.booleans()) if fn == 'sample' else False, temperature=draw(st.sampled_from([0.0, 0.0, 1.0])), nd=nd,
              all=draw(st.booleans()) if nd > 1 else False, key=draw(st.integers(0, 99)), via=draw(st.sampled_from(['rng', 'params', 'none'])), alpha=draw(st.sampled_from([0.0, 0.6])) if fn == 'beam' else 0.0,
              order=draw(st.permutations([0, 1, 2])), batch=draw(st.booleans()))


@functools.lru_cache(None)
def predict_fn(fn, prefill, eos, nd, all_, prompt, how, alpha):
  m = model('encdec', eos, fn, prefill != 'no', embedder=prefill == 'embedder')

  def f(p, b, key, temperature):
    dp = {'alpha': alpha} if fn == 'beam' else {'temperature': temperature, 'topk': 0, 'rescale_log_probs': False}
    kw = {}
    if fn == 'sample':
      if how == 'rng':
        kw['rng'] = key
      elif how == 'params':
        dp['decode_rng'] = key
    return m.predict_batch_with_aux(p, b, decoder_params=dp, num_decodes=nd, return_all_decodes=all_, prompt_with_targets=prompt, **kw)
  return jax.jit(f)


@functools.lru_cache(None)
def plain_predict(fn, prefill, eos):
  m = model('encdec', eos, fn, prefill != 'no', embedder=prefill == 'embedder')
  return jax.jit(m.predict_batch)


def follow(p, enc, seq, forced, eos, greedy, what):
  """Checks one decoded sequence against the model; returns its total log-probability (None: undecidable)."""
  seq = [int(t) for t in seq]
  lg = mc.encdec_logits(p, enc, mc.shift(seq))
  lp = mc.log_softmax(lg)
  total = 0.0
  for i, t in enumerate(seq):
    if i < len(forced):
      require(t == forced[i], lambda: f'{what()}: {seq} does not start with the prompt {forced}')
      continue
    best = int(np.argmax(lg[i]))
    if greedy:
      gap = lg[i][best] - np.partition(lg[i], -2)[-2]
      if gap < 1e-3:
        return None
      require(t == best, lambda: f'{what()}: token {i} of {seq} is {t}, the model\'s choice is {best}')
    total += lp[i][t]
    if t == eos:
      require(not any(seq[i + 1:]), lambda: f'{what()}: {seq} goes on after the end token {eos}')
      break
  return total


def predict(c, rec):
  if c['prefill'] == 'embedder' and (c['fn'] == 'beam' or c['nd'] > 1):
    # An absolute position index is one number for all decodes of a batch: the prompt sets one per example, which
    # beams do not expand (decoding.cache_map leaves it out on purpose).
    c = dict(c, prefill='yes')
  p = mc.params('encdec', c['seed'], c['scale'])
  eos = c['eos']
  sample = c['fn'] == 'sample'
  enc = np.array([mc.pad(e, LE) for e in c['enc']], np.int32)
  forced = [[t for t in d if t != eos][:LD - 1] for d in c['dec']] if c['prompt'] else [[]] * 3
  dec = np.array([mc.pad(mc.shift(d + [0]) if c['prompt'] else [5] * LD, LD) for d in c['dec']], np.int32)
  if c['prompt'] and any(t == eos for d in c['dec'] for t in d[:-1]):
    dec = np.array([mc.pad([0] + f, LD) for f in forced], np.int32)  # the end token only ends a target
  greedy = sample and c['temperature'] == 0.0
  key = jax.random.PRNGKey(c['key'])
  batch = dict(encoder_input_tokens=enc, decoder_input_tokens=dec)
  f = predict_fn(c['fn'], c['prefill'], eos, c['nd'], c['all'], c['prompt'], c['via'] if sample and not greedy else 'rng', c['alpha'])
  if sample and not greedy and c['via'] == 'none':
    f = predict_fn(c['fn'], c['prefill'], eos, c['nd'], c['all'], c['prompt'], 'rng', c['alpha'])
  decodes, aux = f(p, batch, key, c['temperature'])
  decodes, scores = np.asarray(decodes), np.asarray(aux['scores'])
  if not c['all']:
    require(decodes.ndim == 2 and scores.shape == (3,), lambda: f'shapes {decodes.shape}, {scores.shape} for the best decode')
    decodes, scores = decodes[:, None], scores[:, None]
  else:
    require(decodes.shape[:2] == (3, c['nd']) and scores.shape == (3, c['nd']), lambda: f'shapes {decodes.shape}, {scores.shape} for {c["nd"]} decodes')
    require(np.all(np.diff(scores, axis=1) >= 0), lambda: f'scores are not in increasing order: {scores}')
  require(decodes.shape[-1] == LD, lambda: f'decoded length {decodes.shape[-1]}, expected {LD}')
  for r in range(3):
    for k in range(decodes.shape[1]):
      seq = decodes[r, k]
      if not sample and scores[r, k] < -1e6:  # a beam that holds no finished sequence
        require(not seq.any(), lambda: f'beam without a score holds {seq}')
        continue
      what = lambda: f'{c["fn"]} example {r} decode {k}'
      total = follow(p, c['enc'][r], seq, forced[r], eos, greedy, what)
      if total is None:
        rec.label('near tie')
        continue
      if not sample:
        l = [int(t) for t in seq]
        if eos in l:
          total /= ((5 + l.index(eos) + 1) / 6) ** c['alpha']
      require(abs(scores[r, k] - total) <= 1e-3 * (1 + abs(total)), lambda: f'{what()}: score {scores[r, k]} of {seq.tolist()}, its log-probability gives {total}')
      rec.label('ends', eos in seq)
  # Batch companions and their order do not matter.
  if greedy or not sample:
    o = c['order']
    again, aux2 = f(p, dict(encoder_input_tokens=enc[o], decoder_input_tokens=dec[o]), key, c['temperature'])
    again, s2 = np.asarray(again).reshape(decodes.shape), np.asarray(aux2['scores']).reshape(scores.shape)
    for i, r in enumerate(o):
      if not np.array_equal(again[i], decodes[r]):
        require(np.max(np.abs(np.sort(s2[i]) - np.sort(scores[r]))) < 2e-3, lambda: f'example {r} decodes to {again[i].tolist()} at another place in the batch, before {decodes[r].tolist()}')
        rec.label('near tie')
  if c['batch'] and c['nd'] == 1 and not c['prompt']:
    out = np.asarray(plain_predict(c['fn'], c['prefill'], eos)(p, batch))
    require(out.shape == (3, LD), lambda: f'predict_batch returned shape {out.shape}')
  rec.nontrivial(any(len(set(d.tolist())) > 2 for d in decodes[:, 0]))
  rec.label(c['fn'] + (' prompted' if c['prompt'] else ''))
  rec.label('several decodes', c['nd'] > 1)


SUBS = [Sub('score', score, strategy=score_case(), quick=80, thorough=8000, timeout=120, weight=2),
        Sub('predict', predict, strategy=predict_case(), quick=50, thorough=5000, timeout=120, weight=1.5)]
