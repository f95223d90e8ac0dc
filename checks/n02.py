"""N02: decoder-only prediction continues every prompt on its own."""
import functools

import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from checks import model_common as mc
from core import Sub, require
from t5x import decoding, models

BUDGET = (30, 1200)
L = 9
B = 4
tokens = st.integers(1, mc.V - 1)


@st.composite
def case(draw):
  fn = draw(st.sampled_from(['sample', 'sample', 'sample', 'beam']))
  nd = draw(st.sampled_from([1, 3]))
  lengths = draw(st.one_of(st.integers(0, L - 1).map(lambda n: [n] * B), st.lists(st.integers(0, L - 1), min_size=B, max_size=B)))
  return dict(fn=fn, nd=nd, all=draw(st.booleans()) if nd > 1 else False, bidirectional=draw(st.booleans()), seed=draw(st.integers(0, 30)), scale=draw(st.sampled_from([0.3, 1.0, 3.0])),
              prompts=[draw(st.lists(tokens, min_size=n, max_size=n)) for n in lengths], targets=[draw(st.lists(tokens, min_size=0, max_size=L)) for _ in range(B)],
              ends=draw(st.lists(st.booleans(), min_size=B, max_size=B)), temperature=draw(st.sampled_from([0.0, 0.0, 1.0])), key=draw(st.integers(0, 99)),
              others=[draw(st.lists(tokens, max_size=L - 1)) for _ in range(B)], alone=draw(st.integers(0, B - 1)))


@functools.lru_cache(None)
def predict_fn(fn, nd, all_, bidirectional):
  m = mc.deconly(1, {'sample': decoding.temperature_sample, 'beam': decoding.beam_search}[fn], bidirectional)

  def f(p, batch, key, temperature):
    dp = {'alpha': 0.6} if fn == 'beam' else {'temperature': temperature, 'topk': 0, 'rescale_log_probs': False}
    return m.predict_batch_with_aux(p, batch, rng=key, num_decodes=nd, return_all_decodes=all_, decoder_params=dp)
  return jax.jit(f)


def features(prompts, targets):
  inp, tgt, causal = (np.zeros((len(prompts), L), np.int32) for _ in range(3))
  for r, (p, t) in enumerate(zip(prompts, targets)):
    seq = (list(p) + list(t))[:L]
    tgt[r, :len(seq)] = seq
    inp[r, 1:len(seq)] = seq[:-1]
    if len(seq) < L:
      inp[r, len(seq)] = seq[-1] if seq else 0
    causal[r, :len(p) + 1] = 1
  return dict(decoder_input_tokens=inp, decoder_target_tokens=tgt, decoder_causal_attention=causal)


def run(c, prompts, targets, p):
  f = predict_fn(c['fn'], c['nd'], c['all'], c['bidirectional'])
  out, aux = f(p, features(prompts, targets), jax.random.PRNGKey(c['key']), c['temperature'])
  out, s = np.asarray(out), np.asarray(aux['scores'])
  if not c['all']:
    require(out.shape == (B, L) and s.shape == (B,), lambda: f'shapes {out.shape}, {s.shape}')
    out, s = out[:, None], s[:, None]
  require(out.shape == (B, c['nd'] if c['all'] else 1, L), lambda: f'shape {out.shape}')
  return out, s


def predict(c, rec):
  p = mc.params('deconly', c['seed'], c['scale'])
  sample = c['fn'] == 'sample'
  greedy = sample and c['temperature'] == 0.0
  # The end token of a prompt is its last; a prompt may have none.
  prompts = [[t if t != 1 else 2 for t in q] for q in c['prompts']]
  prompts = [q[:-1] + [1] if q and e else q for q, e in zip(prompts, c['ends'])]
  out, s = run(c, prompts, c['targets'], p)
  same_length = len({len(q) for q in prompts}) == 1
  ended = False
  close = set()
  for r, q in enumerate(prompts):
    room = L - len(q)
    for k in range(out.shape[1]):
      got = [int(t) for t in out[r, k]]
      require(not any(got[room:]), lambda: f'prompt {q} of length {len(q)} leaves room for {room} tokens, got {got}')
      got = got[:room]
      if 1 in got:
        n = got.index(1) + 1
        require(not any(got[n:]), lambda: f'{got} after prompt {q} goes on after its end')
        ended = True
      else:
        n = room
      new = got[:n]
      prefix = len(q) + 1 if c['bidirectional'] else None
      lp = mc.log_softmax(mc.deconly_logits(p, [0] + q + new[:-1], prefix))[len(q):]
      total = 0.0
      for i, t in enumerate(new):
        if greedy:
          top = np.sort(lp[i])
          if top[-1] - top[-2] < 1e-3:
            close.add(r)
            total = None
            break
          require(t == int(np.argmax(lp[i])), lambda: f'prompt {q}: token {i} of {new} is {t}, the model continues with {int(np.argmax(lp[i]))}')
        total += lp[i][t]
      if total is None:
        continue
      if not sample:
        if 1 in got:
          total /= ((5 + len(q) + n) / 6) ** 0.6
        elif not same_length or 0 in new or s[r, k] < -1e6:
          continue  # a beam cut at its length may have ended (or not) later, with a longer prompt's companions
      require(abs(s[r, k] - total) <= 1e-3 * (1 + abs(total)), lambda: f'{c["fn"]}: prompt {q} continued by {new} has score {s[r, k]}, its log-probability gives {total}')
  if greedy:
    # Neither the targets nor the other examples matter.
    a = c['alone']
    o = [[t if t != 1 else 2 for t in q] for q in c['others']]
    o[a] = prompts[a]
    out2, s2 = run(c, o, [[] for _ in range(B)], p)
    require(a in close or (np.array_equal(out2[a], out[a]) and np.allclose(s2[a], s[a], rtol=1e-3, atol=1e-3)),
            lambda: f'prompt {prompts[a]} continues with {out[a].tolist()} or, with other examples around, with {out2[a].tolist()}')
  rec.nontrivial(len({len(q) for q in prompts}) > 1 and any(len(set(o[0].tolist()) - {0}) > 1 for o in out))
  rec.label(c['fn'])
  rec.label('bidirectional', c['bidirectional'])
  rec.label('ended', ended)
  rec.label('no room but one', any(len(q) == L - 1 for q in prompts))


# --- moving tokens ----------------------------------------------------------------------------------------------------


@st.composite
def move_case(draw):
  n = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 40]))
  rows = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n), st.integers(0, 2**31 - 1)).map(list), min_size=1, max_size=4))
  return dict(n=n, rows=rows, jit=draw(st.booleans()))


def move(c, rec):
  n = c['n']
  b = len(c['rows'])
  prompts, seqs, cut = np.zeros((b, n), np.int32), np.zeros((b, n), np.int32), np.zeros(b, np.int32)
  want_r, want_l, want_seq = np.zeros((b, n), np.int32), np.zeros((b, n), np.int32), np.zeros((b, n), np.int32)
  gaps, last = np.zeros((b, n), np.int32), []
  for r, (k, p, seed) in enumerate(c['rows']):
    rng = np.random.default_rng(seed)
    toks = rng.integers(1, 50, k)
    prompts[r, 1:1 + k] = toks
    want_r[r, n - k:] = toks if k else []
    last.append(toks[-1] if k else 0)
    start = rng.integers(0, n - k + 1)
    gaps[r, start:start + k] = toks
    want_l[r, :k] = toks
    seqs[r] = rng.integers(0, 50, n)
    cut[r] = p
    want_seq[r, :n - p] = seqs[r, p:]
  wrap = jax.jit if c['jit'] else (lambda f: f)
  for f, x, want, what in ((decoding._right_align_prompts, (prompts,), want_r, 'right-aligning prompts'), (decoding._left_align_prompts, (gaps,), want_l, 'left-aligning'),
                           (decoding._pick_last_prompt_token, (prompts,), np.array(last), 'the last prompt token of'), (models.remove_prefix, (seqs, cut), want_seq, 'removing prefixes from')):
    got = np.asarray(wrap(f)(*map(jnp.asarray, x)))
    require(got.shape == want.shape and np.array_equal(got, want), lambda: f'{what} {[v.tolist() for v in x]} gave {got.tolist()}, expected {want.tolist()}')
  rec.nontrivial(n > 2 and any(0 < k < n - 1 for k, _, _ in c['rows']))
  rec.label('one column', n == 1)


SUBS = [Sub('predict', predict, strategy=case(), quick=120, thorough=8000, timeout=120, weight=3),
        Sub('move', move, strategy=move_case(), quick=80, thorough=4000, timeout=60)]
