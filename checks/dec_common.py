"""A history-dependent toy language model and the sampling cases shared by D01 and D02."""
import functools

import numpy as np
import jax
import jax.numpy as jnp
import flax
from hypothesis import strategies as st

M = 499


def hist(h, tok, pos):
  """The model's hidden state after reading `tok` at position `pos`."""
  return (h * 31 + tok * 17 + (pos % 7) * 13 + 7) % M


def make_cache(h0, pos, offset):
  """A cache holding, twice, the hidden state of each example; pos: scalar or [batch]."""
  h0 = jnp.asarray(h0, jnp.int32)
  k = h0[:, None]
  pos = jnp.asarray(pos, jnp.int32)
  if offset:
    k = jnp.stack([k, (k * 3 + 1) % M])
    pos = jnp.stack([pos, pos])
  # As in a transformer's cache: the index, and a bias that is not per example.
  return {'decoder': {'layers': {'cached_key': k, 'cached_value': k.astype(jnp.float32),
                                 'cache_index': pos},
                      'relpos': {'cached_bias': jnp.ones((1, 3, 1))}}}


def step_logits(table, offset, keep_type=False):
  """tokens_to_logits reading everything it needs from the cache and the current token."""

  def fn(state):
    cache = flax.core.unfreeze(state.cache) if isinstance(state.cache, flax.core.FrozenDict) else state.cache
    lay = cache['decoder']['layers']
    tok = state.cur_token[:, 0]
    idx = lay['cache_index']
    if lay['cached_key'].ndim == 3:
      hk = lay['cached_key'][..., 0]
      hv = lay['cached_value'][..., 0].astype(jnp.int32)
      pos = jnp.reshape(idx, (2, -1))
      nk, nv = hist(hk, tok[None], pos), hist(hv, tok[None], pos)
      sel = (nk[0] + nv[1]) % M
    else:
      hk = lay['cached_key'][:, 0]
      hv = lay['cached_value'][:, 0].astype(jnp.int32)
      pos = jnp.reshape(idx, (-1,))
      nk, nv = hist(hk, tok, pos), hist(hv, tok, pos)
      sel = jnp.where(nk == nv, nk, (nk + nv + 1) % M)
    new = {'decoder': {'layers': {'cached_key': nk[..., None],
                                  'cached_value': nv[..., None].astype(jnp.float32),
                                  'cache_index': idx + 1},
                       'relpos': cache['decoder']['relpos']}}
    if keep_type and isinstance(state.cache, flax.core.FrozenDict):
      new = flax.core.freeze(new)
    # The bias is shared by all rows: were it expanded, shapes would not broadcast.
    return table[sel] * cache['decoder']['relpos']['cached_bias'][0, 0, 0], new

  return fn


class RefModel:
  """The same model for one example, in numpy."""

  def __init__(self, table, h0, offset):
    self.table = np.asarray(table, np.float64)
    self.init = (h0, (h0 * 3 + 1) % M) if offset else (h0,)
    self.offset = offset

  def next(self, hs, tok, pos):
    hs = tuple(hist(int(h), int(tok), int(pos)) for h in hs)
    sel = (hs[0] + hs[1]) % M if self.offset else hs[0]
    return hs, self.table[sel]


def make_table(seed, v, eos, eos_bias, pad_ok, scale):
  rng = np.random.RandomState(seed % (2**31))
  t = rng.randn(M, v).astype(np.float32) * scale
  t[:, eos] += eos_bias
  if not pad_ok:
    t[:, 0] = -1e9
  return t


def prompts(rng, lens, length, v, eos, eos_in_prompt):
  x = np.zeros((len(lens), length), np.int32)
  for b, n in enumerate(lens):
    toks = rng.randint(1, v, size=n)
    if not eos_in_prompt:
      toks = np.where(toks == eos, (eos % (v - 1)) + 1, toks)
    x[b, 1:1 + n] = toks
  return x


@st.composite
def sample_case(draw, focus):
  b = draw(st.sampled_from([1, 2, 3]))
  length = draw(st.sampled_from([1, 2, 4, 7]))
  case = dict(
      b=b, l=length, v=draw(st.sampled_from([3, 4, 6])),
      nd=draw(st.sampled_from([1, 2, 3])), offset=draw(st.sampled_from([0, 0, 1])),
      prefill=draw(st.booleans()), frozen=draw(st.sampled_from([False, False, True])),
      data=draw(st.lists(st.fixed_dictionaries(dict(
          seed=st.integers(0, 2**31 - 1),
          lens=st.lists(st.integers(0, length - 1), min_size=b, max_size=b),
          eos_bias=st.sampled_from([-30., -3., 0., 1., 3.]),
          eosp=st.booleans(), pad=st.sampled_from([False, False, True]),
          scale=st.sampled_from([0.3, 1., 3.]),
          steps=st.integers(1, length), lag=st.booleans(),
          temp=st.sampled_from([0.0, 5e-5, 0.3, 1.0, 2.0]), k=st.integers(0, 4),
          p=st.sampled_from([0.05, 0.4, 0.7, 0.95, 1.0]))), min_size=1, max_size=6)))
  case['eos'] = draw(st.integers(1, case['v'] - 1))
  case['steps'] = draw(st.sampled_from(['none', 'static', 'traced']))
  case['hard'] = draw(st.sampled_from([None, 0, 1, 3]))
  case['mode'] = draw(st.sampled_from(
      ['k1', 'kt', 'greedy0', 'p', 'pt', 'k0'] if focus == 'logp' else ['k1', 'kt', 'k0']))
  case['tvec'] = draw(st.booleans()) if focus == 'logp' else False
  case['rescale'] = draw(st.booleans())
  case['cb'] = draw(st.sampled_from([0, 0, 1])) if focus == 'logp' else 0
  return case


@functools.lru_cache(maxsize=None)
def compiled(b, l, v, nd, offset, prefill, frozen, eos, steps, hard, mode, tvec, rescale, cb, static_steps, static_p):
  from t5x import decoding
  del b, l, v, tvec

  @jax.jit
  def run(inputs, table, h0, idx, temp, k, p, nsteps, rng):
    cache = make_cache(h0, idx if prefill else 0, offset)
    if frozen:
      cache = flax.core.freeze(cache)
    kw = {}
    if steps == 'static':
      kw['max_decode_steps'] = static_steps
    elif steps == 'traced':
      kw['max_decode_steps'] = nsteps
    if hard is not None:
      kw['max_decode_steps_hard_limit'] = hard
    if mode == 'k1':
      kw['topk'] = 1
    elif mode == 'kt':
      kw['topk'] = k
    elif mode == 'p':
      kw.update(topk=0, topp=static_p)
    elif mode == 'pt':
      kw.update(topk=0, topp=p)
    else:
      kw['topk'] = 0
    if cb:
      kw['logit_callback_fn'] = lambda lg, state: lg + jnp.where(jnp.arange(lg.shape[-1]) == state.step % 2 + 1, 2.0, 0.0)
    return decoding.temperature_sample(
        inputs, cache, step_logits(table, offset), eos, decode_rng=rng, num_decodes=nd,
        temperature=temp, cache_offset=offset, initial_index=idx if prefill else None,
        rescale_log_probs=rescale, **kw)

  return run


def run_sample(case, d):
  """Runs one data draw; returns everything a validator needs."""
  rng = np.random.RandomState(d['seed'])
  b, l, v, eos = case['b'], case['l'], case['v'], case['eos']
  x = prompts(rng, d['lens'], l, v, eos, d['eosp'])
  idx = np.array(d['lens'], np.int32)
  if d['lag']:  # resume before the end of the prompt
    idx = np.array([rng.randint(0, n + 1) for n in d['lens']], np.int32)
  h0 = rng.randint(0, M, size=b)
  table = make_table(d['seed'] + 1, v, eos, d['eos_bias'], d['pad'], d['scale'])
  temp = np.float32(0.0 if case['mode'] == 'greedy0' else d['temp'])
  if case['tvec']:
    temp = np.array([[0., .3, 1., 2., .5][rng.randint(5)] for _ in range(b)], np.float32)
    if case['mode'] == 'greedy0':
      temp = temp * 0
  fn = compiled(b, l, v, case['nd'], case['offset'], case['prefill'], case['frozen'], eos,
                case['steps'], case['hard'], case['mode'], case['tvec'], case['rescale'], case['cb'],
                d['steps'] if case['steps'] == 'static' else None,
                d['p'] if case['mode'] == 'p' else None)
  dec, lp = fn(x, table, h0, idx, temp, np.int32(d['k']), np.float32(d['p']), np.int32(d['steps']),
               jax.random.PRNGKey(d['seed']))
  steps = None
  if case['steps'] != 'none':
    steps = d['steps']
    if case['hard']:
      steps = min(steps, case['hard'])
  limit = [l if steps is None else min(l, n + steps) for n in d['lens']]
  start = [int(i) for i in idx] if case['prefill'] else [0] * b
  return dict(x=x, h0=h0, table=table, temp=np.broadcast_to(temp, (b,)), dec=np.asarray(dec),
              lp=np.asarray(lp), limit=limit, start=start, rng=rng)
