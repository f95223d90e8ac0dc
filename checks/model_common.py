"""Small sequence models with an independent (numpy) definition of what they compute.

The network is a recurrence, so that every answer depends on every earlier token, its order, its position and the
encoder's unpadded input; the cache used for incremental decoding is the recurrent state.
"""
import functools

import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np

from checks import state_common as sc
from t5x import models, optimizers

V, D = 10, 6
PAD = np.eye(V, dtype=np.float32)[0] * -15  # padding is never the answer


class _Vocab:

  def __init__(self, eos):
    self.eos_id = eos
    self.pad_id = 0
    self.vocab_size = V
    self.bos_id = 0


class _Index(nn.Module):

  @nn.compact
  def __call__(self, b, advance):
    i = self.variable('cache', 'position_embedder_index', jnp.zeros, (b,), jnp.int32)
    now = i.value
    if advance:
      i.value = now + 1
    return now


def recur(tokens, pos, seg, ctx, h0, emb, mix, targets=None):
  """Positions without a target are left out, as the attention mask of a decoder does."""
  live = jnp.ones_like(seg) if targets is None else jnp.broadcast_to(targets, seg.shape)

  def body(h, t):
    tok, p, fresh, c, use = t
    h = jnp.where(fresh[:, None], 0., h)
    h = jnp.where(use[:, None] != 0, jnp.tanh(h @ mix * 0.4 + emb[tok] * (1 + 0.1 * p)[:, None] + c), h)
    return h, h
  fresh = jnp.concatenate([jnp.zeros_like(seg[:, :1], bool), seg[:, 1:] != seg[:, :-1]], 1)
  last, hs = jax.lax.scan(body, h0, (tokens.T, pos.T, fresh.T, ctx.transpose(1, 0, 2), live.T))
  return last, hs.transpose(1, 0, 2)


class _Decoder(nn.Module):
  embedder: bool

  def _run(self, tokens, pos, seg, ctx, h0, emb, mix, targets=None):
    return recur(tokens, pos, seg, ctx, h0, emb, mix, targets)

  @nn.compact
  def __call__(self, tokens, positions, seg, ctx, decode, prefill, prefill_lengths, targets):
    init = nn.initializers.normal(1.0)
    emb, mix = self.param('emb', init, (V, D)), self.param('mix', init, (D, D))
    b, n = tokens.shape
    zero = jnp.zeros((b, D))
    if not (decode or prefill):
      pos = jnp.broadcast_to(jnp.arange(n), (b, n)) if positions is None else positions
      return self._run(tokens, pos, seg, ctx, zero, emb, mix, targets)[1]
    known = self.has_variable('cache', 'h')
    h = self.variable('cache', 'h', jnp.zeros, (b, D))
    step = known and n == 1 and not prefill
    if self.embedder:
      index = _Index(name='position_embedder')(b, step)
    else:
      i = self.variable('cache', 'i', jnp.zeros, (b,), jnp.int32)
      index = i.value
    if prefill:
      pos = jnp.broadcast_to(jnp.arange(n), (b, n))
      _, hs = self._run(tokens, pos, seg, ctx, zero, emb, mix, targets)
      hs = jnp.concatenate([zero[:, None], hs], 1)
      h.value = jnp.take_along_axis(hs, prefill_lengths[:, None, None], 1)[:, 0]
      if not self.embedder:
        i.value = prefill_lengths.astype(jnp.int32)
      return hs[:, 1:]
    if step:
      last, out = self._run(tokens, index[:, None], seg, ctx, h.value, emb, mix)
      h.value = last
      if not self.embedder:
        i.value = index + 1
      return out
    return jnp.zeros((b, n, D))


class EncDec(nn.Module):
  """decode() accepts the prompt-prefill arguments."""
  noise: float = 1.0
  embedder: bool = False

  def setup(self):
    init = nn.initializers.normal(1.0)
    self.enc_emb = self.param('enc_emb', init, (V, D))
    self.out = self.param('out', init, (D, V))
    self.decoder = _Decoder(self.embedder)

  def _drop(self, x, enable_dropout):
    if enable_dropout:
      x = x + self.noise * jax.random.normal(self.make_rng('dropout'), x.shape)
    return x

  def encode(self, encoder_input_tokens, encoder_segment_ids=None, encoder_positions=None, enable_dropout=True):
    n = encoder_input_tokens.shape[1]
    pos = jnp.arange(n)[None] if encoder_positions is None else encoder_positions
    x = self.enc_emb[encoder_input_tokens.astype(jnp.int32)] * (1 + 0.1 * pos)[..., None]
    return self._drop(x, enable_dropout)

  def _context(self, encoded, enc_tokens, n, enc_seg=None, dec_seg=None):
    m = (enc_tokens > 0)[:, None, :] * jnp.ones((1, n, 1))
    if enc_seg is not None:
      m = m * (enc_seg[:, None, :] == dec_seg[:, :, None])
    return jnp.einsum('bld,btl->btd', encoded, m) / jnp.maximum(m.sum(-1, keepdims=True), 1)

  def decode(self, encoded, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens, encoder_segment_ids=None, decoder_segment_ids=None,
             decoder_positions=None, enable_dropout=True, decode=False, max_decode_length=None, prefill=False, prefill_lengths=None):
    tokens = decoder_input_tokens.astype(jnp.int32)
    seg = jnp.ones_like(tokens) if decoder_segment_ids is None else decoder_segment_ids
    ctx = self._context(encoded, encoder_input_tokens, tokens.shape[1], encoder_segment_ids, decoder_segment_ids if encoder_segment_ids is not None else None)
    out = self.decoder(tokens, decoder_positions, seg, ctx, decode, prefill, prefill_lengths, decoder_target_tokens)
    self.sow('intermediates', 'hidden', out)
    return self._drop(out @ self.out + PAD, enable_dropout)

  def __call__(self, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens, encoder_segment_ids=None, decoder_segment_ids=None,
               encoder_positions=None, decoder_positions=None, *, enable_dropout=True, decode=False):
    encoded = self.encode(encoder_input_tokens, encoder_segment_ids, encoder_positions, enable_dropout=enable_dropout)
    return self.decode(encoded, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens, encoder_segment_ids=encoder_segment_ids,
                       decoder_segment_ids=decoder_segment_ids, decoder_positions=decoder_positions, enable_dropout=enable_dropout, decode=decode)


class EncDecPlain(EncDec):
  """Without prompt prefill."""

  def decode(self, encoded, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens, encoder_segment_ids=None, decoder_segment_ids=None,
             decoder_positions=None, enable_dropout=True, decode=False, max_decode_length=None):
    return super().decode(encoded, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens, encoder_segment_ids, decoder_segment_ids,
                          decoder_positions, enable_dropout, decode, max_decode_length)


class DecOnly(nn.Module):
  noise: float = 1.0

  @nn.compact
  def __call__(self, decoder_input_tokens, decoder_target_tokens, decoder_segment_ids=None, decoder_positions=None, decoder_causal_attention=None, *,
               enable_dropout=True, decode=False, max_decode_length=None, prefill=False, prefill_lengths=None):
    init = nn.initializers.normal(1.0)
    emb, out_w, mix = self.param('emb', init, (V, D)), self.param('out', init, (D, V)), self.param('mix', init, (D, D))
    tokens = decoder_input_tokens.astype(jnp.int32)
    b, n = tokens.shape
    seg = jnp.ones_like(tokens) if decoder_segment_ids is None else decoder_segment_ids
    ctx = jnp.zeros((b, n, D))
    mean = jnp.zeros((b, D))
    if decoder_causal_attention is not None:
      m = (decoder_causal_attention > 0)[..., None] * jnp.ones((1, 1, D))
      # Only what belongs to the same example, as the mask of the targets says.
      same = (seg[:, :, None] == seg[:, None, :]) * 1.0
      ctx = jnp.einsum('bts,bsd->btd', same, emb[tokens] * m) / jnp.maximum(jnp.einsum('bts,bs->bt', same, m[..., 0]), 1)[..., None]
      mean = ctx[:, 0]
      ctx = ctx * m + 0.5 * ctx * (1 - m)

    def run(pos, ctx, h0, targets=None):
      return recur(tokens, pos, seg, ctx, h0, emb, mix, targets)

    zero = jnp.zeros((b, D))
    if decode or prefill:
      known = self.has_variable('cache', 'h')
      h = self.variable('cache', 'h', jnp.zeros, (b, D))
      c = self.variable('cache', 'c', jnp.zeros, (b, D))
      i = self.variable('cache', 'i', jnp.zeros, (b,), jnp.int32)
      if prefill:
        _, hs = run(jnp.broadcast_to(jnp.arange(n), (b, n)), ctx, zero, decoder_target_tokens)
        hs = jnp.concatenate([zero[:, None], hs], 1)
        h.value = jnp.take_along_axis(hs, prefill_lengths[:, None, None], 1)[:, 0]
        i.value = prefill_lengths.astype(jnp.int32)
        c.value = mean
        # Position of the last prompt token still counts as part of the prompt.
        k = self.variable('cache', 'k', jnp.zeros, (b,), jnp.int32)
        k.value = i.value
        hidden = hs[:, 1:]
      elif known and n == 1:
        k = self.variable('cache', 'k', jnp.zeros, (b,), jnp.int32)
        inside = (i.value <= k.value)[:, None]
        last, hidden = run(i.value[:, None], (c.value * jnp.where(inside, 1.0, 0.5))[:, None], h.value)
        h.value, i.value = last, i.value + 1
      else:
        self.variable('cache', 'k', jnp.zeros, (b,), jnp.int32)
        hidden = jnp.zeros((b, n, D))
    else:
      pos = jnp.broadcast_to(jnp.arange(n), (b, n)) if decoder_positions is None else decoder_positions
      _, hidden = run(pos, ctx, zero, decoder_target_tokens)
    self.sow('intermediates', 'hidden', hidden)
    x = hidden @ out_w + PAD
    if enable_dropout:
      x = x + self.noise * jax.random.normal(self.make_rng('dropout'), x.shape)
    return x


# --- the same in numpy ------------------------------------------------------------------------------------------------


def _np(params):
  params = {**params, **params.get('decoder', {})}
  return {k: np.asarray(v, np.float64) for k, v in params.items() if k != 'decoder'}


def encdec_logits(params, enc, dec, positions=None):
  """Logits of one unpacked example, lists of token ids; enc may be padded with zeros at its end."""
  p = _np(params)
  enc = np.asarray(enc, int)
  x = p['enc_emb'][enc] * (1 + 0.1 * np.arange(len(enc)))[:, None]
  m = enc > 0
  ctx = x[m].sum(0) / max(m.sum(), 1)
  h = np.zeros(D)
  out = []
  for i, t in enumerate(dec):
    h = np.tanh(h @ p['mix'] * 0.4 + p['emb'][t] * (1 + 0.1 * i) + ctx)
    out.append(h @ p['out'] + PAD)
  return np.array(out)


def deconly_logits(params, dec, prompt=None):
  """Logits of one example; `prompt`: how many positions of dec form the bidirectional prompt (None: fully causal)."""
  p = _np(params)
  dec = np.asarray(dec, int)
  ctx = np.zeros(D)
  if prompt is not None:
    ctx = p['emb'][dec[:prompt]].sum(0) / max(prompt, 1)
  h = np.zeros(D)
  out = []
  for i, t in enumerate(dec):
    c = ctx * (1 if prompt is None or i < prompt else 0.5)
    h = np.tanh(h @ p['mix'] * 0.4 + p['emb'][t] * (1 + 0.1 * i) + c)
    out.append(h @ p['out'] + PAD)
  return np.array(out)


def log_softmax(x):
  x = x - x.max(-1, keepdims=True)
  return x - np.log(np.exp(x).sum(-1, keepdims=True))


@functools.lru_cache(None)
def params(kind, seed, scale=1.0):
  r = np.random.default_rng(seed)
  names = {'emb': (V, D), 'out': (D, V), 'mix': (D, D)}
  if kind == 'encdec':
    names['enc_emb'] = (V, D)
  out = {k: jnp.asarray((r.standard_normal(s) * (scale if k == 'out' else 1)).astype(np.float32)) for k, s in names.items()}
  if kind == 'encdec':
    out['decoder'] = {k: out.pop(k) for k in ('emb', 'mix')}
  return out


def encdec(eos=1, decode_fn=None, prefill=True, embedder=False, **kw):
  from t5x import decoding
  return models.EncoderDecoderModel((EncDec if prefill else EncDecPlain)(embedder=embedder), _Vocab(5 if eos != 5 else 4), _Vocab(eos), optimizers.sgd(0.1), decode_fn=decode_fn or decoding.temperature_sample, **kw)


def deconly(eos=1, decode_fn=None, bidirectional=False, **kw):
  from t5x import decoding
  return models.DecoderOnlyModel(DecOnly(), _Vocab(eos), optimizers.sgd(0.1), decode_fn=decode_fn or decoding.temperature_sample, inputs_bidirectional_attention=bidirectional, **kw)


def pad(x, n):
  return list(x)[:n] + [0] * (n - len(x))


def shift(x):
  return [0] + list(x)[:-1]
