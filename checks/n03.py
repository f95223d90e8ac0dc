"""N03: calls of the model API leave their arguments alone and can be repeated."""
import copy
import functools

import flax
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from checks import model_common as mc
from core import Sub, require
from t5x import decoding

BUDGET = (30, 900)
L = 6
B = 2
OPS = ['predict', 'predict_all', 'predict_plain', 'score', 'score_full', 'loss', 'eval', 'init']


@st.composite
def case(draw, some=None):
  kind = draw(st.sampled_from(['encdec', 'deconly', 'prefix']))
  ops = some or OPS + (['predict_prompt'] if kind == 'encdec' else [])
  op = st.fixed_dictionaries(dict(op=st.sampled_from(ops), rng=st.booleans(), jit=st.sampled_from([False, False, True] if not some else [False, False, False, False, True]), params=st.booleans()))
  kinds = draw(st.lists(op, min_size=1, max_size=2))
  return dict(kind=kind, beam=draw(st.sampled_from([False, False, True])), seed=draw(st.integers(0, 5)), ops=[kinds[i] for i in draw(st.lists(st.integers(0, len(kinds) - 1), min_size=2, max_size=4))], frozen=draw(st.booleans()),
              batch_seed=draw(st.integers(0, 99)), key=draw(st.integers(0, 9)), with_key=draw(st.booleans()), numpy=draw(st.booleans()))


@functools.lru_cache(None)
def model(kind, beam):
  fn = decoding.beam_search if beam else decoding.temperature_sample
  return mc.encdec(1, fn) if kind == 'encdec' else mc.deconly(1, fn, kind == 'prefix')


def leaves(x):
  """(path, object, value) of everything in a nest."""
  out = []
  def walk(v, path):
    if isinstance(v, (dict, flax.core.FrozenDict)):
      out.append((path, type(v), tuple(v.keys())))
      for k in v:
        walk(v[k], path + (k,))
    else:
      out.append((path, id(v), np.array(v)))
  walk(x, ())
  return out


def unchanged(before, x, what):
  now = leaves(x)
  require([a[:2] for a in now] == [a[:2] for a in before], lambda: f'{what}: entries now {[a[0] for a in now]}, before {[a[0] for a in before]}')
  for a, b in zip(before, now):
    if isinstance(a[2], tuple):
      require(a[2] == b[2], lambda: f'{what}: keys {a[2]} became {b[2]}')
    else:
      require(a[2].dtype == b[2].dtype and np.array_equal(a[2], b[2], equal_nan=a[2].dtype.kind == 'f'), lambda: f'{what}: {a[0]} changed from {a[2]} to {b[2]}')


def flat(x):
  return [np.asarray(v) for v in jax.tree.leaves(x) if not isinstance(v, str)]


def history(c, rec):
  m = model(c['kind'], c['beam'])
  r = np.random.default_rng(c['batch_seed'])
  conv = (lambda a: a) if c['numpy'] else jnp.asarray
  def tok(n):
    a = r.integers(2, mc.V, (B, n)).astype(np.int32)
    for i in range(B):
      a[i, r.integers(1, n + 1):] = 0
    return a
  tgt = tok(L)
  batch = dict(decoder_target_tokens=tgt, decoder_input_tokens=np.concatenate([np.zeros((B, 1), np.int32), tgt[:, :-1]], 1), decoder_loss_weights=(tgt > 0).astype(np.float32))
  if c['kind'] == 'encdec':
    batch['encoder_input_tokens'] = tok(4)
  else:
    batch['decoder_causal_attention'] = (np.arange(L)[None] < r.integers(1, L, (B, 1))).astype(np.int32)
  batch = {k: conv(v) for k, v in batch.items()}
  params = mc.params('encdec' if c['kind'] == 'encdec' else 'deconly', c['seed'])
  params = jax.tree.map(lambda x: x + 0, params)
  if c['frozen']:
    params = flax.core.freeze(params)
  dp = {'alpha': 0.6} if c['beam'] else {'temperature': 0.7, 'topk': 0}
  if c['with_key']:
    dp['decode_rng'] = jax.random.PRNGKey(c['key'] + 50)
  key = jax.random.PRNGKey(c['key'])
  shapes, types = {k: tuple(v.shape) for k, v in batch.items()}, {k: v.dtype for k, v in batch.items()}
  objects = dict(batch=batch, params=params, decoder_params=dp, shapes=shapes, types=types)
  before = {k: leaves(v) for k, v in objects.items() if k not in ('shapes', 'types')}
  before_dicts = {k: copy.deepcopy(dict(objects[k])) for k in ('shapes', 'types')}
  first = {}
  for n, o in enumerate(c['ops']):
    op = o['op']
    kw = {}
    if op.startswith('predict'):
      if o['params']:
        kw['decoder_params'] = dp
      if o['rng'] and not (o['params'] and c['with_key']):
        kw['rng'] = key
    name = (op, 'rng' in kw, o['params'] if op.startswith('predict') else None, o['rng'] if op == 'loss' else None)
    wrap = jax.jit if o['jit'] and op != 'init' and 'decoder_params' not in kw else (lambda f: f)
    rng = kw.get('rng')
    if op == 'predict':
      f = lambda p, b: m.predict_batch_with_aux(p, b, num_decodes=2, **kw)
    elif op == 'predict_all':
      f = lambda p, b: m.predict_batch_with_aux(p, b, num_decodes=2, return_all_decodes=True, **kw)
    elif op == 'predict_prompt':
      f = lambda p, b: m.predict_batch_with_aux(p, b, num_decodes=2, prompt_with_targets=True, **kw)
    elif op == 'predict_plain':
      f = lambda p, b: m.predict_batch(p, b, **({'rng': rng} if rng is not None else {}))
    elif op == 'score':
      f = m.score_batch
    elif op == 'score_full':
      f = lambda p, b: m.score_batch(p, b, return_intermediates=True)
    elif op == 'loss':
      f = lambda p, b: m.loss_fn(p, b, key if o['rng'] else None)[0]
    elif op == 'eval':
      f = lambda p, b: m.eval_fn(p, b)[0]
    else:
      f = lambda p, b: m.get_initial_variables(key, shapes, types)
    got = flat(wrap(f)(params, batch))
    for k, v in before.items():
      unchanged(v, objects[k], f'{op} (call {n + 1}) and its {k}')
    for k, v in before_dicts.items():
      require(objects[k] == v, f'{op} changed its {k}')
    if name in first:
      was, how = first[name]
      require(len(was) == len(got), f'{op}: another number of results on the second call')
      exact = how == (wrap is jax.jit)
      if exact:
        same = all(a.shape == b.shape and np.array_equal(a, b) for a, b in zip(was, got))
      else:  # compiled and not: same numbers up to rounding; tokens may differ on ties only, which shows in the scores
        same = all(a.shape == b.shape and (a.dtype.kind in 'iu' or np.allclose(a, b, rtol=1e-3, atol=1e-3)) for a, b in zip(was, got))
      require(same, lambda: f'{op} gave {got} on call {n + 1}, but {was} before')
      rec.label('repeated')
      rec.nontrivial(True)
    else:
      first[name] = got, wrap is jax.jit
    rec.label(op)


SUBS = [Sub('no-decoding', history, strategy=case(['score', 'score_full', 'score_full', 'loss', 'eval', 'init']), quick=60, thorough=2000, timeout=240, weight=0.6),
        Sub('history', history, strategy=case(), quick=60, thorough=4000, timeout=240)]
