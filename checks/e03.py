"""E03: expert models add exactly the configured auxiliary terms to the base model's loss."""
import functools

import flax
import flax.linen as nn
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np

from checks import model_common as mc
from core import Sub, raises, require
from t5x import decoding, metrics as mm, models, optimizers
from t5x.contrib.moe import models as moe

BUDGET = (25, 900)
METRICS = ('auxiliary_loss', 'router_z_loss', 'fraction_tokens_left_behind', 'expert_usage', 'router_confidence')
DECOY = ('my_auxiliary_loss', 'router_z_loss_old', 'usage', 'hidden2')


class Sower(nn.Module):
  """One expert layer's metrics, read from a parameter so that gradients can be followed."""
  shape: tuple
  times: int
  overwrite: bool
  missing: str

  @nn.compact
  def __call__(self):
    v = self.param('values', nn.initializers.normal(1.0), (self.times, len(METRICS)) + self.shape)
    for t in range(self.times):
      for i, m in enumerate(METRICS):
        if m != self.missing:
          if self.overwrite:
            self.sow('intermediates', m, v[t, i], init_fn=lambda: 0, reduce_fn=lambda a, b: b)
          else:
            self.sow('intermediates', m, v[t, i])
      for d in DECOY:
        self.sow('intermediates', d, jnp.asarray(1e6))


class Block(nn.Module):
  """Layers nested under a further name; a name equal to a metric's must not matter."""
  spec: tuple
  name_: str

  @nn.compact
  def __call__(self):
    for i in range(self.spec[0]):
      Sower(self.spec[1], self.spec[2], self.spec[3], self.spec[4], name=f'{self.name_}_{i}')()


class MoeEncDec(mc.EncDec):
  spec: tuple = ()

  def setup(self):
    super().setup()
    if self.spec:
      self.expert_usage = Block(self.spec, 'mlp')
      self.top = Sower(*self.spec[1:])

  def __call__(self, *a, **k):
    if self.spec:
      self.expert_usage()
      self.top()
    return super().__call__(*a, **k)


class MoeDecOnly(nn.Module):
  spec: tuple = ()

  def setup(self):
    self.inner = mc.DecOnly()
    if self.spec:
      self.expert_usage = Block(self.spec, 'mlp')
      self.top = Sower(*self.spec[1:])

  def __call__(self, *a, **k):
    if self.spec:
      self.expert_usage()
      self.top()
    return self.inner(*a, **k)


@st.composite
def case(draw):
  return dict(kind=draw(st.sampled_from(['encdec', 'deconly'])), layers=draw(st.integers(0, 4)), shape=draw(st.sampled_from([[], [], [1], [3], [2, 2]])), times=draw(st.sampled_from([1, 1, 2])), overwrite=draw(st.booleans()),
              missing=draw(st.sampled_from([''] * 8 + list(METRICS))), aux=draw(st.sampled_from([0.0, 0.01, 1.0, 2.5])), rz=draw(st.sampled_from([0.0, 0.001, 1.0, 3.0])),
              smooth=draw(st.sampled_from([0.0, 0.1])), z=draw(st.sampled_from([0.0, 0.0001, 0.1])), norm=draw(st.sampled_from([None, 7.0, 'NUM_REAL_TARGET_TOKENS', 'NUM_TOTAL_TARGET_TOKENS', 'AVERAGE_PER_SEQUENCE'])),
              **draw(st.sampled_from([dict(b=1, n=1), dict(b=3, n=5), dict(b=2, n=4)])), weights=draw(st.booleans()), dropout=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


def build(c, r):
  b, n = c['b'], c['n']
  dec = r.integers(1, mc.V, (b, n)).astype(np.int32)
  keep = np.arange(n)[None] < r.integers(1, n + 1, (b, 1))
  dec = dec * keep
  inp = np.concatenate([np.zeros((b, 1), np.int32), dec[:, :-1]], 1)
  w = (dec > 0).astype(np.float32)
  if c['weights']:
    w = w * r.integers(0, 2, w.shape)
    w[0, 0] = 1
  batch = dict(decoder_input_tokens=inp, decoder_target_tokens=dec, decoder_loss_weights=w.astype(np.float32))
  if c['kind'] == 'encdec':
    batch['encoder_input_tokens'] = r.integers(1, mc.V, (b, 4)).astype(np.int32)
  return {k: jnp.asarray(v) for k, v in batch.items()}


@functools.lru_cache(400)
def pair(kind, spec, aux, rz, smooth, z, norm):
  kw = dict(label_smoothing=smooth, z_loss=z, loss_normalizing_factor=norm)
  voc = mc._Vocab(1)  # pylint: disable=protected-access
  opt = optimizers.sgd(0.1)
  if kind == 'encdec':
    return (moe.MoeEncoderDecoderModel(MoeEncDec(spec=spec), voc, voc, opt, decode_fn=decoding.temperature_sample, aux_loss_factor=aux, router_z_loss_factor=rz, **kw),
            models.EncoderDecoderModel(MoeEncDec(), voc, voc, opt, decode_fn=decoding.temperature_sample, **kw))
  return (moe.MoeDecoderOnlyModel(MoeDecOnly(spec=spec), voc, opt, decode_fn=decoding.temperature_sample, aux_loss_factor=aux, router_z_loss_factor=rz, **kw),
          models.DecoderOnlyModel(MoeDecOnly(), voc, opt, decode_fn=decoding.temperature_sample, **kw))


def near(got, want, what):
  require(np.allclose(np.asarray(got, np.float64), np.asarray(want, np.float64), rtol=2e-4, atol=1e-4), lambda: f'{what}: {got}, expected {want}')


def check_metrics(c, batch, want, aux, rz, mean, metrics, bmetrics, what):
  one = lambda m: {k: np.asarray(v.compute()) for k, v in mm.set_step_metrics_num_steps(mm.set_time_metrics_duration(jax.device_get(m), 2.0), 1).items()}
  vm, vb = one(metrics), one(bmetrics)
  total, nonpad = float(want + aux + rz), float(bmetrics['loss_per_nonpadding_target_token'].count)
  size = batch['decoder_target_tokens'].size
  special = {'loss': total, 'loss_per_nonpadding_target_token': total / nonpad, 'loss_per_all_target_tokens': total / size,
             'experts/auxiliary_loss': aux, 'experts/router_z_loss': rz, 'experts/fraction_tokens_left_behind': mean['fraction_tokens_left_behind'],
             'experts/expert_usage': mean['expert_usage'], 'experts/router_confidence': mean['router_confidence']}
  for k, w in special.items():
    require(k in vm, lambda: f'{what}: metric {k} is missing')  # pylint: disable=cell-var-from-loop
    near(vm[k], w, f'{what}: metric {k}')
  for k, w in vb.items():
    if k not in special:
      if k not in vm and '/' in k and not k.startswith('timing'):
        continue  # Which packing statistics are reported is not specified.
      require(k in vm, lambda: f'{what}: metric {k} is missing')  # pylint: disable=cell-var-from-loop
      near(vm[k], w, f'{what}: metric {k} against the base model\'s')


def loss(c, rec):
  r = np.random.default_rng(c['seed'])
  batch = build(c, r)
  spec = (c['layers'], tuple(c['shape']), c['times'], c['overwrite'], c['missing'])
  model, base = pair(c['kind'], spec, c['aux'], c['rz'], c['smooth'], c['z'], c['norm'])
  net = mc.params(c['kind'], c['seed'] % 5)
  net = dict(net) if c['kind'] == 'encdec' else {'inner': dict(net)}
  shape = (c['times'], len(METRICS)) + tuple(c['shape'])
  val = lambda: jnp.asarray(r.standard_normal(shape).astype(np.float32) * 3)
  extra = {'top': {'values': val()}}
  if c['layers']:
    extra['expert_usage'] = {f'mlp_{i}': {'values': val()} for i in range(c['layers'])}
  params = {**net, **extra}
  what = f'{c["layers"] + 1} expert layers of shape {c["shape"]} sown {c["times"]} times, factors {c["aux"]} and {c["rz"]}'
  key = jax.random.PRNGKey(c['seed'] % 97) if c['dropout'] else None
  if c['missing']:
    e = raises(lambda: model.loss_fn(params, batch, key), ValueError)
    require(e is not None and c['missing'] in str(e), lambda: f'{what}: no layer reports {c["missing"]}: {e!r}')
    rec.label('a metric is missing')
    return
  # Every layer's values; when sown twice under one name all count, unless a later value replaces the former.
  vals = np.stack([np.asarray(x['values'], np.float64) for x in [extra['top']] + list(extra.get('expert_usage', {}).values())])
  if c['overwrite']:
    vals = vals[:, -1:]
  mean = {m: vals[:, :, i].mean() for i, m in enumerate(METRICS)}
  fn = jax.value_and_grad(lambda p: model.loss_fn(p, batch, key), has_aux=True)
  bfn = jax.value_and_grad(lambda p: base.loss_fn(p, batch, key), has_aux=True)
  (got, metrics), grads = fn(params)
  (want, bmetrics), bgrads = bfn(net)
  aux, rz = c['aux'] * mean['auxiliary_loss'], c['rz'] * mean['router_z_loss']
  near(got, want + aux + rz, f'{what}: loss (base {want})')
  for x, y in zip(jax.tree_util.tree_leaves({k: grads[k] for k in net}), jax.tree_util.tree_leaves(bgrads)):
    near(x, y, f'{what}: gradient of the shared parameters')
  count = vals[:, :, 0].size
  for g in [grads['top']] + list(grads.get('expert_usage', {}).values()):
    g = np.asarray(g['values'])
    w = np.zeros(shape)
    last = slice(-1, None) if c['overwrite'] else slice(None)
    w[last, 0], w[last, 1] = c['aux'] / count, c['rz'] / count
    near(g, w, f'{what}: gradient of the expert losses')  # pylint: disable=cell-var-from-loop
  check_metrics(c, batch, want, aux, rz, mean, metrics, bmetrics, what)
  if c['seed'] % 4 == 0:
    near(model.score_batch(params, batch), base.score_batch(net, batch), f'{what}: scores')
    near(model.eval_fn(params, batch)[0], base.eval_fn(net, batch)[0] + aux + rz, f'{what}: evaluation loss')
  rec.nontrivial(c['layers'] > 0 and (c['aux'] > 0 or c['rz'] > 0))
  rec.label('scanned layers', bool(c['shape']))


# --- any logits, any collection of metrics ------------------------------------------------------------------------


class Fake:
  """Answers apply() with the logits and intermediates found in the parameters."""

  def __init__(self, freeze):
    self.freeze = freeze

  def apply(self, variables, *a, mutable=False, **k):
    del a, k
    p = variables['params']
    state = p['state'] if mutable else {}
    return (p['logits'], flax.core.freeze(state) if self.freeze else state) if mutable else p['logits']


@functools.lru_cache(None)
def fakes(kind, freeze, aux, rz, smooth, z, norm):
  kw = dict(label_smoothing=smooth, z_loss=z, loss_normalizing_factor=norm)
  voc, opt = mc._Vocab(1), optimizers.sgd(0.1)  # pylint: disable=protected-access
  f = Fake(freeze)
  if kind == 'encdec':
    return moe.MoeEncoderDecoderModel(f, voc, voc, opt, aux_loss_factor=aux, router_z_loss_factor=rz, **kw), models.EncoderDecoderModel(f, voc, voc, opt, **kw)
  return moe.MoeDecoderOnlyModel(f, voc, opt, aux_loss_factor=aux, router_z_loss_factor=rz, **kw), models.DecoderOnlyModel(f, voc, opt, **kw)


@st.composite
def fake_case(draw):
  c = draw(case())
  names = ['encoder', 'decoder', 'layers_0', 'layers_1', 'mlp', 'router', 'auxiliary_loss', 'expert_usage']
  layers = draw(st.lists(st.lists(st.sampled_from(names), min_size=1, max_size=3).map('/'.join), min_size=1, max_size=6, unique=True))
  keep = []
  for p in layers:
    if not any(p.startswith(q + '/') or q.startswith(p + '/') for q in keep):
      keep.append(p)
  return dict(c, paths=keep, partial=draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 4)).map(list), max_size=2)), freeze=draw(st.booleans()), dtype=draw(st.sampled_from(['float32', 'float32', 'bfloat16'])))


def fake(c, rec):
  r = np.random.default_rng(c['seed'])
  batch = build(c, r)
  model, base = fakes(c['kind'], c['freeze'], c['aux'], c['rz'], c['smooth'], c['z'], c['norm'])
  shape = tuple(c['shape'])
  tree, seen = {}, {m: [] for m in METRICS}
  for i, path in enumerate(c['paths']):
    node = tree
    for k in path.split('/'):
      node = node.setdefault(k, {})
    for j, m in enumerate(METRICS):
      if m == c['missing'] or ([i, j] in c['partial'] and c['missing'] == '' and i > 0):
        continue
      vals = [jnp.asarray(r.standard_normal(shape).astype(np.float32) * 3, c['dtype']) for _ in range(c['times'])]
      seen[m].append(np.stack([np.asarray(v, np.float64) for v in vals]))
      node[m] = vals[0] if c['overwrite'] and c['times'] == 1 else tuple(vals)
    node['my_auxiliary_loss'] = (jnp.asarray(1e6),)
  logits = jnp.asarray(r.standard_normal((c['b'], c['n'], mc.V)).astype(np.float32) * 2)
  params = {'logits': logits, 'state': {'intermediates': tree}}
  what = f'layers {c["paths"]} with metrics of shape {shape}, factors {c["aux"]} and {c["rz"]}'
  if c['missing']:
    e = raises(lambda: model.loss_fn(params, batch, None), ValueError)
    require(e is not None and c['missing'] in str(e), lambda: f'{what}: no layer reports {c["missing"]}: {e!r}')
    rec.label('a metric is missing')
    return
  mean = {m: np.mean([v.mean() for v in vs]) for m, vs in seen.items()}
  aux, rz = c['aux'] * mean['auxiliary_loss'], c['rz'] * mean['router_z_loss']
  (got, metrics), grads = jax.value_and_grad(lambda p: model.loss_fn(p, batch, None), has_aux=True)(params)
  (want, bmetrics), bgrads = jax.value_and_grad(lambda p: base.loss_fn(p, batch, None), has_aux=True)(params)
  near(got, want + aux + rz, f'{what}: loss (base {want})')
  near(grads['logits'], bgrads['logits'], f'{what}: gradient of the logits')
  near(model.eval_fn(params, batch)[0], want + aux + rz, f'{what}: evaluation loss')
  check_metrics(c, batch, want, aux, rz, mean, metrics, bmetrics, what)
  rec.nontrivial(len(c['paths']) > 1 and (c['aux'] > 0 or c['rz'] > 0))
  rec.label('scanned layers', bool(shape))


def predict(c, rec):
  """Prediction is the base model's."""
  r = np.random.default_rng(c['seed'])
  batch = build(dict(c, weights=False), r)
  if c['kind'] == 'deconly':
    batch['decoder_causal_attention'] = jnp.asarray((np.arange(c['n'])[None] < r.integers(1, c['n'] + 1, (c['b'], 1))).astype(np.int32))
  spec = (c['layers'], tuple(c['shape']), c['times'], c['overwrite'], '')
  model, base = pair(c['kind'], spec, c['aux'], c['rz'], 0.0, 0.0, None)
  net = mc.params(c['kind'], c['seed'] % 5)
  net = dict(net) if c['kind'] == 'encdec' else {'inner': dict(net)}
  shape = (c['times'], len(METRICS)) + tuple(c['shape'])
  val = lambda: jnp.asarray(r.standard_normal(shape).astype(np.float32))
  params = {**net, 'top': {'values': val()}}
  if c['layers']:
    params['expert_usage'] = {f'mlp_{i}': {'values': val()} for i in range(c['layers'])}
  kw = dict(rng=jax.random.PRNGKey(c['seed'] % 97), num_decodes=c['decodes'], return_all_decodes=c['all'])
  if c['kind'] == 'encdec':
    kw['prompt_with_targets'] = c['prompt']
  a, sa = model.predict_batch_with_aux(params, batch, decoder_params=dict(temperature=c['temp']), **kw)
  b, sb = base.predict_batch_with_aux(net, batch, decoder_params=dict(temperature=c['temp']), **kw)
  require(np.array_equal(a, b), lambda: f'prediction {a}, the base model\'s {b}; {kw}')
  near(sa['scores'], sb['scores'], 'scores of the prediction')
  rec.nontrivial(c['decodes'] > 1)


@st.composite
def predict_case(draw):
  c = draw(case())
  return dict(c, decodes=draw(st.sampled_from([1, 2, 3])), all=draw(st.booleans()), prompt=draw(st.booleans()), temp=draw(st.sampled_from([0.0, 0.5, 1.0])))


SUBS = [Sub('loss', fake, strategy=fake_case(), quick=60, thorough=8000, weight=3, timeout=120),
        Sub('net', loss, strategy=case(), quick=4, thorough=1000, weight=1, timeout=200),
        Sub('predict', predict, strategy=predict_case(), quick=2, thorough=300, weight=1, timeout=200)]
