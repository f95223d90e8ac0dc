"""P04: partitioning changes where things are computed, not what is computed (8 simulated devices)."""
import functools

from flax.linen import partitioning as nnp
import flax.linen as nn
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
from jax.sharding import Mesh, NamedSharding, PartitionSpec
import numpy as np
import tensorflow as tf
from clu.data import dataset_iterator

from checks import mesh_common as mc
from checks import model_common as mod
from checks import state_common as sc
from core import Skip, Sub, require
from t5x import adafactor, decoding, models, optimizers, partitioning, trainer as trainer_lib, utils

BUDGET = (75, 1800)
V = 16
# The random bits of JAX's default generator depend on the sharding of the result (in plain jax.jit too); these do not.
jax.config.update('jax_threefry_partitionable', True)


class _Block(nn.Module):
  """Attention and a gated MLP, annotated as the T5 models are."""
  d: int
  heads: int
  kv: int
  f: int
  causal: bool

  @nn.compact
  def __call__(self, x, mask, other=None):
    init = nn.initializers.variance_scaling(1.0, 'fan_in', 'normal')
    par = lambda n, s, a: nnp.param_with_axes(n, init, s, jnp.float32, axes=a)
    con = nnp.with_sharding_constraint
    src = x if other is None else other
    x = con(x, ('batch', 'length', 'embed'))
    scale = nnp.param_with_axes('scale', nn.initializers.ones, (self.d,), jnp.float32, axes=('embed',))
    y = x * jax.lax.rsqrt(jnp.mean(x * x, -1, keepdims=True) + 1e-6) * scale
    q, k, v = ((s @ par(n, (self.d, self.heads * self.kv), ('embed', 'joined_kv'))).reshape(*s.shape[:2], self.heads, self.kv) for n, s in (('q', y), ('k', src), ('v', src)))
    q, k, v = (con(t, ('batch', 'length', 'heads', 'kv')) for t in (q, k, v))
    a = jnp.einsum('blhk,bmhk->bhlm', q, k) / np.sqrt(self.kv)
    m = mask[:, None, None, :]
    if self.causal:
      m = m & jnp.tril(jnp.ones((x.shape[1], src.shape[1]), bool))
    a = jax.nn.softmax(jnp.where(m, a, -1e9))
    o = jnp.einsum('bhlm,bmhk->blhk', a, v)
    x = x + o.reshape(*o.shape[:2], -1) @ par('o', (self.heads * self.kv, self.d), ('joined_kv', 'embed'))
    h = jnp.tanh(x @ par('wi', (self.d, self.f), ('embed', 'mlp')))
    h = con(h, ('batch', 'length', 'mlp'))
    return con(x + h @ par('wo', (self.f, self.d), ('mlp', 'embed')), ('batch', 'length', 'embed'))


class Net(nn.Module):
  """An encoder of attention blocks and a recurrent decoder whose cache is its state."""
  d: int = 8
  heads: int = 2
  kv: int = 4
  f: int = 16
  layers: int = 1
  noise: float = 0.0

  def setup(self):
    init = nn.initializers.normal(1.0)
    self.emb = nnp.param_with_axes('token_embedder', init, (V, self.d), jnp.float32, axes=('vocab', 'embed'))
    self.blocks = [_Block(self.d, self.heads, self.kv, self.f, False, name=f'layer_{i}') for i in range(self.layers)]
    self.mix = nnp.param_with_axes('mix', init, (self.d, self.f), jnp.float32, axes=('embed', 'mlp'))
    self.mix2 = nnp.param_with_axes('mix2', init, (self.f, self.d), jnp.float32, axes=('mlp', 'embed'))
    self.logits = nnp.param_with_axes('logits', init, (self.d, V), jnp.float32, axes=('embed', 'vocab'))
    self.dec = _State(self.d)

  def _drop(self, x, on):
    if on and self.noise:
      x = x * (1 + self.noise * jax.random.normal(self.make_rng('dropout'), x.shape))
    return x

  def encode(self, encoder_input_tokens, encoder_segment_ids=None, encoder_positions=None, enable_dropout=True):
    t = encoder_input_tokens.astype(jnp.int32)
    x = self.emb[t] * (1 + 0.1 * jnp.arange(t.shape[1]))[None, :, None]
    for b in self.blocks:
      x = self._drop(b(x, t > 0), enable_dropout)
    return x

  def decode(self, encoded, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens, encoder_segment_ids=None, decoder_segment_ids=None,
             decoder_positions=None, enable_dropout=True, decode=False, max_decode_length=None):
    t = decoder_input_tokens.astype(jnp.int32)
    m = (encoder_input_tokens > 0)[..., None]
    ctx = (encoded * m).sum(1) / jnp.maximum(m.sum(1), 1)
    def step(h, e):
      z = nnp.with_sharding_constraint(jnp.tanh(h @ self.mix * 0.3), ('batch', 'mlp'))
      h = jnp.tanh(z @ self.mix2 * 0.3 + e + ctx)
      return h, h
    e = nnp.with_sharding_constraint(self.emb[t], ('batch', 'length', 'embed'))
    out = self.dec(step, e, decode)
    out = nnp.with_sharding_constraint(out @ self.logits, ('batch', 'length', 'vocab'))
    return self._drop(out, enable_dropout) + jnp.eye(V)[0] * -15

  def __call__(self, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens, encoder_segment_ids=None, decoder_segment_ids=None,
               encoder_positions=None, decoder_positions=None, *, enable_dropout=True, decode=False):
    x = self.encode(encoder_input_tokens, enable_dropout=enable_dropout)
    return self.decode(x, encoder_input_tokens, decoder_input_tokens, decoder_target_tokens, enable_dropout=enable_dropout, decode=decode)


class _State(nn.Module):
  d: int

  @nn.compact
  def __call__(self, step, e, decode):
    b, n = e.shape[:2]
    if decode:
      known = self.has_variable('cache', 'h')
      h = self.variable('cache', 'h', jnp.zeros, (b, self.d))
      self.variable('cache', 'cache_index', jnp.zeros, (), jnp.int32)
      if not known:
        return jnp.zeros((b, n, self.d))
      h.value, out = step(h.value, e[:, 0])
      return out[:, None]
    hs, h = [], jnp.zeros((b, self.d))
    for i in range(n):
      h, _ = step(h, e[:, i])
      hs.append(h)
    return jnp.stack(hs, 1)


OPTS = {
    'sgd': lambda: optimizers.sgd(0.002),
    'momentum': lambda: optimizers.sgd(0.002, momentum=0.9),
    'adafactor': lambda: adafactor.Adafactor(0.1, decay_rate=0.8, step_offset=0, min_dim_size_to_factor=4),
    'adafactor_mom': lambda: adafactor.Adafactor(0.1, beta1=0.5, factored=False, multiply_by_parameter_scale=False),
    'adamw': lambda: optimizers.adamw(0.05),
}


def model(c):
  v = mod._Vocab(1)  # pylint: disable=protected-access
  v.vocab_size = V
  return models.EncoderDecoderModel(module=Net(**c['net']), input_vocabulary=v, output_vocabulary=v, optimizer_def=OPTS[c['opt']](), z_loss=c['z'], label_smoothing=c['smooth'])


def mesh_of(shape):
  return Mesh(np.array(jax.devices()[:shape[0] * shape[1]]).reshape(shape), ('data', 'model'))


def part(shape, dims):
  rules = partitioning.standard_logical_axis_rules(activation_partitioning_dims=dims[0], parameter_partitioning_dims=dims[1])
  return mc.with_mesh(partitioning.PjitPartitioner, mesh_of(shape), num_partitions=shape[1], logical_axis_rules=rules)


@st.composite
def net_case(draw):
  shape = draw(st.sampled_from([(8, 1), (4, 2), (2, 4), (1, 8), (2, 2), (1, 2), (2, 1), (1, 4), (4, 1)]))
  # With parameters sharded over both axes, every sharded dimension must be divisible by each.
  net = dict(d=8 * draw(st.integers(1, 2)), heads=draw(st.sampled_from([8, 8, 16])), kv=draw(st.sampled_from([2, 4])), f=draw(st.sampled_from([8, 16, 32])), layers=draw(st.integers(1, 2)), noise=draw(st.sampled_from([0.0, 0.0, 0.3])))
  return dict(mesh=list(shape), dims=draw(st.sampled_from([[1, 1], [1, 2], [2, 1], [2, 2]])), net=net, opt=draw(st.sampled_from(sorted(OPTS))), z=draw(st.sampled_from([0.0, 0.01])), smooth=draw(st.sampled_from([0.0, 0.1])),
              batch=8 * draw(st.integers(1, 2)), micro=draw(st.sampled_from([None, None, 2, 4])), seed=draw(st.integers(0, 10**6)), steps=draw(st.integers(1, 3)))


def batch_of(r, b, n_enc=5, n_dec=4):
  enc = r.integers(2, V, (b, n_enc))
  for i in range(b):
    enc[i, r.integers(1, n_enc + 1):] = 0
  tgt = r.integers(1, V, (b, n_dec))
  for i in range(b):
    tgt[i, r.integers(1, n_dec + 1):] = 0
  dec = np.concatenate([np.zeros((b, 1), int), tgt[:, :-1]], 1)
  return {k: x.astype(np.int32) for k, x in dict(encoder_input_tokens=enc, decoder_input_tokens=dec, decoder_target_tokens=tgt, decoder_loss_weights=(tgt > 0)).items()}


class _Iter(dataset_iterator.DatasetIterator):

  def __init__(self, batches):
    self.batches, self.i = batches, 0

  def __next__(self):
    self.i += 1
    return self.batches[self.i - 1]

  @property
  def element_spec(self):
    return {k: dataset_iterator.ArraySpec(v.dtype, v.shape) for k, v in self.batches[0].items()}

  def reset(self):
    self.i = 0

  def save(self, filename):
    pass

  restore = save


def initial(c, shape):
  p = part(shape, c['dims'])
  m = model(c)
  shapes = {k: v.shape for k, v in batch_of(np.random.default_rng(0), c['batch']).items()}
  init = utils.TrainStateInitializer(m.optimizer_def, m.get_initial_variables, shapes, p, input_types={k: jnp.int32 for k in shapes})
  return p, m, init, init.from_scratch(jax.random.PRNGKey(c['seed']))


def check_shards(state, axes, mesh, what):
  """Every array lies where its axes say."""
  fa = sc.flat(axes.state_dict())
  for k, v in sc.flat(state.state_dict()).items():
    if not sc.is_array(v) or fa.get(k) is None:
      continue
    want = NamedSharding(mesh, fa[k])
    require(v.sharding.is_equivalent_to(want, v.ndim), lambda: f'{what}: {k} is laid out as {v.sharding}, expected {want}')  # pylint: disable=cell-var-from-loop


def close(a, b, what, tol=2e-4, mask=None):
  a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
  require(a.shape == b.shape, lambda: f'{what}: shape {a.shape} and {b.shape}')
  bad = ~(np.abs(a - b) <= tol * (1 + np.abs(b)))
  if mask is not None:
    bad &= mask
  require(not bad.any(), lambda: f'{what}: on the mesh {a[bad].ravel()[:4]}, on one device {b[bad].ravel()[:4]} ({int(bad.sum())} of {bad.size} differ)')


def train_on(c, shape):
  p, m, init, state = initial(c, shape)
  first = {k: np.asarray(v) for k, v in sc.flat(state.state_dict()).items() if sc.is_array(v)}
  check_shards(state, init.train_state_axes, p.mesh, 'initial state')
  r = np.random.default_rng(c['seed'])
  batches = [batch_of(r, c['batch']) for _ in range(c['steps'] + 1)]
  it = utils.prepare_train_iter(_Iter(batches), partitioner=p, checkpoint_cfg=None, data_layout=p.get_data_layout(c['batch']))
  t = trainer_lib.Trainer(m, state, p, eval_names=['e'], summary_dir=None, train_state_axes=init.train_state_axes, rng=jax.random.PRNGKey(c['seed'] + 1), learning_rate_fn=lambda s: (0.002 if c['opt'] in ('sgd', 'momentum') else 0.05) * (1 + 0.2 * s), num_microbatches=c['micro'])
  try:
    metrics = t.train(it, c['steps']).result()
    final = t.train_state
    check_shards(final, init.train_state_axes, p.mesh, 'trained state')
    ev = t.eval({'e': iter([batches[-1]])})['e']
    ev = ev.result() if hasattr(ev, 'result') else ev
  finally:
    t.close()
  num = lambda d: {k: float(np.asarray(v.value)) for k, v in d.items() if 'second' not in k and 'timing' not in k}
  return first, num(metrics), num(ev), {k: np.asarray(v) for k, v in sc.flat(final.state_dict()).items() if sc.is_array(v)}


def divisible(c):
  d, m = c['mesh']
  n = c['net']
  if c['micro'] and (c['batch'] // c['micro']) % d:
    raise Skip()  # microbatches must fill the data axis
  if any(x % (d * m) and x % max(d, m) for x in (n['d'], n['f'], n['heads'], V)):
    raise Skip()


def train(c, rec):
  divisible(c)
  one = train_on(c, (1, 1))
  got = train_on(c, tuple(c['mesh']))
  for k in one[0]:
    close(got[0][k], one[0][k], f'initial {k}', 1e-5)
  for i, what in ((1, 'training'), (2, 'evaluation')):
    require(set(got[i]) == set(one[i]), lambda: f'{what} metrics {sorted(got[i])} and {sorted(one[i])}')  # pylint: disable=cell-var-from-loop
    for k in one[i]:
      # Metrics that divide by time are not compared.
      if 'per' in k and ('second' in k or 'core' in k):
        continue
      close(got[i][k], one[i][k], f'{what} metric {k}', 1e-3)
  adaptive = c['opt'] in ('adamw', 'adafactor', 'adafactor_mom')
  for k in one[3]:
    if k.startswith('target/'):
      step_size = np.abs(one[3][k] - one[0][k]).max()
      # Adaptive methods turn the smallest gradients into full steps, so single elements may differ by rounding.
      tol = 2e-3 * (step_size + 1e-3) + 1e-5
      bad = np.abs(got[3][k] - one[3][k]) > tol
      share = bad.mean()
      require(share <= (0.02 if adaptive else 0), lambda: f'{k} after {c["steps"]} steps: {int(bad.sum())} of {bad.size} elements differ, on the mesh {got[3][k][bad].ravel()[:4]}, on one device {one[3][k][bad].ravel()[:4]}, steps up to {step_size}')  # pylint: disable=cell-var-from-loop
  require(int(got[3]['state/step']) == c['steps'], 'step count')
  rec.nontrivial(c['mesh'] != [1, 1])
  rec.label('model parallel', c['mesh'][1] > 1)
  rec.label('data parallel', c['mesh'][0] > 1)
  rec.label('2D parameters', c['dims'][1] == 2 and c['mesh'][0] > 1)
  rec.label('dropout', c['net']['noise'])
  rec.label('microbatches', c['micro'])


@st.composite
def infer_case(draw):
  c = draw(net_case())
  c.update(n=draw(st.integers(1, 20)), what=draw(st.sampled_from(['score', 'predict', 'predict', 'aux'])), decodes=draw(st.sampled_from([1, 1, 2])), temp=draw(st.sampled_from([0.0, 0.0, 1.0])), beams=draw(st.booleans()))
  return c


def infer_on(c, shape):
  p, m, init, state = initial(c, shape)
  r = np.random.default_rng(c['seed'])
  b = batch_of(r, c['n'])
  ds = tf.data.Dataset.from_tensor_slices(b).enumerate()
  if c['what'] == 'score':
    step = m.score_batch
  else:
    if c['beams']:
      m._decode_fn = decoding.beam_search  # pylint: disable=protected-access
      kw = dict(num_decodes=c['decodes'])
    else:
      m._decode_fn = decoding.temperature_sample  # pylint: disable=protected-access
      kw = dict(num_decodes=c['decodes'], decoder_params=dict(temperature=c['temp'], topk=0) if c['temp'] else dict(temperature=0.0))
    step = functools.partial(m.predict_batch_with_aux, **kw) if c['what'] == 'aux' else m.predict_batch
  fn = utils.get_infer_fn(step, c['batch'], init.train_state_axes, p)
  return fn(ds, train_state=state, rng=jax.random.PRNGKey(c['seed'] + 2))


def infer(c, rec):
  divisible(c)
  one, got = infer_on(c, (1, 1)), infer_on(c, tuple(c['mesh']))
  if c['what'] == 'score':
    require([i for i, _ in got] == list(range(c['n'])), lambda: f'examples {[i for i, _ in got]}')
    close([s for _, s in got], [s for _, s in one], 'score', 1e-3)
  elif c['what'] == 'predict':
    require(got == one, lambda: f'predictions {got}, on one device {one}')
  else:
    require(got[0] == one[0], lambda: f'predictions {got[0]}, on one device {one[0]}')
    require(set(got[1]) == set(one[1]), 'auxiliary values')
    for k in one[1]:
      close(got[1][k], one[1][k], f'auxiliary {k}', 1e-3)
  rec.nontrivial(c['mesh'] != [1, 1])
  rec.label(c['what'])
  rec.label('padded', c['n'] % c['batch'])


# ---------------------------------------------------------------- partitioned functions
AXES = [None, 'data', 'model', ['data', 'model']]


@st.composite
def fn_case(draw):
  shape = draw(st.sampled_from([(8, 1), (4, 2), (2, 4), (1, 8), (2, 2), (1, 2), (2, 1), (3, 2), (1, 1), (1, 3)]))
  spec = lambda: draw(st.sampled_from([[None, None], ['data', None], [None, 'model'], ['data', 'model'], ['model', 'data'], [['data', 'model'], None], [None, ['data', 'model']], 'prefix', None]))
  return dict(mesh=list(shape), x=spec(), y=spec(), out=spec(), n=draw(st.integers(1, 3)), k=draw(st.integers(1, 3)), donate=draw(st.booleans()), static=draw(st.sampled_from([None, 0, 2])), seed=draw(st.integers(0, 10**6)),
              rows=draw(st.integers(1, 2)), cols=draw(st.integers(1, 4)), dtype=draw(st.sampled_from(['int32', 'float32', 'bool', 'uint8', 'bfloat16'])), dims=draw(st.sampled_from([[1, 1], [2, 2]])), compile=draw(st.booleans()))


def spec_of(s):
  if s is None:
    return None
  if s == 'prefix':
    return PartitionSpec('data')
  return PartitionSpec(*[tuple(a) if isinstance(a, list) else a for a in s])


def functions(c, rec):
  d, m = c['mesh']
  p = part((d, m), c['dims'])
  r = np.random.default_rng(c['seed'])
  n, k = d * m * c['n'], d * m * c['k']
  x, y = r.integers(-5, 6, (n, k)).astype(np.float32), r.integers(-5, 6, (k, n)).astype(np.float32)

  def f(a, b, mul=3):
    with_names = nnp.with_sharding_constraint(a['v'], ('batch', 'mlp'))
    return {'p': with_names @ b * mul, 't': [a['v'].sum(0), a['v'].T]}, b + a['v'].shape[0]

  kw = dict(static_argnums=(2,)) if c['static'] else {}
  if c['donate']:
    kw['donate_argnums'] = (1,)
  g = p.partition(f, in_axis_resources=(spec_of(c['x']), spec_of(c['y'])) , out_axis_resources=(None, spec_of(c['out'])), **kw)
  args = ({'v': x.copy()}, y.copy()) + ((c['static'],) if c['static'] else ())
  if c['compile'] and not c['static']:
    g = p.compile(g, *args)
  (o, t), = [g(*args)]
  want = x @ y * (c['static'] or 3)
  require(np.array_equal(np.asarray(o['p']), want) and np.array_equal(np.asarray(o['t'][0]), x.sum(0)) and np.array_equal(np.asarray(o['t'][1]), x.T), lambda: f'partitioned result {o}')
  require(np.array_equal(np.asarray(t), y + n), 'second result')
  if c['out'] is not None:
    require(t.sharding.is_equivalent_to(NamedSharding(p.mesh, spec_of(c['out'])), 2), lambda: f'result laid out as {t.sharding}, asked {c["out"]}')
  # The training input: whole batches on the mesh, split over the data axis.
  b = d * c['rows']
  batches = [{'a': (r.integers(0, 2, (b, c['cols'])) * (i + 1)).astype(jnp.dtype(c['dtype'])), 'b': r.integers(-9, 9, (b,)).astype(np.int32)} for i in range(3)]
  layout = p.get_data_layout(b)
  require((layout.batch_size, layout.shard_id, layout.num_shards, layout.is_first_host_in_replica_set) == (b, 0, 1, True), lambda: f'data layout {layout}')
  it = utils.prepare_train_iter(_Iter(batches), partitioner=p, checkpoint_cfg=None, data_layout=layout)
  peeked = it.peek()
  for i, w in enumerate(batches):
    g_ = next(it)
    for key in w:
      arr = g_[key]
      require(arr.shape == w[key].shape and arr.dtype == w[key].dtype and np.array_equal(np.asarray(arr), w[key]), lambda: f'batch {i}: {key} is {np.asarray(arr)}, given {w[key]}')  # pylint: disable=cell-var-from-loop
      require(arr.sharding.is_equivalent_to(NamedSharding(p.mesh, p.data_partition_spec), arr.ndim), lambda: f'{key} laid out as {arr.sharding}')  # pylint: disable=cell-var-from-loop
      if i == 0:
        require(np.array_equal(np.asarray(peeked[key]), w[key]), 'another batch was peeked')
  rec.nontrivial(d * m > 1 and (c['x'] or c['y'] or c['out']))
  rec.label('both axes', d > 1 and m > 1)


SUBS = [
    Sub('functions', functions, strategy=fn_case(), quick=1500, thorough=20000, weight=2, timeout=300),
    Sub('train', train, strategy=net_case(), quick=200, thorough=3000, weight=5, timeout=400),
    Sub('infer', infer, strategy=infer_case(), quick=200, thorough=3000, weight=3, timeout=400),
]
