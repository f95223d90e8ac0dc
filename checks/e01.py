"""E01: expert parameters are sharded, and their gradients scaled, separately and exactly."""
import clu.metrics
import flax
import flax.linen.partitioning as flax_partitioning
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from flax import traverse_util
from jax.sharding import Mesh, PartitionSpec

from checks import mesh_common as mc
from checks import state_common as sc
from checks.p01 import REJECT, check_mesh, layouts, batches
from checks.p03 import TABLE, assign
from core import Sub, raises, require
from t5x import adafactor, optimizers as o, trainer as base_trainer
from t5x import train_state as ts
from t5x.contrib.moe import adafactor_utils, partitioning as mp, trainer as moe_trainer, training_utils as tu

BUDGET = (25, 900)
NAMES = ('data', 'expert', 'model')
REAL = jax.devices()  # Before any simulated world.


# --- The expert mesh on simulated topologies ------------------------------------


@st.composite
def mesh_case(draw):
  if draw(st.integers(0, 3)) == 0:
    c = dict(platform=draw(st.sampled_from(['cpu', 'gpu'])), hosts=draw(st.sampled_from([1, 2, 3, 4, 6, 8])), per=draw(st.sampled_from([1, 2, 4, 8])), order=draw(st.integers(0, 2)), kind='flat')
  else:
    c = draw(mc.tpu_case())
  return dict(c, n=draw(st.sampled_from([1, 1, 2, 2, 4, 8, 16])), experts=draw(st.one_of(st.integers(1, 16), st.sampled_from([24, 32, 64, 128, 300]))), mult=draw(st.sampled_from([None, 1, 2, 3])))


def devices(c):
  if c['kind'] == 'flat':
    return mc.reorder([mc.Dev(h * c['per'] + i, h, c['platform'], c['platform']) for h in range(c['hosts']) for i in range(c['per'])], c['order'])
  devs = mc.tpu(c)
  devs.sort(key=lambda d: d.coords + (d.core_on_chip,))  # jax.devices() ends with the corner device.
  return devs


def mesh(c, rec):
  devs = devices(c)
  what = f'{len(devs)} devices of {len({d.process_index for d in devs})} {c["kind"]} hosts, {c["n"]} model partitions, at most {c["experts"]} expert partitions'
  with mc.world(devs):
    base = []
    e = raises(lambda: base.append(mp.base_partitioning.default_mesh(c['n'])), *REJECT)
    got = []
    e2 = raises(lambda: got.append(mp.default_moe_mesh(c['experts'], c['n'])), *REJECT)
    require((e is None) == (e2 is None), lambda: f'{what}: plain mesh {e!r}, expert mesh {e2!r}')
    if e is not None:
      rec.label('rejected')
      mc.forget()
      return
    data, model = base[0].devices.shape
    want = max(k for k in mc.divisors(data) if k <= c['experts'])
    m = got[0]
    check_mesh(m, devs, NAMES, what)
    require(m.devices.shape == (data // want, want, model), lambda: f'{what}: mesh {dict(m.shape)}, the plain one is {dict(base[0].shape)}')
    # A model replica holds the devices of one plain model replica.
    rows = {frozenset(d.id for d in r) for r in base[0].devices}
    require({frozenset(d.id for d in r) for r in m.devices.reshape(-1, model)} == rows, lambda: f'{what}: model replicas differ from the plain mesh')
    if raises(lambda: [mc.at(h) or m.local_mesh for h in {d.process_index for d in devs}], ValueError):
      rec.label('host not a block')
      mc.forget()
      return
    p = lambda: mp.MoePjitPartitioner(num_expert_partitions=c['experts'], num_partitions=c['n'])
    mc.at(0)
    require(p().mesh.devices.shape == m.devices.shape and p().data_partition_spec == PartitionSpec(('expert', 'data')), lambda: f'{what}: the partitioner has mesh {p().mesh}')
    hs = layouts(p, m, devs, batches(c, data), ('expert', 'data'), what, ordered=False)
    mc.at(0)
    if data > 1:
      require(raises(lambda: p().get_data_layout(data * 2 + 1), ValueError), lambda: f'{what}: batch size {data * 2 + 1} accepted')
    rec.nontrivial(want > 1 and hs[0] > 1)
    rec.label('fewer expert partitions than asked for', want < c['experts'])
    rec.label('several shards', hs[1] > 1)
  mc.forget()


# --- Which specs are rewritten ----------------------------------------------------

SPECS = [PartitionSpec('data'), PartitionSpec(None), PartitionSpec(), PartitionSpec('model'), PartitionSpec('data', None), PartitionSpec('data', 'model'), PartitionSpec(('expert', 'data')),
         PartitionSpec(None, 'data'), PartitionSpec('expert'), None]
NEW = PartitionSpec(('expert', 'data'))


@st.composite
def spec_case(draw):
  return dict(specs=draw(st.lists(st.integers(0, len(SPECS)), max_size=5)), form=draw(st.sampled_from(['one', 'tuple', 'list'])),
              act=draw(st.sampled_from([1, 2])), par=draw(st.sampled_from([1, 1, 1, 2])), extra=draw(st.lists(st.tuples(st.sampled_from(['batch', 'expert', 'embed', 'new', 'mlp']), st.sampled_from([None, 'data', 'model', 'expert'])).map(list), max_size=3)),
              arrays=draw(st.lists(st.lists(st.sampled_from(sorted(TABLE) + ['embed', 'expert', 'expert_mlp', 'expert_replicas', 'unmodeled', 'new']), min_size=1, max_size=4, unique=True), min_size=1, max_size=4)))


def specs(c, rec):
  tree = {'a': PartitionSpec('data'), 'b': {'c': PartitionSpec('model')}}  # Parameter trees keep what the rules gave them.
  items = [tree if i == len(SPECS) else SPECS[i] for i in c['specs']]
  want = [NEW if x == PartitionSpec('data') else x for x in items]
  if c['form'] == 'one':
    for x, w in zip(items, want):
      got = mp.override_partition_specs(x)
      require(got == w, lambda: f'{x} became {got}')  # pylint: disable=cell-var-from-loop
  else:
    got = mp.override_partition_specs(tuple(items) if c['form'] == 'tuple' else list(items))
    require(list(got) == want, lambda: f'{items} became {got}')
  # Rules: the standard ones, the expert ones, the caller's, and batches over both axes.
  extra = [tuple(e) for e in c['extra']]
  e = []
  err = raises(lambda: e.append(mp.standard_logical_axis_rules(c['act'], c['par'], extra or None)), Exception)
  require(err is None, lambda: f'rules for {c["act"]}-D activations and {c["par"]}-D parameters: {err!r}')
  rules = [tuple(r) for r in e[0]]
  emb = {(1, 1): [None], (2, 1): ['model'], (1, 2): ['data'], (2, 2): ['model', 'data']}[c['act'], c['par']]
  base = list(TABLE.items()) + [('embed', m) for m in emb] + [('expert', 'expert'), ('expert_mlp', 'model'), ('expert_replicas', 'data'), ('unmodeled', None)]
  base = [(k, ('expert', 'data') if k == 'batch' else v) for k, v in base]
  ext = [(k, ('expert', 'data') if k == 'batch' else v) for k, v in extra]
  for a in c['arrays']:
    w = assign(a, base + ext)
    model = sum(1 for n in a if TABLE.get(n) == 'model' or n == 'expert_mlp' or n == 'embed' and 'model' in emb)
    if model > 1 and not ('embed' in a and model == 2):
      continue  # Which of several "model" axes wins is not specified.
    if 'batch' in a and 'embed' in a and 'data' in emb or 'expert_replicas' in a and ('data' in emb or 'batch' in a):
      continue
    g = assign(a, rules)
    require(g == w, lambda: f'axes {a}: expert rules shard {g}, documented {w}; activations {c["act"]}, parameters {c["par"]}, additional {extra}')  # pylint: disable=cell-var-from-loop
  rec.nontrivial(PartitionSpec('data') in [x for x in items if isinstance(x, PartitionSpec)] and len(items) > 1)


# --- Sharding of states ------------------------------------------------------------

MESHES = [(2, 2, 2), (1, 4, 2), (4, 2, 1), (2, 4, 1), (1, 8, 1), (1, 2, 4), (8, 1, 1), (2, 1, 4)]
RULES = adafactor_utils.logical_factor_rules


def ada(**k):
  return adafactor.Adafactor(0.1, logical_factor_rules=RULES(), **k)


OPTS = {
    'ada': lambda: ada(min_dim_size_to_factor=4), 'ada_default': lambda: ada(), 'ada_mom': lambda: ada(beta1=0.9, min_dim_size_to_factor=8), 'ada_full': lambda: ada(factored=False, beta1=0.5),
    'adamw': lambda: o.adamw(0.1), 'sgd': lambda: o.sgd(0.1),
    'multi': lambda: o.MultiOptimizer([(sc.traversal_of(lambda p: 'expert' in p), ada(min_dim_size_to_factor=4)), (sc.traversal_of(lambda p: 'expert' not in p), ada(min_dim_size_to_factor=8, beta1=0.5))]),
    'inference': None,
}
DENSE = [('kernel', ['embed', 'mlp']), ('kernel', ['mlp', 'embed']), ('kernel', ['embed', 'heads', 'kv']), ('kernel', ['embed', 'joined_kv']), ('bias', ['mlp']), ('scale', ['embed']), ('embedding', ['vocab', 'embed']), ('w', ['embed', 'unmodeled'])]
EXPERT = [('kernel', ['expert', 'embed', 'expert_mlp']), ('kernel', ['expert', 'expert_mlp', 'embed']), ('bias', ['expert', 'expert_mlp']), ('bias', ['expert', 'embed']), ('kernel', ['expert', 'embed', 'unmodeled']), ('kernel', ['expert', 'embed'])]


@st.composite
def axes_case(draw):
  mi = draw(st.integers(0, len(MESHES) - 1))
  params, used = [], set()
  for _ in range(draw(st.integers(1, 5))):
    exp = draw(st.booleans())
    kind = draw(st.sampled_from(EXPERT if exp else DENSE))
    mod = draw(st.sampled_from(['expert', 'experts', 'mlp_experts_1'] if exp else ['mlp', 'attention', 'enc', 'moe', 'router']))
    path = [draw(st.sampled_from(['layer_0', 'layer_1', 'encoder'])), mod] + ([draw(st.sampled_from(['wi', 'wo']))] if draw(st.booleans()) else []) + [kind[0]]
    if any(path[:len(q)] == list(q) or list(q)[:len(path)] == path for q in used):
      continue
    used.add(tuple(path))
    params.append(dict(path=path, axes=kind[1], mult=[draw(st.sampled_from([1, 1, 2, 3])) for _ in kind[1]], dtype='float32'))
  return dict(mesh=mi, params=params, opt=draw(st.sampled_from(sorted(OPTS))), act=draw(st.sampled_from([1, 2])), mut=draw(st.booleans()), seed=draw(st.integers(0, 10**6)), specials=False)


def sized(c, m):
  sizes = dict(zip(NAMES, m))
  return [dict(p, shape=[k * (sizes['expert'] if a == 'expert' else 1 if a in ('kv', 'unmodeled') else sizes['model'] * 2) for a, k in zip(p['axes'], p['mult'])]) for p in c['params']]


def partitioner(c):
  m = MESHES[c['mesh']]
  mesh_ = Mesh(np.array(REAL[:8]).reshape(m), NAMES)
  return mc.with_mesh(mp.MoePjitPartitioner, mesh_, num_expert_partitions=m[1], num_partitions=m[2], logical_axis_rules=mp.standard_logical_axis_rules(c['act']))


def axes(c, rec):
  m = MESHES[c['mesh']]
  part = partitioner(c)
  rules = [tuple(r) for r in part.logical_axis_rules]
  c = dict(c, params=sized(c, m))
  v = {'params': sc.nest([(p['path'], sc.values(np.random.default_rng(c['seed']), p['shape'], 'float32')) for p in c['params']]),
       'params_axes': sc.nest([(p['path'][:-1] + [p['path'][-1] + '_axes'], flax_partitioning.AxisMetadata(names=tuple(p['axes']))) for p in c['params']])}
  if c['mut']:
    v['cache'] = {'expert': {'kernel': np.ones((2 * m[2],), np.float32)}}
    v['cache_axes'] = {'expert': {'kernel_axes': flax_partitioning.AxisMetadata(names=('embed',))}}
  v = flax.core.freeze(v)
  train = c['opt'] != 'inference'
  state = ts.FlaxOptimTrainState.create(OPTS[c['opt']](), v) if train else ts.InferenceState.create(v)
  state = state.restore_state(jax.tree_util.tree_map(lambda x: np.asarray(x, np.int32) if isinstance(x, int) else np.asarray(x), state.state_dict()))
  what = f'mesh {dict(zip(NAMES, m))}, optimizer {c["opt"]}, parameters {[("/".join(p["path"]), p["shape"]) for p in c["params"]]}'
  spec = part.get_mesh_axes(state)
  require(type(spec) is type(state), lambda: f'{what}: axes of type {type(spec)}')
  got, d = sc.flat(spec.state_dict()), sc.flat(state.state_dict())
  factored = 0
  for p in c['params']:
    name = '/'.join(p['path'])
    w = assign(p['axes'], rules)
    is_exp = 'expert' in p['axes']
    require(tuple(got['target/' + name]) == w, lambda: f'{what}: {name} sharded {got["target/" + name]}, expected {w}')
    require((tuple(got['target/' + name])[:1] == ('expert',)) == is_exp, lambda: f'{what}: {name} is sharded {got["target/" + name]}')
    if not train:
      continue
    for k in d:
      if not k.startswith('state/') or not ('/' + name + '/' in '/' + k + '/') or not sc.is_array(d[k]):
        continue
      s = None if got.get(k) is None else tuple(got[k])
      if tuple(d[k].shape) == tuple(p['shape']) and d[k].size > 1:
        require(s == w, lambda: f'{what}: slot {k} sharded {s}, its parameter {w}')
      elif d[k].ndim == len(p['shape']) - 1 and k.endswith(('/v_row', '/v_col')) and d[k].size > 1 and is_exp:
        require(s is not None and s[:1] == ('expert',), lambda: f'{what}: factored slot {k} of {d[k].shape} is sharded {s}')
        factored += 1
      if not is_exp:
        require('expert' not in str(s), lambda: f'{what}: slot {k} of a shared parameter is sharded {s}')
  # Every array really accepts its sharding and keeps its contents.
  fn = part.partition(lambda x: x, in_axis_resources=(spec,), out_axis_resources=spec)
  out = []
  err = raises(lambda: out.append(fn(state)), Exception)
  require(err is None, lambda: f'{what}: the state cannot be sharded: {str(err)[:600]}; axes { {k: s for k, s in got.items() if s is not None} }')
  placed = sc.flat(out[0].state_dict())
  for k, x in d.items():
    if sc.is_array(x):
      require(sc.same(x, placed[k]), lambda: f'{what}: {k} changed')  # pylint: disable=cell-var-from-loop
      if x.ndim and got.get(k) is not None and 'expert' in tuple(got[k])[:1]:
        require(placed[k].addressable_shards[0].data.shape[0] * m[1] == x.shape[0], lambda: f'{what}: {k} is not split over the experts')  # pylint: disable=cell-var-from-loop
  rec.nontrivial(m[1] > 1 and any('expert' in p['axes'] for p in c['params']) and train)
  rec.label('factored expert slot', factored > 0)


# --- Scaling ------------------------------------------------------------------------


@flax.struct.dataclass
class Box:
  expert: object
  other: object


KEYS = ['expert', 'experts', 'w', 'layer_expert_0', 'bias', 'kernel', 'enc', 'Expert', 'x.y', 'exper', 'a-b']


@st.composite
def node(draw, depth):
  k = draw(st.sampled_from(['leaf', 'leaf', 'dict', 'dict', 'frozen', 'box', 'none'] if depth else ['leaf', 'none', 'leaf']))
  if k == 'leaf':
    return ['leaf', draw(st.lists(st.integers(1, 3), max_size=2)), draw(st.sampled_from(['float32', 'float32', 'bfloat16']))]
  if k == 'none':
    return ['none']
  if k == 'box':
    return ['box', draw(node(depth - 1)), draw(node(depth - 1))]
  keys = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=4, unique=True))
  return [k, {x: draw(node(depth - 1)) for x in keys}]


PATTERNS = [r'.*expert.*', r'.*expert.*', r'expert/', r'.*/kernel$', r'enc/.*|.*bias', r'.*', None, '', r'expert', r'.*x\.y.*']


@st.composite
def grads_case(draw):
  return dict(root=draw(st.sampled_from(['dict', 'dict', 'frozen'])), tree={k: draw(node(2)) for k in draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=4, unique=True))},
              pattern=draw(st.integers(0, len(PATTERNS) - 1)), factor=draw(st.sampled_from([1, 2, 8, 0.5, 0.25, 3, 10])), seed=draw(st.integers(0, 10**6)), jit=draw(st.booleans()), call=draw(st.sampled_from(['scale', 'scale', 'map'])))


def build(n, r, path, leaves):
  if n[0] == 'leaf':
    x = jnp.asarray(sc.values(r, n[1], n[2]))
    leaves.append(('/'.join(path), x))
    return x
  if n[0] == 'none':
    return None
  if n[0] == 'box':
    return Box(build(n[1], r, path + ['expert'], leaves), build(n[2], r, path + ['other'], leaves))
  d = {k: build(x, r, path + [k], leaves) for k, x in n[1].items()}
  return flax.core.freeze(d) if n[0] == 'frozen' else d


def read(n, x, path, leaves):
  """The leaves of a result by path; also checks the containers."""
  if n[0] == 'leaf':
    leaves.append(('/'.join(path), x))
  elif n[0] == 'none':
    require(x is None, lambda: f'{"/".join(path)} was None and became {x}')
  elif n[0] == 'box':
    require(type(x) is Box, lambda: f'{"/".join(path)} became {type(x)}')
    read(n[1], x.expert, path + ['expert'], leaves)
    read(n[2], x.other, path + ['other'], leaves)
  else:
    require(set(x) == set(n[1]), lambda: f'{"/".join(path)} became {x}')
    for k in n[1]:
      read(n[1][k], x[k], path + [k], leaves)


def grads(c, rec):
  import re
  r = np.random.default_rng(c['seed'])
  spec = [c['root'], c['tree']]
  leaves = []
  tree = build(spec, r, [], leaves)
  pat = PATTERNS[c['pattern']]
  hit = lambda name: bool(pat) and re.match(pat, name) is not None
  fn = tu.match_fn(pat)
  for name, _ in leaves:
    require(bool(fn(name)) == hit(name), lambda: f'pattern {pat!r} against {name}: {fn(name)}')  # pylint: disable=cell-var-from-loop
  f = c['factor']
  if not leaves:
    return
  if c['call'] == 'scale':
    if any_none(spec) and hit_none(spec, hit, []):
      return  # A missing gradient cannot be scaled.
    run = lambda t: tu.scale_sharded_grads(t, fn, f)
    require(tu.scale_sharded_grads(tree, None, f) is tree, 'without a match function gradients must be left alone')
  else:
    run = lambda t: tu.tree_map_with_names(lambda x: None if x is None else x * f, t, fn)
  out = (jax.jit(run) if c['jit'] else run)(tree)
  got = []
  read(spec, out, [], got)
  for (name, x), (name2, y) in zip(leaves, got):
    w = x * f if hit(name) else x
    require(name == name2 and x.dtype == y.dtype and sc.same(np.asarray(w), np.asarray(y)), lambda: f'pattern {pat!r}, factor {f}: {name} is {y}, expected {w}')  # pylint: disable=cell-var-from-loop
  n = sum(hit(k) for k, _ in leaves)
  rec.nontrivial(0 < n < len(leaves) and f != 1)


def any_none(n):
  return n[0] == 'none' or n[0] == 'box' and (any_none(n[1]) or any_none(n[2])) or n[0] in ('dict', 'frozen') and any(any_none(x) for x in n[1].values())


def hit_none(n, hit, path):
  if n[0] == 'none':
    return hit('/'.join(path))
  if n[0] == 'box':
    return hit_none(n[1], hit, path + ['expert']) or hit_none(n[2], hit, path + ['other'])
  if n[0] in ('dict', 'frozen'):
    return any(hit_none(x, hit, path + [k]) for k, x in n[1].items())
  return False


# --- A training step ------------------------------------------------------------------


class Model:
  """Sum-of-squares over examples; integer data keeps float32 exact."""

  def loss_fn(self, params, batch, rng):
    x = batch['x']
    pred = x @ params['dense']['kernel'] + jnp.einsum('bf,efk->bk', x, params['experts']['kernel']) + params['experts']['bias'].sum(0)
    loss = jnp.sum((pred - batch['y']) ** 2)
    return loss, {'loss': base_trainer.metrics_lib.Sum.from_model_output(loss)}

  eval_fn = None


@st.composite
def trainer_case(draw):
  return dict(mesh=draw(st.integers(0, len(MESHES) - 1)), micro=draw(st.sampled_from([None, 1, 2, 4])), steps=draw(st.integers(1, 3)), factor=draw(st.sampled_from([1, 2, 3, 4, 8])),
              pattern=draw(st.sampled_from(['default', 'default', 'default', r'.*dense.*', r'.*/bias', None])), ne=draw(st.sampled_from([1, 2])), seed=draw(st.integers(0, 10**6)), precompile=draw(st.booleans()), act=1)


def train(c, rec):
  import re
  m = MESHES[c['mesh']]
  part = partitioner(c)
  r = np.random.default_rng(c['seed'])
  i = lambda *s: r.integers(-2, 3, s).astype(np.float32)
  f, k, e = 2, 2 * m[2], m[1] * c['ne']
  params = {'dense': {'kernel': i(f, k)}, 'experts': {'kernel': i(e, f, k), 'bias': i(e, k)}}
  ax = lambda *n: flax_partitioning.AxisMetadata(names=n)
  v = flax.core.freeze({'params': params, 'params_axes': {'dense': {'kernel_axes': ax('unmodeled', 'mlp')}, 'experts': {'kernel_axes': ax('expert', 'unmodeled', 'expert_mlp'), 'bias_axes': ax('expert', 'expert_mlp')}}})
  lr = 2.0 ** -10
  state = ts.FlaxOptimTrainState.create(o.sgd(lr), v)
  state = state.restore_state(jax.tree_util.tree_map(lambda x: np.asarray(x, np.int32) if isinstance(x, int) else np.asarray(x), state.state_dict()))
  spec = part.get_mesh_axes(state)
  n = 8 * 4
  data = [dict(x=i(n, f), y=i(n, k)) for _ in range(c['steps'])]
  kw = {} if c['pattern'] == 'default' else dict(sharded_match_fn=tu.match_fn(c['pattern']) if c['pattern'] else None)
  t = moe_trainer.MoeTrainer(model=Model(), train_state=state, partitioner=part, eval_names=[], summary_dir=None, train_state_axes=spec, rng=jax.random.PRNGKey(0),
                             learning_rate_fn=lambda s: lr, num_microbatches=c['micro'], num_expert_partitions=c['factor'], **kw)
  what = f'mesh {dict(zip(NAMES, m))}, {c["micro"]} microbatches, factor {c["factor"]}, pattern {c["pattern"]}'
  try:
    if c['precompile']:
      t.compile_train(data[0])
    t.train(iter(data), c['steps']).result()
    new = jax.device_get(t.train_state)
  finally:
    t.close()
  require(int(new.step) == c['steps'], lambda: f'{what}: at step {new.step} after {c["steps"]} steps')
  pat = r'.*expert.*' if c['pattern'] == 'default' else c['pattern']
  scale = lambda name: c['factor'] if pat and re.match(pat, name) else 1
  p = {k_: np.asarray(x, np.float64) for k_, x in {'dense/kernel': params['dense']['kernel'], 'experts/kernel': params['experts']['kernel'], 'experts/bias': params['experts']['bias']}.items()}
  for b in data:
    x, y = b['x'].astype(np.float64), b['y'].astype(np.float64)
    res = 2 * (x @ p['dense/kernel'] + np.einsum('bf,efk->bk', x, p['experts/kernel']) + p['experts/bias'].sum(0) - y)
    g = {'dense/kernel': x.T @ res, 'experts/kernel': np.broadcast_to(x.T @ res, (e, f, k)), 'experts/bias': np.broadcast_to(res.sum(0), (e, k))}
    p = {k_: p[k_] - lr * scale(k_) * g[k_] for k_ in p}
  got = {'/'.join(k_): x for k_, x in traverse_util.flatten_dict(flax.core.unfreeze(new.params)).items()}
  for name, w in p.items():
    require(np.allclose(got[name], w, rtol=1e-4, atol=1e-3 * np.abs(w).max()), lambda: f'{what}: after {c["steps"]} steps {name} is {got[name]}, expected {w}')  # pylint: disable=cell-var-from-loop
  rec.nontrivial(c['factor'] > 1 and len({scale(k_) for k_ in p}) > 1)
  rec.label('microbatches', (c['micro'] or 1) > 1)


SUBS = [Sub('mesh', mesh, strategy=mesh_case(), quick=120, thorough=12000, weight=1.5, timeout=60),
        Sub('specs', specs, strategy=spec_case(), quick=150, thorough=6000, weight=.5),
        Sub('axes', axes, strategy=axes_case(), quick=30, thorough=4000, weight=3, timeout=120),
        Sub('grads', grads, strategy=grads_case(), quick=150, thorough=8000, weight=1.5, timeout=60),
        Sub('train', train, strategy=trainer_case(), quick=12, thorough=1000, weight=2, timeout=120)]
