"""Generated model states: parameter trees with axis names, optimizers, mutable collections."""
import flax
import flax.linen.partitioning as flax_partitioning
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from flax import traverse_util
from jax.sharding import Mesh, NamedSharding, PartitionSpec

from t5x import adafactor, optimizers, partitioning
from t5x import train_state as train_state_lib

AXES = ['embed', 'mlp', 'heads', 'kv', 'vocab', 'layers', 'stack', 'joined_kv']
NAMES = ['w', 'b', 'kernel', 'scale', 'enc', 'dec', 'layer_0', 'layer_1', 'layer_10', 'mlp', 'Attn', 'x.y', 'wi_0', 'target', 'state']
PARAM_DTYPES = ['float32', 'float32', 'bfloat16', 'float16']
MUT_DTYPES = ['float32', 'bfloat16', 'int32', 'bool', 'uint8', 'int8']
OPTS = ['adafactor', 'adafactor_mom', 'adam', 'sgd', 'sgd_mom', 'adamw_chain', 'multi', 'inference']
RULES = [('batch', 'data'), ('vocab', 'model'), ('mlp', 'model'), ('heads', 'model'), ('kv', None), ('joined_kv', 'model'),
         ('embed', None), ('stack', None), ('layers', None), ('unmodeled', None), ('length', None)]
RULES_2D = [('batch', 'data'), ('vocab', 'model'), ('mlp', 'model'), ('heads', 'model'), ('kv', None),
            ('embed', 'data'), ('stack', None), ('layers', None), ('unmodeled', None), ('length', None)]


def rep(lst, *elems):
  return st.sampled_from(lst)


@st.composite
def flat_tree(draw, min_size=1, max_size=5, dtypes=PARAM_DTYPES, dims=(1, 2, 3, 4, 8), names=NAMES, max_rank=3):
  n = draw(st.integers(min_size, max_size))
  out, paths = [], set()
  for _ in range(n):
    path = draw(st.lists(st.sampled_from(names), min_size=1, max_size=3))
    key = '/'.join(path)
    # A leaf cannot also be an inner node; two names may not collapse to one file name.
    flat = key.replace('/', '.')
    if any(flat == p or flat.startswith(p + '.') or p.startswith(flat + '.') for p in paths):
      continue
    paths.add(flat)
    rank = draw(st.integers(0, max_rank))
    axes = draw(st.permutations(AXES))[:rank]
    shape = [draw(st.sampled_from(dims)) for _ in range(rank)]
    # Sharded axes must divide by the number of partitions.
    shape = [8 if a in ('vocab', 'mlp', 'heads', 'embed', 'joined_kv') and draw(st.booleans()) else s for a, s in zip(axes, shape)]
    out.append(dict(path=path, shape=shape, axes=list(axes), dtype=draw(st.sampled_from(dtypes))))
  return out


def pad_shapes(flat, n, data=1):
  """Rounds sharded dimensions up so that a partitioner with n model partitions accepts them."""
  out = []
  for p in flat:
    shape = []
    used = set()
    for a, s in zip(p['axes'], p['shape']):
      if a in ('vocab', 'mlp', 'heads', 'embed', 'joined_kv'):
        k = n * data
        s = -(-s // k) * k
      shape.append(s)
    out.append(dict(p, shape=shape))
  return out


@st.composite
def state_case(draw, opts=OPTS, mutables=True, **kw):
  return dict(params=draw(flat_tree(**kw)), opt=draw(st.sampled_from(opts)),
              mut=draw(flat_tree(min_size=0, max_size=2, dtypes=MUT_DTYPES)) if mutables else [],
              mut_name=draw(st.sampled_from(['batch_stats', 'cache', 'metrics'])),
              seed=draw(st.integers(0, 10**6)), specials=draw(st.booleans()))


def values(rng, shape, dtype, specials=False):
  """Arbitrary values incl. extreme ones; numpy arrays."""
  shape = tuple(shape)
  if dtype == 'bool':
    return rng.random(shape) < 0.5
  if dtype.startswith('int') or dtype.startswith('uint'):
    info = np.iinfo(dtype)
    return rng.integers(info.min, info.max, shape, dtype=dtype, endpoint=True)
  x = np.asarray(rng.standard_normal(shape) * 10.0 ** rng.integers(-3, 4, shape), np.float32)
  if specials and x.size:
    pool = np.array([0.0, -0.0, np.inf, -np.inf, np.nan, 1e-40, 65504.0, 3e38, 1 + 2**-9, 1 / 3], np.float32)
    x = np.where(rng.random(shape) < 0.3, pool[rng.integers(0, len(pool), shape)], x).astype(np.float32)
  return np.asarray(x).astype(jnp.dtype(dtype))


def nest(flat_items):
  return traverse_util.unflatten_dict({tuple(k): v for k, v in flat_items})


def variables(case, rng=None, abstract=False):
  rng = rng or np.random.default_rng(case['seed'])
  def mk(p):
    return values(rng, p['shape'], p['dtype'], case.get('specials'))
  def axes_tree(flat):
    return nest([(p['path'][:-1] + [p['path'][-1] + '_axes'], flax_partitioning.AxisMetadata(names=tuple(p['axes']))) for p in flat])
  v = {'params': nest([(p['path'], mk(p)) for p in case['params']]), 'params_axes': axes_tree(case['params'])}
  if case['mut']:
    v[case['mut_name']] = nest([(p['path'], mk(p)) for p in case['mut']])
    v[case['mut_name'] + '_axes'] = axes_tree(case['mut'])
  return flax.core.freeze(v)


def optimizer_def(kind, params=None):
  if kind == 'adafactor':
    return adafactor.Adafactor(0.1, logical_factor_rules=adafactor.standard_logical_factor_rules(), min_dim_size_to_factor=4)
  if kind == 'adafactor_mom':
    return adafactor.Adafactor(0.1, beta1=0.9, logical_factor_rules=adafactor.standard_logical_factor_rules())
  if kind == 'adam':
    return optimizers.adam(0.1)
  if kind == 'sgd':
    return optimizers.sgd(0.1)
  if kind == 'sgd_mom':
    return optimizers.sgd(0.1, momentum=0.9)
  if kind == 'adamw_chain':
    import optax
    return optimizers.chain(transformations=[optax.clip_by_global_norm(1.0), optax.adamw(0.1)])
  if kind == 'multi':
    return optimizers.MultiOptimizer([
        (traversal_of(lambda p: p.endswith('w')), optimizer_def('adafactor')),
        (traversal_of(lambda p: p.endswith('kernel') or p.endswith('b')), optimizer_def('adafactor_mom'))])
  raise ValueError(kind)


def traversal_of(fn):
  return traverse_util.ModelParamTraversal(lambda path, _: fn(path))


def make_state(case, rng=None):
  v = variables(case, rng)
  if case['opt'] == 'inference':
    s = train_state_lib.InferenceState.create(v)
  else:
    s = train_state_lib.FlaxOptimTrainState.create(optimizer_def(case['opt']), v)
  # Some optimizers start from a Python int; jitted initialisation makes it an array.
  return s.restore_state(jax.tree_util.tree_map(lambda x: np.asarray(x, np.int32) if isinstance(x, int) else x, s.state_dict()))


def fill(state, rng, specials=False):
  """The same structure with arbitrary contents (numpy), keeping dtypes."""
  def f(x):
    if isinstance(x, int):
      return np.int32(x)
    return values(rng, x.shape, jnp.dtype(x.dtype).name, specials)
  d = jax.tree_util.tree_map(f, state.state_dict())
  return state.restore_state(d)


def flat(state_dict):
  return {'/'.join(k): v for k, v in traverse_util.flatten_dict(flax.core.unfreeze(state_dict) if isinstance(state_dict, flax.core.FrozenDict) else state_dict, keep_empty_nodes=True).items()}


def is_array(v):
  return hasattr(v, 'shape') and hasattr(v, 'dtype')


def bits(x):
  x = np.asarray(x)
  if x.dtype == bool:
    return x
  return np.ascontiguousarray(x).view(np.dtype(f'u{x.dtype.itemsize}')) if x.ndim else np.ascontiguousarray(x).reshape(1).view(np.dtype(f'u{x.dtype.itemsize}'))


def same(a, b, exact=True):
  """Bit-equal, except that any NaN equals any NaN."""
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape or a.dtype != b.dtype:
    return False
  eq = bits(a).reshape(-1) == bits(b).reshape(-1)
  if jnp.issubdtype(a.dtype, jnp.floating):
    eq = eq | (np.isnan(a.astype(np.float32)).reshape(-1) & np.isnan(b.astype(np.float32)).reshape(-1))
  return bool(np.all(eq))


def make_partitioner(n=1, params_on_devices=True, rules='1d', **kw):
  return partitioning.PjitPartitioner(num_partitions=n, params_on_devices=params_on_devices,
                                      logical_axis_rules=list(RULES if rules == '1d' else RULES_2D), **kw)


def place(state, partitioner):
  """Puts every leaf on the partitioner's mesh with its own sharding."""
  axes = partitioner.get_mesh_axes(state).state_dict()
  d = state.state_dict()
  fa, fd = flat(axes), flat(d)
  out = {}
  for k, v in fd.items():
    a = fa.get(k)
    if not is_array(v):
      out[k] = v
    elif a is None:
      out[k] = jnp.asarray(v)
    else:
      out[k] = jax.device_put(v, NamedSharding(partitioner.mesh, a))
  return state.restore_state(traverse_util.unflatten_dict({tuple(k.split('/')): v for k, v in out.items()}))
