"""P03: sharding rules are applied by priority and give a legal sharding to every array."""
import flax
import flax.linen.partitioning as flax_partitioning
import hypothesis.strategies as st
import jax
import numpy as np
from flax import traverse_util
from jax.sharding import PartitionSpec

from checks import opt_common as oc
from checks import state_common as sc
from core import Sub, raises, require
from t5x import partitioning, train_state as ts, utils

BUDGET = (18, 900)
MESH = [None, 'data', 'model']


def assign(names, rules):
  """The documented priority: rules in order; a rule takes effect when its logical axis is still open and its mesh axis unused by this array."""
  got, used = {}, set()
  for logical, mesh in rules:
    if logical not in names or logical in got:
      continue
    flat = () if mesh is None else (mesh,) if isinstance(mesh, str) else tuple(mesh)
    if used & set(flat):
      continue
    got[logical] = mesh
    used |= set(flat)
  return tuple(got.get(n) for n in names)


@st.composite
def rules_case(draw):
  c = draw(oc.case(max_size=4, dims=(1, 2, 4)))
  logical = sc.AXES
  rules = draw(st.lists(st.tuples(st.sampled_from(logical), st.sampled_from(MESH)).map(list), max_size=14))
  return dict(c, rules=[['batch', 'data']] + rules, state=draw(st.sampled_from(['train', 'train', 'inference'])))


def spec_tuple(s):
  return None if s is None else tuple(s)


def get_mesh_axes(c, rec):
  rules = [tuple(r) for r in c['rules']]
  part = partitioning.PjitPartitioner(num_partitions=1, logical_axis_rules=rules)
  require(tuple(tuple(r) for r in part.logical_axis_rules) == tuple(rules), lambda: f'the rules became {part.logical_axis_rules}')
  state = ts.InferenceState.create(sc.variables(c)) if c['state'] == 'inference' else oc.make(c)
  axes = part.get_mesh_axes(state)
  require(type(axes) is type(state), lambda: f'{type(axes)}')
  got, d = oc.flat_axes(axes), sc.flat(state.state_dict())
  require(set(got) == set(d) or c['state'] == 'inference', lambda: f'axes for {sorted(set(got) ^ set(d))}')
  want = {'target/' + '/'.join(p['path']): assign(p['axes'], rules) for p in c['params']}
  want.update({'flax_mutables/' + c['mut_name'] + '/' + '/'.join(p['path']): assign(p['axes'], rules) for p in c['mut']})
  for k, w in want.items():
    require(spec_tuple(got[k]) == w, lambda: f'{k}: sharded {got[k]}, expected {w}; rules {rules}')  # pylint: disable=cell-var-from-loop
  contested = False
  for k, s in got.items():
    if not sc.is_array(d.get(k)):
      continue
    p = oc.param_of(k, c) if k.startswith('state/param_states') else None
    if p is not None and tuple(d[k].shape) == tuple(p['shape']) and d[k].dtype != bool and tuple(p['shape']) not in ((), (1,)) and k.rsplit('/', 1)[-1] not in ('v_row', 'v_col'):
      require(spec_tuple(s) == want['target/' + '/'.join(p['path'])], lambda: f'{k}: sharded {s}, its parameter {want["target/" + "/".join(p["path"])]}')  # pylint: disable=cell-var-from-loop
      rec.label('slot')
    if s is not None:
      used = [a for a in tuple(s) if a is not None]
      require(len(set(used)) == len(used) and len(tuple(s)) == d[k].ndim, lambda: f'{k} of shape {d[k].shape} is sharded {s}')  # pylint: disable=cell-var-from-loop
  for p in c['params']:
    wants = [m for n, m in rules if n in p['axes'] and m]
    contested |= len(set(wants)) < len(wants) and len(p['axes']) > 1
  # Logical names are untouched.
  la = oc.flat_axes(part.get_logical_axes(state))
  for p in c['params']:
    require(tuple(la['target/' + '/'.join(p['path'])]) == tuple(p['axes']), lambda: f'logical axes {la}')
  rec.nontrivial(contested)


def duplicates(c, rec):
  """One logical name twice on an array is an error that names the parameter."""
  v = flax.core.unfreeze(sc.variables(c))
  victim = c['params'][c['seed'] % len(c['params'])]
  name = '/'.join(victim['path'])
  flat = traverse_util.flatten_dict(v['params_axes'])
  key = tuple(victim['path'][:-1]) + (victim['path'][-1] + '_axes',)
  flat[key] = flax_partitioning.AxisMetadata(names=('embed', 'embed'))
  pflat = traverse_util.flatten_dict(v['params'])
  pflat[tuple(victim['path'])] = np.zeros((2, 2), np.float32)
  state = ts.InferenceState.create(flax.core.freeze({'params': traverse_util.unflatten_dict(pflat), 'params_axes': traverse_util.unflatten_dict(flat)}))
  e = raises(lambda: partitioning.PjitPartitioner(num_partitions=1).get_mesh_axes(state), ValueError)
  require(e is not None and name in str(e), lambda: f'{name} has a logical axis twice: {e!r}')
  rec.nontrivial()


# --- The standard rules ---------------------------------------------------------

TABLE = {'batch': 'data', 'vocab': 'model', 'mlp': 'model', 'heads': 'model', 'kv': None, 'joined_kv': 'model',
         'relpos_buckets': None, 'abspos_buckets': None, 'length': None, 'layers': None, 'stack': None, 'mlp_activations': None}
EMBED = {(1, 1): [None], (2, 1): ['model'], (1, 2): ['data'], (2, 2): ['model', 'data']}


@st.composite
def standard_case(draw):
  names = sorted(TABLE) + ['embed', 'unmodeled', 'new']
  return dict(act=draw(st.sampled_from([1, 1, 2, 2, 3, 0])), par=draw(st.sampled_from([1, 1, 2, 2, 3])),
              extra=draw(st.lists(st.tuples(st.sampled_from(names), st.sampled_from(MESH)).map(list), max_size=4)),
              arrays=draw(st.lists(st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True), min_size=1, max_size=4)))


def standard(c, rec):
  extra = [tuple(e) for e in c['extra']]
  make = lambda: partitioning.standard_logical_axis_rules(c['act'], c['par'], extra or None)
  if (c['act'], c['par']) not in EMBED:
    require(raises(make, ValueError), f'{c["act"]}-D activations and {c["par"]}-D parameters accepted')
    rec.label('rejected')
    return
  rules = make()
  require(extra == [tuple(e) for e in c['extra']], 'the additional rules were changed')
  base = list(TABLE.items()) + [('embed', m) for m in EMBED[c['act'], c['par']]]
  # Priority among the standard rules: everything claims its axis before "embed" unless that is unsharded.
  for a in c['arrays']:
    want = assign(a, base + extra)
    got = assign(a, [tuple(r) for r in rules])
    model = sum(1 for n in a if TABLE.get(n) == 'model' or n == 'embed' and 'model' in EMBED[c['act'], c['par']])
    if model > 1 and not ('embed' in a and model == 2):
      continue  # Which of several "model" axes of one array wins is not specified.
    require(got == want, lambda: f'axes {a}: standard rules shard {got}, documented {want}; activations {c["act"]}, parameters {c["par"]}, additional {extra}')  # pylint: disable=cell-var-from-loop
  again = make()
  require(list(again) == list(rules), 'asking again gives other rules')
  rec.nontrivial(bool(extra) or (c['act'], c['par']) != (1, 1))


def slices(c, rec):
  """With several slices the batch is split over the replica axis as well, everything else as before."""
  rules = partitioning.standard_logical_axis_rules(c['act'], c['par'])
  p = partitioning.PjitPartitioner(num_partitions=1, ici_mesh_shape=(1, 1, 1), dcn_mesh_shape=(1, 1, 1), logical_axis_rules=rules)
  want = [(k, ('replica', 'data') if k == 'batch' else v) for k, v in rules]
  require([tuple(r) for r in p.logical_axis_rules] == want, lambda: f'{p.logical_axis_rules}')
  require(p.data_partition_spec == PartitionSpec(('replica', 'data')), lambda: f'{p.data_partition_spec}')
  q = partitioning.PjitPartitioner(num_partitions=1, logical_axis_rules=rules)
  require(q.data_partition_spec == PartitionSpec('data'), lambda: f'{q.data_partition_spec}')
  rec.nontrivial()


# --- Overriding axis names --------------------------------------------------------


@st.composite
def override_case(draw):
  params = draw(sc.flat_tree(min_size=2, max_size=5, dims=(2,)))
  names = ['/'.join(p['path']) for p in params]
  rules = []
  for _ in range(draw(st.integers(0, 5))):
    kind = draw(st.sampled_from(['exact', 'exact', 'suffix', 'prefix', 'any', 'part', 'none']))
    n = draw(st.sampled_from(names))
    rank = len(params[names.index(n)]['shape'])
    if draw(st.integers(0, 9)) == 0:
      rank += 1
    rules.append(dict(kind=kind, name=n, axes=draw(st.permutations(sc.AXES + ['new1', 'new2']))[:rank]))
  return dict(params=params, rules=rules, drop=draw(st.lists(st.integers(0, 4), max_size=1)), seed=0, mut=draw(sc.flat_tree(min_size=0, max_size=1)), mut_name='cache')


def matches(r, name):
  last, first = r['name'].rsplit('/', 1)[-1], r['name'].split('/', 1)[0]
  return {'exact': name == r['name'], 'suffix': '/' in name and name.rsplit('/', 1)[-1] == last, 'prefix': '/' in name and name.split('/', 1)[0] == first,
          'any': True, 'part': False, 'none': False}[r['kind']]


def pattern(r):
  import re
  last, first = r['name'].rsplit('/', 1)[-1], r['name'].split('/', 1)[0]
  return {'exact': re.escape(r['name']), 'suffix': '.*/' + re.escape(last), 'prefix': re.escape(first) + '/.*', 'any': '.*',
          'part': re.escape(r['name'][:-1] or 'zz') if r['name'][:-1] != '' else 'zz', 'none': 'nothing/.*'}[r['kind']]


def same_leaf(a, b):
  if hasattr(a, 'names') or hasattr(b, 'names'):
    return getattr(a, 'names', 0) == getattr(b, 'names', 1)
  return a is b or np.array_equal(np.asarray(a), np.asarray(b))


def override(c, rec):
  names = ['/'.join(p['path']) for p in c['params']]
  rules = [r for r in c['rules'] if not (r['kind'] == 'part' and any(n == r['name'][:-1] for n in names))]
  v = flax.core.unfreeze(sc.variables(c))
  flat_axes = traverse_util.flatten_dict(v['params_axes'])
  for i in c['drop']:
    p = c['params'][i % len(c['params'])]
    flat_axes.pop(tuple(p['path'][:-1]) + (p['path'][-1] + '_axes',), None)
  if not flat_axes:
    return
  v['params_axes'] = traverse_util.unflatten_dict(flat_axes)
  v = flax.core.freeze(v)
  before = {k: x for k, x in traverse_util.flatten_dict(flax.core.unfreeze(v)).items()}
  want = {k: tuple(x.names) for k, x in flat_axes.items()}
  bad = False
  for p in c['params']:
    hit = next((r for r in rules if matches(r, '/'.join(p['path']))), None)
    if hit is not None:
      bad |= len(hit['axes']) != len(p['shape'])
      want[tuple(p['path'][:-1]) + (p['path'][-1] + '_axes',)] = tuple(hit['axes'])
  over = [(pattern(r), tuple(r['axes'])) for r in rules]
  what = f'parameters {names}, overrides {over}'
  if bad:
    require(raises(lambda: utils.override_params_axes_names(v, over), ValueError), lambda: f'{what}: an override of another rank is accepted')
    rec.label('rejected')
    rec.nontrivial()
    return
  out = utils.override_params_axes_names(v, over)
  got = {k: tuple(x.names) for k, x in traverse_util.flatten_dict(flax.core.unfreeze(out['params_axes'])).items()}
  require(got == want, lambda: f'{what}: axes became {got}, expected {want}')
  now = traverse_util.flatten_dict(flax.core.unfreeze(v))
  require(set(now) == set(before) and all(same_leaf(now[k], before[k]) for k in now), lambda: f'{what}: the argument was changed')
  rest = traverse_util.flatten_dict({k: x for k, x in flax.core.unfreeze(out).items() if k != 'params_axes'})
  require(set(rest) == {k for k in before if k[0] != 'params_axes'} and all(same_leaf(rest[k], before[k]) for k in rest), lambda: f'{what}: other variables changed')
  rec.nontrivial(any(matches(r, n) for r in rules for n in names))


def override_bad(c, rec):
  v = flax.core.freeze({'params': {'w': np.zeros((2,))}})
  require(raises(lambda: utils.override_params_axes_names(v, [('w', ('embed',))]), ValueError), 'overriding without a params_axes collection is accepted')
  rec.nontrivial()


SUBS = [Sub('get_mesh_axes', get_mesh_axes, strategy=rules_case(), quick=70, thorough=6000, weight=3, timeout=60),
        Sub('duplicates', duplicates, strategy=sc.state_case(mutables=False, max_size=3), quick=30, thorough=1000, weight=.5),
        Sub('standard', standard, strategy=standard_case(), quick=150, thorough=8000, weight=1),
        Sub('slices', slices, cases=lambda rng, tier: [dict(act=a, par=p) for a in (1, 2) for p in (1, 2)], weight=.2),
        Sub('override', override, strategy=override_case(), quick=150, thorough=8000, weight=1),
        Sub('override_bad', override_bad, cases=lambda rng, tier: [dict(i=0)], weight=.1)]
