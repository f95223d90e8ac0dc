"""C06: state-tree merge, intersection and flattening laws."""
import copy

import flax
import hypothesis.strategies as st
import numpy as np
from flax import traverse_util

from core import Skip, Sub, require
from t5x import state_utils

BUDGET = (14, 600)
KEY = st.sampled_from(['a', 'b', 'c', 'target', 'state', 'x.y', 'layer_0', 'driver', 'kvstore', '0', ' '])
LEAF = st.one_of(st.integers(-3, 3), st.none(), st.sampled_from(['str', 'ARR', 'LIST', 'SPEC', 'SPEC+', 'PARTSPEC', 'NAN', 'TUPLE', 'SPECEMPTY']))
TREE = st.dictionaries(KEY, st.recursive(LEAF, lambda ch: st.dictionaries(KEY, ch, max_size=4), max_leaves=12), max_size=5)


def build(t, n):
  """Turns markers into values; every leaf object is distinct (n is a counter)."""
  if isinstance(t, dict):
    return {k: build(v, n) for k, v in t.items()}
  n[0] += 1
  i = n[0]
  return {'ARR': lambda: np.full((2,), i, np.float32), 'LIST': lambda: [i, {'a': i}], 'TUPLE': lambda: (i, None), 'NAN': lambda: float('nan'),
          'SPEC': lambda: dict(driver='zarr', kvstore=dict(driver='file', path=f'p{i}'), metadata=dict(shape=[i])),
          'SPEC+': lambda: dict(driver='zarr', dtype='float32', kvstore=dict(path=f'p{i}'), metadata={}, transform=dict(i=i)),
          'SPECEMPTY': lambda: dict(driver=None, kvstore={}, metadata={}),
          'PARTSPEC': lambda: dict(driver='zarr', kvstore=dict(path=f'p{i}')),
          'str': lambda: f's{i}'}.get(t, lambda: t)() if isinstance(t, str) else t


def is_spec(v):
  return all(k in v for k in ('driver', 'kvstore', 'metadata'))


def flat(t, pre=()):
  """{path: leaf} and the set of empty nodes."""
  out, empty = {}, set()
  for k, v in t.items():
    p = pre + (k,)
    if isinstance(v, (dict, flax.core.FrozenDict)) and not is_spec(v):
      if not v:
        empty.add('/'.join(p))
      o, e = flat(v, p)
      out.update(o)
      empty |= e
    else:
      out['/'.join(p)] = v
  return out, empty


def nest(f):
  out = {}
  for k, v in f.items():
    d = out
    *h, t = k.split('/')
    for x in h:
      d = d.setdefault(x, {})
    d[t] = v
  return out


def same(a, b):
  if isinstance(a, (dict, flax.core.FrozenDict)) and isinstance(b, (dict, flax.core.FrozenDict)):
    return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
  if isinstance(a, (list, tuple)) and type(a) == type(b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
  return a is b or (type(a) == type(b) and (a == b or (a != a and b != b)))


def conflict(x, y):
  s = set(x) | set(y)
  return any(a != b and b.startswith(a + '/') for a in s for b in s)


@st.composite
def case(draw):
  a = draw(TREE)
  # The second tree shares structure with the first more often than not.
  b = dict(draw(TREE))
  for k in a:
    if draw(st.booleans()):
      b[k] = a[k] if draw(st.booleans()) else draw(TREE)
  return dict(a=a, b=b, frozen=draw(st.booleans()), overwrite=draw(st.booleans()))


def check(c, rec):
  n = [0]
  a, b = build(c['a'], n), build(c['b'], n)
  if is_spec(a) or is_spec(b):
    raise Skip()  # the whole state is one array
  if c['frozen']:
    b = flax.core.freeze(b)
  snap = copy.deepcopy((a, b))
  (fa, ea), (fb, eb) = flat(a), flat(b)
  for t, f, e in ((a, fa, ea), (b, fb, eb)):
    got = state_utils.flatten_state_dict(t)
    require(set(got) == set(f) and all(same(got[k], f[k]) for k in f), lambda: f'flatten {got}, want {f}')
    require(same(traverse_util.unflatten_dict(got, sep='/'), nest(f)), 'unflatten(flatten) lost something')
    keep = state_utils.flatten_state_dict(t, keep_empty_nodes=True)
    require(set(keep) == set(f) | e, lambda: f'keeping empty nodes gives {sorted(keep)}, want {sorted(set(f) | e)}')
    require(same(traverse_util.unflatten_dict(keep, sep='/'), t), 'unflatten(flatten) with empty nodes lost something')
  # Names of the leaves.
  plain = {k: v for k, v in c['a'].items()}
  plain = build_plain(plain)
  fp, ep = flat_plain(plain)
  got = state_utils.get_name_tree(plain)
  require(same(got, nest({k: k for k in fp})), lambda: f'name tree {got}')
  got = state_utils.get_name_tree(plain, keep_empty_nodes=True)
  require(same(got, nest({k: k for k in set(fp) | ep})), lambda: f'name tree with empty nodes {got}')
  # Intersection.
  got = state_utils.intersect_state(a, b)
  want = {k: v for k, v in fa.items() if k in fb}
  require(same(got, nest(want)), lambda: f'intersect {got}, want {nest(want)}')
  gf, _ = flat(got)
  require(all(gf[k] is fa[k] for k in want), 'an intersected leaf is not the original one')
  # Merge.
  if not conflict(fa, fb):
    kw = dict(overwrite=True) if c['overwrite'] else {}
    got = state_utils.merge_state(a, b, **kw)
    want = {**fa, **fb} if c['overwrite'] else {**fb, **fa}
    require(same(got, nest(want)), lambda: f'merge(overwrite={c["overwrite"]}) {got}, want {nest(want)}')
    require(same(state_utils.intersect_state(got, a), nest({k: want[k] for k in fa})), 'a merged leaf is lost')
    require(same(state_utils.merge_state(got, a), nest(want)), 'merging again changed the result')
    rec.label('merged')
  require(same(a, snap[0]) and same(b, snap[1]), 'an argument was changed')
  rec.nontrivial(len(fa) >= 2 and set(fa) & set(fb) and set(fa) ^ set(fb))
  rec.label('spec', any(isinstance(v, dict) for v in fa.values()))
  rec.label('empty', ea or eb)


def build_plain(t):
  if isinstance(t, dict):
    return {k: build_plain(v) for k, v in t.items()}
  return 0


def flat_plain(t, pre=()):
  out, empty = {}, set()
  for k, v in t.items():
    p = '/'.join(pre + (k,))
    if isinstance(v, dict):
      if not v:
        empty.add(p)
      o, e = flat_plain(v, pre + (k,))
      out.update(o)
      empty |= e
    else:
      out[p] = v
  return out, empty


SUBS = [Sub('laws', check, strategy=case(), quick=600, thorough=40000)]
