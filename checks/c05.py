"""C05: renaming rules applied at restore move every parameter to its right place."""
import copy
import functools
import os
import re

import hypothesis.strategies as st
import jax
import numpy as np

from checks import ckpt_common as cc
from checks import state_common as sc
from core import Skip, Sub, require
from t5x import checkpoints, state_utils, utils

BUDGET = (24, 900)
SEG = ['a', 'b', 'c', 'ab', 'a0', 'layer_0', 'layer_1', 'layer_10', 'x.y', 'target', 'state']
NAME = st.lists(st.sampled_from(SEG), min_size=1, max_size=3)

# A rule is data with its own meaning (no regular expressions in the oracle):
#   exact n -> m; under p -> q (p/rest -> q/rest, rest may contain slashes); tail s -> t (head/s -> head/t);
#   swap (x/y -> y/x, two segments); seg n0/*/n2 -> (third/second/first); sub: single characters do not match other characters.
KINDS = ['exact', 'exact', 'exact', 'under', 'under', 'tail', 'swap', 'first', 'all', 'alt']


@st.composite
def rule(draw):
  k = draw(st.sampled_from(KINDS))
  r = dict(kind=k, p='/'.join(draw(NAME)), q='/'.join(draw(NAME)), drop=draw(st.sampled_from([False] * 4 + [True])), compiled=draw(st.booleans()))
  if k in ('tail', 'first'):
    r['p'], r['q'] = draw(st.sampled_from(SEG)), draw(st.sampled_from(SEG))
  if k == 'alt':
    # One alternative may be the beginning of the other.
    r['p2'] = r['p'] + draw(st.sampled_from(['', '0', 'b', '/a', '/b'])) if draw(st.booleans()) else '/'.join(draw(NAME))
  return r


def regex(r):
  esc = re.escape
  k, p, q = r['kind'], r['p'], r['q']
  pat, rep = {'exact': (esc(p), q), 'under': (esc(p) + '/(.*)', q + r'/\1'), 'tail': ('(.*)/' + esc(p), r'\1/' + q),
              'swap': (r'([^/]+)/([^/]+)', r'\2/\1'), 'first': (r'(?P<h>' + esc(p) + r')((?:/[^/]+)*)', q + r'\g<2>'),
              'all': ('(.*)', r'\1'), 'alt': (esc(p) + '|' + esc(r.get('p2', '')), q)}[k]
  return (re.compile(pat) if r['compiled'] else pat), (None if r['drop'] else rep)


def match(r, k):
  """The source name rule r gives k, False when it does not apply, None when it drops k."""
  kind, p, q = r['kind'], r['p'], r['q']
  segs = k.split('/')
  if kind == 'exact':
    out = q if k == p else False
  elif kind == 'under':
    out = q + k[len(p):] if k.startswith(p + '/') else False
  elif kind == 'tail':
    out = '/'.join(segs[:-1] + [q]) if len(segs) > 1 and segs[-1] == p else False
  elif kind == 'swap':
    out = '/'.join(segs[::-1]) if len(segs) == 2 else False
  elif kind == 'first':
    out = '/'.join([q] + segs[1:]) if segs[0] == p else False
  elif kind == 'alt':
    out = q if k in (p, r['p2']) else False
  else:
    out = k
  return out if out is False else (None if r['drop'] else out)


class Missing(Exception):
  pass


class Unused(Exception):
  pass


def model(ckpt, opt, rules, require_all):
  """ckpt: flat old names -> values; opt: new names. Returns the flat remapped state."""
  out, used, consumed, dropped, missing = {}, set(), set(), set(), []
  for k in opt:
    for i, r in enumerate(rules):
      src = match(r, k)
      if src is False:
        continue
      used.add(i)
      if src is None:
        dropped.add(k)
      elif src not in ckpt:
        missing.append(src)
      else:
        consumed.add(src)
        out[k] = ckpt[src]
      break
  if missing:
    raise Missing(missing)
  if require_all and len(used) != len(rules):
    raise Unused()
  for k, v in ckpt.items():
    if k not in consumed and k not in dropped and k not in out:
      out[k] = v
  for k in opt:
    if k not in out and k not in dropped and k in ckpt:
      out[k] = ckpt[k]
  return out


def treeable(names):
  s = set(names)
  return not any(a != b and b.startswith(a + '/') for a in s for b in s)


def nest(flat):
  out = {}
  for k, v in flat.items():
    d = out
    *h, t = k.split('/')
    for x in h:
      d = d.setdefault(x, {})
    d[t] = v
  return out


def add(names, k):
  """Adds k unless a leaf would become an inner node."""
  if treeable(names + [k]) and k not in names:
    names.append(k)


@st.composite
def rules_case(draw):
  opt, ckpt = [], []
  for n in draw(st.lists(NAME, min_size=1, max_size=6)):
    add(opt, '/'.join(n))
  rules = draw(st.lists(rule(), max_size=4, unique_by=lambda r: (r['kind'], r['p'])))
  # Rules drawn from the actual names, so that most of them apply.
  for r in rules:
    if r['kind'] in ('exact', 'under', 'first', 'tail') and draw(st.integers(0, 5)):
      segs = draw(st.sampled_from(opt)).split('/')
      r['p'] = '/'.join({'exact': segs, 'under': segs[:-1] or segs, 'first': segs[:1], 'tail': segs[-1:]}[r['kind']])
      if r['kind'] in ('exact', 'under') and draw(st.booleans()):
        r['q'] = '/'.join(draw(st.sampled_from(opt)).split('/')[:len(segs)])
  # Most sources exist in the checkpoint, together with leftovers, some of which share a mapped name.
  flaw = draw(st.sampled_from([False] * 5 + [True]))
  for k in opt:
    src = next((m for m in (match(r, k) for r in rules) if m is not False), k)
    if src is not None and not (flaw and draw(st.booleans())):
      add(ckpt, src)
  for k in draw(st.lists(st.sampled_from(opt), max_size=3)) + ['/'.join(n) for n in draw(st.lists(NAME, max_size=2))]:
    add(ckpt, k)
  return dict(ckpt=draw(st.permutations(ckpt)), opt=draw(st.permutations(opt)), rules=rules, require_all=draw(st.sampled_from([True, False, False, None])),
              resume=draw(st.sampled_from([False] * 9 + [True])), specs=draw(st.booleans()))


def rules(c, rec):
  if not treeable(c['ckpt']) or not treeable(c['opt']):
    raise Skip()
  pats = [regex(r)[0] for r in c['rules']]
  if len({getattr(p, 'pattern', p) for p in pats}) != len(pats):
    raise Skip()
  leaf = lambda i: dict(driver='zarr', kvstore=dict(path=str(i)), metadata=dict(i=i)) if c['specs'] and i % 2 else np.array([i])
  flat = {k: leaf(i) for i, k in enumerate(c['ckpt'])}
  ckpt, opt = nest(flat), nest({k: None if i % 3 else np.zeros(2) for i, k in enumerate(c['opt'])})
  amap = [regex(r) for r in c['rules']]
  before = copy.deepcopy((ckpt, opt))
  want = err = None
  try:
    want = model(flat, c['opt'], c['rules'], c['require_all'] is not False)
  except (Missing, Unused) as e:
    err = e
  if want is not None and not treeable(want):
    raise Skip()
  kw = {} if c['require_all'] is None else dict(require_all_rules_match=c['require_all'])
  if c['resume']:
    got = state_utils.apply_assignment_map(ckpt, opt, amap, is_resuming=True, **kw)
    want = flat
  elif err is not None:
    try:
      got = state_utils.apply_assignment_map(ckpt, opt, amap, **kw)
    except ValueError as e:
      if isinstance(err, Missing):
        require(any(m in str(e) for m in err.args[0]), lambda: f'no missing source of {err} is named: {e}')
      rec.nontrivial()
      rec.label('rejected')
      return
    require(False, f'{type(err).__name__} {err} was not reported')
  else:
    got = state_utils.apply_assignment_map(ckpt, opt, amap, **kw)
  gf = state_utils.flatten_state_dict(got)
  require(set(gf) == set(want), lambda: f'result has {sorted(gf)}, want {sorted(want)}')
  for k, v in want.items():
    require(gf[k] is v or gf[k] == v, lambda: f'{k} got {gf[k]}, want {v}')
  if c['resume']:
    require(got is ckpt or gf.keys() == flat.keys(), 'resuming')
  same = jax.tree_util.tree_map(lambda a, b: np.array_equal(a, b), (ckpt, opt), before, is_leaf=lambda x: x is None)
  require(all(jax.tree_util.tree_leaves(same)), 'an argument was changed')
  moved = [k for k in want if any(match(r, k) not in (False, None, k) for r in c['rules']) and k in c['opt']]
  rec.nontrivial(moved)
  rec.label('collision', any(k in flat for k in moved))
  rec.label('dropped', any(match(r, k) is None for k in c['opt'] for r in c['rules']))
  rec.label('resume', c['resume'])


@st.composite
def restore_case(draw):
  params = draw(sc.flat_tree(min_size=1, max_size=5, dtypes=['float32']))
  n = len(params)
  kind = [draw(st.sampled_from(['same', 'rename', 'rename', 'swap', 'drop', 'new'])) for _ in range(n)]
  return dict(params=params, kind=kind, opt=draw(st.sampled_from(['adafactor', 'adafactor_mom', 'sgd', 'inference', 'inference', 'sgd_mom', 'adam'])),
              fallback=draw(st.booleans()), seed=draw(st.integers(0, 10**6)), loader=draw(st.booleans()), resume=draw(st.sampled_from([False] * 6 + [True])),
              via=draw(st.sampled_from(['checkpointer', 'manager', 'legacy_manager', 'orbax'])), dtype=draw(st.sampled_from([None, None, 'bfloat16'])))


def restore(c, rec):
  old = sc.pad_shapes(c['params'], 1)
  if not old:
    raise Skip()
  # The new model: each parameter is kept, renamed, swapped with another of its shape, dropped from the rules or new.
  new, source = [], {}
  for i, (p, k) in enumerate(zip(old, c['kind'])):
    name = '/'.join(p['path'])
    if k == 'rename':
      q = dict(p, path=[f'n{i}'] + p['path'])
      source['/'.join(q['path'])] = name
    elif k == 'swap' and any('/'.join(o['path']) != name and o['shape'] == p['shape'] and o['axes'] == p['axes'] for o in old):
      q = p
      source[name] = next('/'.join(o['path']) for o in old if '/'.join(o['path']) != name and o['shape'] == p['shape'] and o['axes'] == p['axes'])
    elif k == 'drop':
      q = p
      source[name] = None
    elif k == 'new':
      q = dict(p, path=[f'new{i}'] + p['path'])
    else:
      q = p
    new.append(q)
  base = dict(mut=[], mut_name='x', opt=c['opt'])
  rng = np.random.default_rng(c['seed'])
  a = sc.fill(sc.make_state(dict(base, params=old, seed=c['seed']), rng), rng).replace_step(np.int32(7))
  b = sc.fill(sc.make_state(dict(base, params=new, seed=c['seed']), rng), rng).replace_step(np.int32(3))
  # Every optimizer in use keeps its state per parameter under the parameter's own name.
  amap = [(r'(target/|state/param_states/|state/param_states/\d+/\w+/)' + re.escape(n) + r'((?:/(?:v|v_row|v_col|m))?)', None if s is None else rf'\1{s}\2') for n, s in source.items()]
  amap = [m for m in amap]
  fresh, saved = sc.flat(b.state_dict()), cc.snapshot(a)
  dropped, want, missing = [], {}, []
  leaves = {k for k, v in fresh.items() if sc.is_array(v)}
  used = set()
  for k in fresh:
    if k not in leaves:
      want[k] = fresh[k]
      continue
    src = k
    for i, (pat, rep) in enumerate(amap):
      m = re.fullmatch(pat, k)
      if m:
        used.add(i)
        src = None if rep is None else m.expand(rep)
        break
    if src is None or src not in saved:
      missing.append(k)
      want[k] = fresh[k]
    else:
      want[k] = saved[src]
  if c['resume']:
    # The rules are not applied a second time: the checkpoint of the new model restores as it is.
    want, missing, a = cc.snapshot(b), [], b
  elif len(used) != len(amap):
    raise Skip()
  if c['dtype'] and all(k in missing for k in leaves if k.startswith('target/')):
    raise Skip()  # an explicit error: there is nothing to cast
  if c['dtype']:
    want = {k: cc.cast(v, c['dtype']) if k.startswith('target/') and sc.is_array(v) and k not in missing else v for k, v in want.items()}
  part = sc.make_partitioner(1, params_on_devices=not c['loader'] or c['via'] == 'orbax')
  with cc.Scratch() as d:
    if c['via'] == 'orbax':
      m = checkpoints.OrbaxCheckpointManagerInterface(d, cc.abstract(a), part)
      m.save(sc.place(a, part))
      m.wait_until_finished()
      m.close()
    else:
      checkpoints.Checkpointer(a, part, d, save_dtype=None).save(a)
    step = int(a.step)
    path = os.path.join(d, f'checkpoint_{step}')
    cfg = utils.RestoreCheckpointConfig(path=path, mode='specific', assignment_map=amap or None, fallback_to_scratch=c['fallback'] and bool(amap), dtype=c['dtype'])
    fns = cfg.state_transformation_fns
    if c['resume']:
      fns = tuple(functools.partial(f, is_resuming=True) for f in fns)
      cfg.state_transformation_fns = fns
    fb = jax.tree_util.tree_map(np.copy, b.state_dict()) if cfg.fallback_to_scratch else None
    got_cfg, paths = utils.get_first_valid_restore_config_and_paths([cfg])
    require(got_cfg is cfg and list(paths) == [path], 'specific path not returned')

    def run():
      if c['via'] == 'legacy_manager':
        m = utils.LegacyCheckpointManager(save_cfg=None, restore_cfg=cfg, train_state_shape=cc.abstract(b), partitioner=part, model_dir=d)
        return m.restore([path], cfg, fb)
      rd = None if c['dtype'] is None else jax.numpy.dtype(c['dtype'])
      if c['via'] in ('manager', 'orbax'):
        m = utils.create_orbax_checkpoint_manager(restore_cfg=cfg, train_state=cc.abstract(b), partitioner=part, model_dir=os.path.join(d, 'm'))
        return utils.restore(m, [path], cfg, fb)
      return checkpoints.Checkpointer(cc.abstract(b), part, '', restore_dtype=rd).restore(path=path, state_transformation_fns=fns, fallback_state=fb)

    if missing and fb is None:
      try:
        r = run()
      except (ValueError, KeyError) as e:
        rec.label('rejected')
        rec.nontrivial()
        return
      require(False, f'{missing} are missing from the checkpoint but the restore succeeded')
    r = run()
    got = cc.snapshot(r)
    if c['dtype']:
      # Entries initialised from scratch keep their own dtype or take the requested one.
      for k in missing:
        if k.startswith('target/') and got[k].dtype != want[k].dtype:
          want[k] = cc.cast(want[k], c['dtype'])
    cc.compare(got, want, f'restore with {amap}')
  rec.nontrivial(any(s for s in source.values()))
  rec.label('missing', missing)
  rec.label(c['opt'])
  rec.label(c['via'])
  rec.label('resume', c['resume'])


SUBS = [
    Sub('rules', rules, strategy=rules_case(), quick=500, thorough=30000, weight=2),
    Sub('restore', restore, strategy=restore_case(), quick=80, thorough=4000, weight=4),
]
