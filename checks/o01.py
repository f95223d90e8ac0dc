"""O01: Adafactor updates parameters as its definition says."""
import re

import flax
import flax.linen.partitioning as flax_partitioning
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from flax import traverse_util

from checks import state_common as sc
from core import Sub, raises, require
from t5x import adafactor as af, optimizers as o

BUDGET = (25, 900)
F = af.FactorDim
LETTER = {'R': F.ROW, 'C': F.COLUMN, 'B': F.BATCH, 'N': F.NONE}
NAMED = {'R': ['row', 'ROW'], 'C': ['col', 'Column'], 'B': ['batch'], 'N': ['none', 'unfactorized']}
HEUR = ((0,), (1,), 'heuristic')
AX = {'embed': 'R', 'mlp': 'C', 'heads': 'C', 'kv': 'C', 'layers': 'B', 'stack': 'B', 'relpos_buckets': 'N', 'joined_kv': 'C', 'vocab': 'C'}
SHAPES = [[], [1], [3], [4], [2, 3], [4, 4], [3, 2], [1, 4], [2, 3, 4], [2, 4, 4], [3, 2, 2], [2, 1, 3], [2, 2, 3, 4]]
NAMES = ['enc/w', 'enc/kernel', 'dec/w', 'dec/scale', 'emb']


@st.composite
def case(draw):
  mode = draw(st.sampled_from(['heuristic', 'logical', 'logical', 'map', 'map', 'full']))
  ps = []
  for n in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)):
    shape = draw(st.sampled_from(SHAPES if mode != 'heuristic' else SHAPES[:8]))
    rule = draw(st.lists(st.sampled_from('RRCCBN'), min_size=len(shape), max_size=len(shape)))
    if len(shape) >= 3 and draw(st.booleans()):
      rule = ['B'] * (len(shape) - 2) + draw(st.permutations('RC'))
    ps.append(dict(name=n, shape=shape, rule=rule, dtype=draw(st.sampled_from(['float32'] * 5 + ['bfloat16']))))
  return dict(
      mode=mode, params=ps, steps=draw(st.lists(st.sampled_from(['normal', 'normal', 'small', 'large', 'zero', 'sparse', 'nan', 'one']), min_size=1, max_size=3)),
      start=draw(st.sampled_from([0, 0, 0, 1, 100, 10000])), offset=draw(st.sampled_from([0, 0, 1])), min_dim=draw(st.sampled_from([1, 2, 3, 4, 128])),
      beta1=draw(st.sampled_from([None, None, 0.9, 0.0])), mom=draw(st.sampled_from(['float32', 'float32', 'bfloat16'])),
      decay=draw(st.sampled_from([0.8, 0.8, 0.5, 1.0])), clip=draw(st.sampled_from([1.0, 1.0, None, 0.3, 5.0])),
      wd=draw(st.sampled_from([None, None, 0.1, 0.0])), wdexp=draw(st.sampled_from([None, None, 2.0, 0.5])), scale=draw(st.sampled_from(['true', 'true', 'false', 'map'])),
      maxscale=draw(st.sampled_from([None, None, 0.5, 0.01])), gclip=draw(st.sampled_from([None, None, 1.0, 0.01, 100.0])), skipnan=draw(st.booleans()),
      eps1=draw(st.sampled_from([1e-30, 1e-8])), eps2=draw(st.sampled_from([1e-3, 0.5])), lr=draw(st.sampled_from([0.1, 1.0, 0.003])), pass_lr=draw(st.booleans()),
      names=draw(st.booleans()), pscale=draw(st.sampled_from([1e-4, 1.0, 10.0])), seed=draw(st.integers(0, 10**6)))


def hmap(pairs, rng):
  """Rules whose first match is the wanted one, with decoys after it that would match too."""
  out = [('^' + re.escape(k) + '$', v) for k, v in pairs]
  out.append(('.*', out[0][1] if out else None))
  return af.HParamMap(out)


def axes_for(rule, rng):
  pool = {k: [a for a, l in AX.items() if l == k] for k in 'RCBN'}
  return [pool[r][int(rng.integers(len(pool[r])))] for r in rule]


def build(c):
  """Optimizer definition, parameters, and for every parameter (factor dims or None, averaging dims)."""
  rng = np.random.default_rng(c['seed'])
  kw = dict(beta1=c['beta1'], decay_rate=c['decay'], step_offset=min(c['offset'], c['start']), clipping_threshold=c['clip'], weight_decay_rate=c['wd'], min_dim_size_to_factor=c['min_dim'],
            epsilon1=c['eps1'], epsilon2=c['eps2'], dtype_momentum=jnp.dtype(c['mom']), weight_decay_rate_lr_exponent=c['wdexp'], global_norm_clip_threshold=c['gclip'],
            max_parameter_scale=c['maxscale'], skip_nan_updates=c['skipnan'], factored=c['mode'] != 'full')
  by_scale = {p['name']: {'true': True, 'false': False}.get(c['scale'], i % 2 == 0) for i, p in enumerate(c['params'])}
  kw['multiply_by_parameter_scale'] = hmap(list(by_scale.items()), rng) if c['scale'] == 'map' else c['scale'] == 'true'
  if c['mode'] == 'map':
    kw['factor_map'] = hmap([(p['name'], af.HEURISTIC_RULE if len(p['shape']) < 3 and i % 3 == 2 else tuple(LETTER[r] for r in p['rule'])) for i, p in enumerate(c['params'])], rng)
  if c['mode'] == 'logical':
    kw['logical_factor_rules'] = {a: NAMED[l][len(a) % len(NAMED[l])] if c['names'] else LETTER[l] for a, l in AX.items()}
  d = af.Adafactor(c['lr'] * (7 if c['pass_lr'] else 1), **kw)
  logical_bad = False
  how = {}
  for i, p in enumerate(c['params']):
    rule, n = ''.join(p['rule']), len(p['shape'])
    everything = tuple(range(n))
    heur = None
    if n >= 2 and sorted(p['shape'])[-2] >= c['min_dim']:
      heur = HEUR
    if c['mode'] == 'full':
      how[p['name']] = (None, everything)
    elif c['mode'] == 'heuristic' or (n <= 2 and 'B' not in rule) or (c['mode'] == 'map' and n < 3 and i % 3 == 2):
      how[p['name']] = (heur, everything)
    else:
      row, col = tuple(j for j in everything if rule[j] == 'R'), tuple(j for j in everything if rule[j] == 'C')
      avg = tuple(j for j in everything if rule[j] != 'B')
      if c['mode'] == 'logical' and not (row and col):
        row = col = ()
      how[p['name']] = ((row, col) if row or col else None, avg)
    logical_bad |= c['mode'] == 'logical' and set('RCN') <= set(rule)
  if c['mode'] == 'logical':
    axes = sc.nest([(p['name'].split('/'), flax_partitioning.AxisMetadata(names=tuple(axes_for(p['rule'], rng))).names) for p in c['params']])
    axes = jax.tree_util.tree_map(lambda x: jax.sharding.PartitionSpec(*x), axes, is_leaf=lambda x: isinstance(x, tuple))
    e = raises(lambda: d.set_param_axes(axes), ValueError)
    if logical_bad:
      require(e is not None, 'rows, columns and an unfactored dimension in one parameter are accepted')
      return None
    require(e is None, lambda: f'{e}')
  params = sc.nest([(p['name'].split('/'), jnp.asarray(rng.standard_normal(p['shape']) * c['pscale'], jnp.dtype(p['dtype']))) for p in c['params']])
  return d, params, how, by_scale, rng


def grad(kind, shape, rng):
  g = rng.standard_normal(shape)
  if kind == 'small':
    g = g * 1e-6
  elif kind == 'large':
    g = g * 300
  elif kind == 'zero':
    g = g * 0
  elif kind == 'sparse':
    g = g * (rng.random(shape) < 0.3)
  elif kind == 'one':
    g = np.abs(g) + 1
  elif kind == 'nan':
    g = np.where(rng.random(shape) < 0.3, np.nan, g)
  return np.asarray(g, np.float32)


def reference(c, name, old, slots, g, t, lr, how, scaled):
  """One step for one parameter in double precision. Returns new parameter, slots, and the sizes the rounding is relative to."""
  factors, avg = how
  f = lambda x: np.asarray(x).astype(np.float64)
  old, g = f(old), f(g)
  avg = tuple(avg)
  mean = lambda x, dims: np.mean(x, axis=tuple(dims), keepdims=True)
  decay = 1 - float(t + 1) ** -c['decay']
  sq = g * g + c['eps1']
  new = {}
  if factors is not None:
    row, col = factors[:2]
    # Dimensions of each statistic that were averaged away come back with size one.
    vr = decay * slots['v_row_full'] + (1 - decay) * mean(sq, col)
    vc = decay * slots['v_col_full'] + (1 - decay) * mean(sq, row)
    new['v_row'], new['v_col'] = vr, vc
    v = vr * vc / mean(vr, row)
  else:
    v = decay * f(slots['v']) + (1 - decay) * sq
    new['v'] = v
  y = g / np.sqrt(v)
  if c['clip'] is not None:
    y = y / np.maximum(1.0, np.sqrt(mean(y * y, avg)) / c['clip'])
  step = lr
  if scaled:
    s = np.maximum(np.sqrt(mean(old * old, avg)), c['eps2'])
    if c['maxscale'] is not None:
      s = np.minimum(s, c['maxscale'])
    step = lr * s
  sub = step * y
  size = np.abs(sub)
  if c['beta1'] is not None:
    m = f(slots['m'])
    size = c['beta1'] * np.abs(m) + (1 - c['beta1']) * size
    sub = c['beta1'] * m + (1 - c['beta1']) * sub
    new['m'] = sub
  wd = c['wd']
  if c['wdexp']:
    wd = (wd or 1.0) * lr ** c['wdexp']
  out = old * (1 - wd) - sub if wd is not None else old - sub
  return out, new, size


def close(got, want, size, rel, what):
  got = np.asarray(got).astype(np.float64)
  require(got.shape == want.shape, lambda: f'{what}: shape {got.shape}, expected {want.shape}')
  ok = (np.isnan(got) & np.isnan(want)) | (np.abs(got - want) <= rel * size + 1e-37) | (got == want)
  require(ok.all(), lambda: f'{what}: {got[~ok][:4]}, expected {want[~ok][:4]} (relative tolerance {rel:.1e} of {np.broadcast_to(size, want.shape)[~ok][:4]})')


def update(c, rec):
  b = build(c)
  if b is None:
    rec.label('rejected')
    return
  d, params, how, by_scale, rng = b
  if c['mode'] == 'heuristic':
    pass
  opt = d.create(params)
  if c['start']:
    opt = opt.replace(state=o.OptimizerState(jnp.asarray(c['start'], jnp.int32), opt.state.param_states))
  for n, st_ in slots_of(opt).items():
    p = next(p for p in c['params'] if p['name'] == n)
    shape, factors = tuple(p['shape']), how[n][0]
    want = {}
    if factors:
      want = {'v_row': tuple(s for j, s in enumerate(shape) if j not in factors[1]), 'v_col': tuple(s for j, s in enumerate(shape) if j not in factors[0])}
      if factors == HEUR:
        big = int(np.argsort(shape, kind='stable')[-1])
        want = {'v_row': (shape[1 - big],), 'v_col': (shape[big],)}
    else:
      want['v'] = shape
    if c['beta1'] is not None:
      want['m'] = shape
    for k in ('v_row', 'v_col', 'v', 'm'):
      x = getattr(st_, k)
      require(tuple(x.shape) == want.get(k, (1,)) and not np.asarray(x).astype(np.float32).any(), lambda: f'{n} {shape} {p["rule"]} ({c["mode"]}): initial {k} is {x}')  # pylint: disable=cell-var-from-loop
      require(k != 'm' or c['beta1'] is None or x.dtype == jnp.dtype(c['mom']), lambda: f'{n}: momentum of type {x.dtype}')  # pylint: disable=cell-var-from-loop
  moved = False
  for i, kind in enumerate(c['steps']):
    grads = {p['name']: grad(kind, p['shape'], rng) for p in c['params']}
    t = c['start'] + i - min(c['offset'], c['start'])
    before, slots = leaves(opt.target), slots_of(opt)
    tree = traverse_util.unflatten_dict({tuple(k.split('/')): jnp.asarray(v) for k, v in grads.items()})
    opt = opt.apply_gradient(tree, **(dict(learning_rate=c['lr']) if c['pass_lr'] else {}))
    require(int(opt.state.step) == c['start'] + i + 1, lambda: f'step {opt.state.step}')
    after, now = leaves(opt.target), slots_of(opt)
    gscale = 1.0
    if c['gclip']:
      norm = np.sqrt(sum(np.sum(g.astype(np.float64) ** 2) for g in grads.values()))
      gscale = 1.0 if norm == 0 else c['gclip'] * np.minimum(1 / c['gclip'], 1 / norm)
    for p in c['params']:
      n, factors = p['name'], how[p['name']][0]
      s = {k: np.asarray(getattr(slots[n], k)).astype(np.float64) for k in ('v_row', 'v_col', 'v', 'm')}
      flip = False
      if factors:
        flip = tuple(s['v_row'].shape) != tuple(x for j, x in enumerate(p['shape']) if j not in factors[1])
        if flip:
          factors = factors[1::-1]
        elif len(p['shape']) == 2 and p['shape'][0] == p['shape'][1]:
          pass  # Square: row is the first dimension.
        s['v_row_full'] = np.expand_dims(s['v_row'], factors[1])
        s['v_col_full'] = np.expand_dims(s['v_col'], factors[0])
      want, new, size = reference(c, n, before[n], s, grads[n] * gscale, t, c['lr'], (factors, how[n][1]), by_scale[n])
      if c['skipnan']:
        want = np.where(np.isnan(want), np.asarray(before[n]).astype(np.float64), want)
        new = {k: np.where(np.isnan(v), s.get(k + '_full', s[k]), v) for k, v in new.items()}
      what = f'{n} {p["shape"]} rule {"".join(p["rule"])} ({c["mode"]}) after step {i} ({kind} gradients)'
      if c['skipnan']:
        for k, x in [('value', after[n])] + [(k, getattr(now[n], k)) for k in ('v_row', 'v_col', 'v', 'm')]:
          require(not np.isnan(np.asarray(x).astype(np.float32)).any(), lambda: f'{what}: not a number in {k} although such updates are to be skipped')  # pylint: disable=cell-var-from-loop
      rel = 1e-4 + 1e-6 * (t + 1) ** c['decay']
      for k in ('v_row', 'v_col', 'v'):
        x = getattr(now[n], k)
        require(x.dtype == jnp.float32, lambda: f'{what}: {k} of type {x.dtype}')  # pylint: disable=cell-var-from-loop
        if k in new:
          w = new[k].reshape([z for j, z in enumerate(p['shape']) if k == 'v' or j not in factors[1 if k == 'v_row' else 0]])
          close(x, w, np.abs(w), rel, f'{what}: {k}')
        else:
          require(tuple(x.shape) == (1,) and not np.asarray(x).any(), lambda: f'{what}: unused {k} is {x}')  # pylint: disable=cell-var-from-loop
      coarse = p['dtype'] == 'bfloat16'
      if 'm' in new:
        close(now[n].m, new['m'], size, (rel + 2**-7 * (c['mom'] == 'bfloat16')) + .03 * coarse, f'{what}: momentum')
      else:
        require(tuple(now[n].m.shape) == (1,), lambda: f'{what}: momentum kept though not asked for')  # pylint: disable=cell-var-from-loop
      require(after[n].dtype == before[n].dtype, lambda: f'{what}: parameter of type {after[n].dtype}')  # pylint: disable=cell-var-from-loop
      # Rounding of the parameter, plus the tolerance of the update itself.
      eps = 2**-7 if coarse else 2**-22
      total = (rel + .03 * coarse + 2**-7 * (c['mom'] == 'bfloat16' and c['beta1'] is not None)) * np.nan_to_num(size, posinf=0) + eps * (np.abs(np.nan_to_num(want)) + np.abs(np.asarray(before[n]).astype(np.float64)) + np.nan_to_num(size, posinf=0))
      close(after[n], want, total, 1.0, f'{what}: parameter')
      moved |= bool(np.any(np.abs(np.nan_to_num(want) - np.asarray(before[n]).astype(np.float64)) > 0))
  rec.nontrivial(moved and (any(how[p['name']][0] for p in c['params']) or len(c['steps']) > 1))
  rec.label('factored', any(how[p['name']][0] for p in c['params']))
  rec.label('batch dims', any(len(how[p['name']][1]) < len(p['shape']) for p in c['params']))
  rec.label(c['mode'])


def leaves(t):
  return {'/'.join(k): v for k, v in traverse_util.flatten_dict(flax.core.unfreeze(t)).items()}


def slots_of(opt):
  return {'/'.join(k): v for k, v in traverse_util.flatten_dict(flax.core.unfreeze(opt.state.param_states)).items()}


# --- Layers do not mix ---------------------------------------------------------


@st.composite
def layers_case(draw):
  shape = draw(st.sampled_from([[2, 3, 4], [3, 4, 2], [4, 2, 2], [2, 2, 3, 4], [3, 4], [3, 2, 1]]))
  axis = draw(st.integers(0, len(shape) - 1))
  rest = ['embed', 'mlp', 'heads'] if draw(st.booleans()) else ['mlp', 'embed', 'kv']
  rest = rest if draw(st.integers(0, 3)) else ['mlp', 'heads', 'kv']
  names = list(draw(st.permutations(rest)))[:len(shape) - 1]
  names.insert(axis, draw(st.sampled_from(['layers', 'stack'])))
  return dict(shape=shape, axis=axis, names=names, beta1=draw(st.sampled_from([None, 0.9])), clip=draw(st.sampled_from([1.0, 0.1, None])), scale=draw(st.booleans()),
              layer=draw(st.integers(0, 3)), steps=draw(st.integers(1, 3)), seed=draw(st.integers(0, 10**6)))


def layers(c, rec):
  """Another layer's gradients and values have no influence on a layer."""
  n = c['shape'][c['axis']]
  layer = c['layer'] % n
  outs = []
  for variant in range(2):
    d = af.Adafactor(0.1, beta1=c['beta1'], clipping_threshold=c['clip'], multiply_by_parameter_scale=c['scale'], logical_factor_rules=af.standard_logical_factor_rules())
    d.set_param_axes({'w': jax.sharding.PartitionSpec(*c['names'])})
    rng = np.random.default_rng(c['seed'])
    other = np.arange(n).reshape([-1 if j == c['axis'] else 1 for j in range(len(c['shape']))]) != layer
    change = lambda x: np.where(other & (variant == 1), x * 17 + 3, x).astype(np.float32)  # pylint: disable=cell-var-from-loop
    opt = d.create({'w': jnp.asarray(change(rng.standard_normal(c['shape'])))})
    for _ in range(c['steps']):
      opt = opt.apply_gradient({'w': jnp.asarray(change(rng.standard_normal(c['shape'])))})
    outs.append(np.take(np.asarray(opt.target['w']), layer, c['axis']))
  require(np.allclose(outs[0], outs[1], rtol=1e-6, atol=1e-7), lambda: f'shape {c["shape"]}, axes {c["names"]}: layer {layer} became {outs[0]} or {outs[1]} depending on the other layers')
  rec.nontrivial(n > 1)


# --- Per-parameter settings -----------------------------------------------------

PARTS = ['enc', 'dec', 'w', 'kernel', 'layer_1', 'layer_10']


@st.composite
def map_case(draw):
  path = st.lists(st.sampled_from(PARTS), min_size=1, max_size=3).map('/'.join)
  rules = draw(st.lists(st.tuples(st.sampled_from(['exact', 'start', 'end', 'part', 'any']), path).map(list), max_size=5))
  names = draw(st.lists(path, min_size=1, max_size=5, unique=True))
  return dict(rules=rules, names=[n for n in names if not any(m != n and m.startswith(n + '/') for m in names)])


def hparam_map(c, rec):
  pats = {'exact': lambda s: '^' + s + '$', 'start': lambda s: '^' + s, 'end': lambda s: s + '$', 'part': lambda s: s, 'any': lambda s: '.*'}
  hit = {'exact': lambda s, n: n == s, 'start': lambda s, n: n[:len(s)] == s, 'end': lambda s, n: n[len(n) - len(s):] == s and len(n) >= len(s), 'part': lambda s, n: s in n, 'any': lambda s, n: True}
  m = af.HParamMap([(pats[k](s), i) for i, (k, s) in enumerate(c['rules'])])
  want = {n: next((i for i, (k, s) in enumerate(c['rules']) if hit[k](s, n)), None) for n in c['names']}
  for n, w in want.items():
    if w is None:
      require(raises(lambda: m[n], KeyError) is not None, lambda: f'{n} matches no rule of {c["rules"]} and no error is raised')  # pylint: disable=cell-var-from-loop
    else:
      require(m[n] == w, lambda: f'{n} got the setting of rule {m[n]}, expected {w}; rules {c["rules"]}')  # pylint: disable=cell-var-from-loop
  if None not in want.values():
    t = traverse_util.unflatten_dict({tuple(n.split('/')): np.zeros(()) for n in want})
    got = leaves(m(t))
    require(got == want, lambda: f'mapping a tree gives {got}, expected {want}')
  rec.nontrivial(len({w for w in want.values() if w is not None}) > 1)


def rank_errors(c, rec):
  """Rules that do not fit the parameter are refused."""
  x = {'w': jnp.zeros((2, 3, 4))}
  require(raises(lambda: af.Adafactor(0.1).create(x), ValueError) is not None, 'a parameter of rank 3 without a factorisation rule is accepted')
  m = af.HParamMap([('.*', (F.ROW, F.COLUMN))])
  require(raises(lambda: af.Adafactor(0.1, factor_map=m).create(x), ValueError) is not None, 'a rule of rank 2 is accepted for a parameter of rank 3')
  require(raises(lambda: af.Adafactor(0.1, factored=False, factor_map=m), ValueError) is not None, 'factorisation rules are accepted with factored=False')
  require(raises(lambda: af.Adafactor(0.1, factor_map={'w': (F.ROW,)}), TypeError) is not None, 'a plain dictionary is accepted as factor map')
  require(raises(lambda: af.Adafactor(0.1, multiply_by_parameter_scale='yes'), TypeError) is not None, 'a string is accepted for multiply_by_parameter_scale')
  rec.nontrivial()


SUBS = [Sub('update', update, strategy=case(), quick=45, thorough=8000, weight=5, timeout=120),
        Sub('layers', layers, strategy=layers_case(), quick=20, thorough=2000, weight=1, timeout=120),
        Sub('hparam_map', hparam_map, strategy=map_case(), quick=150, thorough=5000, weight=.3),
        Sub('rank_errors', rank_errors, cases=lambda rng, tier: [dict(i=0)], weight=.1)]
