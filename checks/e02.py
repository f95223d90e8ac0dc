"""E02: initialising an expert model from a dense checkpoint copies each dense weight to every expert."""
import functools

import flax
import flax.linen.partitioning as flax_partitioning
import hypothesis.strategies as st
import jax
import numpy as np
from jax.sharding import Mesh

from checks import ckpt_common as cc
from checks import mesh_common as mc
from checks import state_common as sc
from core import Sub, raises, require
from t5x import adafactor, checkpoints, optimizers as o, partitioning, state_utils
from t5x import train_state as ts
from t5x.contrib.moe import adafactor_utils, checkpoints as moe_checkpoints, partitioning as mp

BUDGET = (30, 900)
MESHES = [(2, 2, 2), (1, 4, 2), (4, 2, 1), (1, 8, 1), (8, 1, 1), (2, 1, 4)]
NAMES = ('data', 'expert', 'model')


def ada():
  return adafactor.Adafactor(0.1, logical_factor_rules=adafactor_utils.logical_factor_rules(), min_dim_size_to_factor=2)


OPTS = {'ada': ada, 'adamw': lambda: o.adamw(0.1), 'sgd': lambda: o.sgd(0.1), 'inference': None}


@st.composite
def case(draw):
  layers = []
  for i in range(draw(st.integers(1, 3))):
    layers.append(dict(up=draw(st.booleans()) if i else True, gated=draw(st.booleans()), bias=draw(st.booleans()), att=draw(st.booleans()), norm=draw(st.booleans()), f=draw(st.sampled_from([24, 32]))))
  return dict(layers=layers, prefix=draw(st.sampled_from([['encoder'], ['decoder', 'block'], []])), d=draw(st.sampled_from([8, 16])), emb=draw(st.booleans()),
              opt=draw(st.sampled_from(['ada', 'ada', 'adamw', 'sgd', 'inference'])), mesh=draw(st.integers(0, len(MESHES) - 1)), k=draw(st.sampled_from([1, 1, 2, 3])),
              saver=draw(st.sampled_from(['p1', 'p2', 'moe'])), save=draw(st.sampled_from(['float32', 'float32', 'bfloat16'])), restore=draw(st.sampled_from([None, None, 'float32', 'bfloat16'])),
              router=draw(st.booleans()), lazy=draw(st.sampled_from([False, False, True])), step=draw(st.integers(0, 10**6)), later=draw(st.booleans()),
              damage=draw(st.sampled_from([None] * 6 + ['width', 'shared'])), seed=draw(st.integers(0, 10**6)), specials=draw(st.booleans()))


def params(c, experts):
  """[(path, axes, shape, dense path or None for new ones)] of the dense (experts=0) or expert model."""
  out, d = [], c['d']
  if c['emb']:
    out.append((['token_embedder', 'embedding'], ['vocab', 'embed'], [40, d], 0))
  for i, l in enumerate(c['layers']):
    base = c['prefix'] + [f'layers_{i}']
    up = l['up'] and experts
    mod = base + (['expert'] if up else ['mlp'])
    e, ea, m = ([experts], ['expert'], 'expert_mlp') if up else ([], [], 'mlp')
    for w in (['wi_0', 'wi_1'] if l['gated'] else ['wi']):
      out.append((mod + [w, 'kernel'], ea + ['embed', m], e + [d, l['f']], up))
    out.append((mod + ['wo', 'kernel'], ea + [m, 'embed'], e + [l['f'], d], up))
    if l['bias'] and c['opt'] != 'ada':  # Adafactor keeps biases unfactored, which are not upcycled.
      out.append((mod + ['wi', 'bias'] if not l['gated'] else mod + ['wi_0', 'bias'], ea + [m], e + [l['f']], up))
    if l['att']:
      out.append((base + ['attention', 'query', 'kernel'], ['embed', 'joined_kv'], [d, 2 * d], 0))
    if l['norm']:
      out.append((base + ['pre_mlp_norm', 'scale'], ['embed'], [d], 0))
    if up and c['router']:
      out.append((base + ['router', 'router_weights', 'kernel'], ['embed', 'unmodeled'], [d, experts], 0))
  return out


def state(c, experts, r):
  ps = params(c, experts)
  v = flax.core.freeze({
      'params': sc.nest([(p, np.asarray(r.standard_normal(s), np.float32)) for p, _, s, _ in ps]),
      'params_axes': sc.nest([(p[:-1] + [p[-1] + '_axes'], flax_partitioning.AxisMetadata(names=tuple(a))) for p, a, _, _ in ps])})
  s = ts.InferenceState.create(v) if c['opt'] == 'inference' else ts.FlaxOptimTrainState.create(OPTS[c['opt']](), v)
  s = sc.fill(s.restore_state(jax.tree_util.tree_map(lambda x: np.asarray(x, np.int32) if isinstance(x, int) else np.asarray(x), s.state_dict())), r, c['specials'])
  return s.replace_step(np.int32(c['step']))


def moe(c):
  m = MESHES[c['mesh']]
  return mc.with_mesh(mp.MoePjitPartitioner, Mesh(np.array(jax.devices()[:8]).reshape(m), NAMES), num_expert_partitions=m[1], num_partitions=m[2], params_on_devices=not c['lazy'])


def names_shape(want, k):
  return want[k.replace('/expert/', '/mlp/')].shape


def flush(x):
  x = np.asarray(x)
  return np.where(np.abs(x.astype(np.float32)) < 1.2e-38, np.zeros((), x.dtype), x) if sc.jnp.issubdtype(x.dtype, sc.jnp.floating) else x


def upcycle(c, rec):
  r = np.random.default_rng(c['seed'])
  experts = MESHES[c['mesh']][1] * c['k']
  dense = state(c, 0, r)
  what = f'{experts} experts on {dict(zip(NAMES, MESHES[c["mesh"]]))}, {c["opt"]}, layers {c["layers"]}, saved as {c["save"]}, restored as {c["restore"]}'
  saver = moe(dict(c, lazy=False)) if c['saver'] == 'moe' else partitioning.PjitPartitioner(num_partitions=int(c['saver'][1]))
  with cc.Scratch() as d:
    ck = checkpoints.Checkpointer(cc.abstract(dense), saver, d, save_dtype=np.dtype(sc.jnp.dtype(c['save'])))
    if c['later']:
      other = state(c, 0, r).replace_step(np.int32(c['step'] + 5))
      ck.save(sc.place(other, saver))
    ck.save(sc.place(dense, saver))
    want = cc.expected(cc.snapshot(dense), c['save'], c['restore'])
    c2 = c
    if c['damage'] == 'width':
      c2 = dict(c, layers=[dict(l, f=56) if i == 0 else l for i, l in enumerate(c['layers'])])
    elif c['damage'] == 'shared':
      c2 = dict(c, emb=True, d=24)
    sparse = state(c2, experts, r)
    rules = [(r'(.*)expert(.*)', r'\1mlp\2')]
    router = c['router']
    kw = {}
    if router:
      rules.insert(0, (r'(.*)router(.*)', None))
      kw['fallback_state'] = sparse.state_dict()
    if not experts:
      rules = []
    fn = functools.partial(state_utils.apply_assignment_map, assignment_map=tuple(rules))
    out = []

    def go():
      up = moe_checkpoints.UpcycleCheckpointer(cc.abstract(sparse), moe(c), d, num_experts=experts, restore_dtype=None if c['restore'] is None else sc.jnp.dtype(c['restore']))
      got = up.restore(step=c['step'], state_transformation_fns=(fn,), lazy_parameters=c['lazy'], **kw)
      out.append(cc.get_lazy(sc.flat(got.state_dict())))

    err = raises(go, Exception)
    if c['damage']:
      if c['damage'] == 'shared' and not c['emb']:
        require(err is not None, lambda: f'{what}: a model with other parameters was accepted')
      else:
        require(isinstance(err, ValueError), lambda: f'{what}: a model of other widths gave {err!r}')
      rec.label('refused')
      return
    require(err is None, lambda: f'{what}: {err!r}')
    got = out[0]
    names = sc.flat(sparse.state_dict())
    require(set(got) == set(names), lambda: f'{what}: entries {sorted(set(got) ^ set(names))[:6]} differ from the model\'s')
    n = slots = 0
    for k, x in got.items():
      if not sc.is_array(names[k]):
        continue
      if 'router' in k:
        require(sc.same(np.asarray(x), np.asarray(names[k])), lambda: f'{what}: {k} must keep its fresh value')  # pylint: disable=cell-var-from-loop
        continue
      w = want[k.replace('/expert/', '/mlp/')]
      full = tuple(names[k].shape)
      if full != w.shape:
        require(full == (experts,) + w.shape, lambda: f'{k}: {full} from {w.shape}')  # pylint: disable=cell-var-from-loop
        w = np.broadcast_to(w, full)
        n += 1
        slots += k.startswith('state/')
      x = np.asarray(x)
      if full != names_shape(want, k):  # Resharded by a compiled program, which may flush denormals and signs of zero.
        x, w = flush(x), flush(w)
      require(x.shape == full, lambda: f'{what}: {k} has shape {x.shape}, the model wants {full}')  # pylint: disable=cell-var-from-loop
      require(sc.same(x, w), lambda: f'{what}: {k} ({x.dtype}) is {x.reshape(-1)[:5]}, in the checkpoint {w.dtype} {w.reshape(-1)[:5]}; experts equal: {[bool(sc.same(x[0], x[i])) for i in range(len(x))] if x.ndim and n else None}')  # pylint: disable=cell-var-from-loop
    require(int(got['state/step']) == c['step'], lambda: f'{what}: step {got["state/step"]}, saved {c["step"]}')
    # The loaded state trains under its own partitioning: shards are as the partitioner says.
    if not c['lazy']:
      spec = sc.flat(moe(c).get_mesh_axes(sparse).state_dict())
      for k, x in got.items():
        if sc.is_array(names[k]) and spec.get(k) is not None and tuple(spec[k])[:1] == ('expert',) and hasattr(x, 'addressable_shards'):
          require(x.addressable_shards[0].data.shape[0] * MESHES[c['mesh']][1] == experts, lambda: f'{what}: {k} is not split over the experts')  # pylint: disable=cell-var-from-loop
    rec.nontrivial(n > 0 and experts > 1)
    rec.label('optimizer slots copied', slots > 0)


SUBS = [Sub('upcycle', upcycle, strategy=case(), quick=120, thorough=6000, weight=1.0)]
