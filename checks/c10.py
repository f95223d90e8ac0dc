"""C10: the checkpoint manager chooses, keeps and restores the right checkpoint."""
import functools
import os

import flax
import flax.linen.partitioning as flax_partitioning
import hypothesis.strategies as st
import jax
import jax.numpy as jnp
import numpy as np
from flax import traverse_util
import tensorflow as tf

from checks import ckpt_common as cc
from checks import state_common as sc
from checks.c03 import METRICS, metric_value, write_metric
from core import Sub, raises, require
from t5x import checkpoints, optimizers, utils

BUDGET = (40, 1200)
STEPS = st.one_of(st.integers(0, 12), st.integers(95, 105), st.sampled_from([1000, 10**6]))

# --- Choosing a source -------------------------------------------------------------


@st.composite
def choose_case(draw):
  dirs = draw(st.lists(st.fixed_dictionaries(dict(kind=st.sampled_from(['steps', 'steps', 'steps', 'empty', 'missing', 'junk', 'tf', 'file']), steps=st.lists(STEPS, min_size=1, max_size=4, unique=True), junk=st.booleans())), min_size=1, max_size=4))
  n = len(dirs)
  cfgs = draw(st.lists(st.fixed_dictionaries(dict(mode=st.sampled_from(['latest', 'latest', 'all', 'specific']), dirs=st.lists(st.integers(0, n - 1), min_size=1, max_size=3), form=st.sampled_from(['str', 'list', 'tuple']), step=STEPS)), max_size=4))
  return dict(dirs=dirs, cfgs=cfgs)


def touch(path, text='x'):
  os.makedirs(os.path.dirname(path), exist_ok=True)
  with open(path, 'w') as f:
    f.write(text)


def tree(d):
  return sorted(os.path.join(a, f) for a, ds, fs in os.walk(d) for f in ds + fs)


def choose(c, rec):
  with cc.Scratch() as root:
    paths, found = [], []
    for i, x in enumerate(c['dirs']):
      d = os.path.join(root, f'dir{i}')
      paths.append(d)
      found.append([])
      if x['kind'] == 'missing':
        continue
      if x['kind'] == 'file':
        touch(d)
        continue
      os.makedirs(d)
      if x['kind'] == 'junk' or x['junk']:
        os.makedirs(os.path.join(d, 'checkpoint_77.tmp-1'))
        os.makedirs(os.path.join(d, 'checkpoint_78.orbax-checkpoint-tmp-1'))
        touch(os.path.join(d, 'notes_9'))
      if x['kind'] == 'steps':
        for s in x['steps']:
          touch(os.path.join(d, f'checkpoint_{s}', 'checkpoint'))
        found[-1] = [os.path.join(d, f'checkpoint_{s}') for s in sorted(x['steps'])]
      if x['kind'] == 'tf':
        found[-1] = [os.path.join(d, f'model.ckpt-{s}') for s in x['steps']]
        tf.compat.v1.train.update_checkpoint_state(d, found[-1][-1], found[-1])
    before = tree(root)
    cfgs, want = [], None
    bad = False
    for x in c['cfgs']:
      ps = [paths[i] for i in x['dirs']]
      if x['mode'] == 'specific':
        ps = [os.path.join(p, f'checkpoint_{x["step"]}') for p in ps]
      if x['form'] == 'str':
        ps = ps[:1]
      cfg = utils.RestoreCheckpointConfig(path=ps[0] if x['form'] == 'str' else ps if x['form'] == 'list' else tuple(ps), mode=x['mode'])
      cfgs.append(cfg)
      if want is not None or bad:
        continue
      if x['mode'] == 'specific':
        want = (cfg, ps)
        continue
      for p in ps:
        i = paths.index(p)
        if c['dirs'][i]['kind'] in ('missing', 'file'):
          bad = True
          break
        if found[i]:
          want = (cfg, found[i] if x['mode'] == 'all' else found[i][-1:])
          break
    got = []
    e = raises(lambda: got.append(utils.get_first_valid_restore_config_and_paths(cfgs)), Exception)
    what = f'sources {[(x["mode"], x["dirs"]) for x in c["cfgs"]]} over {[(x["kind"], x["steps"]) for x in c["dirs"]]}'
    if bad:
      require(isinstance(e, ValueError), lambda: f'{what}: a path that is no directory gave {e!r} {got}')
    else:
      require(e is None, lambda: f'{what}: {e!r}')
      cfg, ps = got[0]
      w = want or (None, [])
      require(cfg is w[0] and list(ps) == list(w[1]), lambda: f'{what}: chose {None if cfg is None else cfgs.index(cfg)} {ps}, the first source with a checkpoint is {None if w[0] is None else cfgs.index(w[0])} {w[1]}')
    require(tree(root) == before, f'{what}: choosing a source changed the directories')
    rec.nontrivial(want is not None and cfgs and want[0] is not cfgs[0] or sum(map(bool, found)) > 1)
    rec.label('nothing found', want is None and not bad)


# --- Restoring what was chosen -----------------------------------------------------------


class Model:
  """Two weights, or three when the model has grown since the checkpoint."""

  def __init__(self, grown=False, rename=False):
    self.grown, self.rename = grown, rename

  def get_initial_variables(self, rng, input_shapes, input_types=None):
    a, b, k = jax.random.split(rng, 3)
    p = {('dense' if self.rename else 'mlp'): {'kernel': jax.random.normal(a, (8, 4))}, 'twin': {'kernel': jax.random.normal(a, (8, 4))}, 'out': {'kernel': jax.random.normal(b, (4, 2))}}
    x = {k_: {'kernel_axes': flax_partitioning.AxisMetadata(names=('embed', 'mlp') if k_ != 'out' else ('mlp', 'unmodeled'))} for k_ in p}
    if self.grown:
      p['extra'] = {'kernel': jax.random.normal(k, (4,))}
      x['extra'] = {'kernel_axes': flax_partitioning.AxisMetadata(names=('embed',))}
    return flax.core.freeze({'params': p, 'params_axes': x})


OPTS = {'none': lambda: None, 'sgd': lambda: optimizers.sgd(0.1, momentum=0.9), 'adamw': lambda: optimizers.adamw(0.1)}


def initializer(c, part, **kw):
  return utils.TrainStateInitializer(optimizer_def=OPTS[c['opt']](), init_fn=Model(**kw).get_initial_variables, input_shapes={'x': (2, 4)}, partitioner=part)


@st.composite
def load_case(draw):
  loader = draw(st.sampled_from(['from_checkpoints', 'from_checkpoint', 'from_checkpoint_or_scratch', 'legacy', 'orbax', 'orbax', 'orbax']))
  dirs = []
  for _ in range(draw(st.integers(1, 3))):
    dirs.append(dict(steps=draw(st.lists(STEPS, min_size=0, max_size=3, unique=True)), fmt=draw(st.sampled_from(['classic', 'orbax'])) if loader == 'orbax' else 'classic', busy=draw(st.booleans())))
  cfgs = []
  for _ in range(draw(st.integers(1, 3))):
    cfgs.append(dict(mode=draw(st.sampled_from(['latest', 'latest', 'specific', 'all'])), dirs=draw(st.lists(st.integers(0, len(dirs) - 1), min_size=1, max_size=2)), form=draw(st.sampled_from(['str', 'list'])), pick=draw(st.integers(0, 5)), dtype=draw(st.sampled_from([None, None, 'float32', 'bfloat16'])),
                     grown=False))
  return dict(loader=loader, dirs=dirs, cfgs=cfgs, opt=draw(st.sampled_from(sorted(OPTS))), save=draw(st.sampled_from(['float32', 'float32', 'bfloat16'])), change=draw(st.sampled_from([None, None, 'grown', 'rename', 'both', 'swap'])), drop_state=draw(st.booleans()),
              keep_dir=draw(st.sampled_from([False, False, True])), rng=draw(st.integers(0, 1000)))


def own(name):
  return ('mlp', 'twin', 'out').index(next(n for n in ('mlp', 'twin', 'out') if f'/{n}/' in name)) + 3 * ('/nu/' in name or name.startswith('state/') and '/mu/' not in name) + 3 * ('/mu/' in name)


def stamp(state, value, step):
  """Weights and slots that name the directory, the step and themselves."""
  d = sc.flat(state.state_dict())
  d = {k: np.full(x.shape, value + own(k), x.dtype) if np.ndim(x) else np.asarray(x) for k, x in d.items()}
  d = traverse_util.unflatten_dict({tuple(k.split('/')): x for k, x in d.items()})
  return state.restore_state(d).replace_step(np.int32(step))


def place(state, part):
  return sc.place(state, part)


def files(root):
  """Every file below the root with size and time of its last change."""
  return {p: (os.stat(p).st_size, os.stat(p).st_mtime_ns) if os.path.isfile(p) else 'dir' for p in tree(root)}


def load(c, rec):
  part = sc.make_partitioner(1)
  saver = initializer(c, part)
  base = saver.from_scratch(jax.random.PRNGKey(1))
  with cc.Scratch() as root:
    paths, value = [], {}
    for i, x in enumerate(c['dirs']):
      d = os.path.join(root, f'd{i}')
      os.makedirs(d)
      paths.append(d)
      for j, s in enumerate(sorted(x['steps'])):
        v = (i * 3 + j + 1) * 8
        value[checkpoints.get_checkpoint_dir(d, s)] = (v, s)
        state = stamp(base, v, s)
        if x['fmt'] == 'classic':
          checkpoints.Checkpointer(cc.abstract(base), part, d, save_dtype=jnp.dtype(c['save'])).save(place(state, part))
        else:
          m = checkpoints.OrbaxCheckpointManagerInterface(d, cc.abstract(base), part, save_dtype=c['save'])
          m.save(place(state, part))
          m.wait_until_finished()
          m.close()
      if x['busy']:  # Another process is saving here.
        os.makedirs(os.path.join(d, 'checkpoint_2000000.tmp-1700000000'))
        os.makedirs(os.path.join(d, 'checkpoint_2000001.orbax-checkpoint-tmp-1700000000', 'state.orbax-checkpoint-tmp-1700000001'))
    change = c['change']
    kw = dict(grown=change in ('grown', 'both'), rename=change in ('rename', 'both'))
    rules = ([(r'(.*)extra(.*)', None)] if kw['grown'] else []) + ([(r'(.*)dense(.*)', r'\1mlp\2')] if kw['rename'] else [])
    if change == 'swap':
      rules = [(r'(.*)/mlp/(.*)', r'\1/twin/\2'), (r'(.*)/twin/(.*)', r'\1/mlp/\2')]
    back = {'swap': {'mlp': 'twin', 'twin': 'mlp'}, 'rename': {'dense': 'mlp'}, 'both': {'dense': 'mlp'}}.get(change, {})
    source = lambda k: '/'.join(back.get(n, n) for n in k.split('/'))
    cfgs, want = [], None
    for x in c['cfgs']:
      ps = [paths[i] for i in x['dirs']]
      if x['form'] == 'str':
        ps = ps[:1]
      if x['mode'] == 'specific':
        some = [checkpoints.get_checkpoint_dir(paths[i], s) for i in x['dirs'] for s in c['dirs'][i]['steps']]
        if not some:
          continue
        ps = [some[x['pick'] % len(some)]]
      cfg = utils.RestoreCheckpointConfig(path=ps[0] if x['form'] == 'str' else ps, mode=x['mode'], dtype=x['dtype'], assignment_map=rules or None, fallback_to_scratch=kw['grown'])
      cfgs.append(cfg)
      if want is None:
        if x['mode'] == 'specific':
          want = (cfg, ps)
        for p in ps if want is None else []:
          have = [checkpoints.get_checkpoint_dir(p, s) for s in sorted(c['dirs'][paths.index(p)]['steps'])]
          if have:
            want = (cfg, have if x['mode'] == 'all' else have[-1:])
            break
    init = initializer(c, part, **kw)
    rng = jax.random.PRNGKey(c['rng'])
    before = files(root)
    what = f'{c["loader"]} of {[(x["mode"], x["dirs"], x["dtype"]) for x in c["cfgs"]]} over {[(x["fmt"], sorted(x["steps"])) for x in c["dirs"]]} saved as {c["save"]}, model change {change}, {c["opt"]}'
    got, err = [], None
    many = want is not None and len(want[1]) > 1

    def go():
      if c['loader'] == 'from_checkpoints':
        got.extend(init.from_checkpoints(cfgs, init_rng=rng))
      elif c['loader'] == 'from_checkpoint':
        s = init.from_checkpoint(cfgs, init_rng=rng)
        got.extend([] if s is None else [(s, None)])
      elif c['loader'] == 'from_checkpoint_or_scratch':
        got.append((init.from_checkpoint_or_scratch(cfgs, init_rng=rng), None))
      else:
        cfg, ps = utils.get_first_valid_restore_config_and_paths(cfgs)
        # As training and evaluation do; without a source no manager is opened for restoring.
        require(cfg is not None or not ps, lambda: f'{what}: {ps} without a source')
        for p in ps:
          s, m = utils.create_checkpoint_manager_and_restore(init, part, cfg, p, rng, model_dir=root if c['keep_dir'] else None, use_orbax=c['loader'] == 'orbax')
          m.close()
          got.append((s, p))

    err = raises(go, Exception)
    if many and c['loader'] in ('from_checkpoint', 'from_checkpoint_or_scratch'):
      require(isinstance(err, ValueError), lambda: f'{what}: several checkpoints where one is expected gave {err!r}')
      rec.label('refused')
      return
    require(err is None, lambda: f'{what}: {err!r}')
    scratch = init.from_scratch(rng)
    if want is None and c['loader'] == 'from_checkpoint_or_scratch':
      require(len(got) == 1, what)
      cc.compare(cc.snapshot(got[0][0]), cc.snapshot(scratch), f'{what}: from scratch')
    else:
      ps = want[1] if want else []
      require(len(got) == len(ps) and [p for _, p in got if p] == (list(ps) if got and got[0][1] else []), lambda: f'{what}: restored {[p for _, p in got]}, expected {ps}')
      fresh = sc.flat(scratch.state_dict())
      for (s, _), p in zip(got, ps):
        v, step = value[p]
        d = sc.flat(s.state_dict())
        require(set(d) == set(fresh), lambda: f'{what}: entries {sorted(set(d) ^ set(fresh))[:5]}')  # pylint: disable=cell-var-from-loop
        for k, x in d.items():
          if not sc.is_array(x):
            continue
          x = np.asarray(x)
          if k == 'state/step':
            require(int(x) == step, lambda: f'{what}: {p} restored as step {x}')  # pylint: disable=cell-var-from-loop
          elif 'extra' in k and x.ndim:
            # Classic and Orbax checkpoints differ in whether fresh values are cast.
            require(np.allclose(x.astype(np.float32), np.asarray(fresh[k], np.float32), rtol=1e-2), lambda: f'{what}: {k} must come from scratch')  # pylint: disable=cell-var-from-loop
          elif x.ndim:
            dt = want[0].dtype or c['save'] if k.startswith('target/') else fresh[k].dtype
            require(x.shape == fresh[k].shape and x.dtype == jnp.dtype(dt) and bool((x.astype(np.float32) == v + own(source(k))).all()), lambda: f'{what}: {k} of {p} is {x.dtype} {x.reshape(-1)[:3]}, saved {v + own(source(k))} to be read as {dt}')  # pylint: disable=cell-var-from-loop
    after = files(root)
    changed = sorted(set(before) ^ set(after)) + [k for k in before if k in after and before[k] != after[k]]
    require(not changed, lambda: f'{what}: restoring changed {[os.path.relpath(x, root) for x in changed[:4]]}')
    rec.nontrivial(want is not None and (len(value) > 1 or change is not None))
    rec.label('through Orbax', c['loader'] == 'orbax')
    rec.label('a save in progress nearby', any(x['busy'] for x in c['dirs']) and want is not None)


# --- What an Orbax manager keeps --------------------------------------------------------------


@st.composite
def manager_case(draw):
  ops, step = [], draw(st.integers(0, 3))
  best = draw(st.booleans())
  for _ in range(draw(st.sampled_from([3, 5, 7, 10]))):
    k = draw(st.sampled_from(['save'] * 9 + ['auto', 'auto', 'restart', 'restore', 'restore'] + (['metrics'] * 6 if best else [])))
    if k in ('save', 'auto'):
      ops.append([k, step])
      step += draw(st.sampled_from([1, 1, 2, 3, 5]))
    elif k == 'metrics':
      ops.append([k, [[draw(st.integers(0, 3)), draw(metric_value)] for _ in range(draw(st.integers(1, 3)))]])
    else:
      ops.append([k, draw(st.integers(0, 5))])
  c = dict(ops=ops, keep=draw(st.sampled_from([1, 2, 3, None])), period=draw(st.sampled_from([1, 2, 3, 5])), how=None)
  if best:
    c.update(how=draw(st.sampled_from(['class', 'partial', 'direct'])), metric=draw(st.sampled_from(METRICS)), mode=draw(st.sampled_from(['max', 'min'])), without=draw(st.booleans()), force=draw(st.sampled_from([None, None, 2, 3])))
    if c['how'] == 'class':
      c.update(metric='train/accuracy', mode='max', without=True, force=None)
  return c


SPEC = dict(params=[dict(path=['w'], shape=[2], axes=['embed'], dtype='float32')], opt='inference', mut=[], mut_name='x', seed=0)


def manager(c, rec):
  part = sc.make_partitioner(1)
  base = sc.make_state(SPEC)
  with cc.Scratch() as d:
    extra = {}
    cls = checkpoints.Checkpointer
    if c['how']:
      extra = dict(metric_name_to_monitor=c['metric'], metric_mode=c['mode'], keep_checkpoints_without_metrics=c['without'], force_keep_period=c['force'])
      cls = checkpoints.SaveBestCheckpointer if c['how'] == 'class' else functools.partial(checkpoints.SaveBestCheckpointer, **extra)

    def new():
      if c['how'] == 'direct':
        return checkpoints.OrbaxCheckpointManagerInterface(d, cc.abstract(base), part, keep=c['keep'], period=c['period'], **extra)
      return utils.create_orbax_checkpoint_manager(save_cfg=utils.SaveCheckpointConfig(keep=c['keep'], period=c['period'], checkpointer_cls=cls), train_state=cc.abstract(base), partitioner=part, model_dir=d)

    m = new()
    kept, metrics, content, removed = set(), {}, {}, 0
    for i, (k, x) in enumerate(c['ops']):
      what = f'after {c["ops"][:i + 1]}, keep {c["keep"]} period {c["period"]} {extra}'
      known = sorted(kept)
      if k in ('save', 'auto'):
        if x in kept:
          continue
        due = not kept or x % c['period'] == 0
        require(m.should_save(x) == due, lambda: f'{what}: should_save({x}) is {m.should_save(x)}')  # pylint: disable=cell-var-from-loop
        s = base.replace_params({'w': np.float32([i, x])}).replace_step(np.int32(x))
        saved = m.save(sc.place(s, part), force=k == 'save')
        m.wait_until_finished()
        require(bool(saved) == (k == 'save' or due), lambda: f'{what}: saved {saved}')  # pylint: disable=cell-var-from-loop
        if not saved:
          got = set(m.all_steps())
          require(got == kept, lambda: f'{what}: kept {sorted(got)}, before {known}')  # pylint: disable=cell-var-from-loop
          continue
        content[x] = float(i)
        now = kept | {x}
        got = set(m.all_steps())
        require(got <= now and x in got, lambda: f'{what}: kept {sorted(got)} after saving {x} next to {known}')  # pylint: disable=cell-var-from-loop
        keep = c['keep']
        if keep is None:
          require(got == now, lambda: f'{what}: kept {sorted(got)} of {sorted(now)}')  # pylint: disable=cell-var-from-loop
        elif not c['how']:
          want = set(sorted(now)[-keep:])
          require(got == want, lambda: f'{what}: kept {sorted(got)}, the newest {keep} of {sorted(now)} are {sorted(want)}')  # pylint: disable=cell-var-from-loop
        else:
          sign = 1 if c['mode'] == 'max' else -1
          have = {s_: sign * metrics[s_] for s_ in now if s_ in metrics}
          lack = now - set(have)
          forced = {s_ for s_ in now if c['force'] and s_ % c['force'] == 0}
          for s_ in now - got:
            require(s_ not in forced, lambda: f'{what}: {s_} deleted although at the forced period')  # pylint: disable=cell-var-from-loop
            if s_ in have:
              better = sum(have[o] >= have[s_] for o in got if o in have)
              require(better >= keep, lambda: f'{what}: {s_} deleted, only {better} as good are left in {sorted(got)} ({metrics})')  # pylint: disable=cell-var-from-loop
            else:
              require(not c['without'], lambda: f'{what}: {s_} deleted although it has no metric')  # pylint: disable=cell-var-from-loop
              require(len(got) >= keep, lambda: f'{what}: {s_} deleted, {sorted(got)} left')  # pylint: disable=cell-var-from-loop
          plain = got - forced - {x} - (lack if c['without'] else set())
          require(len(plain) <= keep, lambda: f'{what}: kept {sorted(got)} of {sorted(now)}, metrics {metrics}')  # pylint: disable=cell-var-from-loop
          removed += len(now - got) if have else 0
        removed += len(now - got) if not c['how'] else 0
        kept = got
        on_disk = {int(f.split('_')[1]) for f in os.listdir(d) if f.startswith('checkpoint_')}
        require(on_disk == kept, lambda: f'{what}: on disk {sorted(on_disk)}, listed {sorted(kept)}')  # pylint: disable=cell-var-from-loop
      elif k == 'restart':
        m.close()
        m = new()
      elif k == 'metrics' and known:
        for j, v in x:
          t = known[-1 - j % len(known)]
          write_metric(d, c['metric'], t, v)
          metrics[t] = float(np.float32(v))
      elif k == 'restore':
        if not known:
          require(isinstance(raises(m.restore, Exception), ValueError), lambda: f'{what}: restoring from an empty directory')  # pylint: disable=cell-var-from-loop
          continue
        t = known[x % len(known)]
        r = m.restore() if x % 3 == 0 else m.restore(step=t) if x % 3 == 1 else m.restore(path=checkpoints.get_checkpoint_dir(d, t))
        t = known[-1] if x % 3 == 0 else t
        require(int(np.asarray(r.step)) == t and np.asarray(r.params['w']).tolist() == [content[t], float(t)], lambda: f'{what}: restored {r.step} {r.params}, asked for {t}')  # pylint: disable=cell-var-from-loop
      require(set(m.all_steps()) == kept and m.latest_step() == (max(kept) if kept else None), lambda: f'{what}: lists {m.all_steps()}, latest {m.latest_step()}, kept {sorted(kept)}')  # pylint: disable=cell-var-from-loop
    m.close()
    if kept:
      r = checkpoints.OrbaxCheckpointManagerInterface(d, cc.abstract(base), part)
      s = r.restore()
      r.close()
      require(int(np.asarray(s.step)) == max(kept) and np.asarray(s.params['w']).tolist() == [content[max(kept)], float(max(kept))], 'the newest checkpoint is not what was saved')
    rec.nontrivial(removed > 0)
    rec.label('ranked', bool(c['how']) and removed > 0)


# --- Configuration -----------------------------------------------------------------------------

SUBS = [Sub('choose', choose, strategy=choose_case(), quick=600, thorough=30000, weight=1),
        Sub('load', load, strategy=load_case(), quick=120, thorough=6000, weight=3),
        Sub('manager', manager, strategy=manager_case(), quick=80, thorough=4000, weight=3)]
