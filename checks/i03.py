"""I03: offline evaluation visits every requested checkpoint once, in step order, and resumes where it stopped."""
import functools
import os
import re
import shutil
import tempfile

import flax
import hypothesis.strategies as st
import jax.numpy as jnp
import numpy as np
import seqio
import tensorflow as tf

from checks import faults, infer_common as ic
from core import Sub, require
from t5x import checkpoints, eval as eval_lib, train_state as ts, utils

BUDGET = (40, 1500)
TASK = 'verif_eval'
RESULTS = []   # (step, metrics) as a logger receives them


def weight(step):
  return 2.0 + step % 97


class Model(ic.Model):

  def get_initial_variables(self, rng, input_shapes, input_types=None):
    return variables(-1.0)

  def _tokens(self, params, batch):
    return super()._tokens({'w': params['token_embedder']['embedding']}, batch)

  def score_batch(self, params, batch):
    return super().score_batch({'w': params['token_embedder']['embedding']}, batch)


def variables(w):
  return {'params': {'token_embedder': {'embedding': jnp.full((), w)}}, 'params_axes': {'token_embedder': {'embedding_axes': flax.linen.partitioning.AxisMetadata(names=())}}}


class Recorder(seqio.Logger):

  def __call__(self, task_name, step, metrics, dataset, inferences, targets):
    RESULTS.append((step, {k: v.value if hasattr(v, 'value') else v for k, v in metrics.items()}))


def metric_predict(targets, predictions):
  return {'sum': float(np.sum(np.asarray(predictions, np.int64))), 'n': len(predictions)}


def metric_score(targets, scores):
  return {'score': float(np.sum(np.asarray(scores[0] if isinstance(scores, tuple) else scores, np.float64)))}


@functools.lru_cache(None)
def register():
  ic.task(5, 1)
  base = seqio.TaskRegistry.get(ic.task(5, 1))
  seqio.TaskRegistry.add(TASK, source=base.source, preprocessors=[ic.drop_ragged], output_features=base.output_features, postprocess_fn=None,
                         metric_fns=[metric_predict, metric_score])


def expected_metrics(step):
  x = [ic.example(1, i) for i in range(5)]
  w = weight(step)
  pred = sum((int(a * w) + sum(y)) % 1000 for xs, y, _ in x for a in xs + [0] * (ic.LENGTHS['inputs'] - len(xs)))
  return dict(sum=float(pred), n=5, score=sum(sum(xs) * w + sum(y) * 0.25 for xs, y, _ in x))


class Done:

  def __init__(self, v):
    self.v = v

  def result(self):
    return self.v


class Stub:
  """Stands for seqio.Evaluator: scores one batch and writes down what it saw."""

  def __init__(self, log, kill, **kw):
    self.log, self.kill = log, kill
    self.eval_tasks = [seqio.TaskRegistry.get(TASK)]
    self.model_feature_shapes = {'encoder_input_tokens': (4,), 'decoder_target_tokens': (3,)}

  def evaluate(self, *, compute_metrics, step, predict_fn, score_fn, predict_with_aux_fn):
    if self.kill and self.kill[0] == len(self.log) and self.kill[1] == 'before':
      raise faults.Crash()
    x = tf.data.Dataset.from_tensor_slices({'encoder_input_tokens': np.array([[1, 2, 3, 4]], np.int32), 'decoder_target_tokens': np.array([[0, 0, 0]], np.int32)}).enumerate()
    self.log.append((step, float(np.asarray(score_fn(x)[0][1] if isinstance(score_fn(x)[0], tuple) else score_fn(x)[0])) / 10))
    if self.kill and self.kill[0] == len(self.log) - 1 and self.kill[1] == 'after':
      raise faults.Crash()
    return Done({}), None

  def close(self):
    pass


def init():
  return utils.TrainStateInitializer(optimizer_def=None, init_fn=Model().get_initial_variables, input_shapes={}, partitioner=ic.partitioner())


def save(d, step, kind):
  if kind == 'tf':
    tf.raw_ops.SaveV2(prefix=os.path.join(d, f'model.ckpt-{step}'), tensor_names=['global_step', 'shared/embedding'], shape_and_slices=['', ''],
                      tensors=[tf.constant(step, tf.int64), tf.constant(weight(step))])
    return
  state = ts.InferenceState.create(flax.core.freeze(variables(weight(step)))).replace(step=np.int32(step))
  if kind == 'orbax':
    m = checkpoints.OrbaxCheckpointManagerInterface(d, init().global_train_state_shape, ic.partitioner())
    m.save(state)
    m.wait_until_finished()
    m.close()
  else:
    checkpoints.Checkpointer(init().global_train_state_shape, ic.partitioner(), d).save(state)


@functools.lru_cache(None)
def stored(step, kind):
  d = tempfile.mkdtemp(prefix='i03-ckpt-')
  save(d, step, kind)
  return d


def name(step, kind):
  return f'model.ckpt-{step}' if kind == 'tf' else f'checkpoint_{step}'


def put(d, step, kind):
  shutil.copytree(stored(step, kind), d, dirs_exist_ok=True, ignore=lambda p, names: [n for n in names if p == stored(step, kind) and not n.startswith(name(step, kind))])


def drop(d, step, kind):
  if kind == 'tf':
    for f in os.listdir(d):
      if f.startswith(f'model.ckpt-{step}.'):
        os.remove(os.path.join(d, f))
  else:
    shutil.rmtree(os.path.join(d, name(step, kind)))


def announce(d, present, kind):
  """What a TensorFlow Saver leaves next to its checkpoints."""
  if kind == 'tf':
    paths = [os.path.join(d, name(s, kind)) for s in sorted(present)]
    tf.compat.v1.train.update_checkpoint_state(d, paths[-1], paths)


def call(path, mode, out, log, use_orbax, kill=None, evaluator=None):
  register()
  eval_lib.evaluate(
      model=Model(), dataset_cfg=utils.DatasetConfig(mixture_or_task_name=TASK, task_feature_lengths=ic.LENGTHS, split='test', batch_size=2, shuffle=False, seed=0, use_cached=False, pack=False),
      restore_checkpoint_cfg=utils.RestoreCheckpointConfig(path=path, mode=mode), partitioner=ic.partitioner(), output_dir=out,
      inference_evaluator_cls=evaluator or functools.partial(Stub, log, kill), summarize_config_fn=lambda **k: None, use_orbax=use_orbax)


NOISE = ['checkpoint_5.tmp-12', 'tmp_7', 'other', 'checkpoint_x']


def history(c, rec):
  top = tempfile.mkdtemp(prefix='i03-')
  try:
    d, out = os.path.join(top, c['dir']), os.path.join(top, 'out put' if c['space'] else 'out')
    os.makedirs(d)
    os.makedirs(out)
    for n in NOISE[:c['noise']]:
      os.makedirs(os.path.join(d, n))
    present, done, told, skipped = [], set(), [], False
    for r in c['runs']:
      for s in r['new']:
        if s not in present:
          present.append(s)
          put(d, s, c['kind'])
      for k in r['gone']:
        if len(present) > 1:
          s = present.pop(k % len(present))
          drop(d, s, c['kind'])
      announce(d, present, c['kind'])
      log = []
      want = sorted(present)
      path = d + '/' * c['slash']
      if r['mode'] == 'all':
        want = [s for s in want if s not in done]
        skipped = skipped or len(want) < len(present)
      elif r['mode'] == 'latest':
        want = want[-1:]
      else:
        want = [present[k % len(present)] for k in r['pick']] if present else []
        path = [os.path.join(d, name(s, c['kind'])) for s in want]
        if r['str'] and len(path) == 1:
          path = path[0]
      if not want and r['mode'] == 'specific':
        continue
      if r['list'] and isinstance(path, str):
        path = [path]
      what = f'{told} then {r["mode"]} over {sorted(present)}'
      kill, at = None, None
      if r['kill'] and r['kill'][0] == 'evaluation':
        kill = (r['kill'][1], r['kill'][2])
      elif r['kill']:
        at = r['kill'][1]
      died = None
      before = os.path.exists(os.path.join(out, f'eval.{TASK}.ckpt'))
      with faults.Faults(out, at=at, phase=r['kill'][2] if r['kill'] else 'before') as f:
        try:
          call(path, r['mode'], out, log, c['use_orbax'], kill)
        except faults.Crash:
          died = f.fired or f'evaluation {kill}'
        except Exception as e:  # pylint: disable=broad-except
          require(False, lambda: f'{what}: {type(e).__name__}: {e}')
      del before
      told.append(f'{r["mode"]}{sorted(present)} ' + (f'killed at {died}' if died else 'finished'))
      rec.label('killed at: ' + str(died).split(' ')[0], died is not None)
      steps = [s for s, _ in log]
      require(steps == want[:len(steps)], lambda: f'{what}: evaluated {steps}, expected {want} in this order (evaluated before: {sorted(done)})')
      for s, w in log:
        require(abs(w - weight(s)) < 1e-3, lambda: f'{what}: the result for step {s} is of other weights ({w}, not {weight(s)})')
      if died:
        # The evaluation during which the process died may or may not count.
        done.update(steps[:-1])
        if steps:
          last = steps[-1]
          names = recorded(out)
          if last in names:
            done.add(last)
      else:
        require(steps == want, lambda: f'{what}: evaluated {steps}, expected {want}')
        done.update(steps)
      names = recorded(out)
      require(names == done, lambda: f'{what}: {told[-1]}: the list of evaluated checkpoints has {sorted(names)}, evaluated were {sorted(done)}')
    rec.nontrivial(skipped and len(present) > 1)
    rec.label('skips evaluated checkpoints', skipped)
  finally:
    shutil.rmtree(top, ignore_errors=True)


def recorded(out):
  p = os.path.join(out, f'eval.{TASK}.ckpt')
  if not os.path.exists(p):
    return set()
  with open(p) as f:
    return {int(re.search(r'[-_](\d+)/?$', l)[1]) for l in f.read().split('\n') if l}


def results(c, rec):
  """With seqio's own evaluator: the logged metrics are those of the checkpoint's weights, under its step."""
  top = tempfile.mkdtemp(prefix='i03-')
  try:
    d, out = os.path.join(top, 'ckpts'), os.path.join(top, 'out')
    os.makedirs(out)
    for s in c['steps']:
      put(d, s, c['kind'])
    announce(d, c['steps'], c['kind'])
    RESULTS.clear()
    call(d, 'all', out, None, c['use_orbax'], evaluator=recording_evaluator)
    want = sorted(c['steps'])
    require([s for s, _ in RESULTS] == want, lambda: f'results for steps {[s for s, _ in RESULTS]}, expected {want}')
    for s, m in RESULTS:
      e = expected_metrics(s)
      for k in e:
        require(abs(m[k] - e[k]) <= 1e-4 * (1 + abs(e[k])), lambda: f'step {s}: {k} is {m[k]}, with that checkpoint\'s weights it is {e[k]}')
    rec.nontrivial(len(want) > 1)
  finally:
    shutil.rmtree(top, ignore_errors=True)


def directories(c, rec):
  """Resumed with further directories, what is left of all of them is evaluated in the order of the steps."""
  top = tempfile.mkdtemp(prefix='i03-')
  try:
    out = os.path.join(top, 'out')
    os.makedirs(out)
    dirs = []
    for i, n in enumerate(c['names']):
      d = os.path.join(top, n)
      steps = [s for s, w in zip(c['steps'], c['where']) if w % len(c['names']) == i]
      os.makedirs(d)
      for s in steps:
        put(d, s, 't5x')
      dirs.append((d, steps))
    first = [(d, s) for d, s in dirs if s][:1]
    log = []
    call([d for d, _ in first] if c['list'] else first[0][0], 'all', out, log, c['use_orbax'])
    require([s for s, _ in log] == sorted(first[0][1]), lambda: f'evaluated {[s for s, _ in log]}, there are {sorted(first[0][1])}')
    if c['late'] is not None:
      s = c['late']
      if s not in c['steps']:
        put(first[0][0], s, 't5x')
        dirs = [(d, x + [s]) if d == first[0][0] else (d, x) for d, x in dirs]
    order = [dirs[i % len(dirs)] for i in c['order']]
    order += [d for d in dirs if d not in order]
    want = sorted(s for _, x in dirs for s in x if s not in first[0][1])
    log = []
    call([d for d, _ in order], 'all', out, log, c['use_orbax'])
    what = f'{[(os.path.basename(d), x) for d, x in order]}, done {sorted(first[0][1])}'
    require([s for s, _ in log] == want, lambda: f'{what}: evaluated {[s for s, _ in log]}, expected {want}')
    for s, w in log:
      require(abs(w - weight(s)) < 1e-3, lambda: f'{what}: the result for step {s} is of other weights')
    require(recorded(out) == {s for _, x in dirs for s in x}, lambda: f'{what}: recorded as evaluated: {sorted(recorded(out))}')
    rec.nontrivial(len({w % len(c['names']) for w in c['where']}) > 1 and len(want) > 1)
  finally:
    shutil.rmtree(top, ignore_errors=True)


@st.composite
def directory_cases(draw):
  steps = draw(st.lists(STEPS, min_size=3, max_size=6, unique=True))
  names = draw(st.lists(st.sampled_from(['a', 'b', 'run 2', 'c/d', 'z_9']), min_size=3, max_size=3, unique=True))
  return dict(steps=steps, names=names, where=draw(st.lists(st.integers(0, 5), min_size=len(steps), max_size=len(steps))), list=draw(st.booleans()),
              late=draw(st.one_of(st.none(), STEPS)), order=draw(st.lists(st.integers(0, 2), max_size=3, unique=True)), use_orbax=draw(st.booleans()))


def recording_evaluator(log_dir=None, **kw):
  return seqio.Evaluator(log_dir=log_dir, logger_cls=[Recorder], **kw)


STEPS = st.sampled_from([0, 1, 2, 3, 9, 10, 11, 99, 100, 1000, 20000])

KINDS = [('t5x', False), ('t5x', True), ('orbax', True), ('tf', False), ('tf', True)]


@st.composite
def histories(draw):
  runs = []
  for i in range(draw(st.integers(1, 4))):
    kill = draw(st.one_of(st.none(), st.tuples(st.just('evaluation'), st.integers(0, 3), st.sampled_from(['before', 'after'])),
                          st.tuples(st.just('file'), st.integers(0, 25), st.sampled_from(['before', 'mid', 'after']))))
    runs.append(dict(mode=draw(st.sampled_from(['all', 'all', 'all', 'all', 'latest', 'specific'])), new=draw(st.lists(STEPS, min_size=2 if i == 0 else 0, max_size=4)),
                     gone=draw(st.lists(st.integers(0, 9), max_size=1)) if i else [], pick=draw(st.lists(st.integers(0, 9), min_size=1, max_size=3)), str=draw(st.booleans()),
                     list=draw(st.sampled_from([False, False, True])), kill=list(kill) if kill else None))
  return dict(dir=draw(st.sampled_from(['ckpts', 'my ckpts', 'a_1/b', 'run 3/model.ckpt 7', 'é', 'checkpoint_7'])), space=draw(st.booleans()), slash=draw(st.integers(0, 1)),
              noise=draw(st.integers(0, 4)), runs=runs, **draw(st.sampled_from([dict(kind=k, use_orbax=o) for k, o in KINDS])))


@st.composite
def result_cases(draw):
  return dict(steps=draw(st.lists(STEPS, min_size=1, max_size=4, unique=True)), **draw(st.sampled_from([dict(kind=k, use_orbax=o) for k, o in KINDS])))


SUBS = [Sub('results', results, strategy=result_cases(), quick=4, thorough=60, timeout=300, weight=0.7),
        Sub('directories', directories, strategy=directory_cases(), quick=30, thorough=600, timeout=300, weight=0.6),
        Sub('histories', history, strategy=histories(), quick=60, thorough=2000, timeout=300, weight=2)]
