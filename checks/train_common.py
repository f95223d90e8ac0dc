"""Drives t5x.train.train through its public extension points with recording stand-ins (no model is compiled)."""
import os

import clu.values
from clu.data import dataset_iterator
import flax
import jax
import numpy as np

from t5x import partitioning, trainer as trainer_lib, utils
from t5x import train as train_lib
from t5x import train_state as train_state_lib
from checks import state_common as sc

_PART = []


def partitioner():
  if not _PART:
    _PART.append(partitioning.PjitPartitioner(num_partitions=1))
  return _PART[0]


def fake_state(step=0):
  s = sc.make_state(dict(params=[dict(path=['w'], shape=[2], axes=['embed'], dtype='float32')], opt='sgd', mut=[], mut_name='cache', seed=0))
  return s.replace_step(np.int32(step))


class Crash(BaseException):
  """The process ends here."""


class Script:
  """What happens in a run: metric values and stop requests, by event order."""

  def __init__(self, train_metrics=None, eval_metrics=None, infer_metrics=None, preempt_at=None, preempt_mid=0, crash=False):
    self.train_metrics, self.eval_metrics, self.infer_metrics = train_metrics, eval_metrics, infer_metrics
    self.preempt_at, self.preempt_mid, self.crash = preempt_at, preempt_mid, crash
    self.log = []


class Source(dataset_iterator.DatasetIterator):
  """Batches 0, 1, 2, ..."""

  def __init__(self):
    self.i = -1

  def __next__(self):
    self.i += 1
    return {'x': np.full((1, 1), self.i, np.int32)}

  @property
  def element_spec(self):
    return {'x': dataset_iterator.ArraySpec(np.int32, (1, 1))}

  def reset(self):
    self.i = -1

  def save(self, filename):
    with open(filename, 'w') as f:
      f.write(str(self.i))

  def restore(self, filename):
    with open(filename) as f:
      self.i = int(f.read())


class EvalSource:
  element_spec = {'x': jax.ShapeDtypeStruct((1, 1), np.int32)}

  def __iter__(self):
    return iter([{'x': np.full((1, 1), i, np.int32)} for i in range(3)])


class _Done:
  def __init__(self, v):
    self.v = v

  def result(self):
    return self.v


class _Manager:
  summary_writer = None

  def write_scalar(self, *a, **k):
    pass

  write_scalars = start_duration_timer = flush = close = write_scalar


def make_classes(script):
  log = script.log

  class Trainer(trainer_lib.BaseTrainer):

    def __init__(self, model, train_state, partitioner, eval_names, summary_dir, train_state_axes, rng):
      self._st = train_state
      self.stop_training = False
      self.train_metrics_manager = _Manager()
      log.append(('start', int(train_state.step), tuple(eval_names)))

    @property
    def train_state(self):
      return self._st

    @train_state.setter
    def train_state(self, s):
      self._st = s

    def close(self):
      log.append(('close',))

    def train(self, batch_iter, num_steps, start_step=None):
      step = int(self._st.step)
      if script.preempt_at is not None and step <= script.preempt_at < step + num_steps:
        for _ in range(script.preempt_at - step):
          next(batch_iter)
        if script.preempt_mid:
          self._st = self._st.replace_step(np.int32(script.preempt_at))
        log.append(('preempted', int(self._st.step)))
        raise Crash('crashed') if script.crash else trainer_lib.PreemptionError('preempted')
      batches = [int(np.asarray(next(batch_iter)['x'])[0, 0]) for _ in range(num_steps)]
      log.append(('train', step, num_steps, start_step, batches))
      self._st = self._st.replace_step(np.int32(step + num_steps))
      v = script.train_metrics(step + num_steps) if script.train_metrics else 1.0
      return _Done({'loss': clu.values.Scalar(v)})

    def compile_train(self, batch):
      log.append(('compile', {k: (v.shape, str(v.dtype)) for k, v in batch.items()}))

    def eval(self, iters):
      log.append(('eval', int(self._st.step), {k: sum(1 for _ in v) for k, v in iters.items()}))
      v = script.eval_metrics(int(self._st.step)) if script.eval_metrics else 1.0
      return {k: {'loss': clu.values.Scalar(v)} for k in iters}

    def compile_eval(self, batches):
      log.append(('compile_eval', tuple(sorted(batches))))

    _partitioned_train_step = _partitioned_eval_step = None

  class Checkpointer:

    def __init__(self, train_state, partitioner, checkpoints_dir, dataset_iterator=None, save_dtype=None, restore_dtype=None, keep=None, keep_dataset_checkpoints=None):
      self.d = checkpoints_dir
      self.ds = dataset_iterator

    def save(self, train_state, state_transformation_fns=(), *, concurrent_gb=128):
      step = int(train_state.step)
      log.append(('save', step))
      p = os.path.join(self.d, f'checkpoint_{step}')
      os.makedirs(p, exist_ok=True)
      with open(os.path.join(p, 'checkpoint'), 'w') as f:
        f.write('x')
      if self.ds is not None and not os.path.exists(os.path.join(p, 'position')):
        self.ds.save(os.path.join(p, 'position'))

    def restore(self, step=None, path=None, state_transformation_fns=(), fallback_state=None, lazy_parameters=False):
      step = int(os.path.basename(path).rsplit('_', 1)[1])
      log.append(('restore', step))
      if self.ds is not None:
        self.ds.restore(os.path.join(path, 'position'))
      return fake_state(step)

  class Initializer:

    def __init__(self, optimizer_def, init_fn, input_shapes, partitioner, input_types=None):
      log.append(('init', dict(input_shapes)))
      self.global_train_state_shape = fake_state()
      self.train_state_axes = partitioner.get_mesh_axes(self.global_train_state_shape)

    def from_scratch(self, rng):
      log.append(('scratch',))
      return fake_state(0)

  class Converter:
    def __init__(self, pack=False):
      pass

  class Model:
    FEATURE_CONVERTER_CLS = Converter
    optimizer_def = None
    get_initial_variables = predict_batch = predict_batch_with_aux = score_batch = None

  class Evaluator:

    def __init__(self, **kw):
      self.eval_tasks = ['task']
      self.model_feature_shapes = {'x': (1,)}

    def evaluate(self, *, compute_metrics, step, predict_fn, score_fn, predict_with_aux_fn):
      log.append(('infer', step))
      v = script.infer_metrics(step) if script.infer_metrics else 1.0
      return _Done({'task': {'acc': float(v)}}), None

    def close(self):
      log.append(('close_infer',))

  return Trainer, Checkpointer, Initializer, Model, Evaluator


def dataset_cfg(**kw):
  return utils.DatasetConfig(mixture_or_task_name='none', task_feature_lengths={}, split='x', batch_size=1, shuffle=False, seed=1, **kw)


def run(c, d, script, actions=None, restore=None):
  """Runs train(); returns its result (or raises)."""
  Trainer, Checkpointer, Initializer, Model, Evaluator = make_classes(script)
  save = None
  if c.get('save', True):
    save = utils.SaveCheckpointConfig(period=c['period'], checkpoint_steps=c['ckpt_steps'], checkpointer_cls=Checkpointer, save_dataset=c.get('save_ds', False))

  return train_lib.train(
      model=Model(), train_dataset_cfg=dataset_cfg(), train_eval_dataset_cfg=dataset_cfg() if c['train_eval'] else None,
      infer_eval_dataset_cfg=dataset_cfg() if c['infer_eval'] else None,
      checkpoint_cfg=utils.CheckpointConfig(save=save, restore=restore), partitioner=partitioner(), trainer_cls=Trainer, model_dir=d,
      total_steps=c['total'], eval_steps=2, eval_period=c['eval_period'], relative_steps=c.get('relative'), stats_period=c['stats_period'],
      random_seed=0, summarize_config_fn=lambda *a: None, inference_evaluator_cls=Evaluator,
      get_dataset_fn=lambda *a: Source(), train_eval_get_dataset_fn=lambda *a: {'t': EvalSource()},
      concurrent_metrics=c.get('concurrent', True), actions=actions, run_eval_before_training=c.get('before', False),
      train_state_initializer_cls=Initializer, use_orbax=False, gc_period=c.get('gc', 0))
