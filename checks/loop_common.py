"""The real training loop with a small real model, real checkpoints and a real input pipeline."""
import os

import clu.metrics
import flax
import flax.linen.partitioning as flax_partitioning
import jax
import jax.numpy as jnp
import numpy as np
import tensorflow as tf

from checks import state_common as sc
from t5x import adafactor, checkpoints, metrics as mm, models, optimizers as o, partitioning, trainer as trainer_lib, utils
from t5x import train as train_lib


class Tiny(models.BaseModel):
  """Two dense layers with dropout; optionally a running average as mutable state."""

  class FEATURE_CONVERTER_CLS:  # pylint: disable=invalid-name

    def __init__(self, pack=False):
      pass

  def __init__(self, c):
    kinds = {
        'adafactor': lambda: adafactor.Adafactor(5.0, logical_factor_rules=adafactor.standard_logical_factor_rules(), min_dim_size_to_factor=2),
        'adafactor_mom': lambda: adafactor.Adafactor(5.0, beta1=0.9, logical_factor_rules=adafactor.standard_logical_factor_rules()),
        'adam': lambda: o.adam(0.01), 'sgd_mom': lambda: o.sgd(0.01, momentum=0.9),
        'multi': lambda: o.MultiOptimizer([(sc.traversal_of(lambda p: p.endswith('kernel')), adafactor.Adafactor(5.0, logical_factor_rules=adafactor.standard_logical_factor_rules()))]),
    }
    super().__init__(kinds[c['opt']]())
    self.c = c

  def get_initial_variables(self, rng, input_shapes, input_types=None):
    k1, k2, k3 = jax.random.split(rng, 3)
    f = input_shapes['x'][-1]
    v = {'params': {'hidden': {'kernel': jax.random.normal(k1, (f, 4)), 'bias': jnp.zeros((4,))}, 'out': {'kernel': jax.random.normal(k2, (4, 2)) * 0.3, 'bias': jax.random.normal(k3, (2,))}}}
    ax = lambda *n: flax_partitioning.AxisMetadata(names=n)
    v['params_axes'] = {'hidden': {'kernel_axes': ax('embed', 'mlp'), 'bias_axes': ax('mlp')}, 'out': {'kernel_axes': ax('mlp', 'embed'), 'bias_axes': ax('embed')}}
    if self.c['mutable']:
      v['stats'] = {'mean': jnp.zeros((2,)), 'n': jnp.zeros((), jnp.int32)}
      v['stats_axes'] = {'mean_axes': ax('embed'), 'n_axes': ax()}
    return flax.core.freeze(v)

  def loss_fn(self, params, batch, dropout_rng, flax_mutables=None):
    h = jnp.tanh(batch['x'] @ params['hidden']['kernel'] + params['hidden']['bias'])
    if dropout_rng is not None:
      h = h * jax.random.bernoulli(dropout_rng, 0.5, h.shape) * 2
    p = h @ params['out']['kernel'] + params['out']['bias']
    loss = jnp.sum((p - batch['y']) ** 2) / 8
    out = {'loss': mm.Sum.from_model_output(loss), 'ids': mm.Sum.from_model_output(batch['id'].astype(jnp.float32).sum())}
    if dropout_rng is not None:
      out['noise'] = mm.Sum.from_model_output(jax.random.randint(dropout_rng, (), 0, 1 << 20).astype(jnp.float32))
    if flax_mutables is None:
      return loss, out
    s = flax_mutables['stats']
    new = {'stats': {'mean': s['mean'] * 0.5 + jnp.mean(p, 0), 'n': s['n'] + 1}}
    return loss, (out, flax.core.freeze(new) if isinstance(flax_mutables, flax.core.FrozenDict) else new)

  def eval_fn(self, params, batch, flax_mutables=None):
    if flax_mutables is None:
      return self.loss_fn(params, batch, None)
    loss, (out, _) = self.loss_fn(params, batch, None, flax_mutables)
    return loss, out

  predict_batch_with_aux = score_batch = None


def dataset(c, skip=0):
  n = c['examples']
  r = np.random.default_rng(c['seed'])
  x, y = r.standard_normal((n, 3)).astype(np.float32), r.standard_normal((n, 2)).astype(np.float32)
  ds = tf.data.Dataset.from_tensor_slices(dict(id=np.arange(n, dtype=np.int32), x=x, y=y))
  if c['shuffle']:
    ds = ds.shuffle(5, seed=c['seed'] % 1000, reshuffle_each_iteration=True)
  ds = ds.repeat().batch(c['batch'], drop_remainder=True)
  if skip:
    ds = ds.skip(skip)
  if c.get('prefetch'):
    ds = ds.prefetch(2)
  return ds


class Crash(BaseException):
  """The process stops here."""


_MANAGERS = []


_init = checkpoints.OrbaxCheckpointManagerInterface.__init__


def _recording_init(self, *a, **k):
  _init(self, *a, **k)
  _MANAGERS.append(self)


checkpoints.OrbaxCheckpointManagerInterface.__init__ = _recording_init


def trainer_class(c, log, fail):
  """fail: None or (kind, step): raise when training is to continue from that step or later."""

  class Trainer(trainer_lib.Trainer):

    def train(self, batch_iter, num_steps, start_step=None):
      step = int(self.train_state.step)
      if fail and step >= fail[1]:
        log.append((fail[0], step))
        for m in _MANAGERS:
          m.wait_until_finished()  # pending writes either complete or not; incomplete ones are C02's
        raise (trainer_lib.PreemptionError if fail[0] == 'preempt' else Crash)('stop')
      seen = []

      class Watch:

        def __iter__(self):
          return self

        def __next__(self):
          b = next(batch_iter)
          seen.append([int(i) for i in np.asarray(b['id']).reshape(-1)])
          return b
      out = super().train(Watch(), num_steps, start_step)
      log.append(('train', step, num_steps, seen, {k: float(v.value) for k, v in out.result().items() if not k.startswith('timing')}))
      return out

    def eval(self, batch_iters):
      out = super().eval(batch_iters)
      log.append(('eval', int(self.train_state.step), {k: {n: float(v.value) for n, v in m.items() if not n.startswith('timing')} for k, m in out.items()}))
      return out

  return Trainer


def lr_fn(step):
  return 0.02 / (1 + step.astype(jnp.float32) if hasattr(step, 'astype') else 1.0 + step)


def run(c, d, total, fail=None, skip=0, restore=None, eval_period=0, partitioner=None, relative=None):
  """One invocation of the program. Returns (log, result or exception)."""
  log = []
  del _MANAGERS[:]
  T = trainer_class(c, log, fail)
  make = lambda **k: T(learning_rate_fn=lr_fn, num_microbatches=c['micro'], **k)
  cfg = utils.DatasetConfig(mixture_or_task_name='none', task_feature_lengths={}, split='train', batch_size=c['batch'], shuffle=False, seed=1 if c['shuffle'] else None)
  save = utils.SaveCheckpointConfig(period=c['period'], save_dataset=c['save_ds'], keep=c.get('keep'), dtype='float32')
  try:
    res = train_lib.train(
        model=Tiny(c), train_dataset_cfg=cfg, train_eval_dataset_cfg=cfg if eval_period else None, infer_eval_dataset_cfg=None,
        checkpoint_cfg=utils.CheckpointConfig(save=save, restore=restore), partitioner=partitioner or partitioning.PjitPartitioner(num_partitions=1),
        trainer_cls=make, model_dir=d, total_steps=total, relative_steps=relative, eval_steps=2, eval_period=eval_period, stats_period=c['stats'], random_seed=c['seed'] % 100,
        summarize_config_fn=lambda *a: None, get_dataset_fn=lambda *a: dataset(c, skip), train_eval_get_dataset_fn=lambda *a: {'t': dataset(dict(c, shuffle=False)).take(2)},
        use_orbax=c['orbax'])
    return log, res
  except (trainer_lib.PreemptionError, Crash) as e:
    return log, e
