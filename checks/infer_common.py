"""Runs infer.infer on small in-memory tasks with a model whose answers are computed independently."""
import functools
import json
import os
import tempfile

import flax
import jax
import jax.numpy as jnp
import numpy as np
import seqio
import tensorflow as tf

from t5x import checkpoints, infer, partitioning, train_state as ts, utils

VOCAB = seqio.PassThroughVocabulary(1000)
W = 3.0


def example(seed, i):
  """The i-th example of a dataset."""
  r = np.random.default_rng([seed, i])
  return r.integers(1, 90, int(r.integers(1, 4))).tolist(), r.integers(1, 90, int(r.integers(1, 3))).tolist(), f'example {i} é"\\{r.integers(0, 9)}'


_tasks = {}


def task(n, seed):
  """Registers (once) an in-memory task of n examples."""
  if (n, seed) not in _tasks:
    name = f'verif_infer_{n}_{seed}'
    rows = [example(seed, i) for i in range(n)]

    def gen(split, shuffle_files, seed=None):
      del split, shuffle_files, seed
      x = tf.ragged.constant([a for a, _, _ in rows], tf.int32, ragged_rank=1)
      y = tf.ragged.constant([b for _, b, _ in rows], tf.int32, ragged_rank=1)
      s = tf.constant([c for _, _, c in rows])

      @tf.autograph.experimental.do_not_convert
      def make(d):
        return d
      return tf.data.Dataset.from_tensor_slices({'inputs': x, 'targets': y, 'inputs_pretokenized': s}).map(make)

    seqio.TaskRegistry.add(name, source=seqio.FunctionDataSource(gen, splits=['test']), preprocessors=[drop_ragged],
                           output_features={k: seqio.Feature(VOCAB, add_eos=False, dtype=tf.int32) for k in ('inputs', 'targets')}, metric_fns=[])
    _tasks[n, seed] = name
  return _tasks[n, seed]


@seqio.map_over_dataset
@tf.autograph.experimental.do_not_convert
def drop_ragged(ex):
  return {k: tf.reshape(v, [-1]) if k != 'inputs_pretokenized' else v for k, v in ex.items()}


class Model:
  """Answers depend on the example only, or also on the chunk's randomness when `noisy`."""
  FEATURE_CONVERTER_CLS = seqio.EncDecFeatureConverter

  def __init__(self, calls=None):
    self.calls = calls

  def get_initial_variables(self, rng, input_shapes, input_types=None):
    return flax.core.freeze({'params': {'w': jnp.full((), W)}, 'params_axes': {'w': flax.linen.partitioning.AxisMetadata(names=())}})

  def _tokens(self, params, batch):
    return (batch['encoder_input_tokens'] * params['w'].astype(jnp.int32) + batch['decoder_target_tokens'].sum(-1, keepdims=True)) % 1000

  def predict_batch(self, params, batch, rng=None):
    return self._tokens(params, batch)

  def predict_batch_with_aux(self, params, batch, rng=None):
    t = self._tokens(params, batch)
    return t, {'scores': t.sum(-1) * 0.5, 'more': {'first': t[:, 0]}}

  def score_batch(self, params, batch):
    return batch['encoder_input_tokens'].sum(-1) * params['w'] + batch['decoder_target_tokens'].sum(-1) * 0.25


LENGTHS = {'inputs': 4, 'targets': 3}


def answer(mode, seed, i):
  """What infer has to write for example i."""
  x, y, s = example(seed, i)
  tokens = [(int(a * W) + sum(y)) % 1000 for a in x + [0] * (LENGTHS['inputs'] - len(x))]
  if mode == 'score':
    return {'inputs': {'inputs_pretokenized': s}, 'score': sum(x) * W + sum(y) * 0.25}
  out = {'inputs': {'inputs_pretokenized': s}, 'prediction': tokens}
  if mode == 'predict_with_aux':
    out['aux'] = {'scores': sum(tokens) * 0.5, 'more': {'first': tokens[0]}}
  return out


@functools.lru_cache(None)
def partitioner():
  return partitioning.PjitPartitioner(num_partitions=1)


@functools.lru_cache(None)
def checkpoint():
  d = tempfile.mkdtemp(prefix='infer-ckpt-')
  v = Model().get_initial_variables(None, {})
  state = ts.InferenceState.create(v)
  init = utils.TrainStateInitializer(optimizer_def=None, init_fn=Model().get_initial_variables, input_shapes={}, partitioner=partitioner())
  return checkpoints.Checkpointer(init.global_train_state_shape, partitioner(), d).save(state) or os.path.join(d, 'checkpoint_0')


def run(out, n=5, seed=0, **kw):
  run_named(task(n, seed), out, **kw)


def run_named(name, out, mode='predict', batch=2, period=2, ds_iter=True, shard=(0, 1), merge=True, use_orbax=False, model=None, **kw):
  infer.infer(mode=mode, model=model or Model(),
              dataset_cfg=utils.DatasetConfig(mixture_or_task_name=name, task_feature_lengths=LENGTHS, split='test', batch_size=batch, shuffle=False, seed=0, use_cached=False, pack=False),
              restore_checkpoint_cfg=utils.RestoreCheckpointConfig(path=checkpoint(), mode='specific'), partitioner=partitioner(), output_dir=out, checkpoint_period=period,
              shard_id=shard[0], num_shards=shard[1], merge_chunked_results=merge, checkpoint_ds_iter=ds_iter, summarize_config_fn=lambda **k: None,
              verify_matching_vocabs_fn=None, use_orbax=use_orbax, **kw)


def output_name(mode, n, seed, shard=(0, 1)):
  return f'{task(n, seed)}-{mode}.jsonl-{shard[0]:05}-of-{shard[1]:05}'


def read(path):
  with open(path, encoding='utf-8') as f:
    return [json.loads(l) for l in f.read().splitlines()]


def same(a, b):
  if isinstance(a, dict):
    return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
  if isinstance(a, list):
    return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
  if isinstance(a, float) or isinstance(b, float):
    return abs(a - b) <= 1e-4 * (1 + abs(a))
  return a == b
