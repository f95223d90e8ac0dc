"""Small train states for the demonstrations."""
import flax
import flax.linen.partitioning as fp
import jax
import jax.numpy as jnp
import numpy as np

from t5x import adafactor, optimizers, partitioning, train_state

RULES = [('batch', 'data'), ('vocab', 'model'), ('mlp', 'model'), ('heads', 'model'), ('kv', None), ('embed', None), ('stack', None), ('layers', None)]


def partitioner(n=1, **kw):
  return partitioning.PjitPartitioner(num_partitions=n, logical_axis_rules=RULES, **kw)


def state(params, axes, opt=None, step=0, mut=None):
  def nest(d, suf, f=lambda x: x):
    out = {}
    for k, v in d.items():
      parts = k.split('/')
      t = out
      for p in parts[:-1]:
        t = t.setdefault(p, {})
      t[parts[-1] + suf] = f(v)
    return out
  v = {'params': nest(params, ''), 'params_axes': nest(axes, '_axes', lambda a: fp.AxisMetadata(names=tuple(a)))}
  v.update(mut or {})
  s = train_state.FlaxOptimTrainState.create(opt or optimizers.sgd(0.1), flax.core.freeze(v))
  s = s.restore_state(jax.tree_util.tree_map(lambda x: np.asarray(x, np.int32) if isinstance(x, int) else x, s.state_dict()))
  return s.replace_step(np.int32(step))
