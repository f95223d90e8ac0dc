"""Optimizer kinds beyond state_common's, and how their slots relate to parameters."""
import hypothesis.strategies as st
import jax
import numpy as np
import optax
from jax.sharding import PartitionSpec

from checks import state_common as sc
from t5x import adafactor, optimizers as o
from t5x import train_state as ts

RULES = adafactor.standard_logical_factor_rules


def _wrap(f):
  return lambda: o.OptaxWrapper(f())


KINDS = {
    'adafactor': lambda: adafactor.Adafactor(0.1, logical_factor_rules=RULES(), min_dim_size_to_factor=4),
    'adafactor_mom': lambda: adafactor.Adafactor(0.1, beta1=0.9, logical_factor_rules=RULES()),
    'adafactor_mom0': lambda: adafactor.Adafactor(0.1, beta1=0.0, logical_factor_rules=RULES(), min_dim_size_to_factor=1),
    'adafactor_full': lambda: adafactor.Adafactor(0.1, beta1=0.5, factored=False, dtype_momentum='bfloat16'),
    'adabelief': lambda: o.adabelief(0.1), 'adagrad': lambda: o.adagrad(0.1), 'adam': lambda: o.adam(0.1), 'adamw': lambda: o.adamw(0.1),
    'fromage': lambda: o.fromage(0.1), 'lars': lambda: o.lars(0.1), 'lamb': lambda: o.lamb(0.1), 'lion': lambda: o.lion(0.1), 'radam': lambda: o.radam(0.1),
    'rmsprop': lambda: o.rmsprop(0.1), 'rmsprop_centered': lambda: o.rmsprop(0.1, centered=True, momentum=0.9), 'sgd': lambda: o.sgd(0.1),
    'sgd_mom': lambda: o.sgd(0.1, momentum=0.9), 'yogi': lambda: o.yogi(0.1),
    'adam_schedule': lambda: o.adam(optax.linear_schedule(0.1, 0.01, 10)),
    'multisteps': _wrap(lambda: optax.MultiSteps(optax.adam(0.1), 2).gradient_transformation()),
    'masked': _wrap(lambda: optax.masked(optax.adam(0.1), lambda p: jax.tree_util.tree_map(lambda x: x.ndim > 1, p))),
    'multi_transform': _wrap(lambda: optax.multi_transform({'a': optax.adam(0.1), 'b': optax.sgd(0.1, momentum=0.9)}, lambda p: jax.tree_util.tree_map(lambda x: 'a' if x.ndim > 1 else 'b', p))),
    'apply_if_finite': _wrap(lambda: optax.apply_if_finite(optax.adam(0.1), 3)),
    'ema': _wrap(lambda: optax.chain(optax.ema(0.9), optax.scale(-0.1))),
    'zero_nans': _wrap(lambda: optax.chain(optax.zero_nans(), optax.scale(-0.1))),
    'stddev': _wrap(lambda: optax.chain(optax.scale_by_stddev(), optax.scale(-0.1))),
    'trust': _wrap(lambda: optax.chain(optax.scale_by_trust_ratio(), optax.scale(-0.1))),
    'conditional': _wrap(lambda: optax.conditionally_transform(optax.adam(0.1), lambda s, **k: s < 2)),
    'chain': lambda: o.chain([optax.clip_by_global_norm(1.0), optax.adamw(0.1)]),
    'multi': lambda: sc.optimizer_def('multi'),
}


@st.composite
def case(draw, **kw):
  params = draw(sc.flat_tree(dtypes=['float32'], **kw))
  return dict(params=params, opt=draw(st.sampled_from(sorted(KINDS))), mut=draw(sc.flat_tree(min_size=0, max_size=1, dtypes=['float32'])), mut_name='cache', seed=draw(st.integers(0, 10**6)))


def make(c):
  """A state with numpy contents; scalar parameters are kept (rank 0)."""
  s = ts.FlaxOptimTrainState.create(KINDS[c['opt']](), sc.variables(c))
  return s


def flat_axes(state):
  """Leaves of a state of axis names: None or a PartitionSpec, by path."""
  return sc.flat(state.state_dict())


def param_of(path, c):
  """The parameter a slot's path ends with, or None."""
  best = None
  for p in c['params']:
    if ('/' + path).endswith('/' + '/'.join(p['path'])) or ('/' + '/'.join(p['path']) + '/') in '/' + path + '/':
      if best is None or len(p['path']) > len(best['path']):
        best = p
  return best
