"""Makes /repo's t5x importable: paths, environment and stand-ins for absent third-party packages.

Only third-party packages that cannot be installed here (airio, t5,
tensorflow_serving) are replaced, by empty classes; nothing of t5x is.
"""
import importlib.util
import os
import sys
import types

REPO = os.getcwd()


def env(devices=1):
  e = os.environ
  e.setdefault('JAX_PLATFORMS', 'cpu')
  e.setdefault('CUDA_VISIBLE_DEVICES', '')
  e.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
  e.setdefault('NO_GCE_CHECK', 'true')
  e.setdefault('OMP_NUM_THREADS', '1')
  e.setdefault('TF_NUM_INTRAOP_THREADS', '1')
  e.setdefault('TF_NUM_INTEROP_THREADS', '2')
  flags = '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
  if devices > 1:
    flags += f' --xla_force_host_platform_device_count={devices}'
  e['XLA_FLAGS'] = flags


def _module(name, **attrs):
  m = types.ModuleType(name)
  m.__path__ = []
  for k, v in attrs.items():
    setattr(m, k, v)
  sys.modules[name] = m
  if '.' in name:
    parent, child = name.rsplit('.', 1)
    setattr(sys.modules[parent], child, m)
  return m


def stubs():
  if importlib.util.find_spec('airio') is None:
    class DatasetProviderBase:
      pass

    class Task(DatasetProviderBase):
      pass

    class Mixture(DatasetProviderBase):
      pass

    class AirIODatasetIterator:
      pass

    _module('airio')
    _module('airio.core', DatasetProviderBase=DatasetProviderBase, Task=Task,
            Mixture=Mixture, AirIODatasetIterator=AirIODatasetIterator)
    _module('airio.pygrain_common')
  if importlib.util.find_spec('t5') is None:
    _module('t5')
    _module('t5.data')
    _module('t5.data.tasks')
    _module('t5.data.mixtures')
  if importlib.util.find_spec('tensorflow_serving') is None:
    class _Msg:
      def __init__(self, *a, **k):
        self.a, self.k = a, k
    _module('tensorflow_serving')
    _module('tensorflow_serving.apis')
    for n in ('predict_pb2', 'prediction_log_pb2', 'model_pb2', 'classification_pb2', 'inference_pb2', 'regression_pb2'):
      m = _module('tensorflow_serving.apis.' + n)
      for c in ('PredictRequest', 'PredictLog', 'PredictionLog', 'ModelSpec'):
        setattr(m, c, type(c, (_Msg,), {}))


def boot(full=False):
  """full: also run t5x/__init__.py."""
  if REPO not in sys.path:
    sys.path.insert(0, REPO)
  for extra in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if extra not in sys.path:
      sys.path.append(extra)
  stubs()
  import jax.sharding
  import jax.experimental.pjit as pj
  if not hasattr(pj, 'PartitionSpec'):
    pj.PartitionSpec = jax.sharding.PartitionSpec
  if 't5x' not in sys.modules and not full:
    spec = importlib.util.spec_from_file_location(
        't5x', REPO + '/t5x/__init__.py',
        submodule_search_locations=[REPO + '/t5x'])
    sys.modules['t5x'] = importlib.util.module_from_spec(spec)


env(int(os.environ.get('DEMO_DEVICES', '1')))
boot()
