"""C04: checkpoint discovery names, lists and classifies checkpoints correctly."""
import io
import os

import gin
import hypothesis.strategies as st
import msgpack
import numpy as np
from flax import serialization

from checks import ckpt_common as cc
from checks import state_common as sc
from core import Skip, Sub, require
from t5x import checkpoint_utils, checkpoints, checkpoints_utils

BUDGET = (22, 900)
PREFIX = ['checkpoint', 'checkpoint', 'ckpt', 'my_model', 'a.b', 'step']
STEP = st.one_of(st.integers(0, 3), st.integers(0, 120), st.sampled_from([9, 10, 99, 100, 1000, 10**6, 2**31 - 1, 2**40]))
KINDS = ['complete'] * 5 + ['tmp', 'orbax_tmp', 'foreign', 'plain', 'other_prefix', 'suffix', 'nested']
DS = ['none', 'none', 'ds', 'ds2', 'ds_tmpdir']


class prefix:

  def __init__(self, p):
    self.p = p

  def __enter__(self):
    gin.clear_config()
    if self.p != 'checkpoint':
      gin.parse_config(f'get_checkpoint_prefix.prefix = "{self.p}"')

  def __exit__(self, *a):
    gin.clear_config()


@st.composite
def listing_case(draw):
  entries = draw(st.lists(st.fixed_dictionaries(dict(kind=st.sampled_from(KINDS), step=STEP, ds=st.sampled_from(DS), n=st.integers(0, 10**6))), max_size=10))
  return dict(prefix=draw(st.sampled_from(PREFIX)), entries=entries, ask=draw(STEP), slash=draw(st.booleans()))


FOREIGN = ['events.out.tfevents.1', 'train', 'config.gin', 'model-info.txt', 'checkpoints', 'checkpoint', 'checkpoint_', 'checkpoint_latest', 'inference_eval', '{p}', '{p}_', '{p}_final', '{p}-5', 'x{p}_7',
           '{p}_1_2', '{p}_-3', '{p}_1.5', '{p}_ 4', '{p}_0x10', '{p}s_9', 'old_{p}_8', '_{p}_6']


def put(path, content='x'):
  os.makedirs(os.path.dirname(path), exist_ok=True)
  with open(path, 'w') as f:
    f.write(content)


def listing(c, rec):
  p = c['prefix']
  with cc.Scratch() as d, prefix(p):
    steps, ds, noise = set(), set(), 0
    for e in c['entries']:
      s, k, n = e['step'], e['kind'], e['n']
      base = os.path.join(d, f'{p}_{s}')
      if k == 'complete':
        put(os.path.join(base, 'checkpoint'))
        put(os.path.join(base, 'target.w', '0.0'))
        steps.add(s)
      elif k == 'tmp':
        base = f'{base}.tmp-{n}'
        put(os.path.join(base, 'checkpoint'))
      elif k == 'orbax_tmp':
        base = f'{base}.orbax-checkpoint-tmp-{n}'
        put(os.path.join(base, 'state', 'x'))
      elif k == 'foreign':
        name = FOREIGN[n % len(FOREIGN)].format(p=p)
        put(os.path.join(d, name, 'checkpoint'))
        base = None
      elif k == 'plain':
        put(os.path.join(d, f'file{n}_{s}'))
        base = None
      elif k == 'other_prefix':
        base = os.path.join(d, f'{"saved" if p == "checkpoint" else "checkpoint"}_{s}')
        put(os.path.join(base, 'checkpoint'))
      elif k == 'suffix':
        base = f'{base}.bak'
        put(os.path.join(base, 'checkpoint'))
      elif k == 'nested':
        base = os.path.join(d, 'best', f'{p}_{s}')
        put(os.path.join(base, 'checkpoint'))
      noise += k != 'complete'
      if base and e['ds'] in ('ds', 'ds2'):
        for i in range(1 + (e['ds'] == 'ds2')):
          put(os.path.join(base, f'train_ds-{i:05d}-of-00002.index'))
          put(os.path.join(base, f'train_ds-{i:05d}-of-00002.data-00000-of-00001'))
        if k == 'complete':
          ds.add(s)
      elif base and e['ds'] == 'ds_tmpdir':
        put(os.path.join(base, 'train_dsx'))
    want = sorted(steps)
    dd = d + '/' if c['slash'] else d
    for mod in (checkpoints, checkpoints_utils):
      require(list(mod.all_steps(dd)) == want, lambda: f'all_steps {list(mod.all_steps(dd))}, complete {want}')
      require(list(mod.all_dataset_checkpoint_steps(dd)) == sorted(ds), lambda: f'dataset steps {list(mod.all_dataset_checkpoint_steps(dd))}, want {sorted(ds)}')
      last = mod.latest_step(dd)
      require(last == (want[-1] if want else None), lambda: f'latest_step {last} of {want}')
    # A checkpoint is found from the model directory, the step directory and the file itself.
    if steps:
      f = os.path.join(d, f'{p}_{want[-1]}', 'checkpoint')
      same = lambda x: require(os.path.realpath(x) == os.path.realpath(f), lambda: f'found {x}, want {f}')
      same(checkpoints.find_checkpoint(dd))
      f = os.path.join(d, f'{p}_{want[0]}', 'checkpoint')
      same(checkpoints.find_checkpoint(dd, step=want[0]))
      same(checkpoints.find_checkpoint(os.path.dirname(f)))
      same(checkpoints.find_checkpoint(f))
    for s in {c['ask'], 5}:
      try:
        got = checkpoints.find_checkpoint(dd, step=s)
        require(s in steps, lambda: f'found {got} for step {s}, there are {want}')
      except ValueError:
        require(s not in steps, lambda: f'step {s} exists but was not found')
  rec.nontrivial(len(want) >= 2 or (want and noise))
  rec.label('prefix', p != 'checkpoint')
  rec.label('noise', noise)


@st.composite
def name_case(draw):
  part = st.sampled_from(['model', 'checkpoint_7', 'a b', 'x_1', 'checkpoint', 'gs:', 'v1.5'])
  return dict(prefix=draw(st.sampled_from(PREFIX)), parent=draw(st.lists(part, min_size=0, max_size=3)), root=draw(st.sampled_from(['/', '', 'gs://bucket/'])),
              step=draw(STEP), width=draw(st.sampled_from([None, None, 1, 4, 8])), slash=draw(st.booleans()),
              bad=draw(st.sampled_from(['5', 'model', 'step5', 'other_12', 'final'])))


def names(c, rec):
  with prefix(c['prefix']):
    parent = (c['root'] + '/'.join(c['parent'])).rstrip('/') or 'm'
    d = checkpoints.get_checkpoint_dir(parent, c['step'], c['width'])
    require(os.path.dirname(d) == parent, lambda: f'{d} is not directly under {parent}')
    digits = str(c['step']).rjust(c['width'] or 0, '0')
    require(os.path.basename(d) == f'{c["prefix"]}_{digits}', lambda: f'{d} for step {c["step"]} width {c["width"]}')
    got = checkpoints_utils.get_step_from_checkpoint_dir(d + ('/' if c['slash'] else ''))
    require(tuple(got) == (parent, c['step']), lambda: f'{d} read back as {got}')
    if c['bad'].split('_')[0] not in c['prefix'] and c['prefix'] not in c['bad']:
      try:
        got = checkpoints_utils.get_step_from_checkpoint_dir(os.path.join(parent, c['bad']))
        require(False, f'{c["bad"]} was read as {got}')
      except ValueError:
        pass
  rec.nontrivial(c['step'] > 9 or c['slash'] or c['width'])


SPEC = dict(driver='zarr', dtype='float32', kvstore=dict(driver='file', path='target.w'), metadata=dict(shape=[2], chunks=[2]))
LEAF = st.one_of(st.none(), st.integers(-5, 10**12), st.floats(-1e6, 1e6), st.text(max_size=4), st.lists(st.integers(0, 3), max_size=3), st.just('ARRAY'), st.just('SPEC'), st.just('BIG'), st.just('BYTES'), st.booleans())
TREE = st.recursive(LEAF, lambda ch: st.dictionaries(st.sampled_from(['target', 'state', 'step', 'w', 'b', 'param_states', 'driver', '0', 'é']), ch, max_size=4), max_leaves=14)
TOP = st.dictionaries(st.sampled_from(['version', 'optimizer', 'target', 'state', 'step', 'model']), TREE, max_size=4)


@st.composite
def detect_case(draw):
  kind = draw(st.sampled_from(['t5x', 'legacy', 'tree', 'tree', 'tf', 'orbax', 'orbax_t5x', 'tf_like']))
  return dict(kind=kind, tree=draw(TOP), expected=draw(st.sampled_from([None, 'T5X', 'ORBAX', 'T5X_TF'])))


def realise(t):
  if isinstance(t, dict):
    return {k: realise(v) for k, v in t.items()}
  if t == 'SPEC':
    return {k: v for k, v in SPEC.items()}
  if t == 'ARRAY':
    return np.arange(6, dtype=np.float32).reshape(2, 3)
  if t == 'BIG':
    return np.zeros(70000, np.uint8)
  if t == 'BYTES':
    return b'\x81\xa1x\x01' * 3
  return t


def key_tree(t):
  return {k: key_tree(v) for k, v in t.items()} if isinstance(t, dict) else None


def detect(c, rec):
  T = checkpoint_utils.CheckpointTypes
  tree = realise(c['tree'])
  if c['kind'] == 't5x':
    tree = dict(version=3, optimizer=tree)
  elif c['kind'] == 'legacy':
    tree = dict(tree, params=dict(w=dict(SPEC)))
  elif c['kind'] == 'tf_like':
    tree = dict(model_checkpoint_path='model.ckpt-5', **tree)
  raw = serialization.msgpack_serialize(tree)
  got = checkpoint_utils._read_msgpack_keys(io.BytesIO(raw))
  require(got == key_tree(tree), lambda: f'keys read {got}, written {key_tree(tree)}')
  with cc.Scratch() as d:
    f = os.path.join(d, 'checkpoint')
    want = T.T5X
    if c['kind'] == 'tf':
      raw = b'model_checkpoint_path: "model.ckpt-5"\nall_model_checkpoint_paths: "model.ckpt-5"\n'
      want = T.T5X_TF
    with open(f, 'wb') as h:
      h.write(raw)
    if c['kind'].startswith('orbax'):
      put(os.path.join(d, '_METADATA'), '{}')
      want = T.ORBAX
    else:
      # Neither the parent nor a child being Orbax makes this one Orbax.
      put(os.path.join(d, 'sub', '_METADATA'), '{}')
    got = checkpoint_utils.detect_checkpoint_type(f, expected=c['expected'] and T[c['expected']])
    require(got == want, lambda: f'{c["kind"]} classified as {got}')
  rec.nontrivial(len(sc.flat(tree)) >= 2 if tree else False)
  rec.label(c['kind'])


@st.composite
def moved_case(draw):
  return dict(state=draw(sc.state_case(opts=['adam', 'adafactor', 'inference', 'sgd_mom'])), step=draw(st.integers(0, 1000)),
              driver=draw(st.sampled_from(['file', 'gcs', 'gfile', 'old'])), prefix=draw(st.sampled_from(PREFIX)),
              how=draw(st.sampled_from(['latest', 'step', 'dir', 'file'])))


def rewrite(raw, driver):
  """The same checkpoint as another version or another file system's driver writes it."""
  t = serialization.msgpack_restore(raw)
  def f(x):
    if isinstance(x, dict):
      if set(x) >= {'driver', 'kvstore', 'metadata'}:
        x = dict(x)
        path = x['kvstore']['path']
        if driver == 'gcs':
          x['kvstore'] = dict(driver='gcs', bucket='t5x-dummy-bucket', path=path)
        elif driver == 'gfile':
          x['kvstore'] = dict(driver='gfile', path=path)
        elif driver == 'old':
          x['kvstore'] = dict(driver='file')
          x['path'] = path
        return x
      return {k: f(v) for k, v in x.items()}
    return x
  return serialization.msgpack_serialize(f(t))


def moved(c, rec):
  sd = dict(c['state'], params=sc.pad_shapes(c['state']['params'], 2), mut=sc.pad_shapes(c['state']['mut'], 2))
  if not sd['params']:
    raise Skip()
  rng = np.random.default_rng(sd['seed'])
  s = sc.fill(sc.make_state(sd, rng), rng).replace_step(np.int32(c['step']))
  want = cc.expected(cc.snapshot(s), None, None)
  part = sc.make_partitioner(1)
  with cc.Scratch() as d, prefix(c['prefix']):
    a, b = os.path.join(d, 'a'), os.path.join(d, 'b', 'deeper')
    ck = checkpoints.Checkpointer(s, part, a, save_dtype=None)
    ck.save(s)
    name = f'{c["prefix"]}_{c["step"]}'
    require(os.listdir(a) == [name] and list(checkpoints.all_steps(a)) == [c['step']], lambda: f'saved as {os.listdir(a)}, listed {checkpoints.all_steps(a)}')
    T = checkpoint_utils.CheckpointTypes
    f = os.path.join(a, name, 'checkpoint')
    require(checkpoint_utils.detect_checkpoint_type(f) == T.T5X, 'own checkpoint not classified as T5X')
    os.makedirs(b)
    os.rename(os.path.join(a, name), os.path.join(b, name))
    f = os.path.join(b, name, 'checkpoint')
    with open(f, 'rb') as h:
      raw = h.read()
    with open(f, 'wb') as h:
      h.write(rewrite(raw, c['driver']))
    kw = dict(latest={}, step=dict(step=c['step']), dir=dict(path=os.path.join(b, name)), file=dict(path=f))[c['how']]
    r = checkpoints.Checkpointer(cc.abstract(s), part, b).restore(**kw)
    cc.compare(cc.snapshot(r), want, f'moved checkpoint ({c["driver"]})')
    x = checkpoints.load_t5x_checkpoint(b, step=c['step'])
    cc.compare(sc.flat(x), want, f'load_t5x_checkpoint of a moved checkpoint ({c["driver"]})')
  rec.nontrivial(any(np.prod(p['shape']) > 1 for p in sd['params']))
  rec.label(c['driver'])


SUBS = [
    Sub('listing', listing, strategy=listing_case(), quick=150, thorough=6000, weight=3),
    Sub('names', names, strategy=name_case(), quick=400, thorough=8000, weight=1),
    Sub('detect', detect, strategy=detect_case(), quick=200, thorough=8000, weight=2),
    Sub('moved', moved, strategy=moved_case(), quick=60, thorough=3000, weight=3),
]
