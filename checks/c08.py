"""C08: the input position saved with a checkpoint is the one training resumes from."""
import os
import threading

from clu.data import dataset_iterator
import hypothesis.strategies as st
import jax
import numpy as np
import tensorflow as tf

from checks import ckpt_common as cc
from checks import state_common as sc
from checks import train_common as tc
from core import Skip, Sub, require
from t5x import checkpoint_utils, checkpoints, partitioning, trainer as trainer_lib, utils

BUDGET = (25, 900)

# --- simulated hosts: threads that share barriers and broadcasts -----------------------------------------------------
_tls = threading.local()
_group = [None]


class Group:

  def __init__(self, n):
    self.n = n
    self.barrier = threading.Barrier(n, timeout=60)
    self.value = None

  def wait(self):
    self.barrier.wait()

  def broadcast(self, x):
    if _tls.host == 0:
      self.value = x
    self.wait()
    v = self.value
    self.wait()
    return v


def _host():
  return getattr(_tls, 'host', 0)


_real_sync, _real_index = checkpoints._sync_global_devices, jax.process_index


class _Multihost:

  def __getattr__(self, k):
    return getattr(_multihost, k)

  def broadcast_one_to_all(self, x, *a, **k):
    return _group[0].broadcast(x) if _group[0] else _multihost.broadcast_one_to_all(x, *a, **k)


_multihost = checkpoints.multihost_utils
checkpoints.multihost_utils = _Multihost()
checkpoints._sync_global_devices = lambda name: _group[0].wait() if _group[0] else _real_sync(name)


def together(n, fn):
  """Runs fn(host) as n hosts."""
  if n == 1:
    return [fn(0)]
  _group[0] = Group(n)
  out, err = [None] * n, []
  jax.process_index = lambda backend=None: _host()

  def one(h):
    _tls.host = h
    try:
      out[h] = fn(h)
    except BaseException as e:  # pylint: disable=broad-except
      err.append(e)
      _group[0].barrier.abort()
  try:
    ts = [threading.Thread(target=one, args=(h,)) for h in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
  finally:
    jax.process_index = _real_index
    _group[0] = None
  first = [e for e in err if not isinstance(e, threading.BrokenBarrierError)] or err
  if first:
    raise first[0]
  return out


class Part(partitioning.PjitPartitioner):
  """Host h's view: its own part of the input."""

  def __init__(self, shard, n, first):
    super().__init__(num_partitions=1)
    self._layout = partitioning.DataLayout(batch_size=4, shard_id=shard, num_shards=n, is_first_host_in_replica_set=first)

  def get_data_layout(self, batch_size=None, host_index=None):
    return self._layout


def dataset(c, shard):
  n = c['examples']
  ds = tf.data.Dataset.range(n * c['shards'] + 3)
  if c['shards'] > 1:
    ds = ds.shard(c['shards'], shard)
  if c['shuffle']:
    ds = ds.shuffle(4, seed=c['seed'] + 1)
  if c['map']:
    ds = ds.map(lambda x: x * 2)
  if c['interleave']:
    ds = ds.interleave(lambda x: tf.data.Dataset.from_tensors(x).repeat(2), cycle_length=2)
  ds = ds.repeat().batch(4)
  ds = ds.map(lambda x: {'id': x})
  if c['prefetch']:
    ds = ds.prefetch(3)
  return ds


def ids(batch):
  return [int(i) for i in np.asarray(batch['id']).reshape(-1)]


class Host:
  """One process: an iterator, and the object that saves and restores."""

  def __init__(self, c, d, h, start=0):
    self.c, self.d, self.h = c, d, h
    self.shard = h * c['shards'] // c['hosts']
    first = h == 0 or (h - 1) * c['shards'] // c['hosts'] != self.shard
    self.part = Part(self.shard, c['shards'], first)
    ds = dataset(c, self.shard)
    if c['iterator'] == 'tf':
      self.it = iter(ds)
    elif c['iterator'] == 'clu':
      self.it = dataset_iterator.TfDatasetIterator(ds, checkpoint=True)
    else:
      self.it = utils.prepare_train_iter(ds, partitioner=self.part, checkpoint_cfg=None, data_layout=self.part.get_data_layout())
    for _ in range(start):  # an unrelated position
      next(self.it)
    s = tc.fake_state()
    self.shape = cc.abstract(s)
    v = c['via']
    if v == 'checkpointer':
      self.ck = checkpoints.Checkpointer(s, self.part, d, dataset_iterator=self.it, keep=c['keep'], keep_dataset_checkpoints=c['keep_ds'])
    elif v == 'best':
      self.ck = checkpoints.SaveBestCheckpointer(s, self.part, d, dataset_iterator=self.it, keep=c['keep'], keep_dataset_checkpoints=c['keep_ds'])
    elif v == 'orbax':
      self.ck = checkpoints.OrbaxCheckpointManagerInterface(d, s, self.part, dataset_iterator=self.it, keep=c['keep'])
    else:
      save = utils.SaveCheckpointConfig(period=1, save_dataset=True, keep=c['keep'], keep_dataset_checkpoints=c['keep_ds'])
      self.cfg = utils.RestoreCheckpointConfig(path=d, mode='specific', restore_dataset=c['restore_ds'])
      self.ck = utils.LegacyCheckpointManager(save_cfg=save, restore_cfg=self.cfg, train_state_shape=self.shape, partitioner=self.part, ds_iter=self.it, model_dir=d)

  def save(self, step):
    self.ck.save(tc.fake_state(step))
    if self.c['via'] == 'orbax':
      self.ck.wait_until_finished()

  def restore(self, step):
    if self.c['via'] == 'legacy_manager':
      path = checkpoints.get_checkpoint_dir(self.d, step)
      return self.ck.restore([path], self.cfg)
    return self.ck.restore(step=step)

  def close(self):
    if self.c['via'] == 'orbax':
      self.ck.close()


@st.composite
def case(draw):
  via = draw(st.sampled_from(['checkpointer', 'checkpointer', 'checkpointer', 'best', 'legacy_manager', 'legacy_manager', 'orbax']))
  hosts = 1 if via == 'orbax' else draw(st.sampled_from([1, 1, 2, 3, 4]))
  iterator = draw(st.sampled_from(['tf', 'clu', 'clu', 'chain'] if hosts == 1 else ['tf', 'clu']))
  op = st.one_of(st.tuples(st.just('next'), st.integers(1, 6)), st.tuples(st.just('save'), st.integers(0, 0)), st.tuples(st.just('restore'), st.integers(0, 9)),
                 st.tuples(st.just('fresh'), st.integers(0, 3)), st.tuples(st.just('pin'), st.integers(0, 9)))
  return dict(via=via, hosts=hosts, shards=draw(st.integers(1, hosts)), iterator=iterator, examples=draw(st.integers(3, 9)), seed=draw(st.integers(0, 99)),
              shuffle=draw(st.booleans()), map=draw(st.booleans()), interleave=draw(st.booleans()), prefetch=draw(st.booleans()),
              keep=draw(st.sampled_from([None, None, 1, 2])), keep_ds=draw(st.sampled_from([None, None, 1, 2])), restore_ds=draw(st.sampled_from([True] * 4 + [False])),
              ops=[list(o) for o in draw(st.lists(op, min_size=3, max_size=12))])


def check(c, rec):
  n = c['hosts']
  if c['via'] == 'orbax' and c['iterator'] == 'tf':
    c = dict(c, keep_ds=None)
  if c['via'] == 'best':
    c = dict(c, keep=None)
  with cc.Scratch() as d:
    future = {}
    def expect(shard, pos):
      if shard not in future:
        it = dataset(c, shard).as_numpy_iterator()
        future[shard] = [it, []]
      it, seen = future[shard]
      while len(seen) <= pos:
        seen.append(ids(next(it)))
      return seen[pos]
    hosts = [Host(c, d, h) for h in range(n)]
    pos = [0] * n
    saved = {}     # step -> positions of the hosts
    has_ds = set()
    step = 0
    pinned = set()
    restored = False
    trace = []
    try:
      for op, k in c['ops']:
        trace.append((op, k))
        what = lambda: f'after {trace}'
        if op == 'next':
          for h in range(n):
            for _ in range(k):
              got, want = ids(next(hosts[h].it)), expect(hosts[h].shard, pos[h])
              require(got == want, lambda: f'host {h} of {n} (input part {hosts[h].shard}) got batch {got}, expected {want}; {what()}')
              pos[h] += 1
        elif op == 'save':
          step += 1
          together(n, lambda h: hosts[h].save(step))
          saved[step] = list(pos)
          has_ds.add(step)
          # Retention of whole checkpoints, then of input positions.
          if c['keep']:
            live = sorted(saved)
            for s in live[:max(0, len(live) - c['keep'])]:
              if s not in pinned:
                del saved[s]
                has_ds.discard(s)
          if c['keep_ds'] and c['via'] != 'orbax':
            live = sorted(has_ds)
            for s in live[:max(0, len(live) - c['keep_ds'])]:
              if s not in pinned:
                has_ds.discard(s)
        elif op == 'pin':
          if c['via'] == 'orbax' or not saved:
            continue
          s = sorted(saved)[k % len(saved)]
          checkpoint_utils.pin_checkpoint(checkpoints.get_checkpoint_dir(d, s))
          pinned.add(s)
        elif op == 'fresh':
          for h in hosts:
            h.close()
          hosts = [Host(c, d, h, start=k) for h in range(n)]
          pos = [k] * n
        else:
          if not saved:
            continue
          s = sorted(saved)[k % len(saved)]
          ignore = c['via'] == 'legacy_manager' and not c['restore_ds']
          if s in has_ds or ignore:
            states = together(n, lambda h: hosts[h].restore(s))
            require(all(int(x.step) == s for x in states), lambda: f'restored steps {[int(x.step) for x in states]}; {what()}')
            if not ignore:
              pos = list(saved[s])
              rec.nontrivial(any(pos))
              rec.label(c['via'])
              rec.label('several input parts', c['shards'] > 1)
              rec.label('hosts sharing a part', c['shards'] < n)
              rec.label('older checkpoint', s != max(saved))
          else:
            err = None
            try:
              together(n, lambda h: hosts[h].restore(s))
            except Exception as e:  # pylint: disable=broad-except
              err = e
            require(err is not None, lambda: f'restoring step {s}, whose input position is not kept, went unnoticed; {what()}')
            rec.label('position no longer kept')
            return
      # Whatever happened, the input goes on from where it should.
      for h in range(n):
        for _ in range(2):
          got, want = ids(next(hosts[h].it)), expect(hosts[h].shard, pos[h])
          require(got == want, lambda: f'host {h} of {n} (input part {hosts[h].shard}) continues with {got}, expected {want}; after {trace}')
          pos[h] += 1
      if c['via'] != 'orbax':
        got = sorted(checkpoints.all_dataset_checkpoint_steps(d))
        require(got == sorted(has_ds), lambda: f'steps with an input position: {got}, expected {sorted(has_ds)}; after {trace}')
        if len(has_ds) < len(saved):
          rec.label('positions removed')
    finally:
      for h in hosts:
        h.close()


# --- the training loop ------------------------------------------------------------------------------------------------


@st.composite
def loop_case(draw):
  stop = st.tuples(st.sampled_from(['preempt', 'crash', 'end']), st.integers(0, 30)).map(list)
  period = draw(st.sampled_from([1, 2, 3, 5]))
  return dict(period=period, ckpt_steps=draw(st.sampled_from([None, None, [4], [1, 7, 11]])), total=draw(st.integers(1, 30)), eval_period=draw(st.sampled_from([0, 0, period])),
              stats_period=draw(st.sampled_from([None, 1, 2, 4])), train_eval=draw(st.booleans()), infer_eval=False, before=draw(st.booleans()), save_ds=True,
              stops=draw(st.lists(stop, min_size=1, max_size=4)))


def loop(c, rec):
  with cc.Scratch() as d:
    for kind, s in [*c['stops'], ['end', c['total']]]:
      s0 = max(checkpoints.all_steps(d), default=0)
      script = tc.Script(preempt_at=s if kind != 'end' else None, preempt_mid=1, crash=kind == 'crash')
      total = c['total'] if kind != 'end' else max(s, s0)
      if total < s0:
        raise Skip('training already went further')
      try:
        tc.run(dict(c, total=total), d, script)
      except (trainer_lib.PreemptionError, tc.Crash):
        rec.label('stopped by ' + kind)
      for e in script.log:
        if e[0] == 'train':
          _, step, n, _, batches = e
          want = list(range(step, step + n))
          require(batches == want, lambda: f'run from {s0}: steps {step}..{step + n - 1} used batches {batches}, expected {want}; events {[x[:3] for x in script.log]}')
          rec.nontrivial(s0 > 0)
          rec.label('resumed from the initial checkpoint', s0 == 0 and ('restore', 0) in script.log)
      for step in checkpoints.all_steps(d):
        with open(os.path.join(d, f'checkpoint_{step}', 'position')) as f:
          p = int(f.read())
        require(p == step - 1, lambda: f'checkpoint of step {step} holds the position after batch {p}; run from {s0}, events {[x[:3] for x in script.log]}')


SUBS = [Sub('history', check, strategy=case(), quick=60, thorough=4000, timeout=120, weight=2),
        Sub('loop', loop, strategy=loop_case(), quick=120, thorough=8000, timeout=60)]
