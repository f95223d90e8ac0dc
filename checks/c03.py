"""C03: checkpoint retention keeps exactly the checkpoints the policy promises."""
import os

import hypothesis.strategies as st
import numpy as np
import tensorflow as tf

from checks import ckpt_common as cc
from checks import state_common as sc
from core import Skip, Sub, require
from t5x import checkpoint_utils, checkpoints
from tensorflow.io import gfile

BUDGET = (28, 1200)
STATE = dict(params=[dict(path=['w'], shape=[2], axes=['embed'], dtype='float32')], opt='inference', mut=[], mut_name='x', seed=0)
METRICS = ['train/accuracy', 'inference_eval/task_a/eval/accuracy', 'training_eval/loss/total']


class Position:

  def save(self, filename):
    with gfile.GFile(filename, 'w') as f:
      f.write('x')

  def load(self, filename):
    assert gfile.exists(filename)


metric_value = st.one_of(st.sampled_from([0.0, 0.5, -1.0, 1.0]), st.floats(-100, 100, width=32))


@st.composite
def history(draw, best):
  n = draw(st.sampled_from([3, 6, 8, 10, 14]))
  ops, step = [], draw(st.integers(0, 2))
  for _ in range(n):
    kind = draw(st.sampled_from(['save'] * 10 + ['pin', 'pin', 'unpin', 'restart', 'resave', 'back', 'foreign'] + (['metrics'] * 6 if best else [])))
    if kind == 'save':
      ops.append(['save', step])
      step += draw(st.sampled_from([1, 1, 2, 3, 10]))
    elif kind == 'metrics':
      ops.append(['metrics', [[draw(st.integers(0, 4)), draw(metric_value)] for _ in range(draw(st.integers(1, 3)))]])
    elif kind == 'back':
      ops.append(['back', draw(st.integers(0, 30))])
    else:
      ops.append([kind, draw(st.integers(0, 5))])
  c = dict(keep=draw(st.sampled_from([1, 2, 1, 3, None])), ds=draw(st.booleans()), keep_ds=draw(st.sampled_from([None, 1, 2])), ops=ops)
  if best:
    c.update(metric=draw(st.sampled_from(METRICS)), mode=draw(st.sampled_from(['max', 'min'])), without=draw(st.booleans()),
             period=draw(st.sampled_from([None, None, 2, 3, 5])), decoy=draw(st.booleans()))
  return c


def write_metric(d, name, step, value):
  run, tag = {'train/accuracy': ('train', 'accuracy'),
              'inference_eval/task_a/eval/accuracy': ('inference_eval/task_a', 'eval/accuracy'),
              'training_eval/loss/total': ('training_eval/loss', 'total')}.get(name, name.rsplit('/', 1))
  w = tf.summary.create_file_writer(os.path.join(d, run))
  with w.as_default():
    tf.summary.scalar(tag, value, step=step)
  w.close()


class Model:
  """What the documentation of the checkpointers promises."""

  def __init__(self, c):
    self.c = c
    self.steps = set()
    self.ds = set()
    self.pinned = set()
    self.metrics = {}

  def save(self, step):
    if step in self.steps:
      return
    self.steps.add(step)
    self.pinned.discard(step)
    if self.c['ds']:
      self.ds.add(step)
    for s in self.retire():
      if s not in self.pinned:
        self.steps.discard(s)
        self.ds.discard(s)
    if self.c['keep_ds']:
      for s in sorted(self.ds)[:-self.c['keep_ds']]:
        if s not in self.pinned:
          self.ds.discard(s)

  def retire(self):
    keep = self.c['keep']
    ordered = sorted(self.steps)
    if not keep:
      return []
    if 'metric' not in self.c:
      return ordered[:-keep]
    latest = ordered[-1]
    # The latest is always kept, and so are those at the forced period.
    pool = [s for s in ordered[:-1] if not (self.c['period'] and s % self.c['period'] == 0)]
    have = [s for s in pool if s in self.metrics]
    lack = [s for s in pool if s not in self.metrics]
    sign = 1 if self.c['mode'] == 'max' else -1
    ranked = sorted(have, key=lambda s: (sign * self.metrics[s], s))
    if not self.c['without']:
      ranked = lack + ranked   # Without a metric: worst, oldest first.
    return ranked[:max(0, len(ranked) - keep)]


def check(c, rec):
  best = 'metric' in c
  with cc.Scratch() as d:
    m = Model(c)
    p = sc.make_partitioner(1)
    base = sc.make_state(STATE)
    spec = cc.abstract(base)
    contents = {}

    def new():
      kw = dict(keep=c['keep'], keep_dataset_checkpoints=c['keep_ds'])
      it = Position() if c['ds'] else None
      if best:
        return checkpoints.SaveBestCheckpointer(spec, p, d, it, metric_name_to_monitor=c['metric'], metric_mode=c['mode'],
                                                keep_checkpoints_without_metrics=c['without'], force_keep_period=c['period'], **kw)
      return checkpoints.Checkpointer(spec, p, d, it, **kw)
    ck = new()
    n_foreign = 0
    foreign = set()
    removed = 0
    for i, (kind, x) in enumerate(c['ops']):
      known = sorted(m.steps)
      if kind in ('save', 'resave', 'back'):
        if kind == 'resave':
          if not known:
            continue
          step = known[x % len(known)]
        else:
          step = x
        s = base.replace_params({'w': np.float32([i, step])}).replace_step(np.int32(step))
        ck.save(s)
        before = set(m.steps)
        if step not in m.steps:
          contents[step] = float(i)
        m.save(step)
        removed += len(before - m.steps)
      elif kind == 'pin' and known:
        t = known[-1 - x % len(known)]
        checkpoint_utils.pin_checkpoint(checkpoints.get_checkpoint_dir(d, t))
        m.pinned.add(t)
      elif kind == 'unpin' and m.pinned:
        t = sorted(m.pinned)[x % len(m.pinned)]
        checkpoint_utils.unpin_checkpoint(checkpoints.get_checkpoint_dir(d, t))
        m.pinned.discard(t)
      elif kind == 'restart':
        ck = new()
      elif kind == 'foreign':
        # Remains of an interrupted save and unrelated files.
        n_foreign += 1
        name = [f'checkpoint_{1000 + i}.tmp-123', f'notes_{i}', f'checkpoint_{i}_old', f'xcheckpoint_{i}'][x % 4]
        os.makedirs(os.path.join(d, name))
        foreign.add(name)
      elif kind == 'metrics' and known:
        for j, v in x:
          t = known[-1 - j % len(known)]
          write_metric(d, c['metric'], t, v)
          m.metrics[t] = float(np.float32(v))
          if c['decoy']:
            run, tag = c['metric'].rsplit('/', 1)
            write_metric(d, run + '/' + tag + '2', t, -v)
            write_metric(d, 'zz/' + tag, t, -v)
      got = list(ck.all_steps())
      require(got == sorted(m.steps), lambda: f'after op {i} {kind} {x}: kept {got}, promised {sorted(m.steps)} (pinned {sorted(m.pinned)}, metrics {m.metrics})')
      require(ck.latest_step() == (got[-1] if got else None), 'latest_step')
      for s in m.steps:
        has = bool(gfile.glob(os.path.join(d, f'checkpoint_{s}', 'train_ds*')))
        require(has == (s in m.ds), lambda: f'after op {i} {kind} {x}: input position of step {s} present={has}, promised {sorted(m.ds)}')
        require(checkpoint_utils.is_pinned_checkpoint(os.path.join(d, f'checkpoint_{s}')) == (s in m.pinned), f'pin of {s}')
      require(list(ck.all_dataset_checkpoint_steps()) == sorted(m.ds), 'all_dataset_checkpoint_steps')
      require(all(os.path.isdir(os.path.join(d, f)) for f in foreign), 'an unrelated directory was removed')
    if m.steps:
      last = max(m.steps)
      r = checkpoints.Checkpointer(spec, p, d).restore()
      require(int(np.asarray(r.step)) == last and np.asarray(r.params['w']).tolist() == [contents[last], float(last)], 'the newest checkpoint is not what was saved')
    rec.nontrivial(removed > 0)
    rec.label('pinned kept beyond the limit', any(s in m.pinned for s in m.steps) and removed)
    rec.label('removed', removed)


SUBS = [
    Sub('newest', check, strategy=history(False), quick=200, thorough=8000, weight=2),
    Sub('best', check, strategy=history(True), quick=250, thorough=8000, weight=3),
]
