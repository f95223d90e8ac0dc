"""C02: a crash or error while saving never exposes a broken checkpoint."""
import contextlib
import os
import shutil
import time

import hypothesis.strategies as st
import numpy as np

from checks import ckpt_common as cc
from checks import faults
from checks import state_common as sc
from core import Skip, Sub, Violation, require
from t5x import checkpoint_utils, checkpoints
from tensorflow.io import gfile

BUDGET = (28, 1500)
STATE = dict(params=[dict(path=['enc', 'w'], shape=[4, 8], axes=['embed', 'mlp'], dtype='float32'),
                     dict(path=['enc', 'b'], shape=[4], axes=['embed'], dtype='bfloat16'),
                     dict(path=['scale'], shape=[], axes=[], dtype='float32')],
             opt='adafactor', mut=[dict(path=['m'], shape=[3], axes=['kv'], dtype='int32')], mut_name='metrics', seed=0)


class Position:
  """An input pipeline whose position is one integer."""

  def __init__(self, pos):
    self.pos = pos

  def save(self, filename):
    with gfile.GFile(filename, 'w') as f:
      f.write(f'position {self.pos}.')

  def load(self, filename):
    with gfile.GFile(filename, 'r') as f:
      t = f.read()
    assert t.startswith('position ') and t.endswith('.'), t
    self.pos = int(t[9:-1])


def fault():
  return st.one_of(st.none(), st.fixed_dictionaries(dict(
      frac=st.floats(0, 1), phase=st.sampled_from(['before', 'mid', 'mid', 'after']),
      kind=st.sampled_from(['crash', 'crash', 'oserror', 'tferror']), salt=st.integers(0, 1), retry=st.booleans())))


@st.composite
def history(draw):
  n = draw(st.integers(1, 5))
  steps, s = [], draw(st.integers(0, 3))
  for _ in range(n):
    steps.append(s)
    s += draw(st.sampled_from([1, 5, 95]))
  return dict(keep=draw(st.sampled_from([None, 1, 1, 2, 3])), ds=draw(st.booleans()), n=draw(st.sampled_from([1, 2])),
              opt=draw(st.sampled_from(['adafactor', 'adam', 'inference'])),
              saves=[dict(step=x, seed=draw(st.integers(0, 999)), fault=draw(fault()), pin=draw(st.sampled_from([0, 0, 0, 1, 2])),
                          placed=draw(st.booleans())) for x in steps])


class World:

  def __init__(self, c, d):
    self.c, self.d = c, d
    self.p = sc.make_partitioner(c['n'])
    st_case = dict(STATE, opt=c['opt'])
    self.base = sc.make_state(st_case)
    self.spec = cc.abstract(self.base)
    self.saved = {}     # step -> the snapshots that were handed to save() for it
    self.pos = {}
    self.listed = []
    self.pinned = set()
    self.condemned = set()

  def ckpt(self, d=None, pos=-1):
    return checkpoints.Checkpointer(self.spec, self.p, d or self.d, Position(pos) if self.c['ds'] else None, keep=self.c['keep'])

  def state(self, s, attempt):
    rng = np.random.default_rng([s['seed'], attempt])
    x = sc.fill(self.base, rng, True).replace_step(np.int32(s['step']))
    return sc.place(x, self.p) if s['placed'] else x

  def audit(self, what, min_listed=()):
    ck = self.ckpt()
    listed = list(ck.all_steps())
    require(listed == sorted(set(listed)), lambda: f'{what}: steps not in order: {listed}')
    for s in listed:
      require(s in self.saved, lambda: f'{what}: step {s} was never saved')
      r = self.ckpt()
      try:
        got = sc.flat(r.restore(step=s).state_dict())
        cands = self.saved[s]
        err = None
        for want, pos in cands:
          try:
            cc.compare(got, want, f'{what}: step {s}')
            if self.c['ds']:
              require(r._original_dataset_iterator.pos == pos, lambda: f'{what}: step {s} restores input position {r._original_dataset_iterator.pos}, saved at {pos}')
            err = None
            break
          except Violation as e:
            err = e
        if err is not None:
          raise err
      except Exception as e:  # pylint: disable=broad-except
        if s in self.condemned and s not in self.pinned and self.c['keep'] and len([x for x in listed if x > s]) >= self.c['keep']:
          raise Violation(f'{what}: step {s}, whose deletion was cut off, is listed but cannot be restored: {e}', key='half-deleted-old-checkpoint-listed') from e
        raise Violation(f'{what}: listed step {s} cannot be restored to what was saved: {type(e).__name__}: {e}') from e
    k = self.c['keep']
    for s in self.listed:
      if s not in listed:
        require(s not in self.pinned, lambda: f'{what}: pinned step {s} was lost')
        newer = [x for x in listed if x > s]
        require(k and len(newer) >= k, lambda: f'{what}: step {s} was lost though only {newer} are newer (keep={k})')
    if listed:
      require(ck.latest_step() == listed[-1], 'latest_step')
      if listed[-1] not in self.condemned:
        require(int(np.asarray(self.ckpt().restore().step)) == listed[-1], 'restore() is not the latest step')
    else:
      require(ck.latest_step() is None, 'latest_step of nothing')
    self.listed = listed
    return listed


def copy_tree(src, dst):
  def copy(a, b):
    try:
      shutil.copy2(a, b)
    except FileNotFoundError:  # A lock file of an array store that is just closing.
      pass
  shutil.copytree(src, dst, copy_function=copy)


@contextlib.contextmanager
def clock(w):
  """Successive saves happen in different seconds."""
  real = time.time
  w.offset = getattr(w, 'offset', 0) + 3
  off = w.offset
  time.time = lambda: real() + off
  try:
    yield
  finally:
    time.time = real


def run_save(w, ck, state, f, gb=128):
  """Saves with an optional fault; returns (outcome, Faults)."""
  at = None
  if f is not None:
    # Count the operations on a copy.
    with cc.Scratch() as tmp:
      copy = os.path.join(tmp, 'c')
      copy_tree(w.d, copy)
      with faults.Faults(copy) as fc:
        w.ckpt(copy, 7).save(state)
    at = f.get('at', min(int(f.get('frac', 0) * fc.n), fc.n - 1))
  with clock(w), faults.Faults(w.d, at, *((f['phase'], f['kind'], f['salt']) if f else ())) as fx:
    try:
      ck.save(state, concurrent_gb=gb)
      out = 'done'
    except faults.Crash:
      out = 'crash'
    except Exception as e:  # pylint: disable=broad-except
      if fx.fired is None:
        raise
      out = 'error'
  return out, fx


def check(c, rec):
  known = None
  with cc.Scratch() as d:
    w = World(c, d)
    for i, s in enumerate(c['saves']):
      f = s['fault']
      pos = 100 * i + s['seed']
      ck = w.ckpt(pos=pos)
      attempt = 0
      while True:
        state = w.state(s, attempt)
        w.saved.setdefault(s['step'], []).append((cc.snapshot(state), pos))
        cond = cc.expected(w.saved[s['step']][-1][0], 'float32', None)
        w.saved[s['step']][-1] = (cond, pos)
        out, fx = run_save(w, ck, state, f)
        for name in fx.deleting:
          if name.startswith('checkpoint_') and name[11:].isdigit():
            w.condemned.add(int(name[11:]))
        require(out != 'done' or fx.fired is None or f['kind'] != 'crash', 'a crash was swallowed')
        rec.nontrivial(fx.fired is not None)
        rec.label(f'fault {f["kind"]}/{f["phase"]}' if fx.fired else 'no fault')
        try:
          listed = w.audit(f'save of step {s["step"]} {out}, cut at {fx.fired}')
        except Violation as e:
          if e.key is None:
            raise
          known = known or e
          # Goes on as an operator would: removes the remains.
          for b in list(w.condemned):
            b = os.path.join(d, f'checkpoint_{b}')
            if os.path.isdir(b):
              shutil.rmtree(b)
          w.listed = [x for x in w.listed if x not in w.condemned]
          listed = w.audit('after removing half-deleted remains')
        if out == 'done' and fx.fired is None:
          require(s['step'] in listed, lambda: f'step {s["step"]} saved without error but not listed: {listed}')
          w.condemned.discard(s['step'])
          break
        if s['step'] in listed:
          break
        if not f['retry']:
          break
        # Restart (after a crash) or try again (after an error), this time undisturbed.
        f, attempt = None, attempt + 1
        if out == 'crash':
          ck = w.ckpt(pos=pos)
      if s['pin'] and w.listed:
        t = w.listed[-min(s['pin'], len(w.listed))]
        checkpoint_utils.pin_checkpoint(os.path.join(d, f'checkpoint_{t}'))
        w.pinned.add(t)
  if known is not None:
    raise known


def every_point(rng, tier):
  """Every operation of one save (with an older checkpoint to be retired), each way of cutting it."""
  out = list(points(tier))
  # In any order: a slow machine covers a part of all, not all of a part.
  rng.shuffle(out)
  return out


def points(tier):
  quick = tier == 'quick'
  for at in range(34 if quick else 60):
    for ds in (False, True):
      for placed in (True, False):
        for phase in ('before', 'mid', 'after'):
          for kind in ('crash', 'oserror', 'tferror'):
            if quick and (kind == 'tferror' or kind == 'oserror' and not (ds and placed and phase == 'mid')):
              continue
            yield dict(ds=ds, placed=placed, at=at, phase=phase, kind=kind)


def check_point(c, rec):
  hist = dict(keep=1, ds=c['ds'], n=1, opt='adafactor', saves=[
      dict(step=1, seed=1, fault=None, pin=0, placed=c['placed']),
      dict(step=2, seed=2, fault=dict(at=c['at'], phase=c['phase'], kind=c['kind'], salt=0, retry=True), pin=0, placed=c['placed']),
      dict(step=3, seed=3, fault=None, pin=0, placed=c['placed'])])
  check(hist, rec)


SUBS = [
    Sub('every-operation', check_point, cases=every_point, weight=2),
    Sub('histories', check, strategy=history(), quick=100, thorough=6000, weight=3),
]
