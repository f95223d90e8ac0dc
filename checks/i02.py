"""I02: inference killed anywhere and started again ends with the output of an uninterrupted run."""
import functools
import os
import re
import shutil
import tempfile

import hypothesis.strategies as st
import tensorflow as tf

from checks import faults, infer_common as ic
from core import Sub, require
from t5x import infer

BUDGET = (45, 2400)

CONFIGS = [dict(n=7, batch=2, period=2), dict(n=4, batch=2, period=1), dict(n=5, batch=3, period=1), dict(n=1, batch=2, period=1), dict(n=8, batch=2, period=2), dict(n=9, batch=1, period=2)]


class Ops(faults.Faults):
  """Also cuts the writing of the input position."""

  def __enter__(self):
    super().__enter__()
    me = self
    real = tf.train.Checkpoint.write

    def write(ckpt, path, *a, **k):
      out = []
      if not me.mine(path):
        return real(ckpt, path, *a, **k)

      def partial():
        p = real(ckpt, path, *a, **k)
        if os.path.exists(p + '.index'):
          os.remove(p + '.index')
      me.op('write position', path, lambda: out.append(real(ckpt, path, *a, **k)), partial)
      return out[0]
    self.saved.append((tf.train.Checkpoint, 'write', real))
    tf.train.Checkpoint.write = write
    return self


def inside(c, out):
  ic.run(out, mode=c['mode'], n=c['n'], seed=c['seed'], batch=c['batch'], period=c['period'], ds_iter=c['ds_iter'], shard=tuple(c['shard']), merge=c['merge'])


@functools.lru_cache(None)
def operations(key):
  c = dict(key)
  d = tempfile.mkdtemp(prefix='i02-dry-')
  try:
    with Ops(d) as f:
      inside(c, d)
    return f.n, tuple(f.log)
  finally:
    shutil.rmtree(d, ignore_errors=True)


def expected(c):
  return [ic.answer(c['mode'], c['seed'], i) for i in range(c['shard'][0], c['n'], c['shard'][1])]


def completed(c, out):
  return os.path.exists(os.path.join(out, ic.output_name(c['mode'], c['n'], c['seed'], tuple(c['shard'])) + '.COMPLETED'))


def lines_of(c, out):
  """The output, or a message saying why there is none."""
  paths = [os.path.join(out, ic.output_name(c['mode'], c['n'], c['seed'], tuple(c['shard'])))]
  if not c['merge']:
    tmp = os.path.join(out, f'tmp-{ic.task(c["n"], c["seed"])}-{c["shard"][0]:05}-of-{c["shard"][1]:05}')
    paths = sorted(os.path.join(tmp, f) for f in os.listdir(tmp) if re.search(r'-chunk\d{5}$', f)) if os.path.isdir(tmp) else []
  try:
    return sum(map(ic.read, paths), [])
  except (OSError, ValueError) as e:
    return f'unreadable: {e}'


def right(c, out, what):
  want = expected(c)
  lines = lines_of(c, out)
  require(isinstance(lines, list), lambda: f'{what}: output {lines}')
  names = [w['inputs']['inputs_pretokenized'] for w in want]
  got = [l.get('inputs', {}).get('inputs_pretokenized') for l in lines]
  require(len(lines) == len(want) and all(map(ic.same, want, lines)), lambda: f'{what}: the output lists {got if got != names else lines}, expected {names}')


def snapshot(out, c):
  name = ic.output_name(c['mode'], c['n'], c['seed'], tuple(c['shard']))
  p = os.path.join(out, name)
  return os.stat(p).st_mtime_ns if os.path.exists(p) else None


def crash(c, rec):
  c = dict(c, shard=list(c['shard']))
  key = tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in c.items() if k not in ('crashes',)))
  total, log = operations(key)
  out = tempfile.mkdtemp(prefix='i02-')
  told = []
  try:
    done_at = None
    for at, phase, salt in c['crashes']:
      with Ops(out, at=int(at * total), phase=phase, salt=salt) as f:
        try:
          inside(c, out)
        except faults.Crash:
          pass
      told.append(f.fired or 'not killed')
      rec.label('killed', f.fired is not None)
      if completed(c, out):
        right(c, out, f'marked as completed after {told}')
        if done_at is not None:
          require(snapshot(out, c) == done_at, lambda: f'a completed output was written again: {told}')
        done_at = snapshot(out, c)
      else:
        require(done_at is None, lambda: f'a completed task is not completed any more: {told}')
    what = f'killed at {told}, then run to the end'
    try:
      inside(c, out)
    except Exception as e:  # pylint: disable=broad-except
      require(False, lambda: f'{what}: {type(e).__name__}: {e}')
    require(completed(c, out), lambda: f'{what}: not marked as completed')
    right(c, out, what)
    if c['crashes'] and c['crashes'][0][2] % 2:
      before = snapshot(out, c)
      inside(c, out)
      require(completed(c, out) and snapshot(out, c) == before, 'running a completed task again wrote its output again')
      right(c, out, 'run again')
    rec.nontrivial(any(t != 'not killed' for t in told))
    for t in told:
      rec.label('at: ' + t.split(' ')[0])
  finally:
    shutil.rmtree(out, ignore_errors=True)


def merge(c, rec):
  """Merging lists all chunks in order, however many there are, or fails when one is missing."""
  tmp, out = tempfile.mkdtemp(prefix='i02-chunks-'), tempfile.mkdtemp(prefix='i02-merged-')
  try:
    n, gap = c['n'], c['gap']
    src = []
    for j in range(7):
      src.append(os.path.join(out, f'part{j}'))
      with open(src[-1], 'w') as f:
        f.write(f'{j}\n' * (1 + j % 3))
    for k in range(n):
      if k != gap:
        os.link(src[k % 7 if n > 1000 else (k * 5 + k // 7) % 7], os.path.join(tmp, f'out.jsonl-chunk{k:05}'))
    for k in (0, n - 1):
      open(os.path.join(tmp, f'out.jsonl-chunk{k:05}.COMPLETED'), 'w').close()
      open(os.path.join(tmp, f'other.jsonl-chunk{k:05}'), 'w').close()
    try:
      infer.merge_chunks_to_file(out, 'out.jsonl', tmp, None)
    except (AssertionError, ValueError, OSError):
      require(gap is not None or n == 0, f'merging {n} chunks failed')
      rec.label('missing chunk')
      return
    require(gap is None or gap == n - 1 or n == 1, lambda: f'merging {n} chunks of which number {gap} is missing went unnoticed')
    kept = [k for k in range(n) if k != gap]
    want = ''.join(f'{j}\n' * (1 + j % 3) for j in ((k % 7 if n > 1000 else (k * 5 + k // 7) % 7) for k in kept))
    with open(os.path.join(out, 'out.jsonl')) as f:
      got = f.read()
    require(got == want, lambda: f'{n} chunks of {len(want)} bytes were merged into {len(got)} other bytes')
    rec.nontrivial(n > 2)
    rec.label('many chunks', n > 99999)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)


def merge_cases(rng, tier):
  out = [dict(n=100003, gap=None)]
  for _ in range(20 if tier == 'quick' else 200):
    n = rng.choice([1, 2, 5, 10, 11, 30, 100, 101])
    out.append(dict(n=n, gap=rng.choice([None, None, rng.randrange(n)])))
  return out


def grid(rng, tier):
  """Every operation of small runs, one after the other."""
  out = []
  for ds_iter in (True, False):
    for phase in ('before', 'mid'):
      for k in range(100):
        out.append(dict(CONFIGS[1], mode='score', seed=0, ds_iter=ds_iter, shard=[0, 1], merge=True, crashes=[[(k + 0.5) / 100, phase, k // 2 % 2]]))
  rng.shuffle(out)
  return out


@st.composite
def case(draw):
  return dict(draw(st.sampled_from(CONFIGS)), mode=draw(st.sampled_from(['score', 'predict', 'predict_with_aux'])), seed=0, ds_iter=draw(st.sampled_from([True, True, False])),
              shard=draw(st.sampled_from([[0, 1], [0, 1], [0, 2], [1, 2]])), merge=draw(st.sampled_from([True, True, True, False])),
              crashes=draw(st.lists(st.tuples(st.floats(0, 0.999), st.sampled_from(['before', 'mid', 'after']), st.integers(0, 3)).map(list), min_size=1, max_size=3)))


SUBS = [Sub('merge', merge, cases=merge_cases, quick=30, thorough=300, timeout=200, weight=0.5),
        Sub('every-operation', crash, cases=grid, quick=400, thorough=400, timeout=300, weight=1),
        Sub('histories', crash, strategy=case().filter(lambda c: c['shard'][1] == 1 or c['n'] > 1), quick=60, thorough=3000, timeout=300, weight=2)]
