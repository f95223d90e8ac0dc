"""T03: the training loop checkpoints and evaluates at exactly the requested steps."""
import gc

import hypothesis.strategies as st

from checks import ckpt_common as cc
from checks import train_common as tc
from core import Sub, require
from t5x import trainer as trainer_lib, utils

BUDGET = (20, 900)


@st.composite
def case(draw):
  u = draw(st.integers(1, 5))
  mult = st.sampled_from([None, 0, 1, 1, 2, 3, 4, 6])
  def per(m):
    return None if m is None else m * u
  odd = draw(st.sampled_from([0] * 9 + [1]))  # sometimes periods that are not multiples of each other
  return dict(period=per(draw(mult)), eval_period=(per(draw(mult)) or 0) + odd, gc=draw(st.sampled_from([0, 0, 0, u, 2 * u])),
              ckpt_steps=draw(st.one_of(st.none(), st.just([]), st.lists(st.integers(0, 45), max_size=6, unique=True).map(sorted))),
              total=draw(st.integers(0, 40)), relative=draw(st.sampled_from([None, None, None, 1, 4, 9])),
              stats_period=draw(st.sampled_from([None, None, 1, 2, 3, 5, 7])), train_eval=draw(st.booleans()), infer_eval=draw(st.booleans()),
              before=draw(st.booleans()), save=draw(st.sampled_from([True] * 5 + [False])), concurrent=draw(st.booleans()),
              preempt=draw(st.lists(st.tuples(st.integers(0, 40), st.integers(0, 1)).map(list), max_size=2)), restarts=draw(st.integers(0, 1)))


def plan(c, s0, total, upto=None):
  """The events of a run in order."""
  period = (c['period'] or 0) if c['save'] else 0
  steps = set(c['ckpt_steps'] or []) if c['save'] else set()
  on = c['train_eval'] or c['infer_eval']
  ep = c['eval_period'] if on else 0
  def evals(s):
    return ([('eval', s)] if c['train_eval'] else []) + ([('infer', s)] if c['infer_eval'] else [])
  out = evals(s0) if c['before'] else []
  if period:
    out.append(('save', s0))
  for s in range(s0 + 1, total + 1):
    if upto is not None and s > upto:
      break
    d = s - s0
    if (period and (d % period == 0 or s == total)) or s in steps:
      out.append(('save', s))
    if ep and (d % ep == 0 or s == total):
      out += evals(s)
  return out


def compatible(c):
  on = c['train_eval'] or c['infer_eval']
  ps = [p for p in ((c['period'] if c['save'] else 0), c['eval_period'] if on else 0, c['gc']) if p]
  return all(p % min(ps) == 0 for p in ps) if ps else True


_FROZEN = []


def check(c, rec):
  if not _FROZEN:
    # Keeps the collections that the loop asks for cheap.
    gc.freeze()
    _FROZEN.append(1)
  preempts = [tuple(p) for p in c['preempt']]
  runs = [*preempts] + [None] * (1 + c['restarts'])
  with cc.Scratch() as d:
    for r in runs:
      existing = utils.checkpoints.all_steps(d)
      s0 = max(existing, default=0)
      total = s0 + c['relative'] if c['relative'] else c['total']
      script = tc.Script(preempt_at=r[0] if r else None, preempt_mid=r[1] if r else 0)
      err = result = None
      try:
        result = tc.run(c, d, script)
      except (ValueError, trainer_lib.PreemptionError) as e:
        err = e
      finally:
        was_enabled = gc.isenabled()
        gc.enable()
      got = [e[:2] for e in script.log if e[0] in ('save', 'eval', 'infer')]
      what = lambda: f'run from {s0} to {total}, events {got}'
      if not compatible(c):
        require(isinstance(err, ValueError), lambda: f'periods that do not divide each other accepted: {what()}')
        require(not any(e[0] == 'train' for e in script.log), lambda: f'trained before rejecting: {what()}')
        rec.label('rejected periods')
        return
      if total < s0:
        require(isinstance(err, ValueError), lambda: f'total before start accepted: {what()}')
        require(not any(e[0] == 'train' for e in script.log), lambda: f'trained beyond the total: {what()}')
        rec.label('rejected total')
        return
      trains = [e for e in script.log if e[0] == 'train']
      pos = s0
      for _, step, n, start, batches in trains:
        require(step == pos and start == pos and n >= 1, lambda: f'train({step}, {n}) called with start_step={start}, expected to be at {pos}: {what()}')
        require(batches == list(range(pos - s0, pos - s0 + n)), lambda: f'train at {pos} used batches {batches}: {what()}')
        require(not c['stats_period'] or n <= c['stats_period'], lambda: f'{n} steps without a summary, asked for every {c["stats_period"]}: {what()}')
        pos += n
        rec.label('train')
      if isinstance(err, trainer_lib.PreemptionError):
        at = [e for e in script.log if e[0] == 'preempted'][0][1]
        want = plan(c, s0, total, upto=pos)
        if c['save'] and c['period'] and ('save', at) not in want:
          want.append(('save', at))
        require(got == want, lambda: f'preempted at {at}: got {what()}, want {want}')
        rec.label('preempted')
        rec.nontrivial(pos > s0)
        continue
      require(err is None, lambda: f'{err!r}: {what()}')
      want = plan(c, s0, total)
      require(got == want, lambda: f'got {what()}, want {want}')
      require(pos == total and result[0] == total and int(result[1].step) == total, lambda: f'trained to {pos}, returned {result[0]}: {what()}')
      require(script.log[-1][0] in ('close', 'close_infer'), lambda: f'not closed: {script.log[-3:]}')
      require(was_enabled or not (total > s0), lambda: f'garbage collection left disabled: {what()}')
      rec.nontrivial(len(want) >= 3 and total > s0)
      rec.label('resumed', s0 > 0 and total > s0)
      rec.label('explicit steps', c['save'] and c['ckpt_steps'] and any(s0 < s <= total for s in c['ckpt_steps']))


SUBS = [Sub('loop', check, strategy=case(), quick=260, thorough=20000, timeout=60)]
