"""T04: training actions stop training exactly when their condition holds."""
import math

import clu.values
import hypothesis.strategies as st

from checks import ckpt_common as cc
from checks import train_common as tc
from core import Sub, raises, require
from t5x import trainer as trainer_lib

BUDGET = (20, 900)
GRID = st.integers(-16, 16).map(lambda i: i / 8)
BAD = ['nan', 'inf', '-inf']


def num(v):
  return float(v)


# --- The actions alone -------------------------------------------------------


@st.composite
def early_case(draw):
  n = draw(st.integers(1, 12))
  return dict(mode=draw(st.sampled_from(['min', 'max'])), patience=draw(st.integers(2, 5)), atol=draw(st.sampled_from([0.0, 0.125, 0.5])),
              rtol=draw(st.sampled_from([0.0, 0.0, 0.25, 0.5])),
              obs=draw(st.lists(st.tuples(GRID, st.sampled_from(['scalar'] * 6 + ['float', 'no task', 'no metric', 'text'])).map(list), min_size=n, max_size=n)))


def stalled(values, mode, patience, atol, rtol):
  """Whether none of the last patience - 1 comparisons was an improvement by more than the tolerance... documented as delta = atol + rtol * previous."""
  if len(values) < patience:
    return False
  last = values[-patience:]
  for prev, cur in zip(last, last[1:]):
    delta = atol + rtol * abs(prev)
    improved = cur < prev - delta if mode == 'min' else cur > prev + delta
    if improved:
      return False
  return True


def observation(task, metric, v, kind):
  if kind == 'no task':
    return {'other': {metric: clu.values.Scalar(v)}}
  if kind == 'no metric':
    return {task: {'other': clu.values.Scalar(v)}, 'other': {metric: clu.values.Scalar(v)}}
  if kind == 'text':
    return {task: {metric: clu.values.Text('x')}}
  other = {'other': clu.values.Scalar(-v)}
  return {'decoy': {metric: clu.values.Scalar(-v)}, task: dict(other, **{metric: v if kind == 'float' else clu.values.Scalar(v)})}


def early(c, rec):
  a = trainer_lib.EarlyStoppingAction(('task', 'loss'), c['mode'], c['patience'], c['atol'], c['rtol'])
  seen = []
  for i, (v, kind) in enumerate(c['obs']):
    got = a.run(None, observation('task', 'loss', v, kind))
    want = False
    if kind in ('scalar', 'float'):
      seen.append(v)
      want = stalled(seen, c['mode'], c['patience'], c['atol'], c['rtol'])
    require(bool(got) == want, lambda: f'after {seen} ({kind}): stop={got}, expected {want}; mode {c["mode"]} patience {c["patience"]} atol {c["atol"]} rtol {c["rtol"]}')
    if want:
      rec.label('stopped')
      rec.nontrivial()
      return
  rec.nontrivial(len(seen) >= c['patience'])


def early_bad(c, rec):
  for kw in (dict(mode='avg'), dict(mode='min', atol=-1.0), dict(mode='max', rtol=-0.5)):
    require(raises(lambda: trainer_lib.EarlyStoppingAction(('a', 'b'), **kw), ValueError), f'{kw} accepted')  # pylint: disable=cell-var-from-loop
  rec.nontrivial()


@st.composite
def nan_case(draw):
  v = st.one_of(GRID.map(str), st.sampled_from(BAD + ['1e300', '-1e300', '1e-320', '0.0']))
  return dict(obs=draw(st.lists(st.tuples(v, st.sampled_from(['scalar'] * 6 + ['no task', 'no metric', 'text'])).map(list), min_size=1, max_size=8)), default=draw(st.booleans()))


def nan(c, rec):
  metric = 'loss' if c['default'] else 'acc'
  a = trainer_lib.TerminateOnNanAction('task') if c['default'] else trainer_lib.TerminateOnNanAction('task', metric)
  for s, kind in c['obs']:
    v = float(s)
    got = a.run(None, observation('task', metric, v, kind))
    want = kind == 'scalar' and not math.isfinite(v)
    require(bool(got) == want, lambda: f'value {v} ({kind}): stop={got}, expected {want}')
    rec.nontrivial()
    rec.label('stopped', want)


# --- The actions in the training loop -----------------------------------------


@st.composite
def loop_case(draw):
  u = draw(st.integers(1, 3))
  total = draw(st.integers(1, 14))
  vals = st.lists(GRID, min_size=total + 1, max_size=total + 1)
  def mode_actions():
    return draw(st.lists(st.one_of(
        st.tuples(st.just('at'), st.integers(0, 14)).map(list), st.tuples(st.just('early'), st.integers(2, 4), st.sampled_from(['min', 'max'])).map(list),
        st.just(['nan'])), max_size=2))
  return dict(period=draw(st.sampled_from([None, 0, u, 2 * u])), eval_period=draw(st.sampled_from([0, u, 2 * u])), ckpt_steps=draw(st.sampled_from([None, [3, 7]])),
              total=total, stats_period=draw(st.sampled_from([None, 1, 2])), train_eval=draw(st.booleans()), infer_eval=draw(st.booleans()), before=draw(st.booleans()),
              concurrent=draw(st.sampled_from([False, False, True])), save=draw(st.booleans()),
              train_vals=draw(vals), eval_vals=draw(vals), infer_vals=draw(vals), nan_at=draw(st.one_of(st.none(), st.integers(0, total))),
              acts=dict(TRAIN=mode_actions(), TRAIN_EVAL=mode_actions(), INFER_EVAL=mode_actions()))


TASK = dict(TRAIN=('train', 'loss'), TRAIN_EVAL=('t', 'loss'), INFER_EVAL=('task', 'acc'))


class At(trainer_lib.BaseAction):
  """Asks to stop once, at a given step."""

  def __init__(self, mode, step, log):
    self.mode, self.step, self.log = mode, step, log

  def run(self, train_state, metrics_by_task):
    task, metric = TASK[self.mode]
    v = metrics_by_task[task][metric]
    self.log.append((self.mode, int(train_state.step), float(getattr(v, 'value', v))))
    return int(train_state.step) == self.step


def loop(c, rec):
  log = []
  if any(a[0] == 'early' for a in c['acts']['TRAIN']):
    # How a not-a-number value counts for early stopping is not specified.
    c = dict(c, nan_at=None)
  def value(which):
    def f(step):
      if which == 'train_vals' and step == c['nan_at']:
        return math.nan
      return c[which][step]
    return f
  script = tc.Script(train_metrics=value('train_vals'), eval_metrics=value('eval_vals'), infer_metrics=value('infer_vals'))
  def build(mode, a):
    if a[0] == 'at':
      return At(mode, a[1], log)
    if a[0] == 'early':
      return trainer_lib.EarlyStoppingAction(TASK[mode], a[2], a[1])
    return trainer_lib.TerminateOnNanAction(*TASK[mode])
  actions = {m: [build(m, a) for a in lst] for m, lst in c['acts'].items() if lst}
  # Every mode also has a witness that never asks to stop.
  for m in c['acts']:
    actions.setdefault(m, []).append(At(m, -1, log))
  with cc.Scratch() as d:
    step, state = tc.run(c, d, script, actions=actions)
  # Where a stop is first requested, from the events and the actions' definitions.
  hist = {m: [] for m in c['acts']}
  want_log, stop_at, extra = [], None, False
  def fire(mode, s, v):
    if c['concurrent'] and mode != 'TRAIN_EVAL':
      return False
    out = False
    if not math.isnan(v):
      hist[mode].append(v)
    for a in c['acts'][mode]:
      if a[0] == 'at':
        want_log.append((mode, s, v))
        out |= s == a[1]
      elif a[0] == 'early':
        out |= not math.isnan(v) and stalled(hist[mode], a[2], a[1], 0.0, 0.0)
      elif mode != 'INFER_EVAL':  # An infer metric is a plain float, which that action documents as not handled.
        out |= not math.isfinite(v)
    want_log.append((mode, s, v))
    return out
  for e in script.log:
    if e[0] not in ('train', 'eval', 'infer'):
      continue
    if e[0] == 'train':
      require(stop_at is None, lambda: f'trained {e[:3]} although a stop was requested at step {stop_at}; events {[x[:3] for x in script.log if x[0] in ("train", "eval", "infer", "save")]}')
    s = e[1] + e[2] if e[0] == 'train' else e[1]
    mode, vals = {'train': ('TRAIN', 'train_vals'), 'eval': ('TRAIN_EVAL', 'eval_vals'), 'infer': ('INFER_EVAL', 'infer_vals')}[e[0]]
    if fire(mode, s, value(vals)(s)) and stop_at is None:
      stop_at = s
  norm = lambda l: [(m, s, 'nan' if math.isnan(v) else v) for m, s, v in l]
  require(norm(log) == norm(want_log), lambda: f'actions ran as {log}, expected {want_log}')
  end = c['total'] if stop_at is None else stop_at
  require(step == end and int(state.step) == end, lambda: f'ended at {step}, expected {end} (stop requested at {stop_at})')
  rec.nontrivial(stop_at is not None and stop_at < c['total'])
  rec.label('stopped early', stop_at is not None and stop_at < c['total'])
  rec.label('ran to the end', stop_at is None)


SUBS = [Sub('early', early, strategy=early_case(), quick=300, thorough=30000, weight=1),
        Sub('nan', nan, strategy=nan_case(), quick=200, thorough=10000, weight=.5),
        Sub('arguments', early_bad, cases=lambda rng, tier: [dict(i=0)], weight=.1),
        Sub('loop', loop, strategy=loop_case(), quick=160, thorough=20000, weight=3, timeout=60)]
