"""T02: interrupted and resumed training equals uninterrupted training."""
import os

import hypothesis.strategies as st
import jax
import numpy as np

from checks import ckpt_common as cc
from checks import loop_common as lc
from core import Sub, require
from t5x import checkpoints, utils

BUDGET = (35, 1200)


@st.composite
def case(draw):
  total = draw(st.integers(2, 7))
  save_ds = draw(st.sampled_from([True, True, True, False]))
  kinds = st.sampled_from(['crash', 'preempt', 'end'])
  stops = draw(st.lists(st.tuples(kinds, st.integers(0, total)).map(list), min_size=1, max_size=3))
  period = draw(st.integers(1, 3))
  return dict(opt=draw(st.sampled_from(['adafactor', 'adafactor_mom', 'adam', 'sgd_mom', 'multi'])), mutable=draw(st.booleans()),
              examples=draw(st.sampled_from([4, 6, 9, 11])), seed=draw(st.integers(0, 999)), shuffle=draw(st.booleans()), batch=4,
              micro=draw(st.sampled_from([None, 2])), period=period, save_ds=save_ds, orbax=draw(st.booleans()), keep=draw(st.sampled_from([None, None, 1, 2])),
              stats=draw(st.sampled_from([None, 1, 1, 2])), eval=draw(st.booleans()), total=total, stops=stops, prefetch=draw(st.booleans()))


def leaves(state):
  return {jax.tree_util.keystr(k): np.asarray(v) for k, v in jax.tree_util.tree_flatten_with_path(state.state_dict())[0]}


def same(a, b):
  return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def per_step(log):
  """{step: [batch ids]} of the steps one run took, {(step, n): metrics} and {step: eval metrics}."""
  ids, met, ev = {}, {}, {}
  for e in log:
    if e[0] == 'train':
      for i, b in enumerate(e[3]):
        ids[e[1] + i] = b
      met[e[1], e[2]] = e[4]
    elif e[0] == 'eval':
      ev[e[1]] = e[2]
  return ids, met, ev


def check(c, rec):
  total = c['total']
  ep = c['period'] if c['eval'] else 0
  with cc.Scratch() as top:
    plain = os.path.join(top, 'plain')
    log, res = lc.run(dict(c, period=None, save_ds=False, orbax=False, stats=1), plain, total, eval_period=ep)
    require(not isinstance(res, BaseException), lambda: f'uninterrupted run stopped: {res!r}')
    ids0, met0, ev0 = per_step(log)
    require(sorted(ids0) == list(range(total)), lambda: f'uninterrupted run took steps {sorted(ids0)} of {total}')
    final0 = leaves(res[1])
    for s in range(total):
      want = float(np.float32(0.02) / np.float32(1 + s))
      got = met0[s, 1]['learning_rate']
      require(abs(got - want) <= 1e-6 * want, lambda: f'learning rate at step {s}: {got}, schedule {want}')
    noises = [met0[s, 1]['noise'] for s in range(total)]
    require(len(set(noises)) == total, lambda: f'randomness repeats between steps: {noises}')

    d = os.path.join(top, 'split')
    at = 0
    trained = 0
    for kind, s in [*c['stops'], ['end', total]]:
      existing = checkpoints.all_steps(d)
      at = max(existing, default=0)
      skip = 0 if c['save_ds'] else at
      fail = None
      stop = total
      if kind == 'end':
        stop = max(s, at)
      else:
        fail = (kind, s)
      what = lambda: f'steps {existing} saved, run ({kind} at {s})'
      log, res = lc.run(c, d, stop, fail=fail, skip=skip, eval_period=ep)
      ids, met, ev = per_step(log)
      for k, b in ids.items():
        require(b == ids0[k], lambda: f'step {k} used examples {b}, uninterrupted {ids0[k]}; {what()}')
      for (k, n), m in met.items():
        want = {}
        for i in range(n):
          for name in ('loss', 'ids', 'noise'):
            want[name] = want.get(name, np.float32(0)) + np.float32(met0[k + i, 1][name])
        for name, w in want.items():
          tol = 0 if n == 1 else 1e-5 * abs(w)
          require(abs(m[name] - w) <= tol, lambda: f'{name} over steps {k}..{k + n - 1}: {m[name]}, uninterrupted {w}; {what()}')
        if n == 1:
          require(m['learning_rate'] == met0[k, 1]['learning_rate'], lambda: f'learning rate at step {k}; {what()}')
      for k, m in ev.items():
        if k in ev0:
          require(m == ev0[k], lambda: f'evaluation at step {k}: {m}, uninterrupted {ev0[k]}; {what()}')
          rec.label('eval compared')
      stopped = isinstance(res, BaseException)
      if not stopped:
        require(res[0] == stop and sorted(ids) == list(range(at, stop)), lambda: f'run to {stop} took steps {sorted(ids)}; {what()}')
      else:
        rec.label('stopped by ' + kind)
      trained += len(ids)
      rec.nontrivial(at > 0 and ids)
      rec.label('resumed with training', at > 0 and ids)
      if res is not None and not stopped and stop == total:
        final = leaves(res[1])
        require(final.keys() == final0.keys(), lambda: f'state entries {sorted(final.keys() ^ final0.keys())}; {what()}')
        for k in final:
          require(same(final[k], final0[k]), lambda: f'final {k}: {final[k].ravel()[:4]}, uninterrupted {final0[k].ravel()[:4]}; {what()}')


SUBS = [Sub('resume', check, strategy=case(), quick=14, thorough=600, timeout=120)]
