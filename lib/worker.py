"""Runs one shard of one check: worker.py ID SHARD NSHARDS OUT [--replay FILE]."""
import importlib
import json
import os
import sys
import time

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.path.insert(0, root)

import core  # pylint: disable=wrong-import-position


def load(pid):
  import boot
  meta = json.load(open(os.path.join(root, 'checks', 'meta.json'))).get(pid, {})
  boot.env(meta.get('devices', 1))
  boot.boot()
  import absl.logging
  absl.logging.set_verbosity('fatal')
  import logging
  logging.disable(logging.CRITICAL)
  import warnings
  warnings.filterwarnings('ignore')
  return importlib.import_module('checks.' + pid.lower())


class Stop(KeyboardInterrupt):
  """Ends a search whose time is up: generating further inputs would only take time."""


class Runner:

  def __init__(self, pid, shard, nshards, out, seed, tier, known):
    self.pid, self.shard, self.nshards, self.out = pid, shard, nshards, out
    self.seed, self.tier, self.known = seed, tier, known
    self.evaluations = 0
    self.skipped = 0
    self.nontrivial = set()
    self.samples = {}
    self.labels = {}
    self.per_sub = {}
    self.known_hits = {}
    self.violations = []
    self.error = None
    self.cur = out + '.current'

  def mark(self, sub, case):
    tmp = self.cur + '.tmp'
    with open(tmp, 'w') as f:
      json.dump({'sub': sub.name, 'case': case, 't': time.time(), 'timeout': sub.timeout}, f, default=str)
    os.replace(tmp, self.cur)

  def one(self, sub, case):
    """Runs one case; raises only for a violation not listed as known."""
    rec = core.Rec()
    self.mark(sub, case)
    try:
      sub.fn(case, rec)
    except core.Skip:
      self.skipped += 1
      return
    except Exception as e:  # pylint: disable=broad-except
      key = getattr(e, 'key', None)
      if key is not None and key in self.known:
        self.known_hits[key] = self.known.get(key)
      else:
        raise
    self.evaluations += 1
    st = self.per_sub.setdefault(sub.name, [0, 0])
    st[0] += 1
    d = sub.name + ':' + core.digest(case)
    if rec.nt and d not in self.nontrivial:
      self.nontrivial.add(d)
      st[1] += 1
      s = self.samples.setdefault(sub.name, [])
      if len(s) < 2:
        txt = core.canon(case)
        s.append(case if len(txt) < 2500 else txt[:2500] + '...')
    for k, v in rec.labels.items():
      k = sub.name + '/' + k
      self.labels[k] = self.labels.get(k, 0) + v

  def fail(self, sub, case, exc):
    if core.is_code_failure(exc):
      self.violations.append({'sub': sub.name, 'case': case, 'message': str(exc)[:2000],
                              'detail': core.describe(exc), 'seed': self.seed})
    else:
      self.error = f'harness error in {sub.name}: case={core.canon(case)[:3000]}\n' + core.describe(exc)

  def run_cases(self, sub, deadline):
    rng = core.rng_for(self.seed, self.pid, sub.name)
    n = sub.shards or self.nshards
    for i, case in enumerate(sub.cases(rng, self.tier)):
      if i % n != self.shard % n:
        continue
      if self.shard >= n:
        return
      if time.time() > deadline:
        core.note(f'{sub.name}: budget reached at case {i}')
        return
      case = json.loads(json.dumps(case))
      try:
        self.one(sub, case)
      except Exception as e:  # pylint: disable=broad-except
        self.fail(sub, case, e)
        return

  def run_hyp(self, sub, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    if sub.shards is not None and self.shard >= sub.shards:
      return
    state = {'best': None, 'failing': {}, 'shrink_deadline': None, 'n': 0}

    def body(case):
      case = json.loads(json.dumps(case))
      c = core.canon(case)
      if c in state['failing']:
        raise state['failing'][c]
      if state['shrink_deadline'] is not None:
        if time.time() > state['shrink_deadline']:
          raise Stop()
      elif time.time() > deadline:
        raise Stop()
      try:
        self.one(sub, case)
      except Exception as e:  # pylint: disable=broad-except
        if state['shrink_deadline'] is None:
          state['shrink_deadline'] = time.time() + (60 if self.tier == 'quick' else 180)
        if not core.is_code_failure(e):
          state['shrink_deadline'] = time.time()
        # One exception class, so that shrinking minimises "it fails".
        f = core.Violation(str(e))
        f.orig = e
        if state['best'] is None or len(c) <= len(core.canon(state['best'][0])):
          state['best'] = (case, e)
        state['failing'][c] = f
        raise f from None

    n = sub.quick * 2 if self.tier == 'quick' else sub.thorough
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    report_multiple_bugs=False,
                    phases=[Phase.explicit, Phase.generate, Phase.target, Phase.shrink],
                    suppress_health_check=list(HealthCheck))(
                        hypothesis.seed(core.seed_for(self.seed, self.pid, sub.name, self.shard))(
                            hypothesis.given(sub.strategy)(body)))
    try:
      test()
    except Stop:
      if state['best'] is not None:
        self.fail(sub, *state['best'])
    except Exception as e:  # pylint: disable=broad-except
      if state['best'] is None:
        self.error = f'harness error generating for {sub.name}:\n' + core.describe(e)
      else:
        self.fail(sub, *state['best'])

  def run(self, mod, budget):
    t0 = time.time()
    subs = list(mod.SUBS)
    for sub in subs:
      self.per_sub[sub.name] = [0, 0]
    total = sum(s.weight for s in subs)
    end = t0 + budget
    rest = total
    for sub in subs:
      now = time.time()
      share = max(2.0, (end - now) * sub.weight / max(rest, 1e-9))
      rest -= sub.weight
      t1 = time.time()
      (self.run_hyp if sub.strategy is not None else self.run_cases)(sub, now + share)
      core.note(f'[{self.pid} {self.shard}] {sub.name}: {self.per_sub.get(sub.name)} in {time.time()-t1:.1f}s')
      if self.violations or self.error:
        break
    self.dump()

  def dump(self):
    with open(self.out + '.tmp', 'w') as f:
      json.dump(dict(evaluations=self.evaluations, skipped=self.skipped,
                     nontrivial=sorted(self.nontrivial), samples=self.samples,
                     labels=self.labels, per_sub=self.per_sub, known=self.known_hits,
                     violations=self.violations, error=self.error), f, default=str)
    os.replace(self.out + '.tmp', self.out)


def main():
  pid, shard, nshards, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  tier = os.environ.get('VERIF_TIER', 'quick')
  known = {}
  kf = os.path.join(root, 'known_findings.json')
  if os.path.exists(kf):
    for e in json.load(open(kf))['findings']:
      if e['property'] == pid and e.get('status') == 'known':
        known[e['key']] = e['what']
  r = Runner(pid, shard, nshards, out, seed, tier, known)
  try:
    mod = load(pid)
  except Exception as e:  # pylint: disable=broad-except
    # A module of the code under test that no longer imports breaks everything
    # it provides; anything else is an error of the harness.
    r.error = 'cannot load the check: ' + core.describe(e)
    r.dump()
    return
  if len(sys.argv) > 6 and sys.argv[5] == '--replay':
    rp = json.load(open(sys.argv[6]))
    sub = {s.name: s for s in mod.SUBS}[rp['sub']]
    try:
      r.one(sub, rp['case'])
    except Exception as e:  # pylint: disable=broad-except
      r.fail(sub, rp['case'], e)
    r.dump()
    return
  budget = float(os.environ.get('VERIF_BUDGET') or (mod.BUDGET[0] * 2 if tier == 'quick' else mod.BUDGET[1]))
  r.run(mod, budget)


if __name__ == '__main__':
  main()
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(0)
