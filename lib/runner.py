"""Runs a check: spawns workers, merges their evidence, reports the outcome."""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)


def spawn(pid, i, n, out, extra=(), env=None):
  log = open(out + '.log', 'w')
  return subprocess.Popen([sys.executable, os.path.join(here, 'worker.py'), pid, str(i), str(n), out, *extra],
                          stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=env, cwd=root,
                          start_new_session=True)


def kill(p):
  try:
    os.killpg(p.pid, signal.SIGKILL)
  except (ProcessLookupError, PermissionError):
    pass
  p.wait()


def tail(path, n=3000):
  try:
    return open(path, errors='replace').read()[-n:]
  except OSError:
    return ''


def load(path):
  try:
    return json.load(open(path))
  except (OSError, ValueError):
    return None


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('pid')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
  ap.add_argument('--replay')
  ap.add_argument('--workers', type=int)
  a = ap.parse_args()
  meta = json.load(open(os.path.join(root, 'checks', 'meta.json')))[a.pid]
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  n = a.workers or meta.get('workers') or 8
  work = tempfile.mkdtemp(prefix=f'verif-{a.pid}-')
  env = dict(os.environ, VERIF_TIER=a.tier, VERIF_SEED=str(seed), TMPDIR=work, VERIF_WORK=work)
  t0 = time.time()
  try:
    code = go(a, meta, seed, n, work, env, t0)
  finally:
    shutil.rmtree(work, ignore_errors=True)
  sys.stdout.flush()
  sys.exit(code)


def confirm(a, work, env, cur, limit):
  """Reruns one case alone; returns (finished, result, returncode)."""
  f = os.path.join(work, 'confirm.json')
  json.dump(cur, open(f, 'w'))
  out = os.path.join(work, 'confirm.out')
  p = spawn(a.pid, 0, 1, out, ('--replay', f), env)
  try:
    p.wait(limit)
  except subprocess.TimeoutExpired:
    kill(p)
    return False, None, None
  return True, load(out), p.returncode


def save_replay(a, v):
  os.makedirs(os.path.join(root, 'replays'), exist_ok=True)
  import hashlib
  h = hashlib.sha1(json.dumps([v['sub'], v['case']], sort_keys=True, default=str).encode()).hexdigest()[:10]
  path = os.path.join(root, 'replays', f"{a.pid}-{v['sub']}-{h}.json")
  json.dump(dict(property=a.pid, **v, rerun=f'bash run.sh {a.pid} --replay {path}'), open(path, 'w'), indent=1, default=str)
  return path


def go(a, meta, seed, n, work, env, t0):
  if a.replay:
    out = os.path.join(work, 'r')
    p = spawn(a.pid, 0, 1, out, ('--replay', os.path.abspath(a.replay)), env)
    p.wait()
    res = load(out)
    if res is None or res['error']:
      print(tail(out + '.log'), (res or {}).get('error'))
      return 2
    for v in res['violations']:
      print(v['detail'])
      print(f'VIOLATION property={a.pid} replay={a.replay}')
    return 1 if res['violations'] else 0
  procs = {}
  for i in range(n):
    out = os.path.join(work, f'w{i}')
    procs[i] = (spawn(a.pid, i, n, out, (), env), out)
  results, errors, violations = {}, [], []
  stop_at = None
  hard = t0 + (840 if a.tier == 'quick' else 6 * 3600)
  while procs:
    time.sleep(0.1)
    for i, (p, out) in list(procs.items()):
      rc = p.poll()
      cur = load(out + '.current')
      if rc is not None:
        del procs[i]
        kill(p)
        res = load(out)
        if res is None:
          msg = f'worker {i} ended with {rc}: {tail(out + ".log")}'
          if cur is not None and rc < 0 and rc != -signal.SIGKILL:
            ok, res2, rc2 = confirm(a, work, env, cur, 200)
            if ok and rc2 == rc:
              violations.append(dict(sub=cur['sub'], case=cur['case'], message=f'the process died with signal {-rc}', detail=msg, seed=seed))
              continue
          errors.append(msg)
          continue
        results[i] = res
        if res['error']:
          errors.append(res['error'])
        if res['violations']:
          violations += res['violations']
          stop_at = stop_at or time.time() + 8
      elif cur is not None and not os.path.exists(out) and time.time() - cur['t'] > cur['timeout']:
        kill(p)
        del procs[i]
        ok, res2, _ = confirm(a, work, env, cur, min(cur['timeout'] * 1.3, max(20, hard - time.time())))
        if not ok:
          violations.append(dict(sub=cur['sub'], case=cur['case'], message='does not terminate', seed=seed,
                                 detail=f"no result within {cur['timeout']} s, twice"))
          stop_at = time.time()
        elif res2 and res2['violations']:
          violations += res2['violations']
          stop_at = time.time()
        else:
          errors.append(f'worker {i}: case timed out but passes alone: {str(cur)[:500]}')
    if (stop_at and time.time() > stop_at) or time.time() > hard:
      for p, _ in procs.values():
        kill(p)
      if time.time() > hard and not violations:
        errors.append('hard time limit reached')
      break
  # Merge.
  nt, ev, sk, samples, labels, per_sub, known = set(), 0, 0, {}, {}, {}, {}
  for r in results.values():
    nt |= set(r['nontrivial'])
    ev += r['evaluations']
    sk += r['skipped']
    known.update(r['known'])
    for k, v in r['samples'].items():
      samples.setdefault(k, [])
      if len(samples[k]) < 2:
        samples[k] += v[:1]
    for k, v in r['labels'].items():
      labels[k] = labels.get(k, 0) + v
    for k, v in r['per_sub'].items():
      c = per_sub.setdefault(k, [0, 0])
      c[0] += v[0]
      c[1] += v[1]
  uniq = {}
  for v in violations:
    uniq.setdefault(v['sub'], v)
    if len(json.dumps(v['case'], default=str)) < len(json.dumps(uniq[v['sub']]['case'], default=str)):
      uniq[v['sub']] = v
  ids = {}
  for k in sorted(known):
    print(f'KNOWN-FINDING: property={a.pid} {known[k]}')
  ev_file = os.path.join(root, 'evidence', f'{a.pid}.json')
  os.makedirs(os.path.dirname(ev_file), exist_ok=True)
  json.dump(dict(
      property=a.pid, tier=a.tier, seed=seed, level=meta.get('level', 'exploration'),
      coverage=dict(evaluations=ev, distinct_nontrivial=len(nt), rule=meta['rule'],
                    samples=[dict(sub=k, case=c) for k, v in samples.items() for c in v] or ['none'],
                    skipped=sk, workers=n,
                    sub_checks={k: dict(evaluations=v[0], nontrivial=v[1]) for k, v in per_sub.items()},
                    labels=labels, known_findings=sorted(known)),
      assumptions=meta.get('assumptions', []),
      wall_s=round(time.time() - t0, 2), violations=len(uniq)), open(ev_file, 'w'), indent=1, default=str)
  for v in uniq.values():
    path = save_replay(a, v)
    print(f"--- {v['sub']}: {v['message'][:1500]}\n{v['detail'][-2500:]}\ncase: {json.dumps(v['case'], default=str)[:2000]}")
    print(f'VIOLATION property={a.pid} replay={path}')
  if uniq:
    return 1
  if errors:
    print('ERROR (not a verdict):\n' + '\n'.join(errors)[:8000])
    return 2
  missing = [s for s, v in per_sub.items() if not v[0]]
  print(f'{a.pid}: held on {ev} cases ({len(nt)} distinct non-trivial, {sk} outside the domain) in {time.time()-t0:.1f} s; '
        + ', '.join(f'{k}={v[0]}' for k, v in per_sub.items()))
  if missing or not ev:
    print(f'ERROR (not a verdict): nothing explored in {missing}')
    return 2
  return 0


if __name__ == '__main__':
  main()
