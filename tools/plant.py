"""Confirms a planted bug in a scratch worktree: python3 tools/plant.py <seeded-id> [--no-check].

Reads seeded/<id>/{patch.diff,demo.sh,meta.json}; prints whether the patch applies, the stable tests
pass, the demo tells the trees apart, and the property's check reports it.
With --edit FILE (python literals: path, old, new tuples) writes patch.diff first.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile

ap = argparse.ArgumentParser()
ap.add_argument('id')
ap.add_argument('--edit')
ap.add_argument('--no-check', action='store_true')
ap.add_argument('--no-tests', action='store_true')
ap.add_argument('--seeds', default='1')
a = ap.parse_args()
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
S = os.path.join(V, 'seeded', a.id)
W = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
T = W + '/t5x-tree'


def sh(cmd, **kw):
  return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


try:
  sh(f'git -C /repo archive HEAD | (mkdir -p {T} && tar x -C {T}) && cd {T} && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x')
  if a.edit:
    for path, old, new in eval(open(a.edit).read()):
      s = open(f'{T}/{path}').read()
      assert s.count(old) == 1, (path, s.count(old), old)
      open(f'{T}/{path}', 'w').write(s.replace(old, new))
    d = sh(f'git -C {T} diff').stdout
    assert d
    open(f'{S}/patch.diff', 'w').write(d)
    sh(f'git -C {T} checkout -q -- .')
  demo = f'{W}/demo'
  shutil.copytree(S, demo)
  env = dict(os.environ, VERIF_REPO=T)
  r = sh(f'bash {demo}/demo.sh', cwd=T, env=env, timeout=300)
  print('demo clean:', r.returncode, r.stdout[-300:] + r.stderr[-600:] if r.returncode else '')
  ap_ = sh(f'git -C {T} apply {S}/patch.diff')
  print('apply:', ap_.returncode, ap_.stderr)
  r = sh(f'bash {demo}/demo.sh', cwd=T, env=env, timeout=300)
  print('demo patched:', r.returncode, (r.stdout + r.stderr)[-400:])
  if not a.no_tests:
    shutil.copytree('/opt/vp/plugins', W + '/plugins')
    sh(f"sed -i 's#/repo/t5x#{T}/t5x#' {W}/plugins/t5x_without_init.py")
    t = open('/opt/vp/test.sh').read().replace('/opt/vp/env.sh', W + '/env.sh').replace('cd /repo', f'cd {T}')
    open(W + '/test.sh', 'w').write(t)
    e = open('/opt/vp/env.sh').read().replace('/opt/vp/plugins:/repo', f'{W}/plugins:{T}')
    open(W + '/env.sh', 'w').write(e)
    sh(f'bash {W}/test.sh {W}/out.json')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    o = json.load(open(W + '/out.json'))
    passed = set(o.get('passed', o.get('pass', [])) if isinstance(o, dict) else o)
    print('tests: stable failing:', sorted(base - passed)[:5] or 'none')
  if not a.no_check:
    pid = json.load(open(f'{S}/meta.json'))['property']
    for s in a.seeds.split(','):
      r = sh(f'{V}/run.sh {pid}', env=dict(env, VERIF_SEED=s, VERIF_TIER='quick'))
      print('check', pid, 'seed', s, 'rc', r.returncode, [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'held' in l], '' if r.returncode in (0, 1) else r.stderr[-800:])
      if r.returncode == 1:
        print('   ', [l[:300] for l in r.stdout.splitlines() + r.stderr.splitlines() if l.startswith(('core.Violation', 'AssertionError'))][:2])
finally:
  shutil.rmtree(W)
