"""Makes /verif/seeded/<id> from tools/seeds.py and says what catches it.

usage: mkseed.py [id...] [--check]"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import seeds  # noqa: E402

T = '/tmp/seedtree'


def sh(cmd, **k):
  return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                        stderr=subprocess.STDOUT, text=True, **k)


def make(s, check):
  out = os.path.join(VERIF, 'seeded', s['id'])
  shutil.rmtree(T, ignore_errors=True)
  sh('git -C /repo worktree prune; cp -a /repo %s' % T)
  os.makedirs(out, exist_ok=True)
  with open(os.path.join(out, 'demo.py'), 'w') as f:
    f.write('from kzdemo import *\n' + s['demo'].lstrip('\n'))
  with open(os.path.join(out, 'demo.sh'), 'w') as f:
    f.write('#!/bin/sh\nexec env PYTHONPATH="$(dirname "$0")" '
            '/opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
  shutil.copy(os.path.join(HERE, 'kzdemo.py'), out)
  demo = 'timeout 200 sh %s/demo.sh' % out
  r = sh(demo, cwd=T)
  if r.returncode:
    return 'DEMO FAILS ON CLEAN TREE: ' + r.stdout[-600:]
  for f, a, b in s['edits']:
    p = os.path.join(T, f)
    t = open(p).read()
    if t.count(a) != 1:
      return 'EDIT MATCHES %d TIMES: %s' % (t.count(a), a)
    open(p, 'w').write(t.replace(a, b))
  d = subprocess.run(['git', '-C', T, 'diff'], stdout=subprocess.PIPE,
                     text=True).stdout
  open(os.path.join(out, 'patch.diff'), 'w').write(d)
  json.dump({'property': s['property'], 'needs': s['needs'],
             'what_it_breaks': s['breaks']},
            open(os.path.join(out, 'meta.json'), 'w'), indent=1)
  r = sh(demo, cwd=T)
  if not r.returncode:
    return 'DEMO PASSES WITH THE BUG'
  msg = 'ok (%s)' % r.stdout.strip().split('\n')[-1][:110]
  t = sh('cd %s/interop && PYTHONDONTWRITEBYTECODE=1 '
         '/opt/venv/bin/python -m pytest -q -p no:cacheprovider '
         'interop_unit_test.py 2>&1 | tail -1' % T)
  if '20 passed' not in t.stdout and '21 passed' not in t.stdout:
    msg += ' TESTS: ' + t.stdout.strip()[-60:]
  if check:
    r = sh('SX_REPO=%s timeout 900 python3-vt -m sx.check %s quick' % (
        T, s['property']), cwd=VERIF)
    v = [x for x in r.stdout.split('\n') if 'VIOLATION' in x]
    msg += ' | %s %s' % ({1: 'CAUGHT', 0: 'MISSED'}.get(r.returncode, 'EXIT%d' %
                                                       r.returncode),
                         v[0][:100] if v else r.stdout[-200:])
  shutil.rmtree(T, ignore_errors=True)
  return msg


args = sys.argv[1:]
check = '--check' in args
ids = [a for a in args if not a.startswith('-')]
for s in seeds.SEEDS:
  if not ids or s['id'] in ids or s['property'] in ids:
    print(s['id'], s['property'], make(s, check), flush=True)
