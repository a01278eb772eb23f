"""Decide one property: python3-vt -m sx.check C01 [quick|thorough]"""
import concurrent.futures
import json
import multiprocessing
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from sx import explore, loader, sym  # noqa: E402

EVIDENCE = os.environ.get('SX_EVIDENCE', os.path.join(VERIF, 'evidence'))
REAL_PYTHON = os.environ.get('SX_PYTHON', '/opt/venv/bin/python')
BUDGET = {'quick': 420, 'thorough': 3300}


def harness_module(name):
  """The harness, uninstrumented, for its instance list."""
  import importlib.util
  sys.path.insert(0, VERIF)
  import importlib
  return importlib.import_module('harness.' + name)


def replay(spec, phase, timeout=60):
  with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
    json.dump(spec, f)
  try:
    p = subprocess.run([REAL_PYTHON, '-B', '-m', 'sx.replay', f.name, phase],
                       cwd=VERIF, capture_output=True, timeout=timeout,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    for line in reversed(p.stdout.decode('utf-8', 'replace').splitlines()):
      if line.startswith('REPLAY '):
        return json.loads(line[7:])
    return {'status': 'broken', 'detail': p.stderr.decode('utf-8',
                                                          'replace')[-800:]}
  except subprocess.TimeoutExpired:
    return {'status': 'hang'}
  finally:
    os.unlink(f.name)


def spec_of(prop, inst, v):
  return {'property': prop, 'instance': inst, 'label': v.label,
          'detail': v.detail if isinstance(v.detail, str) else None,
          'inputs': v.inputs, 'draws': v.draws, 'ufs': v.ufs}


def confirmed(v, r, phase):
  s = r['status']
  if s == 'hang':
    return True
  if s == 'violated':
    # with stand-ins only what the solver claimed counts: values that it did
    # not choose are not consistent with those it did
    return phase == 'real' or r.get('label') == v.label
  if s == 'exception' and not r.get('engine'):
    # an exception is a violation wherever the harness does not expect it
    return phase == 'real' or v.label.startswith('exception')
  return False


class Run(object):

  def __init__(self, prop, tier, jobs, only=None):
    self.prop = prop
    self.tier = tier
    self.jobs = jobs
    self.mod = harness_module(prop.lower())
    self.insts = []
    for i in self.mod.instances(tier):
      i = dict(i)
      i.setdefault('module', prop.lower())
      i.setdefault('params', {})
      i.setdefault('interop', getattr(self.mod, 'INTEROP', False))
      if 'path_s' not in i:
        i['path_s'] = 60 if tier == 'quick' else 240
      if 'timeout_ms' not in i:
        i['timeout_ms'] = 40000 if tier == 'quick' else 200000
      if only and only not in i['name']:
        continue
      self.insts.append(i)
    self.by_name = {i['name']: i for i in self.insts}
    assert len(self.by_name) == len(self.insts), 'instance names repeat'
    self.per = {i['name']: explore.Result() for i in self.insts}
    self.violations = []
    self.unconfirmed = []
    self.errors = []
    self.left = {}
    self.tried = {}
    self.validated = 0
    self.mismatch = []

  def run(self, samples, verbose):
    t0 = time.time()
    deadline = t0 + BUDGET[self.tier]
    ctxm = multiprocessing.get_context('fork')
    with ctxm.Pool(self.jobs, maxtasksperchild=None) as pool:
      queue = [(i, [[]]) for i in self.insts]
      # long ones first
      queue.sort(key=lambda x: -x[0].get('weight', 1))
      active = []
      pendq = []
      sampled = {}
      self.stop = False
      while (queue or active or pendq) and not self.stop:
        while len(active) < self.jobs and queue and time.time() < deadline:
          inst, prefixes = queue.pop(0)
          idle = self.jobs - len(active)
          if len(prefixes) > 1 and idle > 1 and len(queue) < idle:
            n = min(idle, len(prefixes))
            chunks = [prefixes[k::n] for k in range(n)]
            prefixes = chunks[0]
            for c in chunks[1:]:
              queue.insert(0, (inst, c))
          ns = samples - sampled.get(inst['name'], 0)
          sampled[inst['name']] = sampled.get(inst['name'], 0) + max(0, ns)
          active.append((inst, time.time(), pool.apply_async(
              explore.task, ((inst, prefixes, deadline, max(0, ns)),))))
        if time.time() >= deadline and queue:
          for inst, prefixes in queue:
            self.left[inst['name']] = self.left.get(inst['name'], 0) + \
                len(prefixes)
          queue = []
        still = []
        progressed = False
        for inst, started, r in active:
          if not r.ready():
            if time.time() > deadline + 60:
              self.left[inst['name']] = self.left.get(inst['name'], 0) + 1
              progressed = True
              continue
            still.append((inst, started, r))
            continue
          progressed = True
          name, res, stack, err = r.get()
          if err:
            self.errors.append('%s: %s' % (name, err))
          cands = res.candidates
          self.per[name].merge(res)
          if verbose:
            print('%6.1f %s paths=%d checks=%d cand=%d left=%d q=%d %.1fs' % (
                time.time() - t0, name, res.paths, res.checks, len(cands),
                len(stack), res.queries, res.wall), flush=True)
          for n, v in cands:
            pendq.append(pool_replay(self, inst, v))
          if stack and len(self.violations) < 3 and \
              self.tried.get(name, 0) < 24:
            queue.append((inst, stack))
          elif stack:
            self.left[name] = self.left.get(name, 0) + len(stack)
        active = still
        pendq = [p for p in pendq if not p()]
        if self.violations and self.tier == 'quick':
          self.stop = True
        if not progressed:
          time.sleep(0.02)
      pool.terminate()
    # validation of the encoding: sampled path models on the real code
    todo = [(n, v) for i in self.insts for n, v in self.per[i['name']].samples]
    cap = 40 if self.tier == 'quick' else 400
    if len(todo) > cap:
      todo = [todo[k * len(todo) // cap] for k in range(cap)]
    if self.violations:
      todo = []
    with concurrent.futures.ThreadPoolExecutor(self.jobs) as ex:
      reps = list(ex.map(lambda x: replay(
          spec_of(self.prop, self.by_name[x[0]], x[1]), 'standin'), todo))
    for (n, v), r in zip(todo, reps):
      self.validated += 1
      if r['status'] in ('violated', 'hang', 'exception'):
        # the solver's input makes the real code break the property
        spec = spec_of(self.prop, self.by_name[n], v)
        r2 = replay(spec, 'real')
        if confirmed(v, r2, 'real'):
          spec['phase'] = 'real'
          spec['replay'] = r2
          v.label = r2.get('label', r2['status'])
          self.violations.append((self.by_name[n], v, spec, r2))
          continue
      want = {k: c for k, c in v.reached.items()}
      if r['status'] != 'held' or r.get('reached') != want:
        self.mismatch.append((n, r['status'], r.get('detail'), want,
                              r.get('reached'), v.inputs))
    self.wall = time.time() - t0

  def judge(self, inst, v):
    """Replay a candidate; called from the main process."""
    key = (inst['name'], v.label)
    n = self.tried.get(key, 0)
    self.tried[key] = n + 1
    self.tried[inst['name']] = self.tried.get(inst['name'], 0) + 1
    if n >= 8:
      self.unconfirmed.append((inst['name'], v.label, 'not replayed', v.detail))
      return
    spec = spec_of(self.prop, inst, v)
    r = None
    for phase in ('real', 'standin'):
      r = replay(spec, phase)
      if confirmed(v, r, phase):
        spec['phase'] = phase
        spec['replay'] = r
        self.violations.append((inst, v, spec, r))
        return
    self.unconfirmed.append((inst['name'], v.label, r, v.detail))


def pool_replay(run, inst, v):
  done = []

  def step():
    if not done:
      done.append(1)
      if not (run.violations and run.tier == 'quick'):
        run.judge(inst, v)
    return True
  return step


def known(prop):
  out = []
  try:
    with open(os.path.join(VERIF, 'known-findings.jsonl')) as f:
      for line in f:
        line = line.strip()
        if line.startswith('{'):
          d = json.loads(line)
          if d.get('property') == prop:
            out.append(d)
  except OSError:
    pass
  return out


def main(argv):
  prop = argv[0].upper()
  tier = argv[1] if len(argv) > 1 and not argv[1].startswith('-') else \
      os.environ.get('VERIF_TIER', 'quick')
  verbose = '-v' in argv
  only = None
  samples = 1 if tier == 'quick' else 6
  for a in argv:
    if a.startswith('--only='):
      only = a[7:]
    if a.startswith('--samples='):
      samples = int(a[10:])
  jobs = int(os.environ.get('SX_JOBS', os.cpu_count() or 4))
  r = Run(prop, tier, jobs, only)
  r.run(samples, verbose)
  os.makedirs(EVIDENCE, exist_ok=True)
  total = explore.Result()
  for i in r.insts:
    total.merge(r.per[i['name']])
  seen = set()
  exit_code = 0
  shown = 0
  for inst, v, spec, rep in r.violations:
    sig = (inst['name'], v.label)
    k = [d for d in known(prop) if d.get('status') == 'open' and
         d.get('instance') == inst['name'] and d.get('label') == v.label]
    if k:
      if sig not in seen:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[0].get('what')))
      seen.add(sig)
      continue
    exit_code = 1
    shown += 1
    path = os.path.join(EVIDENCE, 'replay-%s-%d.json' % (prop, shown))
    with open(path, 'w') as f:
      json.dump(spec, f, indent=1)
    print('  %s [%s] %s -> %s' % (inst['name'], v.label, v.detail or '',
                                  json.dumps({a: b for a, b in rep.items()
                                              if a != 'reached'})[:700]))
    print('VIOLATION property=%s replay=%s' % (prop, path))
  incon = []
  for k, n in sorted(total.unknown.items()):
    incon.append('%s (%d paths)' % (k, n))
  for k, n in sorted(total.pinned.items()):
    incon.append('pinned to one value: %s (%d paths)' % (k, n))
  for k, n in sorted(r.left.items()):
    incon.append('not finished: %s (%d open prefixes)' % (k, n))
  for u in r.unconfirmed[:10]:
    incon.append('counterexample not reproduced on the real code: %s' %
                 (json.dumps(u, default=str)[:900]))
  for e in r.errors:
    incon.append('engine: ' + e)
  missing = []
  for i in r.insts:
    for lab in i.get('reach', getattr(r.mod, 'REACH', {}).get(i['fn'], [])):
      if not r.per[i['name']].reached.get(lab):
        missing.append('%s: %s' % (i['name'], lab))
  for m in missing[:20]:
    incon.append('vacuous: never reached %s' % m)
  for m in r.mismatch[:10]:
    incon.append('encoding disagrees with the real code: %s' %
                 (json.dumps(m, default=str)[:1500]))
  if not exit_code:
    for line in incon:
      print('INCONCLUSIVE ' + line)
  samples_out = []
  for i in r.insts:
    for n, v in r.per[i['name']].samples[:1]:
      samples_out.append({'instance': n, 'inputs': {
          k: (x if not isinstance(x, str) or len(x) < 90 else x[:90] + '...')
          for k, x in list(v.inputs.items())[:12]}})
  ev = {
      'property': prop, 'tier': tier,
      'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
      'level': 'model_checking',
      'coverage': {
          'states': total.paths,
          'transitions': total.fork,
          'traces_validated_against_impl': r.validated,
          'instances': len(r.insts),
          'assertions_checked': total.checks,
          'queries_to_solver': total.queries,
          'queries_unsat': total.unsat,
          'queries_sat': total.sat,
          'queries_by_simplifier_or_cache': total.trivial,
          'solver_s': round(total.solver_s, 2),
          'infeasible_paths': total.infeasible,
          'functions_encoded': sorted('%s:%s' % f for f in total.functions),
          'bounds': getattr(r.mod, 'BOUNDS', {}).get(tier) if isinstance(
              getattr(r.mod, 'BOUNDS', None), dict) else
              getattr(r.mod, 'BOUNDS', ''),
          'outside_the_bounds': getattr(r.mod, 'OUTSIDE', ''),
          'reached': total.reached,
          'inconclusive': incon,
          'samples': samples_out[:5] or [{'instance': i['name']}
                                         for i in r.insts[:3]],
      },
      'assumptions': COMMON + list(getattr(r.mod, 'ASSUMES', [])),
      'wall_s': round(r.wall, 2),
      'violations': shown,
  }
  with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1)
  print('%s %s: %d instances, %d paths, %d assertions, %d solver queries '
        '(%.1f s), %d validated, %d inconclusive, %.1f s' % (
            prop, tier, len(r.insts), total.paths, total.checks, total.queries,
            total.solver_s, r.validated, len(incon), r.wall))
  if not exit_code and total.checks == 0:
    print('INCONCLUSIVE nothing was decided')
    return 2
  return exit_code


COMMON = [
    'hash, HMAC, AES, RSA and DSA primitives are uninterpreted functions with '
    'their algebraic facts (determinism, AES and RSA inverses, no SHA-1/HMAC '
    'collisions); a counterexample is re-solved with the real functions and '
    'replayed',
    'PyCrypto, M2Crypto, pyasn1, json, base64, struct and the file system are '
    'modelled by sx/fakes.py, sx/models.py and sx/context.py',
]


if __name__ == '__main__':
  sys.exit(main(sys.argv[1:]))
