"""Path exploration of one harness instance, and the worker processes."""
import gc
import os
import signal
import sys
import time
import traceback

from . import loader
from . import solver as solver_mod
from . import sym
from . import terms as tm
from .context import SymCtx

SLICE = 2.0          # seconds a worker keeps a batch of paths


class Coverage(object):
  """Functions of the code under test that were executed (symbolically)."""

  def __init__(self):
    self.seen = set()
    try:
      m = sys.monitoring
      m.use_tool_id(3, 'sx')
      m.register_callback(3, m.events.PY_START, self._hit)
      m.set_events(3, m.events.PY_START)
    except Exception:
      pass

  def _hit(self, code, offset):
    f = code.co_filename
    if f.startswith(loader.SRC) or f.startswith(loader.INTEROP):
      self.seen.add((os.path.relpath(f, loader.REPO), code.co_qualname))
    return sys.monitoring.DISABLE


class Result(object):
  def __init__(self):
    self.paths = 0
    self.infeasible = 0
    self.checks = 0
    self.reached = {}
    self.candidates = []
    self.unknown = {}
    self.pinned = {}
    self.samples = []
    self.queries = self.trivial = self.unsat = self.sat = 0
    self.solver_s = 0.0
    self.wall = 0.0
    self.functions = set()
    self.fork = 0

  def merge(self, o):
    for k in ('paths', 'infeasible', 'checks', 'queries', 'trivial', 'unsat',
              'sat', 'solver_s', 'wall', 'fork'):
      setattr(self, k, getattr(self, k) + getattr(o, k))
    for k in ('reached', 'unknown', 'pinned'):
      d = getattr(self, k)
      for n, v in getattr(o, k).items():
        d[n] = d.get(n, 0) + v
    self.functions |= o.functions
    self.samples += o.samples


def _alarm(*a):
  raise sym.PathTimeout()


def run_path(inst, prefix, solver, res, sample=False):
  ctx = SymCtx(solver, prefix, inst['params'], inst.get('limits'))
  sym.CUR = ctx
  cand = None
  status = 'done'
  signal.signal(signal.SIGALRM, _alarm)
  signal.setitimer(signal.ITIMER_REAL, inst.get('path_s', 60))
  try:
    try:
      kz = loader.fresh(inst.get('interop', False))
      h = loader.harness(inst['module'])
      getattr(h, inst['fn'])(ctx, kz, inst['params'])
    finally:
      signal.setitimer(signal.ITIMER_REAL, 0)
  except sym.PathAbort:
    status = 'infeasible'
  except sym.PathStop:
    status = 'violation'
    cand = ctx.violation
  except sym.PathUnknown as e:
    status = 'unknown'
    key = 'undecided: %s' % str(e)[:120]
    res.unknown[key] = res.unknown.get(key, 0) + 1
  except sym.Limit as e:
    status = 'unknown'
    key = 'limit: %s' % e
    res.unknown[key] = res.unknown.get(key, 0) + 1
  except sym.PathTimeout:
    status = 'timeout'
    cand = _snap(ctx, 'hang', 'path took longer than %s s' %
                 inst.get('path_s', 60), res)
  except (Exception, SystemExit) as e:
    status = 'exception'
    tb = traceback.extract_tb(e.__traceback__)
    where = ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name)
             for f in tb if not f.filename.startswith(os.path.dirname(__file__))]
    engine = [f for f in tb if f.filename.startswith(os.path.dirname(__file__))]
    detail = '%s: %s at %s' % (type(e).__name__, _text(e), ' < '.join(
        reversed(where[-4:])))
    if engine and tb[-1].filename.startswith(os.path.dirname(__file__)):
      detail += ' (in %s:%d)' % (os.path.basename(tb[-1].filename),
                                 tb[-1].lineno)
    cand = _snap(ctx, 'exception ' + type(e).__name__, detail, res)
  except sym.Signal as e:
    status = 'unknown'
    res.unknown[repr(e)] = res.unknown.get(repr(e), 0) + 1
  sample_v = None
  if sample and status == 'done':
    sample_v = _snap(ctx, 'sample', None, res)
    if sample_v is not None:
      sample_v.reached = dict(ctx.reached)
  sym.CUR = None
  if status == 'infeasible':
    res.infeasible += 1
  else:
    res.paths += 1
  res.checks += ctx.checks
  res.fork += ctx.branches
  for k, v in ctx.reached.items():
    res.reached[k] = res.reached.get(k, 0) + v
  for why in ctx.incomplete:
    res.pinned[why] = res.pinned.get(why, 0) + 1
  if cand is not None:
    res.candidates.append((inst['name'], cand))
  if sample_v is not None:
    res.samples.append((inst['name'], sample_v))
  return status, ctx.pending


def _text(e):
  try:
    s = str(e)
  except BaseException:
    s = ''
  return s[:200] if type(s) is str else ''


def _snap(ctx, label, detail, res):
  try:
    r, m = ctx.solver.solve(ctx.pc, True)
    if not r:
      return None
    m = ctx._realise(ctx.pc, m)
  except Exception as e:
    key = 'undecided: model for %s' % label
    res.unknown[key] = res.unknown.get(key, 0) + 1
    return None
  return ctx.snapshot(label, m, detail)


class Worker(object):
  """Keeps one solver per instance while working on it."""

  def __init__(self):
    loader.install()
    sys.setrecursionlimit(6000)
    sys.set_int_max_str_digits(0)
    self.cov = Coverage()
    self.current = None
    self.solver = None
    self.mark = None

  def run(self, inst, prefixes, deadline, samples=0):
    if self.current != inst['name']:
      self.solver = None
      tm.reset()
      gc.collect()
      self.solver = solver_mod.Solver(inst.get('timeout_ms', 60000))
      self.current = inst['name']
    res = Result()
    st = self.solver.stats
    before = (st.queries, st.trivial, st.unsat, st.sat, st.time)
    t0 = time.time()
    stack = list(prefixes)
    n = 0
    while stack:
      p = stack.pop()
      n += 1
      status, pending = run_path(inst, p, self.solver, res,
                                 len(res.samples) < samples)
      stack.extend(pending)
      if len(res.candidates) >= 4 or time.time() - t0 > SLICE or \
          time.time() > deadline:
        break
      if len(self.solver.cache) > 200000:
        self.solver.cache.clear()
    res.queries = st.queries - before[0]
    res.trivial = st.trivial - before[1]
    res.unsat = st.unsat - before[2]
    res.sat = st.sat - before[3]
    res.solver_s = st.time - before[4]
    res.wall = time.time() - t0
    res.functions = set(self.cov.seen)
    return res, stack


_w = None


def task(args):
  global _w
  if _w is None:
    _w = Worker()
  inst, prefixes, deadline, samples = args
  try:
    r, stack = _w.run(inst, prefixes, deadline, samples)
    return inst['name'], r, stack, None
  except MemoryError:
    return inst['name'], Result(), [], 'out of memory'
  except BaseException as e:
    return inst['name'], Result(), [], ''.join(
        traceback.format_exception(e))[-1500:]
