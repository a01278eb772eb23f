"""Path contexts: symbolic exploration and concrete replay share one API."""
import os

from . import terms as tm
from . import sym
from .sym import (SymBool, SymInt, SymStr, SymBytes, mkint, mkstr, mkbytes,
                  mkbool, bterm, is_sym, els_of, PathAbort, PathUnknown,
                  PathStop, Limit)


class Violation(object):
  def __init__(self, label, inputs, draws, ufs, detail, prefix):
    self.label = label
    self.inputs = inputs
    self.draws = draws
    self.ufs = ufs
    self.detail = detail
    self.prefix = prefix


class FS(object):
  """In-memory files, keyed by normalised path."""

  def __init__(self):
    self.files = {}
    self.dirs = set(['/'])
    self.log = []
    self.fail = None   # hook(op, path): raises to inject a fault

  @staticmethod
  def norm(p):
    return os.path.normpath(p)

  def makedirs(self, d):
    d = self.norm(d)
    while d not in self.dirs:
      self.dirs.add(d)
      d = os.path.dirname(d)

  def isdir(self, p):
    return self.norm(p) in self.dirs

  def isfile(self, p):
    return self.norm(p) in self.files

  def exists(self, p):
    return self.isdir(p) or self.isfile(p)

  def listdir(self, d):
    d = self.norm(d)
    if d not in self.dirs:
      raise FileNotFoundError(2, 'No such file or directory', d)
    out = []
    for p in list(self.files) + sorted(self.dirs):
      if p != d and os.path.dirname(p) == d:
        out.append(os.path.basename(p))
    return out

  def remove(self, p):
    n = self.norm(p)
    self.log.append(('remove', n))
    if self.fail:
      self.fail('remove', n)
    if n not in self.files:
      raise FileNotFoundError(2, 'No such file or directory', p)
    del self.files[n]

  def rename(self, a, b):
    a, b = self.norm(a), self.norm(b)
    self.log.append(('rename', a, b))
    if a not in self.files:
      raise FileNotFoundError(2, 'No such file or directory', a)
    self.files[b] = self.files.pop(a)

  def open(self, p, mode='r'):
    n = self.norm(p)
    if self.fail:
      self.fail('open' + mode[0], n)
    if 'r' in mode and '+' not in mode:
      if n not in self.files:
        raise FileNotFoundError(2, 'No such file or directory', p)
      return FSFile(self, n, mode, self.files[n])
    if n in self.dirs:
      raise IsADirectoryError(21, 'Is a directory', p)
    if os.path.dirname(n) not in self.dirs:
      raise FileNotFoundError(2, 'No such file or directory', p)
    if 'x' in mode and n in self.files:
      raise FileExistsError(17, 'File exists', p)
    old = b'' if 'b' in mode else ''
    if 'a' in mode and n in self.files:
      old = self.files[n]
    self.files[n] = old
    self.log.append(('open', n))
    return FSFile(self, n, mode, old)


class FSFile(object):
  def __init__(self, fs, path, mode, data):
    self.fs = fs
    self.name = path
    self.mode = mode
    self.data = data
    if 'b' in mode and isinstance(data, str):
      self.data = data.encode('utf-8')
    elif 'b' not in mode and isinstance(data, bytes):
      self.data = data.decode('utf-8')
    self.pos = 0
    self.closed = False

  def read(self, n=-1):
    if n is None or n < 0:
      r = self.data[self.pos:]
    else:
      r = self.data[self.pos:self.pos + n]
    self.pos += len(r)
    return r

  def readlines(self):
    return self.read().splitlines(True)

  def readline(self):
    return self.readlines()[0]

  def __iter__(self):
    return iter(self.readlines())

  def write(self, s):
    if self.closed:
      raise ValueError('I/O operation on closed file.')
    if ('b' in self.mode) != isinstance(s, bytes):
      raise TypeError('write() argument of the wrong string type')
    if self.fs.fail:
      self.fs.fail('write', self.name)
    self.data = self.data + s
    self.fs.files[self.name] = self.data
    self.fs.log.append(('write', self.name))
    return len(s)

  def writelines(self, ls):
    for l in ls:
      self.write(l)

  def flush(self):
    pass

  def fileno(self):
    return 99

  def close(self):
    self.closed = True

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()
    return False


def resolve(path):
  import importlib
  mod, _, name = path.rpartition('.')
  return getattr(importlib.import_module(mod), name)


def _eq(a, b):
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    if len(a) != len(b):
      return False
    return mkbool(tm.land([bterm(_eq(x, y)) for x, y in zip(a, b)]))
  if isinstance(a, dict) and isinstance(b, dict):
    if len(a) != len(b):
      return False
    out = []
    for k in a:
      if k not in b:
        return False
      out.append(bterm(_eq(a[k], b[k])))
    return mkbool(tm.land(out))
  r = a == b
  return False if r is NotImplemented else r


class SymCtx(object):
  """One symbolic path."""
  mode = 'sym'

  def __init__(self, solver, prefix, params, limits=None):
    self.solver = solver
    self.prefix = prefix
    self.decisions = []
    self.pending = []
    self.pc = []
    self.known = {}
    self.params = params
    self.inputs = {}       # name -> ('bytes'|'int'|'bool', term(s), ...)
    self.draws = []        # (kind, name, value) in order
    self.incomplete = []
    self.reached = {}
    self.checks = 0
    self.violation = None
    self.fs = FS()
    self.limits = limits or {}
    self.deadline = None
    self.notes = {}
    self.honest = None
    self.windows = []
    self.printed = []
    self._pins = 0
    self.branches = 0
    self.stubs = {}
    self.generated = []
    self._cwd = '/sxfs/cwd'
    self.fs.makedirs(self._cwd)

  # -- exploration

  def _ask(self, extra):
    sl = self.solver.slice(self.pc, extra)
    try:
      return self.solver.check(sl + extra)
    except Exception as e:
      if type(e).__name__ == 'Unknown':
        raise PathUnknown(str(e))
      raise

  def branch(self, t):
    if t is tm.TRUE:
      return True
    if t is tm.FALSE:
      return False
    k = self.known.get(t)
    if k is not None:
      return k
    k = self.known.get(tm.lnot(t))
    if k is not None:
      return not k
    i = len(self.decisions)
    if i < len(self.prefix):
      tag, d = self.prefix[i]
      assert tag in 'bf', (tag, d)
      self.decisions.append((tag, d))
      forced = tag == 'f'
    else:
      self._tick()
      nt = tm.lnot(t)
      if not self._ask([t]):
        d, forced = False, True
      elif not self._ask([nt]):
        d, forced = True, True
      else:
        d, forced = True, False
        self.pending.append(self.decisions + [('b', False)])
        self.branches += 1
      self.decisions.append(('f' if forced else 'b', d))
    self.known[t] = d
    if not forced:
      self.pc.append(t if d else tm.lnot(t))
    return d

  def _tick(self):
    if self.deadline is not None:
      import time
      if time.time() > self.deadline:
        raise Limit('time')
    if len(self.decisions) > self.limits.get('depth', 4000):
      raise Limit('depth')

  def _model(self, extra):
    try:
      r, m = self.solver.solve(self.solver.slice(self.pc, extra) + extra, True)
    except Exception as e:
      if type(e).__name__ == 'Unknown':
        raise PathUnknown(str(e))
      raise
    return m if r else None

  def concretize(self, x):
    """Fork over the values of a symbolic int."""
    if type(x) is SymBool:
      return 1 if x else 0
    if type(x) is not SymInt:
      return x
    t = x.t
    w = t.w

    def val(v):
      if x.signed and v >> (w - 1):
        return v - (1 << w)
      return v
    i = len(self.decisions)
    excl = ()
    if i < len(self.prefix):
      tag, d = self.prefix[i]
      if tag == 'v':
        self.decisions.append((tag, d))
        self.pc.append(tm.eq(t, tm.const(d, w)))
        return val(d)
      assert tag == 'x', tag
      excl = d
    self._tick()
    if len(excl) > self.limits.get('values', 300):
      raise Limit('values')
    p = tm.var('pin!%d' % i, w)
    cs = [tm.eq(p, t)] + [tm.lnot(tm.eq(t, tm.const(v, w))) for v in excl]
    m = self._model(cs)
    if m is None:
      raise PathAbort()
    v = m.env.get(p)
    if v is None:
      v = tm.evaluate(t, m.env, m.uf_strict)
    others = [tm.lnot(tm.eq(t, tm.const(u, w))) for u in excl + (v,)]
    if self._ask(others):
      self.pending.append(self.decisions + [('x', excl + (v,))])
    self.decisions.append(('v', v))
    self.pc.append(tm.eq(t, tm.const(v, w)))
    return val(v)

  def pin(self, x, why):
    """Fix a symbolic value to one feasible concrete value (not exhaustive)."""
    if not sym.deep_sym(x):
      return x
    terms = []

    def collect(y):
      ty = type(y)
      if ty is SymBool or ty is SymInt:
        terms.append(y.t)
      elif isinstance(y, sym._Seq):
        terms.extend(e for e in y.els if type(e) is not int)
      elif ty in (list, tuple, set, frozenset, sym.SSet):
        for z in y:
          collect(z)
      elif isinstance(y, dict):
        for k, v in y.items():
          collect(k)
          collect(v)
    collect(x)
    terms = list(dict.fromkeys(terms))
    i = len(self.decisions)
    if i < len(self.prefix):
      tag, vals = self.prefix[i]
      assert tag == 'p', tag
    else:
      self._tick()
      cs = []
      ps = []
      for j, t in enumerate(terms):
        p = tm.var('pin!%d!%d' % (i, j), t.w)
        ps.append(p)
        cs.append(tm.eq(p, t) if t.w else tm.iff(p, t))
      m = self._model(cs)
      if m is None:
        raise PathAbort()
      vals = tuple(m.env[p] for p in ps)
    self.decisions.append(('p', vals))
    if why not in self.incomplete:
      self.incomplete.append(why)
    memo = dict(zip(terms, vals))
    for t, v in memo.items():
      self.pc.append(tm.eq(t, tm.const(v, t.w)) if t.w else
                     (t if v else tm.lnot(t)))

    def rebuild(y):
      ty = type(y)
      if ty is SymBool:
        return bool(memo[y.t])
      if ty is SymInt:
        v = memo[y.t]
        return v - (1 << y.t.w) if y.signed and v >> (y.t.w - 1) else v
      if ty in (SymStr, sym.LazyStr):
        return ''.join(chr(e if type(e) is int else memo[e]) for e in y.els)
      if isinstance(y, sym._Seq):
        return bytes(e if type(e) is int else memo[e] for e in y.els)
      if ty in (list, tuple, set, frozenset, sym.SSet):
        return ty(rebuild(z) for z in y)
      if isinstance(y, dict):
        return {rebuild(k): rebuild(v) for k, v in y.items()}
      return y
    return rebuild(x)

  # -- inputs

  def _newvar(self, name, w, dom=None):
    t = tm.var(name, w)
    t._dom = dom
    return t

  def str(self, name, n, dom=None):
    """An arbitrary byte string (one character per byte) of length n."""
    ts = [self._newvar('%s[%d]' % (name, i), 8, dom) for i in range(n)]
    self.inputs[name] = ('str', ts)
    return mkstr(ts)

  def bytes(self, name, n):
    ts = [self._newvar('%s[%d]' % (name, i), 8) for i in range(n)]
    self.inputs[name] = ('bytes', ts)
    return mkbytes(ts)

  def int(self, name, lo, hi):
    if lo == hi:
      self.inputs[name] = ('int', tm.const(lo, max(1, lo.bit_length())), 0)
      return lo
    w = max(1, (hi - lo).bit_length())
    t = self._newvar(name, w)
    self.inputs[name] = ('int', t, lo)
    if hi - lo != (1 << w) - 1:
      self.pc.append(tm.ule(t, tm.const(hi - lo, w)))
    return mkint(t) + lo

  def bool(self, name):
    t = self._newvar(name, 0)
    self.inputs[name] = ('bool', t)
    return mkbool(t)

  def choose(self, name, options):
    """Fork over the options."""
    options = list(options)
    if len(options) == 1:
      self.inputs[name] = ('int', tm.const(0, 1), 0)
      return options[0]
    return options[int(self.int(name, 0, len(options) - 1))]

  def draw(self, kind, n):
    """Random bytes drawn by the code under test."""
    if len(self.draws) >= self.limits.get('draws', 1 << 30):
      raise PathAbort()      # a stated bound of the instance
    name = 'rnd%d' % len(self.draws)
    ts = [self._newvar('%s[%d]' % (name, i), 8) for i in range(n)]
    v = mkbytes(ts)
    self.draws.append((kind, name, v))
    self.inputs[name] = ('bytes', ts)
    return v

  def draw_int(self, kind, lo, hi):
    name = 'rnd%d' % len(self.draws)
    self.__dict__.setdefault('ranges', {})[name] = (lo, hi)
    if not is_sym(lo) and not is_sym(hi):
      v = self.int(name, lo, hi)
    else:
      # symbolic range: an arbitrary value of the width of hi
      w = sym._coerce(hi)[0].w
      t = self._newvar(name, w)
      self.inputs[name] = ('int', t, 0)
      v = mkint(t)
      self.assume(v >= lo)
      self.assume(v <= hi)
    self.draws.append((kind, name, v))
    return v

  # -- verdicts

  def assume(self, c):
    t = bterm(c)
    if t is tm.TRUE:
      return
    if t is tm.FALSE or not self._feasible(t):
      raise PathAbort()
    self.pc.append(t)
    self.known[t] = True

  def _feasible(self, t):
    # deterministic given the decisions, so it needs no entry of its own
    return self._ask([t])

  def check(self, c, label, detail=None, prefer=()):
    """The property: c must hold on every path that gets here."""
    self.checks += 1
    self.reached[label] = self.reached.get(label, 0) + 1
    t = bterm(c)
    if t is tm.TRUE:
      self.solver.stats.trivial += 1
      return
    nt = tm.lnot(t)
    if t is not tm.FALSE and not self._ask([nt]):
      self.pc.append(t)
      return
    self._violated(label, nt, detail, prefer)

  def fail(self, label, detail=None):
    self.check(False, label, detail)

  def reach(self, label):
    self.reached[label] = self.reached.get(label, 0) + 1

  def _violated(self, label, nt, detail, prefer=()):
    cs = self.pc + [nt]
    m = None
    try:
      for p in list(prefer):
        r, m = self.solver.solve(cs + [bterm(x) for x in p], True)
        if r:
          break
      if m is None:
        r, m = self.solver.solve(cs, True)
    except Exception as e:
      if type(e).__name__ == 'Unknown':
        raise PathUnknown(str(e))
      raise
    if m is None:
      raise PathAbort()
    m = self._realise(cs, m)
    self.violation = self.snapshot(label, m, detail)
    raise PathStop()

  def _realise(self, cs, m):
    """Steer the model towards the real hash and cipher functions: replace
    values of the uninterpreted functions by the real ones and solve again, a
    few times.  Falls back to the last model."""
    from . import primitives
    cs = list(cs)
    for _ in range(12):
      lem = primitives.mismatches(cs, m)
      if not lem:
        return m
      cs.extend(lem)
      try:
        r, m2 = self.solver.solve(cs, True)
      except Exception:
        return m
      if not r:
        return m
      m = m2
    return m

  def snapshot(self, label, m, detail=None):
    env = m.env if m is not None else {}

    def val(t):
      if t.op == 'c':
        return t.args[0]
      if t in env:
        return env[t]
      if t.w == 8 and t._dom is not None:
        d = t._dom
        return (d & -d).bit_length() - 1
      return False if t.w == 0 else 0
    inputs = {}
    for name, spec in self.inputs.items():
      if spec[0] in ('str', 'bytes'):
        inputs[name] = bytes(val(t) for t in spec[1]).hex()
      elif spec[0] == 'int':
        inputs[name] = val(spec[1]) + spec[2]
      else:
        inputs[name] = bool(val(spec[1]))
    draws = [[k, n] for k, n, _ in self.draws]
    ufs = []
    if m is not None:
      for (name, args, w), v in m.table.items():
        ufs.append([name, [[hex(a), aw] for a, aw in args], w, hex(v)])
    if not isinstance(detail, str):
      detail = None      # evaluated on the values of the replay
    return Violation(label, inputs, draws, ufs, detail, list(self.decisions))

  # -- logic helpers usable in both modes

  @staticmethod
  def all(xs):
    return mkbool(tm.land([bterm(x) for x in xs]))

  @staticmethod
  def any(xs):
    return mkbool(tm.lor([bterm(x) for x in xs]))

  @staticmethod
  def no(x):
    return sym.bnot(x)

  @staticmethod
  def implies(a, b):
    return mkbool(tm.lor([tm.lnot(bterm(a)), bterm(b)]))

  @staticmethod
  def xor(a, b):
    """Bytewise exclusive or of byte strings of one length."""
    ea, eb = els_of(a), els_of(b)
    assert len(ea) == len(eb)
    return mkstr([tm.xor([sym.eterm(x), sym.eterm(y)])
                  for x, y in zip(ea, eb)])

  # -- attacker knowledge (MAC and signature unforgeability assumptions)

  def end_honest(self):
    """Messages authenticated so far are the only ones the adversary has seen
    authenticated; from now on verification inputs are adversarial."""
    self.honest = list(self.auth_log)

  @property
  def auth_log(self):
    return self.notes.setdefault('auth', [])

  def axiom(self, c):
    """A fact about the modelled primitives."""
    t = bterm(c)
    if t is not tm.TRUE:
      self.pc.append(t)

  def mac_event(self, name, k, m, out):
    """The code computed a MAC: the adversary's strings hold its value only if
    an honest party authenticated that message under that key."""
    if self.honest is None:
      self.auth_log.append((name, tuple(k), tuple(m)))
      return
    if not self.windows:
      return
    tag = sym.pack(out)
    if tag.op == 'c':
      return
    known = []
    for h in self.honest:
      if h[0] == name and len(h[1]) == len(k) and len(h[2]) == len(m):
        known.append(tm.land([sym._els_eq(h[1], tuple(k)),
                              sym._els_eq(h[2], tuple(m))]))
    ok = tm.lor(known)
    if ok is tm.TRUE:
      return
    for w in self.windows:
      if w.w == tag.w:
        self.axiom(mkbool(tm.lor([tm.lnot(tm.eq(w, tag)), ok])))

  def sig_event(self, kind, keyid, m, sig=None):
    if self.honest is None:
      self.notes.setdefault('sigs', []).append((kind, tuple(keyid), m, sig))

  def secret_event(self, k):
    """The per-message secret of a DSA signature."""
    self.__dict__.setdefault('secrets', []).append(k)

  def verify_axiom(self, kind, keyid, m, ok, sig=None):
    log = self.notes.get('sigs', [])
    same = []
    for k, i, m1, s1 in log:
      if k != kind or len(i) != len(keyid):
        continue
      same_key = mkbool(sym._els_eq(i, tuple(keyid)))
      same.append(self.all([same_key, m1 == m]))
      if s1 is not None:
        self.axiom(self.implies(self.all(
            [same_key, m1 == m, s1[0] == sig[0], s1[1] == sig[1]]), ok))
    if self.honest is not None:
      self.axiom(self.implies(ok, self.any(same)))

  def generate(self, kind, bits, randfunc):
    """PyCrypto's key generation, from a fixed pool of keys."""
    from . import fakes, pool
    if not isinstance(bits, int):
      raise TypeError('an integer is required')
    bits = int(bits)
    used = sum(1 for g in self.generated if g[0] == kind and g[1] == bits)
    t = pool.take(kind, bits, used)
    if t is None:
      if kind == 'rsa' and (bits < 1024 or bits % 256):
        raise ValueError('RSA modulus length must be a multiple of 256 and '
                         '>= 1024')
      raise PathUnknown('no %s key of %d bits in the pool' % (kind, bits))
    if randfunc is None:
      src = 'os'
    else:
      n = len(self.draws)
      from . import models
      try:
        f = models.MODELS.get(randfunc, randfunc)
      except TypeError:
        f = randfunc
      r = f(20)
      src = '+'.join(sorted(set(d[0] for d in self.draws[n:]))) or 'none'
      if not isinstance(r, (bytes, bytearray)):
        raise TypeError('random function must return bytes')
    self.generated.append((kind, bits, src))
    return (fakes.RSAKey if kind == 'rsa' else fakes.DSAKey)(t)

  def cwd(self):
    return self._cwd

  def stub(self, path, fn):
    """Replace a library function, named by its dotted path."""
    self.stubs[resolve(path)] = fn

  # -- oracles, computed independently of the code under test

  @staticmethod
  def sha1(*ss):
    els = ()
    for s in ss:
      els += tuple(els_of(s))
    from . import backend
    return mkstr(backend.sha1(els))

  @staticmethod
  def hmac(key, msg):
    from . import backend
    k = backend.hmac_key(key)
    return mkstr(backend.app('hmac', [k, tuple(els_of(msg))], 20))

  @staticmethod
  def cbc(key, iv, data):
    from . import backend
    return mkstr(backend.cbc_encrypt(key, iv, data))

  @staticmethod
  def cbc_d(key, iv, data):
    from . import backend
    return mkstr(backend.cbc_decrypt(key, iv, data))

  @staticmethod
  def num(s):
    """Big-endian value of a byte string."""
    from . import fakes
    return fakes.b2l(s)

  @staticmethod
  def be(n, size):
    """The integer as a byte string of the given size."""
    from . import fakes
    return mkstr(fakes._fit(n, size))

  @staticmethod
  def bstr(b):
    """Bytes as a byte string."""
    return mkstr(els_of(b))

  @staticmethod
  def raw(s):
    """A byte string as bytes."""
    return mkbytes(els_of(s))

  @staticmethod
  def eq(a, b):
    """Are two plain structures equal?  As a condition, without branching."""
    return _eq(a, b)

  def rsa_p(self, n, e, x):
    from . import fakes
    return fakes.RSAKey((n, e))._apply('rsa_p', x)

  def rsa_s(self, n, e, d, x):
    from . import fakes
    return fakes.RSAKey((n, e, d))._apply('rsa_s', x)

  def dsa_sign(self, key, msg, k):
    """(r, s) of the signature of msg by a lib.Dsa with the secret k."""
    from . import fakes
    m = fakes.b2l(self.raw(self.sha1(msg)))
    return fakes.DSAKey((key.y, key.g, key.p, key.q, key.x))._rs(m, k)

  def raises(self, fn, *types):
    """The exception fn raises, or None; types limits which are caught."""
    try:
      fn()
    except (types or (Exception,)) as e:
      return e
    return None

  def adversarial(self, s):
    """Declare a byte string as chosen by the adversary."""
    els = els_of(s)
    n = len(els) - 19
    # of a long string only the pieces near its ends: assuming less is safe
    for i in range(n) if n < 600 else \
        list(range(48)) + list(range(n - 48, n)):
      w = sym.pack(els[i:i + 20])
      if w.op != 'c':
        self.windows.append(w)

  # -- files

  def dir(self, name, make=True):
    d = '/sxfs/' + name
    if make:
      self.fs.makedirs(d)
    return d

  def read(self, path):
    return self.fs.files[self.fs.norm(path)]

  def write(self, path, data):
    self.fs.files[self.fs.norm(path)] = data

  def files(self, d):
    return sorted(self.fs.listdir(d))

  def snapshot_files(self, d):
    return {f: self.read(d + '/' + f) for f in self.files(d)}

  def exists(self, path):
    return self.fs.exists(path)


class RealCtx(object):
  """Concrete replay of a counterexample (or of one chosen input)."""
  mode = 'real'

  def __init__(self, params, inputs, draws, standin=False, tmp=None):
    self.params = params
    self.vals = inputs
    self.script = list(draws)
    self.draws = []
    self.failed = None
    self.reached = {}
    self.standin = standin
    self.tmp = tmp
    self.printed = []
    self.notes = {}
    self.generated = []
    self.construct = {}
    self.limits = {}
    self.stubs = {}

  def mac_event(self, *a):
    pass

  sig_event = verify_axiom = mac_event

  def secret_event(self, k):
    self.__dict__.setdefault('secrets', []).append(k)

  def pin(self, x, why):
    return x

  def concretize(self, x):
    return x

  def str(self, name, n, dom=None):
    return self.bytes(name, n).decode('latin-1')

  def bytes(self, name, n):
    v = bytes.fromhex(self.vals.get(name, ''))
    if len(v) != n:
      v = (v + bytes(n))[:n]
    return v

  def int(self, name, lo, hi):
    v = self.vals.get(name, lo)
    return v if lo <= v <= hi else lo

  def bool(self, name):
    return bool(self.vals.get(name, False))

  def choose(self, name, options):
    options = list(options)
    v = self.vals.get(name, 0)
    return options[v if 0 <= v < len(options) else 0]

  def draw(self, kind, n):
    name = 'rnd%d' % len(self.draws)
    v = bytes.fromhex(self.vals.get(name, '')) \
        if isinstance(self.vals.get(name, ''), str) else b''
    if len(v) != n:
      import hashlib
      v = b''
      i = 0
      while len(v) < n:
        v += hashlib.sha512(('%s %d' % (name, i)).encode()).digest()
        i += 1
      v = v[:n]
    self.draws.append((kind, name, v))
    return v

  def draw_int(self, kind, lo, hi):
    name = 'rnd%d' % len(self.draws)
    self.__dict__.setdefault('ranges', {})[name] = (lo, hi)
    v = self.vals.get(name)
    v = min(max(v, lo), hi) if isinstance(v, int) else lo
    self.draws.append((kind, name, v))
    return v

  def assume(self, c):
    if not c:
      raise PathAbort()

  def check(self, c, label, detail=None, prefer=()):
    self.reached[label] = self.reached.get(label, 0) + 1
    if not c:
      self.failed = (label, detail() if callable(detail) else detail)
      raise PathStop()

  def fail(self, label, detail=None):
    self.check(False, label, detail)

  def reach(self, label):
    self.reached[label] = self.reached.get(label, 0) + 1

  @staticmethod
  def all(xs):
    return all(list(xs))

  @staticmethod
  def any(xs):
    return any(list(xs))

  @staticmethod
  def no(x):
    return not x

  @staticmethod
  def implies(a, b):
    return (not a) or bool(b)

  @staticmethod
  def xor(a, b):
    assert len(a) == len(b)
    return ''.join(chr(ord(x) ^ ord(y)) for x, y in zip(a, b))

  def end_honest(self):
    pass

  def adversarial(self, s):
    pass

  def axiom(self, c):
    pass

  def generate(self, kind, bits, randfunc):
    from . import pool
    bits = int(bits)
    used = sum(1 for g in self.generated if g[0] == kind and g[1] == bits)
    t = pool.take(kind, bits, used)
    if t is None:
      raise ValueError('unsupported key size')
    if randfunc is None:
      src = 'os'
    else:
      n = len(self.draws)
      randfunc(20)
      src = '+'.join(sorted(set(d[0] for d in self.draws[n:]))) or 'none'
    self.generated.append((kind, bits, src))
    return self.construct[kind](t)

  def cwd(self):
    return os.getcwd()

  def stub(self, path, fn):
    import importlib
    mod, _, name = path.rpartition('.')
    setattr(importlib.import_module(mod), name, fn)

  @staticmethod
  def sha1(*ss):
    from . import backend
    return bytes(backend.sha1(''.join(ss))).decode('latin-1')

  @staticmethod
  def hmac(key, msg):
    from . import backend
    k = backend.hmac_key(key)
    return bytes(backend.app('hmac', [k, tuple(els_of(msg))], 20)).decode(
        'latin-1')

  @staticmethod
  def cbc(key, iv, data):
    from . import backend
    return bytes(backend.cbc_encrypt(key, iv, data)).decode('latin-1')

  @staticmethod
  def cbc_d(key, iv, data):
    from . import backend
    return bytes(backend.cbc_decrypt(key, iv, data)).decode('latin-1')

  @staticmethod
  def num(s):
    return int.from_bytes(bytes(els_of(s)), 'big')

  @staticmethod
  def be(n, size):
    return n.to_bytes(size, 'big').decode('latin-1')

  @staticmethod
  def bstr(b):
    return bytes(b).decode('latin-1')

  @staticmethod
  def raw(s):
    return s.encode('latin-1')

  @staticmethod
  def eq(a, b):
    return bool(_eq(a, b))

  def rsa_p(self, n, e, x):
    from . import backend
    nb = (n.bit_length() + 7) // 8
    return int.from_bytes(bytes(backend.app(
        'rsa_p', [tuple(n.to_bytes(nb, 'big')), tuple(x.to_bytes(nb, 'big'))],
        nb, lambda n_, v: pow(v, e, n_))), 'big')

  def rsa_s(self, n, e, d, x):
    from . import backend
    nb = (n.bit_length() + 7) // 8
    return int.from_bytes(bytes(backend.app(
        'rsa_s', [tuple(n.to_bytes(nb, 'big')), tuple(x.to_bytes(nb, 'big'))],
        nb, lambda n_, v: pow(v, d, n_))), 'big')

  def dsa_sign(self, key, msg, k):
    """(r, s) of the signature of msg by a lib.Dsa with the secret k."""
    from . import fakes
    m = fakes.b2l(self.raw(self.sha1(msg)))
    return fakes.DSAKey((key.y, key.g, key.p, key.q, key.x))._rs(m, k)

  def raises(self, fn, *types):
    try:
      fn()
    except (types or (Exception,)) as e:
      return e
    return None

  def dir(self, name, make=True):
    d = os.path.join(self.tmp, name)
    if make and not os.path.isdir(d):
      os.makedirs(d)
    return d

  def read(self, path):
    with open(path, newline='') as f:
      return f.read()

  def write(self, path, data):
    with open(path, 'w', newline='') as f:
      f.write(data)

  def files(self, d):
    return sorted(os.listdir(d))

  def snapshot_files(self, d):
    return {f: self.read(os.path.join(d, f)) for f in self.files(d)}

  def exists(self, path):
    return os.path.exists(path)
