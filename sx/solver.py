"""Deciding satisfiability of term constraints with z3."""
import time

import z3

from . import terms as tm


class Unknown(Exception):
  pass


class Stats(object):
  def __init__(self):
    self.queries = 0      # decided by z3
    self.trivial = 0      # decided by simplification or the query cache
    self.unsat = 0
    self.sat = 0
    self.time = 0.0


class Solver(object):

  def __init__(self, timeout_ms=60000):
    self.stats = Stats()
    self.timeout = timeout_ms
    self.cache = {}
    self.models = []
    self._funcs = {}
    z3.set_param('memory_max_size', 6000)

  # -- conversion

  def conv(self, t):
    stack = [t]
    while stack:
      x = stack[-1]
      if x._z is not None:
        stack.pop()
        continue
      todo = [a for a in x.args if isinstance(a, tm.T) and a._z is None]
      if todo:
        stack.extend(todo)
        continue
      x._z = self._conv1(x)
      stack.pop()
    return t._z

  def _conv1(self, x):
    op, a = x.op, x.args
    if op == 'c':
      return z3.BitVecVal(a[0], x.w)
    if op == 'b':
      return z3.BoolVal(a[0])
    if op == 'v':
      if x.w == 0:
        return z3.Bool(a[0])
      return z3.BitVec(a[0], x.w)
    if op == 'cat':
      return z3.Concat(*[p._z for p in a])
    if op == 'ext':
      return z3.Extract(a[0], a[1], a[2]._z)
    if op == 'sext':
      return z3.SignExt(x.w - a[0].w, a[0]._z)
    if op in ('xor', 'and', 'or'):
      r = a[0]._z
      for p in a[1:]:
        r = r ^ p._z if op == 'xor' else (r & p._z if op == 'and' else r | p._z)
      return r
    if op == 'not':
      return ~a[0]._z
    if op == 'neg':
      return -a[0]._z
    if op == 'add':
      return a[0]._z + a[1]._z
    if op == 'sub':
      return a[0]._z - a[1]._z
    if op == 'mul':
      return a[0]._z * a[1]._z
    if op == 'udiv':
      return z3.UDiv(a[0]._z, a[1]._z)
    if op == 'urem':
      return z3.URem(a[0]._z, a[1]._z)
    if op == 'ite':
      return z3.If(a[0]._z, a[1]._z, a[2]._z)
    if op == 'b64c':
      v = z3.ZeroExt(2, a[0]._z)
      return z3.If(z3.ULT(v, 26), v + 65,
                   z3.If(z3.ULT(v, 52), v + 71,
                         z3.If(z3.ULT(v, 62), v - 4,
                               z3.If(v == 62, z3.BitVecVal(45, 8),
                                     z3.BitVecVal(95, 8)))))
    if op == 'b64x':
      v = z3.ZeroExt(2, a[0]._z)
      return z3.If(z3.ULT(v, 26), v + 65,
                   z3.If(z3.ULT(v, 52), v + 71,
                         z3.If(z3.ULT(v, 62), v - 4,
                               z3.If(v == 62, z3.BitVecVal(a[1], 8),
                                     z3.BitVecVal(a[2], 8)))))
    if op == 'b64d':
      c = a[0]._z
      v = z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c - 65,
                z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c - 71,
                      z3.If(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), c + 4,
                            z3.If(c == 45, z3.BitVecVal(62, 8),
                                  z3.BitVecVal(63, 8)))))
      return z3.Extract(5, 0, v)
    if op == 'uf':
      if self._wide(x):
        # its own constant; lemmas() relates it to the other applications
        return z3.BitVec('app!%d' % x.id, x.w)
      return self._func(a[0], [p.w for p in a[1:]], x.w)(*[p._z for p in a[1:]])
    if op == 'lnot':
      return z3.Not(a[0]._z)
    if op == 'land':
      return z3.And(*[p._z for p in a])
    if op == 'lor':
      return z3.Or(*[p._z for p in a])
    if op == 'eq':
      return a[0]._z == a[1]._z
    if op == 'ult':
      return z3.ULT(a[0]._z, a[1]._z)
    if op == 'slt':
      return a[0]._z < a[1]._z
    raise AssertionError(op)

  @staticmethod
  def _wide(x):
    return x.args[0] in tm.CR or sum(p.w for p in x.args[1:]) > 640

  def _same(self, a, b, upto=None):
    """The arguments of two applications agree (simplified first)."""
    return tm.land([tm.eq(p, q) for p, q in zip(a.args[1:upto],
                                                b.args[1:upto])])

  def _func(self, name, ws, w):
    key = (name, tuple(ws), w)
    f = self._funcs.get(key)
    if f is None:
      f = z3.Function('%s!%s' % (name, '_'.join(map(str, ws))),
                      *([z3.BitVecSort(n) for n in ws] + [z3.BitVecSort(w)]))
      self._funcs[key] = f
    return f

  # -- axioms of the uninterpreted functions, for the applications in a query

  def lemmas(self, roots):
    apps = {}
    for t in tm.walk(roots):
      if t.op == 'uf':
        apps.setdefault(t.args[0], []).append(t)
    out = []
    for name, ts in apps.items():
      wide = [t for t in ts if self._wide(t)]
      for i in range(len(wide)):
        a = wide[i]
        for j in range(i):
          b = wide[j]
          if a.w != b.w or [p.w for p in a.args[1:]] != \
              [p.w for p in b.args[1:]]:
            continue
          e = self._same(a, b)
          if e is not tm.FALSE:
            out.append(z3.Implies(self.conv(e), self.conv(a) == self.conv(b)))
        if name in tm.INVERSE:
          for b in apps.get(tm.INVERSE[name], ()):
            if b.args[-1].w == a.w and a.args[-1].w == b.w and \
                [p.w for p in a.args[1:-1]] == [p.w for p in b.args[1:-1]]:
              e = tm.land([self._same(a, b, -1), tm.eq(b.args[-1], a)])
              if e is not tm.FALSE:
                out.append(z3.Implies(self.conv(e),
                                      self.conv(b) == self.conv(a.args[-1])))
      if name in tm.INVERSE:
        inv = tm.INVERSE[name]
        for t in ts:
          if self._wide(t):
            continue
          # f^-1(k, f(k, x)) == x
          f = self._func(inv, [p.w for p in t.args[1:-1]] + [t.w],
                         t.args[-1].w)
          out.append(f(*([self.conv(p) for p in t.args[1:-1]] +
                         [self.conv(t)])) == self.conv(t.args[-1]))
      elif name in tm.CR:
        for i in range(len(ts)):
          for j in range(i):
            a, b = ts[i], ts[j]
            if [p.w for p in a.args[1:]] == [p.w for p in b.args[1:]]:
              out.append(z3.Implies(self.conv(a) == self.conv(b),
                                    self.conv(self._same(a, b))))
            elif name == 'sha1' or a.args[1] is b.args[1]:
              out.append(self.conv(a) != self.conv(b))
      for (vals, w), v in tm.KNOWN.get(name, {}).items():
        # values of the same function at constants
        for t in ts:
          if t.w != w:
            continue
          hit = z3.BitVecVal(v, w) == self.conv(t)
          if [p.w for p in t.args[1:]] == [x for _, x in vals]:
            e = tm.land([tm.eq(p, tm.const(x, p.w))
                         for p, (x, _) in zip(t.args[1:], vals)])
            if e is not tm.FALSE:
              out.append(z3.Implies(self.conv(e), hit))
            if name in tm.CR:
              out.append(z3.Implies(hit, self.conv(e)))
          elif name == 'sha1':
            out.append(z3.Not(hit))
    return out

  def domains(self, roots):
    out = []
    for t in tm.walk(roots):
      if t.op == 'v' and t.w == 8 and t._dom is not None and t._dom != tm.ALL:
        d, t._dom = t._dom, None
        m = tm.member(t, d)
        t._dom = d
        out.append(self.conv(m))
    return out

  # -- queries

  @staticmethod
  def slice(pc, extra):
    """The constraints of pc connected to extra through shared variables."""
    names = set()
    for e in extra:
      names |= tm.free(e)
    rest = [c for c in pc]
    out = []
    changed = True
    while changed and rest:
      changed = False
      keep = []
      for c in rest:
        f = tm.free(c)
        if f & names:
          out.append(c)
          names |= f
          changed = True
        else:
          keep.append(c)
      rest = keep
    return out

  def check(self, constraints, need_model=False):
    """True if satisfiable, False if not.  Raises Unknown."""
    r, _ = self.solve(constraints, need_model)
    return r

  def solve(self, constraints, need_model=True):
    try:
      return self._solve(constraints, need_model)
    except (Unknown, MemoryError):
      raise
    except Exception as e:
      # nothing the code under test may catch
      raise Unknown('%s: %s' % (type(e).__name__, e))

  def _solve(self, constraints, need_model):
    cs = []
    for c in constraints:
      if c is tm.FALSE:
        self.stats.trivial += 1
        return False, None
      if c is not tm.TRUE:
        cs.append(c)
    key = frozenset(cs)
    hit = self.cache.get(key)
    if hit is not None and (not need_model or hit[1] is not None or not hit[0]):
      self.stats.trivial += 1
      return hit
    if not need_model:
      # an earlier model may already do
      for m in reversed(self.models[-6:]):
        try:
          memo = {}
          env = Defaults(m.env)
          if all(tm.evaluate(c, env, m.uf_strict, memo) for c in cs):
            self.stats.trivial += 1
            self.cache[key] = (True, None)
            return True, None
        except tm.NoValue:
          pass
    t0 = time.time()
    plain = not any(t.op == 'uf' and not self._wide(t) for t in tm.walk(cs))
    s = z3.SolverFor('QF_BV' if plain else 'QF_UFBV')
    s.set('timeout', self.timeout)
    zs = [self.conv(c) for c in cs]
    s.add(*zs)
    s.add(*self.domains(cs))
    s.add(*self.lemmas(cs))
    try:
      r = s.check()
    except z3.Z3Exception as e:
      raise Unknown(str(e))
    self.stats.queries += 1
    self.stats.time += time.time() - t0
    if r == z3.unsat:
      self.stats.unsat += 1
      self.cache[key] = (False, None)
      return False, None
    if r == z3.sat:
      self.stats.sat += 1
      m = Model(self, s.model(), cs)
      self.models.append(m)
      del self.models[:-12]
      self.cache[key] = (True, m)
      return True, m
    raise Unknown(s.reason_unknown())


class Defaults(object):
  """An assignment completed with a permitted value for the other variables."""

  def __init__(self, env):
    self.env = env

  def __contains__(self, t):
    return True

  def __getitem__(self, t):
    v = self.env.get(t)
    if v is None:
      if t.w == 0:
        return False
      d = t._dom
      return 0 if t.w != 8 or d is None else (d & -d).bit_length() - 1
    return v


class Model(object):
  """Values of the variables and function applications in a query."""

  def __init__(self, solver, zm, cs):
    self.env = {}
    self.table = {}
    apps = []
    for t in tm.walk(cs):
      if t.op == 'v':
        v = zm.eval(t._z, model_completion=True)
        self.env[t] = z3.is_true(v) if t.w == 0 else v.as_long()
      elif t.op == 'uf':
        apps.append(t)
    for t in apps:
      key = (t.args[0],
             tuple((zm.eval(p._z, model_completion=True).as_long(), p.w)
                   for p in t.args[1:]), t.w)
      val = zm.eval(t._z, model_completion=True).as_long()
      self.table[key] = val
      inv = tm.INVERSE.get(t.args[0])
      if inv:
        self.table[(inv, key[1][:-1] + ((val, t.w),), key[1][-1][1])] = key[1][-1][0]

  def uf_strict(self, name, args, w):
    key = (name, tuple(args), w)
    if key not in self.table:
      raise tm.NoValue(name)
    return self.table[key]
