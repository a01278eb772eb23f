"""Symbolic values and the path context."""
from . import terms as tm
from .terms import T


class Signal(BaseException):
  """Engine control flow; never seen by the code under test."""


class PathAbort(Signal):
  """The path's assumptions cannot be met."""


class PathUnknown(Signal):
  """The solver could not decide."""


class PathStop(Signal):
  """A violation ends the path."""


class Limit(Signal):
  pass


class PathTimeout(Signal):
  """The path took too long: the code under test may not terminate."""


CUR = None   # the current Ctx while a path runs symbolically


def cur():
  return CUR


# --------------------------------------------------------------------- helpers

def is_sym(x):
  return type(x) in SYM_TYPES


def deep_sym(x, depth=3):
  """Does x contain symbolic values (looking into plain containers)?"""
  t = type(x)
  if t in SYM_TYPES:
    return True
  if depth and (t is list or t is tuple or t is set or t is frozenset or
                t is SSet):
    return any(deep_sym(y, depth - 1) for y in x)
  if depth and isinstance(x, dict):
    return any(deep_sym(k, depth - 1) or deep_sym(v, depth - 1)
               for k, v in list(dict.items(x)))
  return False


def bterm(x):
  """Boolean term of a native or symbolic truth value."""
  if type(x) is SymBool:
    return x.t
  if type(x) in SYM_TYPES:
    if type(x) is SymInt:
      return tm.lnot(tm.eq(x.t, tm.const(0, x.t.w)))
    return tm.boolc(len(x) > 0)
  return tm.boolc(bool(x))


def mkbool(t):
  if t is tm.TRUE:
    return True
  if t is tm.FALSE:
    return False
  return SymBool(t)


class SymBool(object):
  __slots__ = ('t',)

  def __init__(self, t):
    self.t = t

  @property
  def __class__(self):
    return bool

  def __bool__(self):
    return CUR.branch(self.t)

  def __repr__(self):
    return '<SymBool>'

  def __and__(self, o):
    if isinstance(o, bool):
      return mkbool(tm.land([self.t, bterm(o)]))
    return self._int() & o
  __rand__ = __and__

  def __or__(self, o):
    if isinstance(o, bool):
      return mkbool(tm.lor([self.t, bterm(o)]))
    return self._int() | o
  __ror__ = __or__

  def __xor__(self, o):
    if isinstance(o, bool):
      return mkbool(tm.lnot(tm.iff(self.t, bterm(o))))
    return self._int() ^ o
  __rxor__ = __xor__

  def __eq__(self, o):
    if isinstance(o, bool):
      return mkbool(tm.iff(self.t, bterm(o)))
    return self._int() == o

  def __ne__(self, o):
    return bnot(self == o)

  def __hash__(self):
    return hash(bool(self))

  def _int(self):
    return mkint(tm.ite(self.t, tm.const(1, 1), tm.const(0, 1)))

  def __add__(self, o):
    return self._int() + o
  __radd__ = __add__

  def __mul__(self, o):
    return self._int() * o
  __rmul__ = __mul__

  def __sub__(self, o):
    return self._int() - o

  def __rsub__(self, o):
    return o - self._int()

  def __index__(self):
    return 1 if self else 0

  def __int__(self):
    return 1 if self else 0

  def __invert__(self):
    return ~self._int()

  def __lt__(self, o):
    return self._int() < o

  def __gt__(self, o):
    return self._int() > o

  def __le__(self, o):
    return self._int() <= o

  def __ge__(self, o):
    return self._int() >= o


def bnot(x):
  if type(x) is SymBool:
    return mkbool(tm.lnot(x.t))
  return not x


def band(*xs):
  return mkbool(tm.land([bterm(x) for x in xs]))


def bor(*xs):
  return mkbool(tm.lor([bterm(x) for x in xs]))


# ------------------------------------------------------------------- integers

def mkint(t, signed=False):
  """Python int with the value of term t."""
  if t.op == 'c':
    v = t.args[0]
    if signed and v >> (t.w - 1):
      v -= 1 << t.w
    return v
  if signed:
    # drop the sign where it is known to be zero
    if tm._nonneg(t):
      signed = False
  if not signed and t.op == 'cat' and t.args[0].op == 'c':
    h = t.args[0]
    if h.args[0] == 0:
      t = tm.concat(t.args[1:])
    elif h.args[0].bit_length() < h.w:
      t = tm.extract(t.w - h.w + h.args[0].bit_length() - 1, 0, t)
  return SymInt(t, signed)


def _coerce(o):
  """(term, signed) of an int-like operand or None."""
  ty = type(o)
  if ty is SymInt:
    return o.t, o.signed
  if ty is SymBool:
    o = o._int()
    if type(o) is SymInt:
      return o.t, o.signed
    ty = int
  if ty is int or ty is bool:
    o = int(o)
    if o >= 0:
      return tm.const(o, max(1, o.bit_length())), False
    return tm.const(o, (-o - 1).bit_length() + 1), True
  return None


def _ext(t, signed, w):
  if t.w >= w:
    return t
  return tm.sext(t, w) if signed else tm.zext(t, w)


def _common(a, sa, b, sb):
  """Extend both to one width in which their values are exact."""
  if sa == sb:
    w = max(a.w, b.w)
    return _ext(a, sa, w), _ext(b, sb, w), sa
  w = max(a.w + (0 if sa else 1), b.w + (0 if sb else 1))
  return _ext(a, sa, w), _ext(b, sb, w), True


class SymInt(object):
  __slots__ = ('t', 'signed')

  def __init__(self, t, signed=False):
    self.t = t
    self.signed = signed

  @property
  def __class__(self):
    return int

  def __repr__(self):
    return '<SymInt>'

  def __bool__(self):
    return CUR.branch(tm.lnot(tm.eq(self.t, tm.const(0, self.t.w))))

  def __index__(self):
    return CUR.concretize(self)

  def __int__(self):
    return CUR.concretize(self)

  def __float__(self):
    return float(CUR.concretize(self))

  def __hash__(self):
    return hash(CUR.concretize(self))

  def bit_length(self):
    if self.signed:
      return CUR.concretize(self).bit_length()
    n = self.t.w
    while n > 0:
      if CUR.branch(tm.eq(tm.extract(n - 1, n - 1, self.t), tm.const(1, 1))):
        return n
      n -= 1
    return 0

  def to_bytes(self, length=1, byteorder='big', *, signed=False):
    if self.signed and not signed:
      if self < 0:
        raise OverflowError("can't convert negative int to unsigned")
    t = _ext(self.t, self.signed, 8 * length)
    if t.w > 8 * length:
      if signed:
        lim = 1 << (8 * length - 1)
        if not (self >= -lim) or not (self < lim):
          raise OverflowError('int too big to convert')
      elif not self < (1 << (8 * length)):
        raise OverflowError('int too big to convert')
      t = tm.extract(8 * length - 1, 0, t) if length else None
    els = [tm.byte(t, i) for i in range(length)] if length else []
    if byteorder == 'little':
      els.reverse()
    return mkbytes(els)

  # comparisons
  def _cmp(self, o, f):
    c = _coerce(o)
    if c is None:
      return NotImplemented
    a, b, s = _common(self.t, self.signed, c[0], c[1])
    return mkbool(f(a, b, s))

  def __eq__(self, o):
    r = self._cmp(o, lambda a, b, s: tm.eq(a, b))
    return False if r is NotImplemented and not isinstance(o, float) else r

  def __ne__(self, o):
    r = self._cmp(o, lambda a, b, s: tm.lnot(tm.eq(a, b)))
    return True if r is NotImplemented and not isinstance(o, float) else r

  def __lt__(self, o):
    return self._cmp(o, lambda a, b, s: tm.slt(a, b) if s else tm.ult(a, b))

  def __gt__(self, o):
    return self._cmp(o, lambda a, b, s: tm.slt(b, a) if s else tm.ult(b, a))

  def __le__(self, o):
    return self._cmp(o, lambda a, b, s: tm.lnot(
        tm.slt(b, a) if s else tm.ult(b, a)))

  def __ge__(self, o):
    return self._cmp(o, lambda a, b, s: tm.lnot(
        tm.slt(a, b) if s else tm.ult(a, b)))

  # arithmetic, exact
  def __add__(self, o):
    c = _coerce(o)
    if c is None:
      return NotImplemented
    a, b, s = _common(self.t, self.signed, c[0], c[1])
    # adding disjoint bits needs no carry
    m = None
    if not s:
      m = tm._merge_disjoint(a, b)
    if m is not None:
      return mkint(m)
    w = a.w + 1
    return mkint(tm.add(_ext(a, s, w), _ext(b, s, w)), s)
  __radd__ = __add__

  def __neg__(self):
    return 0 - self

  def __pos__(self):
    return self

  def __abs__(self):
    return -self if self < 0 else self

  def _sub(self, a, sa, b, sb):
    a, b, s = _common(a, sa, b, sb)
    w = a.w + 1
    return mkint(tm.sub(_ext(a, s, w), _ext(b, s, w)), True)

  def __sub__(self, o):
    c = _coerce(o)
    if c is None:
      return NotImplemented
    return self._sub(self.t, self.signed, c[0], c[1])

  def __rsub__(self, o):
    c = _coerce(o)
    if c is None:
      return NotImplemented
    return self._sub(c[0], c[1], self.t, self.signed)

  def __mul__(self, o):
    if isinstance(o, (str, bytes, list, tuple)) and not is_sym(o):
      return o * CUR.concretize(self)
    c = _coerce(o)
    if c is None:
      return NotImplemented
    b, sb = c
    if b.op == 'c' and not sb and b.args[0] and \
        b.args[0] & (b.args[0] - 1) == 0:
      k = b.args[0].bit_length() - 1
      return self << k
    s = self.signed or sb
    w = self.t.w + b.w + (1 if s else 0)
    return mkint(tm.mul(_ext(self.t, self.signed, w), _ext(b, sb, w)), s)
  __rmul__ = __mul__

  def __lshift__(self, k):
    k = int(k)
    if k == 0:
      return self
    return mkint(tm.concat([self.t, tm.const(0, k)]), self.signed)

  def __rlshift__(self, o):
    return o << CUR.concretize(self)

  def __rshift__(self, k):
    k = int(k)
    if k >= self.t.w:
      if self.signed:
        return mkint(tm.extract(self.t.w - 1, self.t.w - 1, self.t), True)
      return 0
    return mkint(tm.extract(self.t.w - 1, k, self.t), self.signed)

  def __rrshift__(self, o):
    return o >> CUR.concretize(self)

  def _bit(self, o, f):
    c = _coerce(o)
    if c is None:
      return NotImplemented
    a, b, s = _common(self.t, self.signed, c[0], c[1])
    return mkint(f([a, b]), s)

  def __and__(self, o):
    c = _coerce(o)
    if c is None:
      return NotImplemented
    if not c[1]:
      # a nonnegative operand bounds the result
      w = c[0].w
      a = self.t
      a = tm.extract(w - 1, 0, a) if a.w > w else _ext(a, self.signed, w)
      return mkint(tm.band([a, c[0]]))
    return self._bit(o, tm.band)
  __rand__ = __and__

  def __or__(self, o):
    return self._bit(o, tm.bor)
  __ror__ = __or__

  def __xor__(self, o):
    return self._bit(o, tm.xor)
  __rxor__ = __xor__

  def __invert__(self):
    return -1 - self

  def _divmod(self, o):
    c = _coerce(o)
    if c is None:
      return None
    b, sb = c
    if b.op == 'c' and b.args[0] == 0:
      raise ZeroDivisionError('integer division or modulo by zero')
    if b.op == 'c' and not sb and b.args[0] & (b.args[0] - 1) == 0:
      k = b.args[0].bit_length() - 1
      q = self >> k
      if k == 0:
        return q, 0
      t = self.t
      if t.w < k:
        t = _ext(t, self.signed, k)
      return q, mkint(tm.extract(k - 1, 0, t))
    if b.op != 'c':
      if CUR.branch(tm.eq(b, tm.const(0, b.w))):
        raise ZeroDivisionError('integer division or modulo by zero')
    if self.signed or sb:
      neg_a = self.signed and bool(self < 0)
      neg_b = sb and bool(mkint(b, sb) < 0)
      if neg_a or neg_b:
        return divmod(CUR.concretize(self), CUR.concretize(mkint(b, sb)))
    w = max(self.t.w, b.w)
    x, y = _ext(self.t, self.signed, w), _ext(b, sb, w)
    return mkint(tm.udiv(x, y)), mkint(tm.urem(x, y))

  def __floordiv__(self, o):
    r = self._divmod(o)
    return NotImplemented if r is None else r[0]

  def __mod__(self, o):
    r = self._divmod(o)
    return NotImplemented if r is None else r[1]

  def __divmod__(self, o):
    r = self._divmod(o)
    return NotImplemented if r is None else r

  def _lift(self, o):
    c = _coerce(o)
    return None if c is None else SymInt(c[0], c[1])

  def __rfloordiv__(self, o):
    r = self._lift(o)
    return NotImplemented if r is None else r // self

  def __rmod__(self, o):
    r = self._lift(o)
    return NotImplemented if r is None else r % self

  def __rdivmod__(self, o):
    r = self._lift(o)
    return NotImplemented if r is None else r._divmod(self)

  def __truediv__(self, o):
    return CUR.concretize(self) / (CUR.concretize(o) if is_sym(o) else o)

  def __rtruediv__(self, o):
    return o / CUR.concretize(self)

  def __pow__(self, o, m=None):
    if m is None and type(o) is int and 0 <= o <= 4:
      r = 1
      for _ in range(o):
        r = r * self
      return r
    return pow(CUR.concretize(self), int(o), None if m is None else int(m))

  def __rpow__(self, o, m=None):
    if m is None and type(o) is int and o > 0 and o & (o - 1) == 0 \
        and not self.signed and self.t.w <= 12:
      pass
    return o ** CUR.concretize(self)

  def __round__(self, n=None):
    return self

  def __str__(self):
    raise PathUnknown('str of symbolic int')

  def conjugate(self):
    return self

  real = property(lambda self: self)

  def __getattr__(self, name):
    if hasattr(int, name):
      return getattr(CUR.concretize(self), name)
    raise AttributeError(name)


def eterm(e):
  """8-bit term of an element."""
  return tm.const(e, 8) if type(e) is int else e


# -------------------------------------------------------------------- strings

def _els_eq(a, b):
  """Boolean term of equality of two element lists of one length."""
  parts = []
  for x, y in zip(a, b):
    if x is y:
      continue
    if type(x) is int and type(y) is int:
      if x != y:
        return tm.FALSE
      continue
    if (type(x) is int and x > 255) or (type(y) is int and y > 255):
      return tm.FALSE
  # compare as whole words so that function applications are recognised
  ia = ib = None
  n = len(a)
  if n == 0:
    return tm.TRUE
  return tm.eq(pack(a), pack(b))


def pack(els):
  """One bit-vector of the elements, first = most significant."""
  parts = []
  run = bytearray()
  for e in els:
    if type(e) is int:
      run.append(e & 255)
      continue
    if run:
      parts.append(tm.const(int.from_bytes(run, 'big'), 8 * len(run)))
      run = bytearray()
    parts.append(e)
  if run:
    parts.append(tm.const(int.from_bytes(run, 'big'), 8 * len(run)))
  return tm.concat(parts)


def unpack(t):
  n = t.w // 8
  return [norm(tm.byte(t, i)) for i in range(n)]


def norm(e):
  if type(e) is int:
    return e
  if e.op == 'c':
    return e.args[0]
  return e


def els_of(x):
  """Element tuple of any string-like value."""
  t = type(x)
  if t is str:
    return tuple(map(ord, x))
  if t is bytes or t is bytearray:
    return tuple(x)
  if isinstance(x, _Seq):
    return x.els
  if t is tuple or t is list:     # elements already
    return tuple(x)
  if isinstance(x, str):
    return tuple(map(ord, str.__str__(x)))
  if isinstance(x, (bytes, bytearray, memoryview)):
    return tuple(bytes(x))
  raise TypeError('expected a string, got %s' % t.__name__)


def mkstr(els):
  els = tuple(norm(e) for e in els)
  for e in els:
    if type(e) is not int:
      return SymStr(els)
  return ''.join(map(chr, els))


def mkbytes(els):
  els = tuple(norm(e) for e in els)
  for e in els:
    if type(e) is not int:
      return SymBytes(els)
  return bytes(els)


def mask_of(chars):
  m = 0
  for c in chars:
    v = c if type(c) is int else ord(c)
    if v < 256:
      m |= 1 << v
  return m


def is_in(e, mask):
  """Branch: element in the set."""
  if type(e) is int:
    return e < 256 and bool((mask >> e) & 1)
  return CUR.branch(tm.member(e, mask))


WS = mask_of(' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0')
WSB = mask_of(' \t\n\r\x0b\x0c')
LINES = mask_of('\n\x0b\x0c\r\x1c\x1d\x1e\x85')
LINESB = mask_of('\n\r')
DIGITS = mask_of('0123456789')
UPPER = mask_of('ABCDEFGHIJKLMNOPQRSTUVWXYZ')
LOWER = mask_of('abcdefghijklmnopqrstuvwxyz')
HEXD = mask_of('0123456789abcdefABCDEF')


class _Seq(object):
  __slots__ = ()

  def __len__(self):
    return len(self.els)

  def __bool__(self):
    return len(self.els) > 0

  def __repr__(self):
    return '<%s len %d>' % (type(self).__name__, len(self.els))

  def __hash__(self):
    return hash(CUR.pin(self, 'hash of a symbolic string'))

  def __getitem__(self, i):
    if isinstance(i, slice):
      def ix(v):
        return CUR.concretize(v) if type(v) is SymInt else v
      return self.mk(self.els[slice(ix(i.start), ix(i.stop), ix(i.step))])
    if type(i) is SymInt:
      i = CUR.concretize(i)
    try:
      return self._item(self.els[i])
    except IndexError:
      raise IndexError('%s index out of range' % self.native.__name__)

  def __iter__(self):
    for e in self.els:
      yield self._item(e)

  def __reversed__(self):
    for e in reversed(self.els):
      yield self._item(e)

  def _compatible(self, o):
    return isinstance(o, self.family)

  def __add__(self, o):
    if not self._compatible(o):
      return NotImplemented
    if type(self) is LazyStr or type(o) is LazyStr:
      return LazyStr(lambda: mkstr(els_of(self) + els_of(o)))
    return self.mk(self.els + els_of(o))

  def __radd__(self, o):
    if not self._compatible(o):
      return NotImplemented
    if type(self) is LazyStr or type(o) is LazyStr:
      return LazyStr(lambda: mkstr(els_of(o) + els_of(self)))
    return self.mk(els_of(o) + self.els)

  def __mul__(self, n):
    return self.mk(self.els * int(n))
  __rmul__ = __mul__

  def __eq__(self, o):
    if not self._compatible(o):
      return False
    b = els_of(o)
    if len(b) != len(self.els):
      return False
    return mkbool(_els_eq(self.els, b))

  def __ne__(self, o):
    return bnot(self == o)

  def _lt(self, a, b, strict):
    """Lexicographic a < b (or <=) as a term."""
    r = tm.boolc(len(a) < len(b) or (not strict and len(a) == len(b)))
    for x, y in reversed(list(zip(a, b))):
      x, y = eterm(x), eterm(y)
      r = tm.lor([tm.ult(x, y), tm.land([tm.eq(x, y), r])])
    return mkbool(r)

  def __lt__(self, o):
    if not self._compatible(o):
      return NotImplemented
    return self._lt(self.els, els_of(o), True)

  def __le__(self, o):
    if not self._compatible(o):
      return NotImplemented
    return self._lt(self.els, els_of(o), False)

  def __gt__(self, o):
    if not self._compatible(o):
      return NotImplemented
    return self._lt(els_of(o), self.els, True)

  def __ge__(self, o):
    if not self._compatible(o):
      return NotImplemented
    return self._lt(els_of(o), self.els, False)

  def _need(self, o):
    if type(o) is int and self.native is bytes:
      return (o,)
    if type(o) is SymInt and self.native is bytes:
      return (norm(_ext(o.t, o.signed, 8)),)
    if not self._compatible(o):
      raise TypeError('must be %s, not %s' % (self.native.__name__,
                                              type(o).__name__))
    return els_of(o)

  def _match_at(self, sub, i):
    """Branch: sub occurs at i."""
    return CUR.branch(_els_eq(self.els[i:i + len(sub)], sub))

  def __contains__(self, o):
    sub = self._need(o)
    n = len(self.els) - len(sub)
    return CUR.branch(tm.lor([_els_eq(self.els[i:i + len(sub)], sub)
                              for i in range(n + 1)]))

  def _range(self, start, end):
    return slice(start, end).indices(len(self.els))[:2]

  def find(self, sub, start=None, end=None):
    sub = self._need(sub)
    a, b = self._range(start, end)
    for i in range(a, b - len(sub) + 1):
      if self._match_at(sub, i):
        return i
    return -1

  def rfind(self, sub, start=None, end=None):
    sub = self._need(sub)
    a, b = self._range(start, end)
    for i in range(b - len(sub), a - 1, -1):
      if self._match_at(sub, i):
        return i
    return -1

  def index(self, sub, start=None, end=None):
    r = self.find(sub, start, end)
    if r < 0:
      raise ValueError('substring not found')
    return r

  def rindex(self, sub, start=None, end=None):
    r = self.rfind(sub, start, end)
    if r < 0:
      raise ValueError('substring not found')
    return r

  def count(self, sub, start=None, end=None):
    sub = self._need(sub)
    a, b = self._range(start, end)
    if not sub:
      return b - a + 1
    n = 0
    i = a
    while i <= b - len(sub):
      if self._match_at(sub, i):
        n += 1
        i += len(sub)
      else:
        i += 1
    return n

  def startswith(self, p, start=None, end=None):
    ps = p if isinstance(p, tuple) else (p,)
    a, b = self._range(start, end)
    els = self.els[a:b]
    alts = []
    for q in ps:
      q = self._need(q)
      if len(q) <= len(els):
        alts.append(_els_eq(els[:len(q)], q))
    return mkbool(tm.lor(alts))

  def endswith(self, p, start=None, end=None):
    ps = p if isinstance(p, tuple) else (p,)
    a, b = self._range(start, end)
    els = self.els[a:b]
    alts = []
    for q in ps:
      q = self._need(q)
      if len(q) <= len(els):
        alts.append(_els_eq(els[len(els) - len(q):], q))
    return mkbool(tm.lor(alts))

  def replace(self, old, new, count=-1):
    old, new = self._need(old), self._need(new)
    if not old:
      return CUR.pin(self, 'replace').replace(self.mk(old), self.mk(new), count)
    out = []
    i = 0
    if count < 0 and len(old) == 1 and len(new) == 1 and \
        type(old[0]) is int and type(new[0]) is int:
      if old[0] > 255 or new[0] > 255:
        return self.mk(new[0] if e == old[0] else e for e in self.els) \
            if old[0] > 255 else CUR.pin(self, 'replace').replace(
                chr(old[0]), chr(new[0]))
      return self.mk((new[0] if e == old[0] else e) if type(e) is int else
                     tm.map_char(e, old[0], new[0]) for e in self.els)
    while i < len(self.els):
      if count != 0 and i + len(old) <= len(self.els) and \
          self._match_at(old, i):
        out.extend(new)
        i += len(old)
        count -= 1
      else:
        out.append(self.els[i])
        i += 1
    return self.mk(out)

  def _stripset(self, chars):
    if chars is None:
      return self.ws
    return mask_of(els_of(chars)) if not is_sym(chars) else None

  def _strips(self, chars, left, right):
    m = self._stripset(chars)
    els = list(self.els)

    def inset(e):
      if m is not None:
        return is_in(e, m)
      return CUR.branch(tm.lor([tm.eq(eterm(e), eterm(c))
                                for c in els_of(chars)]))
    if left:
      while els and inset(els[0]):
        del els[0]
    if right:
      while els and inset(els[-1]):
        del els[-1]
    return self.mk(els)

  def strip(self, chars=None):
    return self._strips(chars, True, True)

  def lstrip(self, chars=None):
    return self._strips(chars, True, False)

  def rstrip(self, chars=None):
    return self._strips(chars, False, True)

  def removeprefix(self, p):
    return self[len(p):] if self.startswith(p) else self

  def removesuffix(self, p):
    return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

  def split(self, sep=None, maxsplit=-1):
    out = []
    cur_ = []
    if sep is None:
      els = list(self.els)
      i = 0
      while i < len(els):
        while i < len(els) and is_in(els[i], self.ws):
          i += 1
        if i >= len(els):
          break
        if maxsplit >= 0 and len(out) >= maxsplit:
          rest = self.mk(els[i:])
          out.append(rest.rstrip())
          return out
        cur_ = []
        while i < len(els) and not is_in(els[i], self.ws):
          cur_.append(els[i])
          i += 1
        out.append(self.mk(cur_))
      return out
    sep = self._need(sep)
    if not sep:
      raise ValueError('empty separator')
    i = 0
    while i < len(self.els):
      if maxsplit != 0 and i + len(sep) <= len(self.els) and \
          self._match_at(sep, i):
        out.append(self.mk(cur_))
        cur_ = []
        i += len(sep)
        maxsplit -= 1
      else:
        cur_.append(self.els[i])
        i += 1
    out.append(self.mk(cur_))
    return out

  def rsplit(self, sep=None, maxsplit=-1):
    if maxsplit < 0:
      return self.split(sep)
    if sep is not None and maxsplit == 1:
      i = self.rfind(sep)
      if i < 0:
        return [self]
      return [self[:i], self[i + len(sep):]]
    return CUR.pin(self, 'rsplit').rsplit(sep, maxsplit)

  def partition(self, sep):
    i = self.find(sep)
    e = self.mk(())
    if i < 0:
      return (self, e, e)
    return (self[:i], sep, self[i + len(sep):])

  def rpartition(self, sep):
    i = self.rfind(sep)
    e = self.mk(())
    if i < 0:
      return (e, e, self)
    return (self[:i], sep, self[i + len(sep):])

  def splitlines(self, keepends=False):
    out = []
    cur_ = []
    els = self.els
    i = 0
    while i < len(els):
      e = els[i]
      if is_in(e, self.lines):
        end = [e]
        if i + 1 < len(els) and is_in(e, 1 << 13) and \
            is_in(els[i + 1], 1 << 10):
          i += 1
          end.append(els[i])
        out.append(self.mk(cur_ + (end if keepends else [])))
        cur_ = []
      else:
        cur_.append(e)
      i += 1
    if cur_:
      out.append(self.mk(cur_))
    return out

  def join(self, items):
    return join(self, items)

  def _case(self, src, delta):
    out = []
    for e in self.els:
      if type(e) is int:
        out.append(e)
        continue
      m = tm.member(e, src)
      out.append(tm.ite(m, tm.add(e, tm.const(delta, 8)), e))
    return out

  def _just(self, width, fill, left, right):
    n = int(width) - len(self.els)
    if n <= 0:
      return self
    f = els_of(fill)
    return self.mk((f * n if left else ()) + self.els + (f * n if right else ()))

  def ljust(self, width, fill=None):
    return self._just(width, fill if fill is not None else self.space,
                      False, True)

  def rjust(self, width, fill=None):
    return self._just(width, fill if fill is not None else self.space,
                      True, False)

  def zfill(self, width):
    if self.els and is_in(self.els[0], mask_of('+-')):
      return CUR.pin(self, 'zfill').zfill(width)
    return self._just(width, self.zero, True, False)

  def _all(self, mask):
    return mkbool(tm.land([tm.member(eterm(e), mask) for e in self.els])) \
        if self.els else False

  def isdigit(self):
    return self._all(DIGITS if self.native is bytes else
                     DIGITS | mask_of('\xb2\xb3\xb9'))

  def isspace(self):
    return self._all(self.ws)

  def translate(self, table, delete=None):
    out = []
    for e in self.els:
      if self.native is bytes:
        if delete:
          if is_in(e, mask_of(delete)):
            continue
        if table is None:
          out.append(e)
        elif type(e) is int:
          out.append(els_of(table)[e])
        else:
          out.append(lookup(e, els_of(table)))
      else:
        if type(e) is int:
          r = str.translate(chr(e), table)
          out.extend(els_of(r))
        else:
          keys = {}
          many = {}
          for k in list(table if hasattr(table, 'keys') else
                        range(min(256, len(table)))):
            if isinstance(k, int) and k < 256:
              r = els_of(str.translate(chr(k), table))
              if len(r) == 1 and type(r[0]) is int and r[0] < 256:
                if r[0] != k:
                  keys[k] = r[0]
              else:
                many[k] = r
          for k in many:
            if is_in(e, 1 << k):
              out.extend(many[k])
              break
          else:
            if not keys:
              out.append(e)
            elif set(keys) & set(keys.values()):
              out.append(lookup(e, [keys.get(i, i) for i in range(256)]))
            else:
              for k, v in keys.items():
                e = v if type(e) is int and e == k else \
                    e if type(e) is int else tm.map_char(e, k, v)
              out.append(e)
    return self.mk(out)

  def __getattr__(self, name):
    if name.startswith('__') or not hasattr(self.native, name):
      raise AttributeError("'%s' object has no attribute '%s'" %
                           (self.native.__name__, name))
    val = CUR.pin(self, 'method %s' % name)
    f = getattr(val, name)

    def call(*a, **k):
      return f(*[CUR.pin(x, name) for x in a],
               **{n: CUR.pin(v, name) for n, v in k.items()})
    return call


def lookup(e, table):
  """Term of table[e] for an 8-bit term e; consecutive runs are merged."""
  d = tm.dom(e)
  if e.op in ('b64c', 'b64x'):
    moved = [v for v in range(256) if (d >> v) & 1 and table[v] != v]
    if len(moved) <= 2:
      for v in moved:
        e = tm.map_char(e, v, table[v])
      return norm(e)
  runs = []   # (first, last, offset)
  for v in range(256):
    if not (d >> v) & 1:
      continue
    off = (table[v] - v) & 255
    if runs and runs[-1][2] == off:
      runs[-1][1] = v
    else:
      runs.append([v, v, off])
  r = None
  for a, b, off in sorted(runs, key=lambda x: x[1] - x[0], reverse=True):
    val = tm.add(e, tm.const(off, 8)) if off else e
    if a == b:
      val = tm.const(a + off, 8)
      c = tm.eq(e, tm.const(a, 8))
    else:
      c = tm.land([tm.lnot(tm.ult(e, tm.const(a, 8))),
                   tm.TRUE if b == 255 else tm.ult(e, tm.const(b + 1, 8))])
    r = val if r is None else tm.ite(c, val, r)
  return norm(r)


LATIN = ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1', 'l1', '8859')


class SymStr(_Seq):
  __slots__ = ('els',)
  native = str
  family = str
  ws = WS
  lines = LINES
  space = ' '
  zero = '0'

  def __init__(self, els):
    self.els = els

  @property
  def __class__(self):
    return str

  mk = staticmethod(mkstr)

  def _item(self, e):
    return mkstr((e,))

  def __str__(self):
    return CUR.pin(self, 'native str()')

  def encode(self, encoding='utf-8', errors='strict'):
    enc = encoding.lower().replace('_', '-')
    out = []
    for e in self.els:
      if type(e) is int and (e < 128 or (e < 256 and enc in LATIN)):
        out.append(e)
      elif enc in LATIN and type(e) is not int:
        out.append(e)
      elif type(e) is int or not (
          enc in ('ascii', 'us-ascii', 'utf-8', 'utf8')):
        out.extend(CUR.pin(mkstr((e,)), 'encode').encode(encoding, errors))
      elif is_in(e, (1 << 128) - 1):
        out.append(e)
      elif enc in ('ascii', 'us-ascii'):
        raise UnicodeEncodeError('ascii', '\x80', 0, 1, 'ordinal not in range')
      else:
        out.append(tm.concat([tm.const(6, 3), tm.const(0, 3),
                              tm.extract(7, 6, e)]))
        out.append(tm.concat([tm.const(2, 2), tm.extract(5, 0, e)]))
    return mkbytes(out)

  def lower(self):
    return mkstr(els_of(mkstr_map(self._case(UPPER, 32), str.lower)))

  def upper(self):
    return mkstr(els_of(mkstr_map(self._case(LOWER, 224), str.upper)))

  def casefold(self):
    return self.lower()

  def isascii(self):
    return self._all((1 << 128) - 1) if self.els else True

  def isdecimal(self):
    return self._all(DIGITS)

  def isalnum(self):
    if all(not tm.dom(eterm(e)) >> 128 for e in self.els):
      return self._all(DIGITS | UPPER | LOWER)
    return CUR.pin(self, 'isalnum').isalnum()

  def isalpha(self):
    if all(not tm.dom(eterm(e)) >> 128 for e in self.els):
      return self._all(UPPER | LOWER)
    return CUR.pin(self, 'isalpha').isalpha()

  def __mod__(self, args):
    from . import models
    return models.fmt_percent(self, args)

  def __format__(self, spec):
    return format(CUR.pin(self, 'format'), spec)


def mkstr_map(els, f):
  """Apply a native one-to-one case mapping to the concrete elements."""
  out = []
  for e in els:
    if type(e) is int:
      out.extend(map(ord, f(chr(e))))
    else:
      out.append(e)
  return mkstr(out)


class SymBytes(_Seq):
  __slots__ = ('els',)
  native = bytes
  family = (bytes, bytearray)
  ws = WSB
  lines = LINESB
  space = b' '
  zero = b'0'

  def __init__(self, els):
    self.els = els

  @property
  def __class__(self):
    return bytes

  mk = staticmethod(mkbytes)

  def _item(self, e):
    if type(e) is int:
      return e
    return mkint(e)

  def __bytes__(self):
    return CUR.pin(self, 'native bytes()')

  def __str__(self):
    return str(CUR.pin(self, 'str of bytes'))

  def decode(self, encoding='utf-8', errors='strict'):
    enc = encoding.lower().replace('_', '-')
    if enc in LATIN:
      return mkstr(self.els)
    if enc in ('ascii', 'us-ascii', 'utf-8', 'utf8'):
      out = []
      els = list(self.els)
      i = 0
      while i < len(els):
        e = els[i]
        if is_in(e, (1 << 128) - 1):
          out.append(e)
          i += 1
        elif enc in ('ascii', 'us-ascii'):
          raise UnicodeDecodeError('ascii', b'\x80', 0, 1,
                                   'ordinal not in range')
        elif is_in(e, (1 << 0xc2) | (1 << 0xc3)) and i + 1 < len(els) and \
            is_in(els[i + 1], mask_of(range(0x80, 0xc0))):
          a, b = eterm(e), eterm(els[i + 1])
          out.append(tm.concat([tm.extract(1, 0, a), tm.extract(5, 0, b)]))
          i += 2
        else:
          return CUR.pin(self, 'decode').decode(encoding, errors)
      return mkstr(out)
    return CUR.pin(self, 'decode').decode(encoding, errors)

  def hex(self, *a):
    if a:
      return CUR.pin(self, 'hex').hex(*a)
    out = []
    for e in self.els:
      e = eterm(e)
      out.append(hexdigit(tm.extract(7, 4, e)))
      out.append(hexdigit(tm.extract(3, 0, e)))
    return mkstr(out)

  def lower(self):
    return mkbytes(bytes([e]).lower()[0] if type(e) is int else e
                   for e in self._case(UPPER, 32))

  def upper(self):
    return mkbytes(bytes([e]).upper()[0] if type(e) is int else e
                   for e in self._case(LOWER, 224))

  def __buffer__(self, flags):
    return CUR.pin(self, 'buffer').__buffer__(flags)

  def __mod__(self, args):
    return CUR.pin(self, 'bytes %') % CUR.pin(args, 'bytes %')


def hexdigit(nib, upper=False):
  if nib.op == 'c':
    return ord('%X' % nib.args[0] if upper else '%x' % nib.args[0])
  v = tm.zext(nib, 8)
  t = tm.ite(tm.ult(nib, tm.const(10, 4)), tm.add(v, tm.const(48, 8)),
             tm.add(v, tm.const(55 if upper else 87, 8)))
  t._dom = DIGITS | mask_of('ABCDEF' if upper else 'abcdef')
  return t


class LazyStr(SymStr):
  """A formatted string, materialised only if its characters are needed."""
  __slots__ = ('thunk',)

  def __init__(self, thunk):
    self.thunk = thunk

  @property
  def els(self):
    if self.thunk is not None:
      v = self.thunk()
      self.thunk = None
      SymStr.els.__set__(self, els_of(v))
    return SymStr.els.__get__(self)


for _t in (SymBool, SymInt, SymStr, SymBytes):
  _t.__deepcopy__ = lambda self, memo: self
  _t.__copy__ = lambda self: self

SYM_TYPES = frozenset([SymBool, SymInt, SymStr, SymBytes, LazyStr])


def join(sep, items):
  items = list(items)
  if not isinstance(sep, str):
    mk, fam = mkbytes, (bytes, bytearray)
  else:
    mk, fam = mkstr, str
  s = els_of(sep)
  out = []
  for i, x in enumerate(items):
    if not isinstance(x, fam):
      raise TypeError('sequence item %d: expected %s instance, %s found' %
                      (i, 'str' if fam is str else 'a bytes-like object',
                       type(x).__name__))
    if i:
      out.extend(s)
    out.extend(els_of(x))
  return mk(out)


# ----------------------------------------------------------------- containers

class SDict(dict):
  """dict whose keys may be symbolic: such keys are found by comparing.

  A symbolic key is stored under a token in the underlying dict."""

  class Tok(object):
    __slots__ = ('key',)

    def __init__(self, key):
      self.key = key

  def __init__(self, *a, **k):
    dict.__init__(self)
    self._n = 0
    self.update(*a, **k)

  def _find(self, key):
    """The stored native key or token equal to key, or None."""
    if not deep_sym(key):
      if dict.__contains__(self, key):
        return (key,)
      if not self._n:
        return None
      for t in list(dict.keys(self)):
        if type(t) is SDict.Tok and t.key == key:
          return (t,)
      return None
    for t in list(dict.keys(self)):
      k = t.key if type(t) is SDict.Tok else t
      if k is key or k == key:
        return (t,)
    return None

  def __contains__(self, key):
    return self._find(key) is not None

  def __getitem__(self, key):
    r = self._find(key)
    if r is None:
      raise KeyError(key if not deep_sym(key) else '<symbolic>')
    return dict.__getitem__(self, r[0])

  def __setitem__(self, key, value):
    r = self._find(key)
    if r is None:
      if deep_sym(key):
        r = (SDict.Tok(key),)
        self._n += 1
      else:
        r = (key,)
    dict.__setitem__(self, r[0], value)

  def __delitem__(self, key):
    r = self._find(key)
    if r is None:
      raise KeyError(key)
    if type(r[0]) is SDict.Tok:
      self._n -= 1
    dict.__delitem__(self, r[0])

  def get(self, key, default=None):
    r = self._find(key)
    return default if r is None else dict.__getitem__(self, r[0])

  _missing = object()

  def pop(self, key, default=_missing):
    r = self._find(key)
    if r is None:
      if default is SDict._missing:
        raise KeyError(key if not deep_sym(key) else '<symbolic>')
      return default
    if type(r[0]) is SDict.Tok:
      self._n -= 1
    return dict.pop(self, r[0])

  def setdefault(self, key, default=None):
    r = self._find(key)
    if r is None:
      self[key] = default
      return default
    return dict.__getitem__(self, r[0])

  def __iter__(self):
    for t in dict.__iter__(self):
      yield t.key if type(t) is SDict.Tok else t

  def keys(self):
    return SView(self, lambda: list(self))

  def values(self):
    return dict.values(self)

  def items(self):
    return SView(self, lambda: [(t.key if type(t) is SDict.Tok else t, v)
                                for t, v in dict.items(self)])

  def update(self, *a, **k):
    for o in a:
      if isinstance(o, dict) or hasattr(o, 'keys'):
        for key in list(o.keys()):
          self[key] = o[key]
      else:
        for key, v in o:
          self[key] = v
    for key, v in k.items():
      self[key] = v

  def popitem(self):
    t, v = dict.popitem(self)
    if type(t) is SDict.Tok:
      self._n -= 1
      t = t.key
    return t, v

  def clear(self):
    dict.clear(self)
    self._n = 0

  def copy(self):
    return SDict(self)
  __copy__ = copy

  def __or__(self, o):
    r = SDict(self)
    r.update(o)
    return r

  def __eq__(self, o):
    if not isinstance(o, dict):
      return NotImplemented
    if not self._n and not getattr(o, '_n', 0) and not deep_sym(self) and \
        not deep_sym(o):
      return dict.__eq__(self, o)
    if len(self) != len(o):
      return False
    for k, v in self.items():
      if k not in o or not (o[k] == v):
        return False
    return True

  def __ne__(self, o):
    return not self == o

  __hash__ = None

  @classmethod
  def fromkeys(cls, ks, v=None):
    r = cls()
    for k in ks:
      r[k] = v
    return r


class SView(object):
  def __init__(self, d, f):
    self._d = d
    self._f = f

  def __iter__(self):
    return iter(self._f())

  def __len__(self):
    return len(self._d)

  def __contains__(self, x):
    return any(x == y for y in self._f())

  def __repr__(self):
    return repr(self._f())

  def __reversed__(self):
    return reversed(self._f())


class SSet(set):
  """set whose members may be symbolic: found by comparing, kept in an
  SDict."""

  def __init__(self, it=()):
    set.__init__(self)
    self._d = SDict()
    self.update(it)

  def __contains__(self, x):
    return x in self._d

  def __iter__(self):
    return iter(list(self._d))

  def __len__(self):
    return len(self._d)

  def __bool__(self):
    return len(self._d) > 0

  def __repr__(self):
    return 'SSet(%r)' % (list(self),)

  def add(self, x):
    if x not in self._d:
      hash(x) if not deep_sym(x) else None
      self._d[x] = True

  def discard(self, x):
    self._d.pop(x, None)

  def remove(self, x):
    self._d.pop(x)

  def pop(self):
    return self._d.popitem()[0]

  def clear(self):
    self._d.clear()

  def copy(self):
    return SSet(self)
  __copy__ = copy

  def update(self, *its):
    for it in its:
      for x in it:
        self.add(x)

  def union(self, *its):
    r = SSet(self)
    r.update(*its)
    return r

  def difference(self, *its):
    r = SSet(self)
    for it in its:
      for x in it:
        r.discard(x)
    return r

  def intersection(self, *its):
    r = list(self)
    for it in its:
      o = SSet(it)
      r = [x for x in r if x in o]
    return SSet(r)

  def symmetric_difference(self, it):
    o = SSet(it)
    return SSet([x for x in self if x not in o] +
                [x for x in o if x not in self])

  def difference_update(self, *its):
    for it in its:
      for x in list(it):
        self.discard(x)

  def intersection_update(self, *its):
    keep = self.intersection(*its)
    self.clear()
    self.update(keep)

  def issubset(self, o):
    o = SSet(o)
    return all(x in o for x in self)

  def issuperset(self, o):
    return all(x in self for x in o)

  def isdisjoint(self, o):
    return not any(x in self for x in o)

  def _op(name):
    def f(self, o):
      if not isinstance(o, (set, frozenset, type({}.keys()), SView)):
        return NotImplemented
      return getattr(self, name)(o)
    return f

  __or__ = __ror__ = _op('union')
  __sub__ = _op('difference')
  __and__ = __rand__ = _op('intersection')
  __xor__ = __rxor__ = _op('symmetric_difference')
  __le__ = _op('issubset')
  __ge__ = _op('issuperset')

  def __rsub__(self, o):
    return SSet(o).difference(self)

  def __ior__(self, o):
    self.update(o)
    return self

  def __isub__(self, o):
    self.difference_update(o)
    return self

  def __iand__(self, o):
    self.intersection_update(o)
    return self

  def __eq__(self, o):
    if not isinstance(o, (set, frozenset)):
      return NotImplemented
    return len(self) == len(o) and self.issubset(o)

  def __ne__(self, o):
    r = self.__eq__(o)
    return r if r is NotImplemented else not r

  def __lt__(self, o):
    return self <= o and len(self) < len(o)

  def __gt__(self, o):
    return self >= o and len(self) > len(o)

  __hash__ = None
