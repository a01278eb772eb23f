"""Hash-consed bit-vector / boolean terms with local simplification.

A term has op, args and width w (w == 0: boolean).  z3 is only imported when a
query has to be decided, so the module also works in the replay interpreter.
"""

_table = {}
# applications of the uninterpreted functions to constants that were computed:
# name -> {(((value, width), ...), width): value}
KNOWN = {}
_count = [0]


class T(object):
  __slots__ = ('op', 'args', 'w', 'id', '_vars', '_dom', '_z', '_h')

  def __repr__(self):
    return show(self, 4)

  def __hash__(self):
    return self.id

  def __eq__(self, other):
    return self is other


def reset():
  """Forget all terms (between instances)."""
  _table.clear()
  KNOWN.clear()


def _mk(op, args, w):
  key = (op, args, w)
  t = _table.get(key)
  if t is None:
    t = T()
    t.op = op
    t.args = args
    t.w = w
    _count[0] += 1
    t.id = _count[0]
    t._vars = None
    t._dom = None
    t._z = None
    t._h = None
    _table[key] = t
  return t


def show(t, depth):
  if not isinstance(t, T):
    return repr(t)
  if t.op == 'c':
    return '%#x:%d' % (t.args[0], t.w)
  if t.op == 'v':
    return t.args[0]
  if depth == 0:
    return '..'
  return '%s:%d(%s)' % (t.op, t.w, ','.join(show(a, depth - 1) for a in t.args))


def var(name, w, dom=None):
  t = _mk('v', (name,), w)
  if dom is not None:
    t._dom = dom
  return t


def const(v, w):
  return _mk('c', (v & ((1 << w) - 1),), w)


TRUE = _mk('b', (True,), 0)
FALSE = _mk('b', (False,), 0)
_keep = (TRUE, FALSE)


def boolc(b):
  return TRUE if b else FALSE


def is_c(t):
  return t.op == 'c'


def cval(t):
  return t.args[0]


# ---------------------------------------------------------------- bit-vectors

def _join(run):
  """One constant of neighbouring constants."""
  if len(run) == 1:
    return run[0]
  w = sum(q.w for q in run)
  if len(run) > 4 and all(q.w % 8 == 0 for q in run):
    v = int.from_bytes(b''.join([q.args[0].to_bytes(q.w // 8, 'big')
                                 for q in run]), 'big')
  else:
    v = 0
    for q in run:
      v = (v << q.w) | q.args[0]
  return const(v, w)


def concat(parts):
  """Most significant part first."""
  out = []
  run = []
  for p in parts:
    if p.op == 'cat':
      sub = p.args
    else:
      sub = (p,)
    for q in sub:
      if q.w == 0:
        continue
      if q.op == 'c':
        run.append(q)
        continue
      if run:
        out.append(_join(run))
        run = []
      elif out:
        l = out[-1]
        if l.op == 'ext' and q.op == 'ext' and l.args[2] is q.args[2] \
            and l.args[1] == q.args[0] + 1:
          out[-1] = extract(l.args[0], q.args[1], l.args[2])
          continue
      out.append(q)
  if run:
    out.append(_join(run))
  if len(out) == 1:
    return out[0]
  # a merge may enable another merge with its left neighbour only through
  # extract -> full term, which cannot merge again
  return _mk('cat', tuple(out), sum(p.w for p in out))


def extract(hi, lo, x):
  w = hi - lo + 1
  assert 0 <= lo <= hi < x.w, (hi, lo, x.w)
  if w == x.w:
    return x
  op = x.op
  if op == 'c':
    return const(x.args[0] >> lo, w)
  if op == 'ext':
    return extract(hi + x.args[1], lo + x.args[1], x.args[2])
  if op == 'cat':
    out = []
    pos = x.w
    for p in x.args:
      phi = pos - 1
      plo = pos - p.w
      pos = plo
      if plo > hi:
        continue
      if phi < lo:
        break
      out.append(extract(min(hi, phi) - plo, max(lo, plo) - plo, p))
    return concat(out)
  if op == 'ite':
    c, a, b = x.args
    if a.op == 'c' or b.op == 'c':
      return ite(c, extract(hi, lo, a), extract(hi, lo, b))
  if op in ('xor', 'and', 'or') and any(a.op in ('c', 'cat') for a in x.args) \
      and (w <= 8 or x.w <= 64):
    f = {'xor': xor, 'and': band, 'or': bor}[op]
    return f([extract(hi, lo, a) for a in x.args])
  if op in ('add', 'sub', 'mul') and lo == 0 and False:
    pass
  return _mk('ext', (hi, lo, x), w)


def byte(x, i):
  """i-th byte of x, 0 = most significant."""
  n = x.w // 8
  return extract(8 * (n - i) - 1, 8 * (n - i - 1), x)


def zext(x, w):
  if w == x.w:
    return x
  assert w > x.w
  return concat([const(0, w - x.w), x])


def sext(x, w):
  if w == x.w:
    return x
  if x.op == 'c':
    v = x.args[0]
    if v >> (x.w - 1):
      v -= 1 << x.w
    return const(v, w)
  if x.op == 'cat' and x.args[0].op == 'c':
    h = x.args[0]
    if not h.args[0] >> (h.w - 1):
      return zext(x, w)
  return _mk('sext', (x,), w)


def _ids(ts):
  return sorted(ts, key=lambda t: t.id)


def xor(args):
  w = args[0].w
  c = 0
  cnt = {}
  stack = list(args)
  while stack:
    a = stack.pop()
    if a.op == 'xor':
      stack.extend(a.args)
    elif a.op == 'c':
      c ^= a.args[0]
    else:
      if a in cnt:
        del cnt[a]
      else:
        cnt[a] = 1
  ts = _ids(cnt)
  if c or not ts:
    ts.append(const(c, w))
  if len(ts) == 1:
    return ts[0]
  return _mk('xor', tuple(ts), w)


def band(args):
  w = args[0].w
  full = (1 << w) - 1
  c = full
  s = {}
  stack = list(args)
  while stack:
    a = stack.pop()
    if a.op == 'and':
      stack.extend(a.args)
    elif a.op == 'c':
      c &= a.args[0]
    else:
      s[a] = 1
  if c == 0:
    return const(0, w)
  ts = _ids(s)
  if not ts:
    return const(c, w)
  if c != full:
    # masks made of contiguous runs become concatenations
    if len(ts) == 1:
      runs = _runs(c, w)
      if len(runs) <= 4:
        return concat([extract(h, l, ts[0]) if b else const(0, h - l + 1)
                       for (h, l, b) in runs])
    ts.append(const(c, w))
  if len(ts) == 1:
    return ts[0]
  return _mk('and', tuple(ts), w)


def _runs(c, w):
  out = []
  i = w - 1
  while i >= 0:
    b = (c >> i) & 1
    j = i
    while j > 0 and ((c >> (j - 1)) & 1) == b:
      j -= 1
    out.append((i, j, b))
    i = j - 1
  return out


def _segments(t):
  return t.args if t.op == 'cat' else (t,)


def _merge_disjoint(a, b):
  """a + b == a | b when at every segment one of them is zero, else None."""
  pa = list(_segments(a))
  pb = list(_segments(b))
  out = []
  i = j = 0
  ra, rb = pa[0], pb[0]
  while True:
    w = min(ra.w, rb.w)
    xa = extract(ra.w - 1, ra.w - w, ra)
    xb = extract(rb.w - 1, rb.w - w, rb)
    if xa.op == 'c' and xa.args[0] == 0:
      out.append(xb)
    elif xb.op == 'c' and xb.args[0] == 0:
      out.append(xa)
    else:
      return None
    if ra.w == w:
      i += 1
      ra = pa[i] if i < len(pa) else None
    else:
      ra = extract(ra.w - w - 1, 0, ra)
    if rb.w == w:
      j += 1
      rb = pb[j] if j < len(pb) else None
    else:
      rb = extract(rb.w - w - 1, 0, rb)
    if ra is None or rb is None:
      break
  return concat(out)


def bor(args):
  w = args[0].w
  c = 0
  s = {}
  stack = list(args)
  while stack:
    a = stack.pop()
    if a.op == 'or':
      stack.extend(a.args)
    elif a.op == 'c':
      c |= a.args[0]
    else:
      s[a] = 1
  full = (1 << w) - 1
  if c == full:
    return const(c, w)
  ts = _ids(s)
  if not ts:
    return const(c, w)
  if c:
    ts.append(const(c, w))
  if len(ts) == 1:
    return ts[0]
  if len(ts) == 2 and (ts[0].op == 'cat' or ts[1].op == 'cat'):
    m = _merge_disjoint(ts[0], ts[1])
    if m is not None:
      return m
  return _mk('or', tuple(ts), w)


def bnot(a):
  if a.op == 'c':
    return const(~a.args[0], a.w)
  if a.op == 'not':
    return a.args[0]
  return _mk('not', (a,), a.w)


def add(a, b):
  w = a.w
  if a.op == 'c' and b.op == 'c':
    return const(a.args[0] + b.args[0], w)
  if a.op == 'c' and a.args[0] == 0:
    return b
  if b.op == 'c' and b.args[0] == 0:
    return a
  if a.op == 'cat' or b.op == 'cat':
    m = _merge_disjoint(a, b)
    if m is not None:
      return m
  if b.op == 'c' and a.op == 'add' and a.args[1].op == 'c':
    return add(a.args[0], const(a.args[1].args[0] + b.args[0], w))
  if a.op == 'c':
    a, b = b, a
  return _mk('add', (a, b), w)


def neg(a):
  if a.op == 'c':
    return const(-a.args[0], a.w)
  return _mk('neg', (a,), a.w)


def sub(a, b):
  if b.op == 'c':
    return add(a, const(-b.args[0], a.w))
  if a is b:
    return const(0, a.w)
  return _mk('sub', (a, b), a.w)


def mul(a, b):
  w = a.w
  if a.op == 'c':
    a, b = b, a
  if b.op == 'c':
    v = b.args[0]
    if a.op == 'c':
      return const(a.args[0] * v, w)
    if v == 0:
      return const(0, w)
    if v & (v - 1) == 0:
      k = v.bit_length() - 1
      return shl(a, k)
  return _mk('mul', (a, b), w)


def shl(a, k):
  if k == 0:
    return a
  if k >= a.w:
    return const(0, a.w)
  return concat([extract(a.w - k - 1, 0, a), const(0, k)])


def udiv(a, b):
  if a.op == 'c' and b.op == 'c' and b.args[0]:
    return const(a.args[0] // b.args[0], a.w)
  return _mk('udiv', (a, b), a.w)


def urem(a, b):
  if a.op == 'c' and b.op == 'c' and b.args[0]:
    return const(a.args[0] % b.args[0], a.w)
  return _mk('urem', (a, b), a.w)


def ite(c, a, b):
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if a is b:
    return a
  if a.w == 0:
    return lor([land([c, a]), land([lnot(c), b])])
  return _mk('ite', (c, a, b), a.w)


B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
B64MASK = 0
for _c in B64:
  B64MASK |= 1 << _c
B64MASK62 = B64MASK & ~(1 << 45) & ~(1 << 95)


def b64c(x):
  """Web-safe Base64 character of a 6-bit value."""
  assert x.w == 6
  if x.op == 'c':
    return const(B64[x.args[0]], 8)
  if x.op == 'b64d':
    c = x.args[0]
    # the inverse only holds where the character is in the alphabet, which the
    # caller of b64d has established
    return c
  return _mk('b64c', (x,), 8)


def b64x(x, c62, c63):
  """Base64 character with other characters for 62 and 63."""
  if (c62, c63) == (45, 95):
    return b64c(x)
  if x.op == 'c':
    v = x.args[0]
    return const(c62 if v == 62 else c63 if v == 63 else B64[v], 8)
  return _mk('b64x', (x, c62, c63), 8)


def map_char(t, old, new):
  """t with the value old replaced by new."""
  if not (dom(t) >> old) & 1:
    return t
  if t.op == 'b64c' and old in (45, 95):
    return b64x(t.args[0], new if old == 45 else 45, new if old == 95 else 95)
  if t.op == 'b64x' and old in t.args[1:] and not (B64MASK62 >> old) & 1:
    return b64x(t.args[0], new if old == t.args[1] else t.args[1],
                new if old == t.args[2] else t.args[2])
  return ite(eq(t, const(old, 8)), const(new, 8), t)


def b64d(c):
  """6-bit value of a web-safe Base64 character (precondition: is one)."""
  if c.op == 'c':
    return const(B64.index(bytes([c.args[0]])), 6)
  if c.op == 'b64c':
    return c.args[0]
  return _mk('b64d', (c,), 6)


# uninterpreted functions.  CR: injective as a whole (collision resistance or
# permutation), BIJ: pairs of mutually inverse keyed functions
CR = set(['sha1', 'hmac', 'emac'])
INVERSE = {'aes_e': 'aes_d', 'aes_d': 'aes_e', 'rsa_p': 'rsa_s',
           'rsa_s': 'rsa_p'}


def uf(name, args, w):
  if name in INVERSE:
    x = args[-1]
    if x.op == 'uf' and x.args[0] == INVERSE[name] and \
        x.args[1:-1] == tuple(args[:-1]):
      return x.args[-1]
  return _mk('uf', (name,) + tuple(args), w)


# ------------------------------------------------------------------- booleans

def lnot(a):
  if a is TRUE:
    return FALSE
  if a is FALSE:
    return TRUE
  if a.op == 'lnot':
    return a.args[0]
  return _mk('lnot', (a,), 0)


def land(args):
  s = {}
  stack = list(args)
  while stack:
    a = stack.pop()
    if a is FALSE:
      return FALSE
    if a is TRUE:
      continue
    if a.op == 'land':
      stack.extend(a.args)
    else:
      s[a] = 1
  for a in s:
    if a.op == 'lnot' and a.args[0] in s:
      return FALSE
  ts = _ids(s)
  if not ts:
    return TRUE
  if len(ts) == 1:
    return ts[0]
  return _mk('land', tuple(ts), 0)


def lor(args):
  s = {}
  stack = list(args)
  while stack:
    a = stack.pop()
    if a is TRUE:
      return TRUE
    if a is FALSE:
      continue
    if a.op == 'lor':
      stack.extend(a.args)
    else:
      s[a] = 1
  for a in s:
    if a.op == 'lnot' and a.args[0] in s:
      return TRUE
  ts = _ids(s)
  if not ts:
    return FALSE
  if len(ts) == 1:
    return ts[0]
  return _mk('lor', tuple(ts), 0)


def eq(a, b):
  if a is b:
    return TRUE
  w = a.w
  assert w == b.w and w > 0, (a.w, b.w)
  if a.op == 'c' and b.op == 'c':
    return FALSE
  if a.op == 'c':
    a, b = b, a
  if b.op == 'c':
    v = b.args[0]
    if a.op == 'xor' and a.args[-1].op == 'c':
      rest = a.args[:-1]
      return eq(rest[0] if len(rest) == 1 else _mk('xor', rest, w),
                const(v ^ a.args[-1].args[0], w))
    if a.op == 'xor' and len(a.args) == 2 and v == 0:
      return eq(a.args[0], a.args[1])
    if a.op == 'b64c':
      ch = bytes([v])
      i = B64.find(ch)
      if i < 0:
        return FALSE
      return eq(a.args[0], const(i, 6))
    if a.op == 'ite' and a.args[1].op == 'c' and a.args[2].op == 'c':
      c, x, y = a.args
      if x.args[0] == v:
        return c if y.args[0] != v else TRUE
      return lnot(c) if y.args[0] == v else FALSE
    if w == 8 and not (dom(a) >> v) & 1:
      return FALSE
    if a.op == 'or' and v == 0:
      return land([eq(x, const(0, w)) for x in a.args])
  else:
    if a.op == 'b64c' and b.op == 'b64c':
      return eq(a.args[0], b.args[0])
    if a.op == 'b64x' and b.op == 'b64x' and a.args[1:] == b.args[1:]:
      return eq(a.args[0], b.args[0])
    if a.op == 'uf' and b.op == 'uf' and a.args[0] == b.args[0]:
      n = a.args[0]
      if n in CR:
        if [x.w for x in a.args[1:]] == [x.w for x in b.args[1:]]:
          return land([eq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
        if n == 'sha1' or a.args[1] is b.args[1]:
          return FALSE
      if n in INVERSE and a.args[1:-1] == b.args[1:-1]:
        return eq(a.args[-1], b.args[-1])
    if a.op == 'xor' or b.op == 'xor':
      sa = set(a.args) if a.op == 'xor' else set([a])
      sb = set(b.args) if b.op == 'xor' else set([b])
      if sa & sb:
        r = xor([a, b])
        if r.op == 'xor' and len(r.args) == 2:
          return eq(r.args[0], r.args[1])
        return eq(r, const(0, w))
    if w == 8 and a.op in ('b64c', 'v', 'ite') and b.op in ('b64c', 'v', 'ite') \
        and not dom(a) & dom(b):
      return FALSE
  if a.op == 'cat' or b.op == 'cat':
    # split where either is split, walking both in parallel
    pa = a.args if a.op == 'cat' else (a,)
    pb = b.args if b.op == 'cat' else (b,)
    parts = []
    i = j = 0
    ra, rb = pa[0].w, pb[0].w      # bits left of the current parts
    while True:
      n = min(ra, rb)
      x, y = pa[i], pb[j]
      if n != x.w:
        x = extract(ra - 1, ra - n, x)
      if n != y.w:
        y = extract(rb - 1, rb - n, y)
      e = eq(x, y)
      if e is FALSE:
        return FALSE
      if e is not TRUE:
        parts.append(e)
      ra -= n
      rb -= n
      if not ra:
        i += 1
        if i == len(pa):
          break
        ra = pa[i].w
      if not rb:
        j += 1
        rb = pb[j].w
    return land(parts)
  if a.id > b.id:
    a, b = b, a
  return _mk('eq', (a, b), 0)


def iff(a, b):
  if a is b:
    return TRUE
  if a.op == 'b':
    a, b = b, a
  if b.op == 'b':
    return a if b is TRUE else lnot(a)
  return lor([land([a, b]), land([lnot(a), lnot(b)])])


def _lead(t):
  """Strip the known-zero head, returning (width, term)."""
  if t.op == 'cat' and t.args[0].op == 'c' and t.args[0].args[0] == 0:
    return concat(t.args[1:])
  return t


def ult(a, b):
  if a is b:
    return FALSE
  if a.op == 'c' and b.op == 'c':
    return boolc(a.args[0] < b.args[0])
  if b.op == 'c':
    if b.args[0] == 0:
      return FALSE
    x = _lead(a)
    if b.args[0] >> x.w:
      return TRUE
    if x is not a:
      return ult(x, const(b.args[0], x.w))
    if b.args[0] == 1:
      return eq(a, const(0, a.w))
  if a.op == 'c':
    x = _lead(b)
    if a.args[0] >> x.w:
      return FALSE
    if a.args[0] == (1 << x.w) - 1:
      return FALSE
    if x is not b:
      return ult(const(a.args[0], x.w), x)
    if a.args[0] == 0:
      return lnot(eq(b, const(0, b.w)))
  return _mk('ult', (a, b), 0)


def ule(a, b):
  return lnot(ult(b, a))


def slt(a, b):
  if a is b:
    return FALSE
  if a.op == 'c' and b.op == 'c':
    return boolc(_sv(a) < _sv(b))
  pa, pb = _nonneg(a), _nonneg(b)
  if pa and pb:
    return ult(a, b)
  return _mk('slt', (a, b), 0)


def _sv(t):
  v = t.args[0]
  return v - (1 << t.w) if v >> (t.w - 1) else v


def _nonneg(t):
  if t.op == 'c':
    return not t.args[0] >> (t.w - 1)
  return t.op == 'cat' and t.args[0].op == 'c' and \
      not t.args[0].args[0] >> (t.args[0].w - 1)


# ------------------------------------------------------------ byte-value sets

ALL = (1 << 256) - 1


def dom(t):
  """Over-approximated set (bit mask) of the values of an 8-bit term."""
  if t.op == 'c':
    return 1 << t.args[0]
  d = t._dom
  if d is not None:
    return d
  d = ALL
  if t.op == 'b64c':
    d = B64MASK
  elif t.op == 'b64x':
    d = B64MASK62 | (1 << t.args[1]) | (1 << t.args[2])
  elif t.op == 'ite':
    d = dom(t.args[1]) | dom(t.args[2])
  elif t.op == 'cat' and len(t.args) == 2 and t.args[0].op == 'c':
    lo = t.args[1].w
    base = t.args[0].args[0] << lo
    d = ((1 << (1 << lo)) - 1) << base
  t._dom = d
  return d


def member(t, mask):
  """Boolean term: the 8-bit term t is in the set mask."""
  d = dom(t)
  if not d & ~mask:
    return TRUE
  if not d & mask:
    return FALSE
  if t.op == 'ite':
    return ite(t.args[0], member(t.args[1], mask), member(t.args[2], mask))
  m = mask & d
  # membership among the possible values; treat impossible ones as free
  alts = []
  v = 0
  while v < 256:
    if (m >> v) & 1:
      e = v
      last = v
      while e + 1 < 256 and ((m >> (e + 1)) & 1 or not (d >> (e + 1)) & 1):
        e += 1
        if (m >> e) & 1:
          last = e
      if v == last:
        alts.append(eq(t, const(v, 8)))
      else:
        c = []
        if v > 0:
          c.append(lnot(ult(t, const(v, 8))))
        if last < 255:
          c.append(ult(t, const(last + 1, 8)))
        alts.append(land(c))
      v = e + 1
    else:
      v += 1
  return lor(alts)


# ----------------------------------------------------------------- free names

def free(t):
  """Frozenset of variable names (terms of op 'v') below t."""
  if t._vars is not None:
    return t._vars
  stack = [t]
  while stack:
    x = stack[-1]
    if x._vars is not None:
      stack.pop()
      continue
    todo = [a for a in x.args if isinstance(a, T) and a._vars is None]
    if todo:
      stack.extend(todo)
      continue
    if x.op == 'v':
      x._vars = frozenset((x,))
    else:
      subs = [a._vars for a in x.args if isinstance(a, T)]
      if not subs:
        x._vars = frozenset()
      elif len(subs) == 1:
        x._vars = subs[0]
      else:
        big = max(subs, key=len)
        if all(s <= big for s in subs):
          x._vars = big
        else:
          x._vars = frozenset().union(*subs)
    stack.pop()
  return t._vars


def walk(roots):
  seen = set()
  stack = list(roots)
  while stack:
    t = stack.pop()
    if t in seen:
      continue
    seen.add(t)
    yield t
    for a in t.args:
      if isinstance(a, T) and a not in seen:
        stack.append(a)


# ----------------------------------------------------------------- evaluation

class NoValue(Exception):
  pass


def evaluate(t, env, ufs=None, memo=None):
  """Value of t (int, or bool for booleans).  env maps variable terms to values;
  ufs(name, [(value, width)...], width) gives uninterpreted values."""
  if memo is None:
    memo = {}
  stack = [t]
  while stack:
    x = stack[-1]
    if x in memo:
      stack.pop()
      continue
    todo = [a for a in x.args if isinstance(a, T) and a not in memo]
    if todo:
      stack.extend(todo)
      continue
    memo[x] = _ev(x, env, ufs, memo)
    stack.pop()
  return memo[t]


def _ev(x, env, ufs, m):
  op = x.op
  a = x.args
  mask = (1 << x.w) - 1
  if op == 'c' or op == 'b':
    return a[0]
  if op == 'v':
    if x in env:
      return env[x]
    raise NoValue(a[0])
  if op == 'cat':
    v = 0
    for p in a:
      v = (v << p.w) | m[p]
    return v
  if op == 'ext':
    return (m[a[2]] >> a[1]) & mask
  if op == 'sext':
    v = m[a[0]]
    w = a[0].w
    return (v - (1 << w) if v >> (w - 1) else v) & mask
  if op == 'xor':
    v = 0
    for p in a:
      v ^= m[p]
    return v
  if op == 'and':
    v = mask
    for p in a:
      v &= m[p]
    return v
  if op == 'or':
    v = 0
    for p in a:
      v |= m[p]
    return v
  if op == 'not':
    return ~m[a[0]] & mask
  if op == 'neg':
    return -m[a[0]] & mask
  if op == 'add':
    return (m[a[0]] + m[a[1]]) & mask
  if op == 'sub':
    return (m[a[0]] - m[a[1]]) & mask
  if op == 'mul':
    return (m[a[0]] * m[a[1]]) & mask
  if op == 'udiv':
    return m[a[0]] // m[a[1]] if m[a[1]] else mask
  if op == 'urem':
    return m[a[0]] % m[a[1]] if m[a[1]] else m[a[0]]
  if op == 'ite':
    return m[a[1]] if m[a[0]] else m[a[2]]
  if op == 'b64c':
    return B64[m[a[0]]]
  if op == 'b64x':
    v = m[a[0]]
    return a[1] if v == 62 else a[2] if v == 63 else B64[v]
  if op == 'b64d':
    return max(B64.find(bytes([m[a[0]]])), 0)
  if op == 'uf':
    if ufs is None:
      raise NoValue(a[0])
    return ufs(a[0], [(m[p], p.w) for p in a[1:]], x.w)
  if op == 'lnot':
    return not m[a[0]]
  if op == 'land':
    return all(m[p] for p in a)
  if op == 'lor':
    return any(m[p] for p in a)
  if op == 'eq':
    return m[a[0]] == m[a[1]]
  if op == 'ult':
    return m[a[0]] < m[a[1]]
  if op == 'slt':
    def s(p):
      v = m[p]
      return v - (1 << p.w) if v >> (p.w - 1) else v
    return s(a[0]) < s(a[1])
  raise AssertionError(op)
