"""Stand-ins for the crypto libraries, over the primitives of backend.py.

They follow the documented behaviour of PyCrypto 2.6.1 (AES, RSA, DSA),
M2Crypto EVP ciphers and pyasn1's DER codec, for symbolic or concrete data.
"""
import operator
import types

from . import backend
from . import sym
from . import terms as tm
from .sym import els_of, mkbytes, mkint, mkbool, SymInt, is_sym, pack


def need_bytes(x, what):
  if not isinstance(x, (bytes, bytearray, memoryview)):
    raise TypeError('%s: expected bytes, not %s' % (what, type(x).__name__))
  return x


# ------------------------------------------------------------------------ AES

class PyCryptoAES(object):
  """Crypto.Cipher.AES.AESCipher"""

  def __init__(self, key, mode, iv):
    self.mode = mode
    self.IV = iv
    self.block_size = 16
    self.key_size = len(key)
    self._key = key
    self._enc = self._dec = None

  def _need(self, data):
    need_bytes(data, 'AES')
    if len(data) % 16:
      raise ValueError('Input strings must be a multiple of 16 in length')
    return list(els_of(data))

  def encrypt(self, data):
    els = self._need(data)
    if self._enc is None:
      self._enc = backend.Cbc(self._key, self.IV, 1)
    return mkbytes(self._run(self._enc, els))

  def decrypt(self, data):
    els = self._need(data)
    if self._dec is None:
      self._dec = backend.Cbc(self._key, self.IV, 0)
    return mkbytes(self._run(self._dec, els))

  def _run(self, c, els):
    if self.mode == 2:
      return c.blocks(els)
    if self.mode == 1:
      out = []
      for i in range(0, len(els), 16):
        b = tuple(els[i:i + 16])
        out.extend(backend.aes_e(self._key, b) if c.op else
                   backend.aes_d(self._key, b))
      return out
    raise NotImplementedError('AES mode %r' % self.mode)


def aes_new(key, mode=1, IV=b'', **kw):
  need_bytes(key, 'AES key')
  if len(key) not in (16, 24, 32):
    raise ValueError('AES key must be either 16, 24, or 32 bytes long')
  if mode != 1:
    need_bytes(IV, 'AES IV')
    if len(IV) != 16:
      raise ValueError('IV must be 16 bytes long')
  return PyCryptoAES(key, mode, IV)


class EVPError(ValueError):
  pass


class EVPCipher(object):
  """M2Crypto.EVP.Cipher for aes_*_cbc / aes_*_ecb."""

  def __init__(self, alg, key, iv, op, key_as_bytes=0, d='md5',
               salt=b'12345678', i=1, padding=1):
    parts = alg.split('_')
    if len(parts) != 3 or parts[0] != 'aes' or \
        parts[1] not in ('128', '192', '256') or \
        parts[2] not in ('cbc', 'ecb'):
      raise ValueError('unknown cipher', alg)
    need_bytes(key, 'EVP key')
    need_bytes(iv, 'EVP iv')
    if len(key) < int(parts[1]) // 8 or (parts[2] == 'cbc' and len(iv) < 16):
      raise ValueError('EVP key or IV too short')
    self.ecb = parts[2] == 'ecb'
    self.key = key[:int(parts[1]) // 8]
    self.op = 1 if op else 0
    self.c = backend.Cbc(self.key, iv[:16], self.op)
    self.padding = padding
    self.buf = []

  def _blocks(self, els):
    if not self.ecb:
      return self.c.blocks(els)
    out = []
    for i in range(0, len(els), 16):
      b = tuple(els[i:i + 16])
      out.extend(backend.aes_e(self.key, b) if self.op else
                 backend.aes_d(self.key, b))
    return out

  def update(self, data):
    need_bytes(data, 'EVP update')
    self.buf.extend(els_of(data))
    n = len(self.buf) // 16 * 16
    if self.padding and not self.op and n and n == len(self.buf):
      n -= 16
    todo, self.buf = self.buf[:n], self.buf[n:]
    return mkbytes(self._blocks(todo))

  def final(self):
    if not self.padding:
      if self.buf:
        raise EVPError('wrong final block length')
      return b''
    if self.op:
      pad = 16 - len(self.buf)
      r = self._blocks(self.buf + [pad] * pad)
      self.buf = []
      return mkbytes(r)
    if len(self.buf) != 16:
      raise EVPError('wrong final block length')
    r = mkbytes(self._blocks(self.buf))
    self.buf = []
    n = r[15]
    if not (n >= 1) or not (n <= 16):
      raise EVPError('bad decrypt')
    n = int(n)
    for j in range(n):
      if r[15 - j] != n:
        raise EVPError('bad decrypt')
    return r[:16 - n]

  def set_padding(self, padding=1):
    self.padding = padding
    return 1


# ------------------------------------------------------------------------ RSA

def b2l(b):
  els = els_of(b)
  if not els:
    return 0
  if all(type(e) is int for e in els):
    return int.from_bytes(bytes(els), 'big')
  if sym.CUR is not None:
    # the number these bytes were made from, equal on this path
    n = sym.CUR.__dict__.get('l2b', {}).get(tuple(els))
    if n is not None:
      return n
  return mkint(pack(els))


def l2b(n):
  """PyCrypto's long_to_bytes: leading zeros dropped, b'\\0' for zero."""
  if not is_sym(n):
    return n.to_bytes(max(1, (n.bit_length() + 7) // 8), 'big')
  t = n.t
  w = (t.w + 7) // 8 * 8
  els = sym.unpack(tm.zext(t, w))
  while len(els) > 1:
    e = els[0]
    if type(e) is int:
      if e:
        break
    elif not sym.CUR.branch(tm.eq(e, tm.const(0, 8))):
      break
    del els[0]
  if len(els) * 8 < w:
    sym.CUR.__dict__.setdefault('l2b', {})[tuple(els)] = n
  return mkbytes(els)


def _fit(x, nbytes):
  """The integer x as exactly nbytes elements (it must fit)."""
  if not is_sym(x):
    return tuple(x.to_bytes(nbytes, 'big'))
  t = x.t
  if t.w > 8 * nbytes:
    t = tm.extract(8 * nbytes - 1, 0, t)
  return tuple(sym.unpack(tm.zext(t, 8 * nbytes)))


class RSAKey(object):
  """Crypto.PublicKey.RSA._RSAobj"""

  def __init__(self, t):
    names = ('n', 'e', 'd', 'p', 'q', 'u')
    for k, v in zip(names, t):
      if not isinstance(v, int):
        raise AssertionError('RSA component %s is not an integer' % k)
      setattr(self, k, v)
    if len(t) == 3 and not is_sym(self.n):
      pass
    self._nbytes = (sym._coerce(self.n)[0].w + 7) // 8

  def __getattr__(self, name):
    if name in ('n', 'e', 'd', 'p', 'q', 'u'):
      raise AttributeError('No such attribute: %s' % name)
    raise AttributeError(name)

  def has_private(self):
    return 'd' in self.__dict__

  def can_encrypt(self):
    return True
  can_sign = can_encrypt

  def can_blind(self):
    return True

  def size(self):
    return self.n.bit_length() - 1

  def publickey(self):
    return RSAKey((self.n, self.e))

  def __eq__(self, o):
    return isinstance(o, RSAKey) and self.__dict__ == o.__dict__

  __hash__ = None

  def _apply(self, name, x):
    nb = self._nbytes
    c = sym.CUR
    if not is_sym(x) and x.bit_length() > 8 * nb:
      if not is_sym(self.n):
        x %= self.n
    if is_sym(x) and x.t.w > 8 * nb:
      if not (x < (1 << (8 * nb))):
        raise sym.PathUnknown('RSA input longer than the modulus')
    real = None
    if not is_sym(self.n):
      if name == 'rsa_p' and not is_sym(self.e):
        real = lambda n, v: pow(v, self.e, n)
      elif name == 'rsa_s' and self.has_private() and not is_sym(self.d):
        real = lambda n, v: pow(v, self.d, n)
    out = b2l(mkbytes(backend.app(name, [_fit(self.n, nb), _fit(x, nb)], nb,
                                  real)))
    if is_sym(out):
      if is_sym(self.n) or nb <= 16:
        c.axiom(out < self.n)
      else:
        # its first bytes are enough, and cheaper to compare
        cut = 8 * (nb - 8)
        c.axiom((out >> cut) <= (self.n >> cut))
      # a stated bound: how many leading zero bytes results may have
      lim = c.limits.get('lead')
      if lim is not None and not is_sym(self.n):
        c.assume((out >> max(0, 8 * (nb - lim - 1))) != 0)
    return out

  def encrypt(self, plaintext, K):
    s = isinstance(plaintext, bytes)
    x = b2l(plaintext) if s else plaintext
    if not isinstance(x, int):
      raise TypeError('unsupported operand type(s) for pow()')
    r = self._apply('rsa_p', x)
    return (l2b(r) if s else r,)

  def decrypt(self, ciphertext):
    if not self.has_private():
      raise TypeError('No private key')
    if not isinstance(ciphertext, tuple):
      ciphertext = (ciphertext,)
    s = isinstance(ciphertext[0], bytes)
    x = b2l(ciphertext[0]) if s else ciphertext[0]
    if not isinstance(x, int):
      raise TypeError('unsupported operand type(s) for pow()')
    r = self._apply('rsa_s', x)
    return l2b(r) if s else r

  def sign(self, M, K):
    if not self.has_private():
      raise TypeError('Private key not available in this object')
    m = b2l(M) if isinstance(M, bytes) else M
    s = self._apply('rsa_s', m)
    if sym.CUR is not None:
      sym.CUR.sig_event('rsa', _fit(self.n, self._nbytes), m)
    return (s,)

  def verify(self, M, signature):
    m = b2l(M) if isinstance(M, bytes) else M
    (s,) = signature[:1]
    if not isinstance(s, int):
      raise TypeError('unsupported operand type(s) for pow()')
    r = self._apply('rsa_p', s) == m
    if sym.CUR is not None:
      sym.CUR.verify_axiom('rsa', _fit(self.n, self._nbytes), m, r)
    return r


def rsa_construct(t):
  if len(t) not in (2, 3, 5, 6):
    raise ValueError('argument for construct() wrong length')
  return RSAKey(t)


# ------------------------------------------------------------------------ DSA

def _inv(a, m):
  return pow(a, -1, m)


class DSAKey(object):
  """Crypto.PublicKey.DSA._DSAobj"""

  def __init__(self, t):
    names = ('y', 'g', 'p', 'q', 'x')
    for k, v in zip(names, t):
      if not isinstance(v, int):
        raise AssertionError('DSA component %s is not an integer' % k)
      setattr(self, k, v)

  def has_private(self):
    return 'x' in self.__dict__

  def publickey(self):
    return DSAKey((self.y, self.g, self.p, self.q))

  def size(self):
    return self.p.bit_length() - 1

  def can_sign(self):
    return True

  def _id(self):
    out = ()
    for k in ('y', 'g', 'p', 'q'):
      v = getattr(self, k)
      out += _fit(v, (sym._coerce(v)[0].w + 7) // 8)
    return out

  def sign(self, M, K):
    if not self.has_private():
      raise TypeError('Private key not available in this object')
    m = b2l(M) if isinstance(M, bytes) else M
    k = b2l(K) if isinstance(K, bytes) else K
    if not (k > 1) or not (k < self.q):
      raise ValueError('k is not between 2 and q-1')
    if sym.CUR is not None:
      sym.CUR.secret_event(k)
    r, s = self._rs(m, k)
    nb = (sym._coerce(self.q)[0].w + 7) // 8
    c = sym.CUR
    for v in (r, s):
      if is_sym(v):
        c.axiom(v < self.q)
        lim = c.limits.get('lead')
        c.assume(v >= (1 if lim is None else 1 << (8 * (nb - lim - 1))))
    if c is not None:
      c.sig_event('dsa', self._id(), m, (r, s))
    return (r, s)

  def _rs(self, m, k):
    nb = (sym._coerce(self.q)[0].w + 7) // 8
    hb = max(nb, (sym._coerce(m)[0].w + 7) // 8)

    def real_r(*a):
      return pow(self.g, k, self.p) % self.q

    def real_s(*a):
      return _inv(k, self.q) * (m + self.x * real_r()) % self.q
    conc = not any(map(is_sym, (self.p, self.q, self.g, self.x, k, m)))
    xb = (sym._coerce(self.x)[0].w + 7) // 8
    ida, ka, ma = self._id() + _fit(self.x, xb), _fit(k, nb), _fit(m, hb)
    r = b2l(mkbytes(backend.app('dsa_r', [ida, ka], nb,
                                real_r if conc else None)))
    s = b2l(mkbytes(backend.app('dsa_s', [ida, ka, ma], nb,
                                real_s if conc else None)))
    return r, s

  def verify(self, M, signature):
    m = b2l(M) if isinstance(M, bytes) else M
    r, s = signature
    if not (0 < r) or not (r < self.q) or not (0 < s) or not (s < self.q):
      return False
    nb = (sym._coerce(self.q)[0].w + 7) // 8
    hb = max(nb, (sym._coerce(m)[0].w + 7) // 8)
    conc = not any(map(is_sym, (self.p, self.q, self.g, self.y, r, s, m)))

    def real(*a):
      w = _inv(s, self.q)
      v = pow(self.g, m * w % self.q, self.p) * \
          pow(self.y, r * w % self.q, self.p) % self.p % self.q
      return 1 if v == r else 0
    out = backend.app('dsa_v', [self._id(), _fit(m, hb), _fit(r, nb),
                                _fit(s, nb)], 1, real if conc else None)
    if type(out[0]) is int:
      return bool(out[0] & 1)
    ok = mkbool(tm.eq(tm.extract(0, 0, out[0]), tm.const(1, 1)))
    sym.CUR.verify_axiom('dsa', self._id(), m, ok, (r, s))
    return ok


def dsa_construct(t):
  if len(t) not in (4, 5):
    raise ValueError('argument for construct() wrong length')
  return DSAKey(t)


# ----------------------------------------------------------------------- ASN.1

class PyAsn1Error(Exception):
  pass


class SubstrateUnderrunError(PyAsn1Error):
  pass


class Asn1Item(object):
  isValue = True

  def hasValue(self):
    return self.isValue


class Integer(Asn1Item):
  tag = 2

  def __init__(self, v=None):
    if isinstance(v, Integer):
      v = v.v
    if isinstance(v, str):
      v = int(v)
    if v is not None and not isinstance(v, int):
      raise PyAsn1Error("Can't coerce %r into integer" % type(v).__name__)
    self.v = v

  def __sx_int__(self):
    return self.v

  def __int__(self):
    return int(self.v)
  __index__ = __int__

  def __eq__(self, o):
    return self.v == (o.v if isinstance(o, Integer) else o)

  def __ne__(self, o):
    return self.v != (o.v if isinstance(o, Integer) else o)

  def __hash__(self):
    return hash(self.v)

  def __lt__(self, o):
    return self.v < (o.v if isinstance(o, Integer) else o)

  def __gt__(self, o):
    return self.v > (o.v if isinstance(o, Integer) else o)

  def __le__(self, o):
    return self.v <= (o.v if isinstance(o, Integer) else o)

  def __ge__(self, o):
    return self.v >= (o.v if isinstance(o, Integer) else o)

  isValue = property(lambda self: self.v is not None)

  def __bool__(self):
    return self.v != 0

  def __str__(self):
    return str(self.v)
  prettyPrint = __str__

  def __neg__(self):
    return Integer(-self.v)

  def contents(self):
    v = self.v
    if not is_sym(v):
      n = (v if v >= 0 else -v - 1).bit_length() // 8 + 1
      return list(v.to_bytes(n, 'big', signed=True))
    if v.signed:
      if v < 0:
        raise sym.PathUnknown('negative symbolic ASN.1 integer')
    els = list(els_of(l2b(v)))
    if not els:
      els = [0]
    e = els[0]
    top = e >= 128 if type(e) is int else sym.CUR.branch(
        tm.eq(tm.extract(7, 7, e), tm.const(1, 1)))
    if top:
      els.insert(0, 0)
    return els


def _arith(name):
  def op(self, o):
    return Integer(getattr(operator, name)(
        self.v, o.v if isinstance(o, Integer) else o))

  def rop(self, o):
    return Integer(getattr(operator, name)(o, self.v))
  return op, rop


for _n in ('add', 'sub', 'mul', 'floordiv', 'mod', 'lshift', 'rshift', 'and_',
           'or_', 'xor'):
  _op, _rop = _arith(_n)
  setattr(Integer, '__%s__' % _n.strip('_'), _op)
  setattr(Integer, '__r%s__' % _n.strip('_'), _rop)


class Boolean(Integer):
  tag = 1

  def contents(self):
    return [255 if self.v else 0]


class OctetString(Asn1Item):
  tag = 4

  def __init__(self, v=b''):
    if isinstance(v, OctetString):
      v = v.v
    if isinstance(v, str):
      v = v.encode('iso-8859-1')
    self.v = v

  def asOctets(self):
    return self.v

  def __sx_bytes__(self):
    return self.v

  def __bytes__(self):
    return bytes(self.v)

  def __len__(self):
    return len(self.v)

  def __eq__(self, o):
    return self.v == (o.v if isinstance(o, OctetString) else o)
  __hash__ = None

  def asNumbers(self):
    return tuple(self.v)

  def __iter__(self):
    return iter(self.v)

  def __getitem__(self, i):
    r = self.v[i]
    return OctetString(r) if isinstance(i, slice) else r

  def __add__(self, o):
    return OctetString(self.v + (o.v if isinstance(o, OctetString) else o))

  def __str__(self):
    return self.v.decode('latin-1')

  def contents(self):
    return list(els_of(self.v))


class Null(Asn1Item):
  tag = 5

  def __init__(self, v=''):
    pass

  def __len__(self):
    return 0

  def contents(self):
    return []


class ObjectIdentifier(Asn1Item):
  tag = 6

  def __init__(self, v):
    self.v = tuple(int(x) for x in v.split('.')) if isinstance(v, str) \
        else tuple(v)

  def __eq__(self, o):
    if isinstance(o, ObjectIdentifier):
      return self.v == o.v
    return self.v == o if isinstance(o, tuple) else False

  def __ne__(self, o):
    return not self == o

  def __hash__(self):
    return hash(self.v)

  def __str__(self):
    return '.'.join(map(str, self.v))
  prettyPrint = __str__

  def asTuple(self):
    return self.v

  def __len__(self):
    return len(self.v)

  def __iter__(self):
    return iter(self.v)

  def __contains__(self, x):
    return x in self.v

  def __getitem__(self, i):
    return ObjectIdentifier(self.v[i]) if isinstance(i, slice) else self.v[i]

  def __add__(self, o):
    return ObjectIdentifier(self.v + tuple(o))

  def __lt__(self, o):
    return self.v < tuple(o)

  def index(self, x):
    return self.v.index(x)

  def isPrefixOf(self, o):
    return len(self.v) <= len(o) and self.v == tuple(o)[:len(self.v)]

  def contents(self):
    out = [40 * self.v[0] + self.v[1]]
    for x in self.v[2:]:
      part = [x & 127]
      x >>= 7
      while x:
        part.insert(0, 128 | (x & 127))
        x >>= 7
      out += part
    return out


class BitString(Asn1Item):
  tag = 3

  def __init__(self, v=()):
    self.unused = 0
    if isinstance(v, BitString):
      self.v, self.unused = v.v, v.unused
      return
    if isinstance(v, str):
      s = v
      els = els_of(s)
      if len(els) >= 3 and els[0] == 39 and els[-1] in (66, 98) and \
          els[-2] == 39:
        bits = els[1:-2]
      elif len(els) >= 3 and els[0] == 39:
        raise PyAsn1Error('Bad BIT STRING value notation %s' % (v,))
      else:
        bits = els
      ts = []
      for e in bits:
        if type(e) is int:
          if e not in (48, 49):
            raise PyAsn1Error('Bad BIT STRING value notation %s' % (v,))
          ts.append(tm.const(e - 48, 1))
        else:
          ts.append(tm.extract(0, 0, e))
      n = len(ts)
      self.unused = -n % 8
      ts += [tm.const(0, self.unused)] if self.unused else []
      self.v = mkbytes(sym.unpack(tm.concat(ts))) if ts else b''
      return
    if isinstance(v, (tuple, list)):
      bits = ''.join(str(int(b)) for b in v)
      self.__init__("'%s'B" % bits)
      return
    raise PyAsn1Error('Bad BitString initializer type')

  def asOctets(self):
    if self.unused:
      raise sym.PathUnknown('bit string of partial octets')
    return self.v

  def asNumbers(self):
    return tuple(self.asOctets())

  def asInteger(self):
    return int.from_bytes(self.asOctets(), 'big') if not is_sym(self.v) else \
        mkint(pack(els_of(self.asOctets())))

  @classmethod
  def fromOctetString(cls, value, *a, **k):
    r = cls()
    r.v, r.unused = value, 0
    return r

  def __getitem__(self, i):
    if isinstance(i, slice):
      raise sym.PathUnknown('slice of a bit string')
    n = len(self)
    i = i + n if i < 0 else i
    if not 0 <= i < n:
      raise IndexError('bit string index out of range')
    b = (self.v[i // 8] >> (7 - i % 8)) & 1
    return b if is_sym(b) else int(b)

  def __iter__(self):
    return iter([self[i] for i in range(len(self))])

  def __len__(self):
    return 8 * len(self.v) - self.unused

  def contents(self):
    return [self.unused] + list(els_of(self.v))


class _SeqBase(Asn1Item):
  tag = 0x30

  def __init__(self, **kw):
    self.items = []

  def setComponentByPosition(self, i, v=None, *a, **k):
    if not isinstance(v, Asn1Item):
      raise PyAsn1Error('component value %r is not an ASN.1 item' % type(v))
    if i > len(self.items):
      raise PyAsn1Error('component index out of range')
    if i == len(self.items):
      self.items.append(v)
    else:
      self.items[i] = v
    return self

  def getComponentByPosition(self, i, *a, **k):
    try:
      return self.items[i]
    except IndexError:
      raise PyAsn1Error('component index out of range')

  def __getitem__(self, i):
    return self.items[i]

  def __setitem__(self, i, v):
    self.setComponentByPosition(i, v)

  def append(self, v):
    self.items.append(v)

  def extend(self, vs):
    self.items.extend(vs)

  def __len__(self):
    return len(self.items)

  def __iter__(self):
    return iter(self.items)

  @property
  def components(self):
    return list(self.items)

  def contents(self):
    out = []
    for i in self.items:
      out += der(i)
    return out


class Sequence(_SeqBase):
  pass


class SequenceOf(_SeqBase):
  pass


class Set(_SeqBase):
  tag = 0x31


class Other(Asn1Item):
  """An element of a type the code under test has no use for."""

  def __init__(self, tag, data):
    self.tag = tag
    self.v = data

  def __len__(self):
    return len(self.v)


def der(item):
  if not isinstance(item, Asn1Item):
    raise PyAsn1Error('No encoder for %r' % type(item))
  c = item.contents()
  n = len(c)
  if n < 128:
    head = [n]
  else:
    lb = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    head = [128 | len(lb)] + list(lb)
  return [item.tag] + head + c


def encode(item, *a, **k):
  return mkbytes(der(item))


def decode(substrate, *a, **k):
  if isinstance(substrate, OctetString):
    substrate = substrate.v
  if isinstance(substrate, BitString):
    raise PyAsn1Error('Cannot convert BitString to seekable bit stream')
  if not isinstance(substrate, (bytes, bytearray)):
    raise PyAsn1Error('Cannot convert %s to a seekable bit stream' %
                      type(substrate).__name__)
  els = list(els_of(substrate))
  if not els:
    raise SubstrateUnderrunError('Short octet stream on tag decoding')
  item, pos = _decode(els, 0, len(els), 0)
  return item, mkbytes(els[pos:])


def _c(e, v):
  """Branch: element equals v."""
  if type(e) is int:
    return e == v
  return sym.CUR.branch(tm.eq(e, tm.const(v, 8)))


def _decode(els, pos, end, depth):
  if pos >= end:
    raise SubstrateUnderrunError('Short octet stream on tag decoding')
  tag = els[pos]
  if type(tag) is not int:
    for cand in (0x30, 0x31, 2, 4, 5, 3, 1):
      if _c(tag, cand):
        tag = cand
        break
    else:
      # types without a place in the formats: some are rejected, the others
      # give an element that is none of the types above
      tag = -1
  pos += 1
  if pos >= end:
    raise SubstrateUnderrunError('Short octet stream on length decoding')
  l = els[pos]
  pos += 1
  if type(l) is not int:
    if sym.CUR.branch(tm.eq(tm.extract(7, 7, l), tm.const(0, 1))):
      if not sym.CUR.branch(tm.ule(l, tm.const(max(0, min(127, end - pos)),
                                               8))):
        raise SubstrateUnderrunError('Short substrate')
      l = int(mkint(l))
    else:
      if _c(l, 0x80):
        raise PyAsn1Error('Indefinite length encoding not supported')
      if _c(l, 0x81) and pos < end:
        l = mkint(els[pos]) if type(els[pos]) is not int else els[pos]
        pos += 1
        if is_sym(l):
          if l > end - pos:
            raise SubstrateUnderrunError('Short substrate')
          l = int(l)
      else:
        # longer lengths exceed every bounded input (leading zeros aside)
        raise SubstrateUnderrunError('Short substrate')
  elif l == 0x80:
    raise PyAsn1Error('Indefinite length encoding not supported')
  elif l > 128:
    n = l & 127
    if pos + n > end:
      raise SubstrateUnderrunError('Short octet stream on length decoding')
    lb = els[pos:pos + n]
    pos += n
    v = b2l(mkbytes(lb))
    if is_sym(v):
      if v > end - pos:
        raise SubstrateUnderrunError('Short substrate')
      v = int(v)
    l = v
  if pos + l > end:
    raise SubstrateUnderrunError('Short substrate')
  body = els[pos:pos + l]
  stop = pos + l
  if tag == 0x30 or tag == 0x31:
    items = []
    tags = set()
    while pos < stop:
      if depth > 4:
        raise PyAsn1Error('too deep')
      it, pos = _decode(els, pos, stop, depth + 1)
      items.append(it)
      if len(tags) < 2:
        if it is None:
          raise AttributeError("'NoneType' object has no attribute 'tagSet'")
        tags.add(it.tag)
      elif it is None:
        raise PyAsn1Error('NamedTypes undefined component type')
    if not items:
      return None, stop
    if tag == 0x31:
      s = Set()
    else:
      s = SequenceOf() if len(tags) < 2 else Sequence()
    s.items = items
    return s, stop
  if tag == 2 or tag == 1:
    if not body:
      if tag == 1:
        raise PyAsn1Error('Not single-octet Boolean payload')
      return Integer(0), stop
    if tag == 1:
      if len(body) != 1:
        raise PyAsn1Error('Not single-octet Boolean payload')
      if _c(body[0], 255):
        return Boolean(1), stop
      if _c(body[0], 0):
        return Boolean(0), stop
      raise PyAsn1Error('Unexpected Boolean payload')
    return Integer(_signed(body)), stop
  if tag == 4:
    return OctetString(mkbytes(body)), stop
  if tag == 5:
    if body:
      raise PyAsn1Error('Unexpected %d-octet substrate for Null' % l)
    return Null(), stop
  if tag == 3:
    if not body:
      raise PyAsn1Error('Empty BIT STRING substrate')
    b = BitString("''B")
    u = body[0]
    if type(u) is not int:
      if not sym.CUR.branch(tm.ule(u, tm.const(7, 8))):
        raise PyAsn1Error('Trailing bits overflow')
      u = int(mkint(u))
    if u > 7:
      raise PyAsn1Error('Trailing bits overflow %s' % u)
    b.v, b.unused = mkbytes(body[1:]), u
    return b, stop
  if tag == 6:
    if any(type(e) is not int for e in body) or not body:
      raise PyAsn1Error('Invalid object identifier')
    v = [body[0] // 40, body[0] % 40] if body[0] < 80 else [2, body[0] - 80]
    x = 0
    for e in body[1:]:
      x = (x << 7) | (e & 127)
      if not e & 128:
        v.append(x)
        x = 0
    return ObjectIdentifier(v), stop
  return Other(tag, mkbytes(body)), stop


def _signed(body):
  if all(type(e) is int for e in body):
    return int.from_bytes(bytes(body), 'big', signed=True)
  return mkint(pack(body), True)


# ------------------------------------------------------------------ as modules

def modules():
  """Fake library modules, by name."""
  def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m
  aes = mod('Crypto.Cipher.AES', new=aes_new, block_size=16, MODE_ECB=1,
            MODE_CBC=2, MODE_CFB=3, MODE_PGP=4, MODE_OFB=5, MODE_CTR=6,
            key_size=(16, 24, 32))

  def generate(kind):
    def gen(bits, randfunc=None, progress_func=None, *a, **k):
      c = sym.CUR
      return c.generate(kind, bits, randfunc)
    return gen
  rsa = mod('Crypto.PublicKey.RSA', construct=rsa_construct,
            generate=generate('rsa'))
  dsa = mod('Crypto.PublicKey.DSA', construct=dsa_construct,
            generate=generate('dsa'))

  class RandomFile(object):
    def read(self, n):
      return sym.CUR.draw('os', n)

    def flush(self):
      pass

    def close(self):
      pass
  rand = mod('Crypto.Random', new=lambda *a: RandomFile(),
             get_random_bytes=lambda n: sym.CUR.draw('os', n),
             atfork=lambda: None)
  cipher = mod('Crypto.Cipher', AES=aes, __path__=[])
  pk = mod('Crypto.PublicKey', RSA=rsa, DSA=dsa, __path__=[])
  number = mod('Crypto.Util.number', bytes_to_long=b2l, long_to_bytes=l2b)
  util = mod('Crypto.Util', number=number, __path__=[])
  crypto = mod('Crypto', Cipher=cipher, PublicKey=pk, Random=rand, Util=util,
               __path__=[])
  evp = mod('M2Crypto.EVP', Cipher=EVPCipher, EVPError=EVPError)
  m2 = mod('M2Crypto', EVP=evp, __path__=[])
  univ = mod('pyasn1.type.univ', Integer=Integer, OctetString=OctetString,
             Null=Null, ObjectIdentifier=ObjectIdentifier, BitString=BitString,
             Sequence=Sequence, SequenceOf=SequenceOf, Boolean=Boolean,
             Set=Set, SetOf=Set)
  ptype = mod('pyasn1.type', univ=univ, __path__=[])
  perr = mod('pyasn1.error', PyAsn1Error=PyAsn1Error,
             SubstrateUnderrunError=SubstrateUnderrunError)
  denc = mod('pyasn1.codec.der.encoder', encode=encode)
  ddec = mod('pyasn1.codec.der.decoder', decode=decode)
  der_ = mod('pyasn1.codec.der', encoder=denc, decoder=ddec, __path__=[])
  codec = mod('pyasn1.codec', der=der_, __path__=[])
  root = mod('pyasn1', type=ptype, codec=codec, error=perr, __path__=[])
  ms = [aes, rsa, dsa, rand, cipher, pk, number, util, crypto, evp, m2, univ,
        ptype, perr, denc, ddec, der_, codec, root]
  return {m.__name__: m for m in ms}
