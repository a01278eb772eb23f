"""Shared parts of the harnesses: key sets written by hand, and oracles.

Nothing here calls the code under test unless the name says so."""
import base64
import json

STATUSES = ('PRIMARY', 'ACTIVE', 'INACTIVE')


def b64(s):
  """Web-safe Base64 without padding, of a byte string."""
  return base64.urlsafe_b64encode(s.encode('latin-1')).decode(
      'latin-1').replace('=', '')


def unb64(s):
  return base64.urlsafe_b64decode(s + '=' * (-len(s) % 4)).decode('latin-1')


def be4(n):
  return ''.join([chr((n >> s) & 255) for s in (24, 16, 8, 0)])


def some_bytes(i, n):
  """Given bytes, different for each i."""
  return ''.join([chr((37 * i + 11 * j + i * j) % 256) for j in range(n)])


class Aes(object):
  """An AES key as the key set format defines it."""

  def __init__(self, ctx, name, bits=128, hmac_bytes=32, fixed=None):
    self.bits = bits
    if fixed is None:
      self.key = ctx.str(name + '.aes', bits // 8)
      self.mac = ctx.str(name + '.mac', hmac_bytes)
    else:
      self.key = some_bytes(fixed, bits // 8)
      self.mac = some_bytes(fixed + 100, hmac_bytes)
    self.ctx = ctx

  type = 'AES'

  def json(self):
    return ('{"mode": "CBC", "size": %d, "aesKeyString": "' % self.bits +
            b64(self.key) + '", "hmacKey": {"size": %d, "hmacKeyString": "' %
            (len(self.mac) * 8) + b64(self.mac) + '"}}')

  def id(self):
    return self.ctx.sha1(be4(len(self.key)), self.key, self.mac)[:4]

  def header(self):
    return '\x00' + self.id()


class Hmac(object):
  type = 'HMAC_SHA1'

  def __init__(self, ctx, name, n=32, fixed=None):
    self.key = ctx.str(name + '.hmac', n) if fixed is None else \
        some_bytes(fixed, n)
    self.ctx = ctx

  def json(self):
    return ('{"size": %d, "hmacKeyString": "' % (len(self.key) * 8) +
            b64(self.key) + '"}')

  def id(self):
    return self.ctx.sha1(self.key)[:4]

  def header(self):
    return '\x00' + self.id()


def trim(s):
  s = s.lstrip('\x00')
  return s if s else '\x00'


def long_str(n):
  """Minimal big-endian byte string of a concrete integer."""
  return n.to_bytes((n.bit_length() + 7) // 8, 'big').decode('latin-1')


class Rsa(object):
  """A fixed RSA key pair of the pool."""

  def __init__(self, ctx, bits, i=0, public=False, pad=1):
    from sx import pool
    self.bits = bits
    self.n, self.e, self.d, self.p, self.q, self.u = pool.key('rsa', bits, i)
    self.public = public
    self.type = 'RSA_PUB' if public else 'RSA_PRIV'
    self.ctx = ctx
    self.k = (self.n.bit_length() + 7) // 8
    self.pad = '\x00' * pad

  def _f(self, n):
    return b64(self.pad + long_str(n))

  def pub_json(self):
    return '{"modulus": "%s", "publicExponent": "%s", "size": %d}' % (
        self._f(self.n), self._f(self.e), self.bits)

  def json(self):
    if self.public:
      return self.pub_json()
    return ('{"publicKey": %s, "privateExponent": "%s", "primeP": "%s", '
            '"primeQ": "%s", "primeExponentP": "%s", "primeExponentQ": "%s", '
            '"crtCoefficient": "%s", "size": %d}' % (
                self.pub_json(), self._f(self.d), self._f(self.q),
                self._f(self.p), self._f(self.d % (self.q - 1)),
                self._f(self.d % (self.p - 1)), self._f(self.u), self.bits))

  def id(self):
    n, e = long_str(self.n), long_str(self.e)
    return self.ctx.sha1(be4(len(n)), n, be4(len(e)), e)[:4]

  def header(self):
    return '\x00' + self.id()


class Dsa(object):
  def __init__(self, ctx, i=0, public=False, bits=1024, pad=1):
    from sx import pool
    self.bits = bits
    self.y, self.g, self.p, self.q, self.x = pool.key('dsa', bits, i)
    self.public = public
    self.type = 'DSA_PUB' if public else 'DSA_PRIV'
    self.ctx = ctx
    self.pad = '\x00' * pad

  def _f(self, n):
    return b64(self.pad + long_str(n))

  def pub_json(self):
    return '{"p": "%s", "q": "%s", "g": "%s", "y": "%s", "size": %d}' % (
        self._f(self.p), self._f(self.q), self._f(self.g), self._f(self.y),
        self.bits)

  def json(self):
    if self.public:
      return self.pub_json()
    return '{"publicKey": %s, "x": "%s", "size": %d}' % (
        self.pub_json(), self._f(self.x), self.bits)

  def id(self):
    parts = []
    for v in (self.p, self.q, self.g, self.y):
      s = long_str(v)
      parts += [be4(len(s)), s]
    return self.ctx.sha1(*parts)[:4]

  def header(self):
    return '\x00' + self.id()


def distinct_ids(ctx, keys):
  for i in range(len(keys)):
    for j in range(i):
      ctx.assume(ctx.no(ctx.eq(keys[i].id(), keys[j].id())))


def meta(purpose, ktype, statuses, numbers=None, encrypted=False, name='set'):
  numbers = numbers or range(1, len(statuses) + 1)
  return json.dumps({
      'name': name, 'purpose': purpose, 'type': ktype, 'encrypted': encrypted,
      'versions': [{'versionNumber': n, 'status': s, 'exportable': False}
                   for n, s in zip(numbers, statuses)]})


class Source(object):
  """A reader over strings held in memory."""

  def __init__(self, meta_json, key_jsons):
    self._m = meta_json
    self._k = dict(key_jsons)

  def GetMetadata(self):
    return self._m

  def GetKey(self, n):
    return self._k[n]

  def Close(self):
    pass


def key_set(cls, purpose, keys, statuses, numbers=None, ktype=None):
  """A keyczar object (code under test) over the given keys."""
  numbers = list(numbers or range(1, len(keys) + 1))
  return cls(Source(meta(purpose, ktype or keys[0].type, statuses, numbers),
                    {n: k.json() for n, k in zip(numbers, keys)}))


def some_statuses(ctx, name, n):
  """Any statuses with at most one primary."""
  out = []
  primary = ctx.choose(name + '.primary', range(n + 1))
  for i in range(n):
    if i == primary:
      out.append('PRIMARY')
    else:
      out.append(ctx.choose('%s.status%d' % (name, i), ['ACTIVE', 'INACTIVE']))
  return out


def many_statuses(ctx, name, n, primaries):
  """Statuses of a large set: the primary is one of a few, or none, and the
  others alternate."""
  p = ctx.choose(name + '.primary', list(primaries) + [None])
  first = ctx.choose(name + '.others', [0, 1])
  return ['PRIMARY' if i == p else ('ACTIVE', 'INACTIVE')[(i + first) % 2]
          for i in range(n)]


def use_lib(kz, lib):
  kz.keys.ACTIVE_CRYPT_LIB = lib


LIBS = ('m2crypto', 'pycrypto')


def lengths(limit, dense, extra=()):
  """Every length below dense, and the neighbours of the integer constants of
  the code under test up to the limit."""
  from sx import loader
  out = set(range(dense)) | set(extra)
  for c in loader.constants():
    for n in (c - 1, c, c + 1):
      if 0 <= n <= limit:
        out.add(n)
  return sorted(out)


FAR = 70000


def msg(ctx, name, n, most=4200):
  """A message; of a very long one, the ends and the bytes around the
  constants of the code are free."""
  if n <= most:
    return ctx.str(name, n)
  from sx import loader
  out = ''
  at = 0
  for c in sorted(set([16, n - 16] + [c for c in loader.constants()
                                      if min(most, 1000) < c < n])):
    lo = max(at, c - 16)
    hi = min(n, c + 16)
    if lo >= hi:
      continue
    out += 'm' * (lo - at) + ctx.str('%s.%d' % (name, lo), hi - lo)
    at = hi
  return out + 'm' * (n - at)


def long_chunks(above, size=6):
  """Lengths at the constants of the code, above the given one, in chunks."""
  xs = [x for x in lengths(FAR, 0) if x > above]
  return (chunks([x for x in xs if x <= 4200], size) +
          [[x] for x in xs if x > 4200])


def chunks(xs, size):
  xs = list(xs)
  return [xs[i:i + size] for i in range(0, len(xs), size)]


def drawn(ctx, start):
  """All bytes of the operating system's generator drawn since start."""
  return ''.join([ctx.bstr(v) for k, n, v in ctx.draws[start:] if k == 'os'])


def within(ctx, part, whole):
  """Is part a contiguous piece of whole?"""
  return ctx.any([ctx.eq(part, whole[i:i + len(part)])
                  for i in range(len(whole) - len(part) + 1)])


def outcome(fn):
  """('ok', value) or ('error', exception)"""
  try:
    return 'ok', fn()
  except Exception as e:
    return 'error', e


class Sink(object):
  """A stream that collects what is written."""

  def __init__(self):
    self.data = ''
    self.flushed = 0
    self.closed = False

  def write(self, s):
    self.data += s

  def flush(self):
    self.flushed += 1

  def close(self):
    self.closed = True


class Feed(object):
  """A stream that delivers its data in the given pieces; None: no data now."""

  def __init__(self, pieces):
    self.pieces = list(pieces)
    self.reads = 0

  def read(self, n=-1):
    self.reads += 1
    if self.reads > 4000:
      raise Endless()
    if not self.pieces:
      return ''
    p = self.pieces.pop(0)
    if p is None:
      return None
    if n is not None and 0 <= n < len(p):
      self.pieces.insert(0, p[n:])
      p = p[:n]
    return p


class Endless(Exception):
  pass


def split(data, cuts):
  """data cut into pieces of the given lengths, the last one repeating."""
  out = []
  i = 0
  j = 0
  while i < len(data):
    c = cuts[min(j, len(cuts) - 1)]
    j += 1
    if c is None:
      out.append(None)
      if j >= len(cuts):
        j = 0
      continue
    out.append(data[i:i + c])
    i += c
  return out
