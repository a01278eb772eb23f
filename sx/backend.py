"""Cryptographic primitives behind the code under test.

Symbolically they are uninterpreted functions with the algebraic facts stated
in terms.py; in a stand-in replay they are looked up in the counterexample's
table and otherwise computed; the real libraries are used in a real replay.
"""
from hashlib import sha256

from . import primitives
from . import sym
from . import terms as tm
from .sym import els_of, mkbytes, mkint, mkbool, pack, unpack, SymInt

TABLE = None    # {(name, ((value, width), ...), width): value} in a stand-in


def _val(els):
  v = 0
  for e in els:
    v = (v << 8) | e
  return v


def app(name, args, outlen, real=None):
  """Apply a primitive to byte strings; returns the element list."""
  args = [tuple(els_of(a)) if not isinstance(a, tuple) else a for a in args]
  args = [a for a in args if len(a)]
  w = 8 * outlen
  if all(type(e) is int for a in args for e in a):
    vals = tuple((_val(a), 8 * len(a)) for a in args)
    v = None
    if TABLE is not None:
      v = TABLE.get((name, vals, w))
    if v is None:
      v = real(*[x for x, _ in vals]) if real is not None else \
          primitives.real(name, list(vals), w)
    if v is None:
      h = b''
      i = 0
      while len(h) < outlen:
        h += sha256(repr((name, vals, w, i)).encode()).digest()
        i += 1
      v = int.from_bytes(h[:outlen], 'big')
    if sym.CUR is not None and sym.CUR.mode == 'sym':
      tm.KNOWN.setdefault(name, {})[(vals, w)] = v
    return list(v.to_bytes(outlen, 'big'))
  t = tm.uf(name, tuple(pack(a) for a in args), w)
  return unpack(t)


def sha1(data):
  return app('sha1', [data], 20)


def hash_(alg, data):
  if alg == 'sha1':
    return sha1(data)
  return app('hash_' + alg, [data], primitives._real_new(alg).digest_size)


def hmac_key(key, alg='sha1'):
  """The key as HMAC uses it: hashed if long, zero padded to a block."""
  els = tuple(els_of(key))
  block = primitives._real_new(alg).block_size
  if len(els) > block:
    els = tuple(hash_(alg, els))
  return els + (0,) * (block - len(els))


def hmac(key, msg, alg='sha1'):
  k = hmac_key(key, alg)
  m = tuple(els_of(msg))
  name = 'hmac' if alg == 'sha1' else 'hmac_' + alg
  out = app(name, [k, m], primitives._real_new(alg).digest_size)
  c = sym.CUR
  if c is not None:
    c.mac_event(name, k, m, out)
  return out


def aes_e(key, block):
  return app('aes_e', [key, block], 16)


def aes_d(key, block):
  return app('aes_d', [key, block], 16)


def xor(a, b):
  out = []
  for x, y in zip(a, b):
    if type(x) is int and type(y) is int:
      out.append(x ^ y)
    else:
      out.append(sym.norm(tm.xor([sym.eterm(x), sym.eterm(y)])))
  return out


def xor_block(a, b):
  """Exclusive or of 16-byte blocks as one word, so that it cancels."""
  if all(type(e) is int for e in a) and all(type(e) is int for e in b):
    return [x ^ y for x, y in zip(a, b)]
  return xor(a, b)


class Cbc(object):
  """AES-CBC over whole blocks."""

  def __init__(self, key, iv, op):
    self.key = tuple(els_of(key))
    self.prev = list(els_of(iv))
    self.op = op

  def blocks(self, els):
    out = []
    for i in range(0, len(els), 16):
      b = list(els[i:i + 16])
      if self.op:
        c = aes_e(self.key, tuple(xor(b, self.prev)))
        self.prev = c
        out.extend(c)
      else:
        p = xor(aes_d(self.key, tuple(b)), self.prev)
        self.prev = b
        out.extend(p)
    return out


def cbc_encrypt(key, iv, data):
  return Cbc(key, iv, 1).blocks(list(els_of(data)))


def cbc_decrypt(key, iv, data):
  return Cbc(key, iv, 0).blocks(list(els_of(data)))
