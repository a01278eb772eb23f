"""Concrete versions of the functions that are uninterpreted symbolically."""
import hashlib
import hmac as _hmac

from . import terms as tm

_real_new = hashlib.new


def _aes_tables():
  sbox = [0] * 256
  p = q = 1
  while True:
    p = p ^ ((p << 1) & 255) ^ (0x1b if p & 0x80 else 0)
    q ^= q << 1
    q ^= q << 2
    q ^= q << 4
    q &= 255
    if q & 0x80:
      q ^= 9
    x = q
    r = x
    for s in range(1, 5):
      r ^= ((x << s) | (x >> (8 - s))) & 255
    sbox[p] = r ^ 0x63
    if p == 1:
      break
  sbox[0] = 0x63
  inv = [0] * 256
  for i, v in enumerate(sbox):
    inv[v] = i
  return sbox, inv


SBOX, INV = _aes_tables()


def _xt(a):
  return ((a << 1) ^ 0x1b) & 255 if a & 0x80 else a << 1


def _mulb(a, b):
  r = 0
  while b:
    if b & 1:
      r ^= a
    a = _xt(a)
    b >>= 1
  return r


def _expand(key):
  nk = len(key) // 4
  nr = nk + 6
  w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
  rc = 1
  for i in range(nk, 4 * (nr + 1)):
    t = list(w[i - 1])
    if i % nk == 0:
      t = [SBOX[b] for b in t[1:] + t[:1]]
      t[0] ^= rc
      rc = _xt(rc)
    elif nk > 6 and i % nk == 4:
      t = [SBOX[b] for b in t]
    w.append([x ^ y for x, y in zip(w[i - nk], t)])
  return [sum(w[4 * r:4 * r + 4], []) for r in range(nr + 1)]


def aes_encrypt_block(key, block):
  rk = _expand(key)
  s = [a ^ b for a, b in zip(block, rk[0])]
  for r in range(1, len(rk)):
    s = [SBOX[b] for b in s]
    s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
    if r != len(rk) - 1:
      o = []
      for c in range(4):
        a = s[4 * c:4 * c + 4]
        o += [_xt(a[j]) ^ _xt(a[(j + 1) % 4]) ^ a[(j + 1) % 4] ^
              a[(j + 2) % 4] ^ a[(j + 3) % 4] for j in range(4)]
      s = o
    s = [a ^ b for a, b in zip(s, rk[r])]
  return bytes(s)


def aes_decrypt_block(key, block):
  rk = _expand(key)
  s = [a ^ b for a, b in zip(block, rk[-1])]
  for r in range(len(rk) - 2, -1, -1):
    s = [s[(i - 4 * (i % 4)) % 16] for i in range(16)]
    s = [INV[b] for b in s]
    s = [a ^ b for a, b in zip(s, rk[r])]
    if r:
      o = []
      for c in range(4):
        a = s[4 * c:4 * c + 4]
        o += [_mulb(a[j], 14) ^ _mulb(a[(j + 1) % 4], 11) ^
              _mulb(a[(j + 2) % 4], 13) ^ _mulb(a[(j + 3) % 4], 9)
              for j in range(4)]
      s = o
  return bytes(s)


def _b(v, w):
  return v.to_bytes(w // 8, 'big')


def real(name, args, w):
  """The real value of an application, or None if there is none."""
  try:
    if name == 'sha1' or name.startswith('hash_'):
      alg = 'sha1' if name == 'sha1' else name[5:]
      return int.from_bytes(_real_new(alg, _b(*args[0]) if args
                                       else b'').digest(), 'big')
    if name == 'hmac' or name.startswith('hmac_'):
      alg = 'sha1' if name == 'hmac' else name[5:]
      msg = _b(*args[1]) if len(args) > 1 else b''
      return int.from_bytes(_hmac_real(_b(*args[0]), msg, alg), 'big')
    if name == 'aes_e':
      return int.from_bytes(aes_encrypt_block(_b(*args[0]), _b(*args[1])),
                            'big')
    if name == 'aes_d':
      return int.from_bytes(aes_decrypt_block(_b(*args[0]), _b(*args[1])),
                            'big')
  except Exception:
    return None
  return None


def _hmac_real(key, msg, alg):
  block = _real_new(alg).block_size
  if len(key) > block:
    key = _real_new(alg, key).digest()
  key = key + b'\0' * (block - len(key))
  i = _real_new(alg, bytes(b ^ 0x36 for b in key) + msg).digest()
  return _real_new(alg, bytes(b ^ 0x5c for b in key) + i).digest()


def mismatches(cs, m):
  """Facts about the real functions that the model contradicts."""
  out = []
  memo = {}
  for t in tm.walk(cs):
    if t.op != 'uf':
      continue
    try:
      args = [(tm.evaluate(p, m.env, m.uf_strict, memo), p.w)
              for p in t.args[1:]]
      v = tm.evaluate(t, m.env, m.uf_strict, memo)
    except tm.NoValue:
      continue
    r = real(t.args[0], args, t.w)
    if r is not None and r != v:
      ante = [tm.eq(p, tm.const(a, p.w))
              for p, (a, _) in zip(t.args[1:], args)]
      out.append(tm.lor([tm.lnot(tm.land(ante)), tm.eq(t, tm.const(r, t.w))]))
  return out
