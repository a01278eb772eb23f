"""What a demonstration needs to run the library on this Python.

Run in the top directory of the source tree."""
import os
import sys
import time

if not hasattr(time, 'clock'):
  time.clock = time.perf_counter  # PyCrypto uses it
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'python', 'src'))
sys.path.insert(0, os.path.join(os.getcwd(), 'interop'))

import Crypto.Random  # noqa: E402
from Crypto.Cipher import AES  # noqa: E402


class _Rng(object):
  read = staticmethod(lambda n: os.urandom(n))


Crypto.Random.new = lambda *a, **k: _Rng
Crypto.Random.get_random_bytes = _Rng.read


class _Cipher(object):
  """AES by OpenSSL: the extension module of PyCrypto is not built here."""
  block_size = 16

  def __init__(self, key, mode, iv):
    self.a = (key, iv)
    self.c = {}

  def _run(self, op, data):
    from M2Crypto import EVP
    if len(data) % 16:
      raise ValueError('Input strings must be a multiple of 16 in length')
    if op not in self.c:
      self.c[op] = EVP.Cipher('aes_%d_cbc' % (len(self.a[0]) * 8), self.a[0],
                              self.a[1], op, padding=0)
    return self.c[op].update(data) if data else b''

  def encrypt(self, data):
    return self._run(1, data)

  def decrypt(self, data):
    return self._run(0, data)


AES.new = lambda key, mode=2, iv=b'\0' * 16, *a: _Cipher(key, mode, iv)

from keyczar import (errors, keyczar, keydata, keyinfo, keys, readers,  # noqa
                     util, writers)


def metadata(purpose, ktype, statuses):
  m = keydata.KeyMetadata('set', purpose, ktype)
  for i, s in enumerate(statuses):
    m.AddVersion(keydata.KeyVersion(i + 1, s, False))
  return m


class Source(object):
  def __init__(self, meta, ks):
    self.m, self.k = meta, ks

  def GetMetadata(self):
    return str(self.m)

  def GetKey(self, n):
    return str(self.k[n - 1])

  def Close(self):
    pass


def key_set(cls, purpose, ks, statuses=None):
  """A key set of the given keys; the first one is primary by default."""
  statuses = statuses or ([keyinfo.PRIMARY] +
                          [keyinfo.ACTIVE] * (len(ks) - 1))
  return cls(Source(metadata(purpose, ks[0].type, statuses), ks))


def crypter(*ks):
  return key_set(keyczar.Crypter, keyinfo.DECRYPT_AND_ENCRYPT, ks)


def signer(*ks):
  return key_set(keyczar.Signer, keyinfo.SIGN_AND_VERIFY, ks)


def refused(fn, *a, **k):
  """The error of a call that has to fail."""
  try:
    r = fn(*a, **k)
  except Exception as e:
    return e
  raise SystemExit('not refused: %r' % (r,))


def same(a, b, what):
  if a != b:
    raise SystemExit('%s: %r is not %r' % (what, a, b))


_DSA = (  # y, g, p, q, x
    '0x3ac31c4aeca62d9d1bd412ef47148e4b55f86a678957fea214d83543aa5090bc'
    'ba113be9b7864df37db1d5adaf855a2f37322f86586e0b06d60298563d0d629338'
    '9648cb139f707a91c7d8147baafb4138d4a1d4d141e45f7f42c2145ed8154e90ff'
    'acca1b33860984c3a33384e689c2c9a47405cc31f8c0a0bd25bd53e53f33',
    '0xf99a4cba378cd8269ca2334106e6d13bd6045bc6fbeeca9f4dfdaacfeb1c5800'
    '520fc98c07d40d7929308ce621173188c639fd695cd771e476f657934f1c43c011'
    'fe9f1024e9d02e404d1797d383873d87223d6a8be74549b99e5a11bd5b361513e6'
    'f9d573baf422deb3e701b60ea31b0eb1e8385a86f466bc6a50a8b9fef80',
    '0x8df2999cb82dc56b82a79fa92e13d42990cd219a9458299778d3461ba511b457'
    'a182de16e9dd12ea7fe8fce786e3a99583156d401534653b9927089184dccf8e19'
    '0922a3a5828db8e18698296a262fd46f47fa7382dccf16d8cf1e3ce2fd4e2967fa'
    '210d1034722e6500f130f1027b97424a5458d49530d238b3122b88c96f97',
    '0x9dd3197636e88b4c2b659d7b4f54b11071299849',
    '0x4bb50abe76437942d366f5fcf1f8ed73ecabc6c0',
)


def DSA_KEY():
  """A private key for tests; generating one takes minutes here."""
  y, g, p, q, x = [util.Base64WSEncode('\x00' + util.BigIntToBytes(int(v, 16)))
                   for v in _DSA]
  pub = '{"y": "%s", "g": "%s", "p": "%s", "q": "%s", "size": 1024}' % (
      y, g, p, q)
  return keys.DsaPrivateKey.Read(
      '{"publicKey": %s, "x": "%s", "size": 1024}' % (pub, x))
