"""Fixed asymmetric keys, as PyCrypto's key generation would return them."""
import json
import os

_data = None


def _load():
  global _data
  if _data is None:
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pool.json')
    f = open(p)
    d = json.load(f)
    f.close()
    _data = {kind: {int(b): [tuple(int(x, 16) for x in t) for t in ts]
                    for b, ts in sizes.items()}
             for kind, sizes in d.items()}
  return _data


def key(kind, bits, i):
  """RSA: (n, e, d, p, q, u) with p < q; DSA: (y, g, p, q, x)."""
  return _load()[kind][bits][i]


def take(kind, bits, i):
  """The i-th generated key of the size, or None if PyCrypto refuses it."""
  if kind == 'rsa' and (bits < 1024 or bits % 256):
    return None
  ts = _load()[kind].get(bits)
  return ts[i % len(ts)] if ts else None
