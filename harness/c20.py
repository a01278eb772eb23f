"""RSA encryption with OAEP."""
from harness import lib

BOUNDS = {
    'quick': 'fixed key pairs of 512, 768, 1024, 2048 and 4096 bits; every '
             'message length for 512 and 768 bits, and lengths around 0, the '
             'limit and the hash length for the others, all message bytes and '
             'seeds; encodings and ciphertexts with up to 3 leading zero '
             'bytes; adversarial ciphertexts: every string of the length of '
             'the modulus or one or two bytes shorter, all decrypted values',
    'thorough': 'as quick, two key pairs of each size, every message length '
                'up to 2048 bits, up to 5 leading zero bytes',
}
OUTSIDE = ('key pairs outside the pool; encodings with more leading zero '
           'bytes than stated (probability below 2^-24 each); ciphertexts '
           'that are not reduced modulo the modulus')
ASSUMES = ['RSA: the private operation undoes the public one']
REACH = {'seal': ['message is back'], 'limit': ['refused'],
         'open_any': ['judged']}


def xor(ctx, a, b):
  return ''.join([chr(ord(x) ^ ord(y)) for x, y in zip(a, b)])


def mgf(ctx, seed, n):
  out = ''
  i = 0
  while len(out) < n:
    out += ctx.sha1(seed, lib.be4(i))
    i += 1
  return out[:n]


def oaep(ctx, k, msg, seed):
  db = (ctx.sha1('') + '\x00' * (k - len(msg) - 42) + '\x01' + msg)
  mdb = xor(ctx, db, mgf(ctx, seed, k - 21))
  return '\x00' + xor(ctx, seed, mgf(ctx, mdb, 20)) + mdb


def sets(ctx, kz, p):
  priv = lib.Rsa(ctx, p['bits'], p['i'])
  pub = lib.Rsa(ctx, p['bits'], p['i'], public=True)
  return (priv,
          lib.key_set(kz.keyczar.Encrypter, 'ENCRYPT', [pub], ['PRIMARY']),
          lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [priv],
                      ['PRIMARY']))


def seal(ctx, kz, p):
  k, e, d = sets(ctx, kz, p)
  msg = ctx.str('msg', ctx.choose('n', p['lens']))
  by = d if ctx.choose('by', p['by']) else e
  first = sealed(ctx, k, by, msg)
  ctx.check(ctx.eq(d.Decrypt(first), msg), 'message is back')
  if p.get('more'):
    # a second message of the same key
    other = ctx.str('other', len(msg))
    text = sealed(ctx, k, by, other)
    # the encodings are right: two differ, and RSA is a permutation
    ctx.assume(ctx.no(ctx.eq(lib.unb64(text), lib.unb64(first))))
    ctx.check(ctx.eq(d.Decrypt(text), other), 'message is back')


def sealed(ctx, k, by, msg):
  start = len(ctx.draws)
  text = by.Encrypt(msg)
  ct = lib.unb64(text)
  drawn = lib.drawn(ctx, start)
  ctx.check(len(drawn) >= 20, 'seed drawn')
  ctx.check(ctx.eq(ct[:5], k.header()), 'header')
  c = ctx.num(ct[5:])
  size = (k.n.bit_length() + 7) // 8
  ctx.check(len(ct) <= size + 5, 'length')
  ctx.check(ctx.any([
      ctx.eq(c, ctx.rsa_p(k.n, k.e, ctx.num(oaep(ctx, size, msg,
                                                 drawn[i:i + 20]))))
      for i in range(len(drawn) - 19)]), 'encoding')
  return text


def limit(ctx, kz, p):
  k, e, d = sets(ctx, kz, p)
  size = (k.n.bit_length() + 7) // 8
  n = size - 42 + ctx.choose('over', [1, 2, 3, 20, 21, 22, 40, 41, 42, 43,
                                      64, 500])
  msg = ctx.str('msg', n)
  how, err = lib.outcome(lambda: e.Encrypt(msg))
  ctx.check(how == 'error' and isinstance(err, kz.errors.KeyczarError),
            'refused', lambda: repr(err))


def open_any(ctx, kz, p):
  k, e, d = sets(ctx, kz, p)
  size = (k.n.bit_length() + 7) // 8
  x = ctx.str('x', size - ctx.choose('short', p['short']))
  v = ctx.num(x)
  ctx.assume(v < k.n)
  r = ctx.rsa_s(k.n, k.e, k.d, v)
  em = ctx.be(r, size)
  how, m = lib.outcome(lambda: d.Decrypt(k.header() + x, decoder=None))
  ctx.reach('judged')
  if how == 'ok':
    ctx.reach('accepted')
    seed = xor(ctx, em[1:21], mgf(ctx, em[21:], 20))
    db = xor(ctx, em[21:], mgf(ctx, seed, size - 21))
    if len(m) > size - 42:
      ctx.fail('no longer than OAEP allows')
    ctx.check(ctx.eq(em[0], '\x00'), 'leading byte')
    ctx.check(ctx.eq(db, ctx.sha1('') + '\x00' * (size - 42 - len(m)) +
                     '\x01' + m), 'valid encoding of the result')
  else:
    ctx.check(isinstance(m, kz.errors.KeyczarError), 'proper error',
              lambda: repr(m))


def instances(tier):
  quick = tier == 'quick'
  out = []
  for bits in (512, 768, 1024, 2048, 4096):
    top = bits // 8 - 42
    lens = set(list(range(0, 3)) + list(range(18, 23)) +
               list(range(top - 2, top + 1)) + [top // 2])
    if bits <= (768 if quick else 2048):
      lens = set(range(top + 1))
    if quick and bits > 2048:
      lens = set([0, 20, top - 1, top])
    lens = sorted(x for x in lens if 0 <= x <= top)
    for i in (0,) if quick else (0, 1):
      for j, ch in enumerate(lib.chunks(lens, 6 if bits < 2048 else 3)):
        out.append({'name': 'seal-%d-%d-%d' % (bits, i, j), 'fn': 'seal',
                    'weight': bits / 500, 'limits': {'lead': 1},
                    'params': {'bits': bits, 'i': i, 'lens': ch,
                               'by': [0, 1] if bits < 1024 else [j % 2]}})
      if bits <= (512 if quick else 1024):
        for n in (0, 5, 19, top) if quick else lens[::3]:
          out.append({'name': 'zeros-%d-%d-%d' % (bits, i, n), 'fn': 'seal',
                      'weight': 3, 'limits': {'lead': 3 if quick else 5},
                      'params': {'bits': bits, 'i': i, 'lens': [n],
                                 'by': [0]}})
      for n in [0, 9, top] if bits == 512 else [5] if bits == 1024 else []:
        out.append({'name': 'more-%d-%d-%d' % (bits, i, n), 'fn': 'seal',
                    'weight': 3, 'limits': {'lead': 1},
                    'params': {'bits': bits, 'i': i, 'lens': [n],
                               'more': True, 'by': [0, 1]}})
      out.append({'name': 'limit-%d-%d' % (bits, i), 'fn': 'limit',
                  'params': {'bits': bits, 'i': i}})
      for sh in (0, 1, 2):
        if bits > (768 if quick else 1024):
          continue
        out.append({'name': 'open-%d-%d-%d' % (bits, i, sh), 'fn': 'open_any',
                    'weight': bits / 200, 'limits': {'lead': 2},
                    'params': {'bits': bits, 'i': i, 'short': [sh]}})
  return out
