"""RSA signatures."""
from harness import lib

BOUNDS = {
    'quick': 'fixed key pairs of 512, 768, 1024, 2048 and 4096 bits; messages '
             'of lengths 0..20 and around the constants of the code up to '
             '300, all bytes; signatures with up to 1 leading zero byte (2 for '
             '512 bits); versioned and standard signatures, verified with the '
             'private set, the public set and the exported public set; '
             'forgeries: signature strings of lengths 0..66 and around the '
             'modulus length, messages of other contents and lengths; '
             'messages around constants of the code up to 70000 with free '
             'bytes at the ends and around the constants',
    'thorough': 'as quick, two key pairs of each size, messages of lengths '
                '0..100 and around constants up to 4200, up to 3 leading zero '
                'bytes, all signature string lengths up to the modulus',
}
OUTSIDE = ('key pairs outside the pool; signatures with more leading zero '
           'bytes; strings longer than the modulus')
ASSUMES = ['RSA: the public operation undoes the private one',
           'RSA signatures are unforgeable: what verifies under a public key '
           'is an encoding that was signed with the private key']
REACH = {'sign': ['verifies'], 'forge': ['judged'], 'other': ['judged']}
INFO = bytes.fromhex('3021300906052b0e03021a05000414').decode('latin-1')


def emsa(ctx, size, msg):
  t = INFO + ctx.sha1(msg)
  return '\x00\x01' + '\xff' * (size - len(t) - 3) + '\x00' + t


def sets(ctx, kz, p, versioned):
  priv = lib.Rsa(ctx, p['bits'], p['i'])
  pub = lib.Rsa(ctx, p['bits'], p['i'], public=True)
  s, v = ((kz.keyczar.Signer, kz.keyczar.Verifier) if versioned else
          (kz.keyczar.UnversionedSigner, kz.keyczar.UnversionedVerifier))
  return (priv, lib.key_set(s, 'SIGN_AND_VERIFY', [priv], ['PRIMARY']),
          lib.key_set(v, 'VERIFY', [pub], ['PRIMARY']), v)


def sign(ctx, kz, p):
  versioned = ctx.choose('versioned', [0, 1])
  k, s, v, cls = sets(ctx, kz, p, versioned)
  size = (k.n.bit_length() + 7) // 8
  msg = lib.msg(ctx, 'msg', ctx.choose('n', p['lens']))
  raw = s.Sign(msg, encoder=None)
  if versioned:
    ctx.check(ctx.eq(raw[:5], k.header()), 'header')
    sig, signed = raw[5:], msg + '\x00'
  else:
    sig, signed = raw, msg
  ctx.check(len(sig) == size, 'full length')
  want = ctx.rsa_s(k.n, k.e, k.d, ctx.num(emsa(ctx, size, signed)))
  ctx.check(ctx.eq(sig, ctx.be(want, size)), 'signature of the encoding')
  ctx.check(s.Verify(msg, raw, decoder=None), 'verifies')
  ctx.check(v.Verify(msg, raw, decoder=None), 'verifies with the public key')
  ctx.check(v.Verify(msg, lib.b64(raw)), 'verifies encoded')
  if p['export']:
    d = ctx.dir('pub')
    g = lib.key_set(kz.keyczar.GenericKeyczar, 'SIGN_AND_VERIFY', [k],
                    ['PRIMARY'])
    g.PublicKeyExport(d)
    ctx.check(cls.Read(d).Verify(msg, raw, decoder=None),
              'verifies with the exported key')


def forge(ctx, kz, p):
  versioned = p['versioned']
  k, s, v, cls = sets(ctx, kz, p, versioned)
  done = []
  for i, n in enumerate(p['honest']):
    m = ctx.str('m%d' % i, n)
    s.Sign(m, encoder=None)
    done.append(m)
  ctx.end_honest()
  msg = lib.msg(ctx, 'msg', ctx.choose('n', p['lens']))
  sig = ctx.str('sig', ctx.choose('slen', p['slens']))
  if versioned:
    sig = k.header() + sig
  by = s if p['private'] else v
  how, r = lib.outcome(lambda: by.Verify(msg, sig, decoder=None))
  ctx.reach('judged')
  ctx.check(how == 'ok', 'no exception', lambda: repr(r))
  if how == 'ok' and r:
    ctx.reach('accepted')
    ctx.check(ctx.any([ctx.eq(msg, m) for m in done]),
              'only a signed message verifies')


def other(ctx, kz, p):
  """A signature of one key under another key."""
  a = lib.Rsa(ctx, p['bits'], 0)
  b = lib.Rsa(ctx, p['bits2'], 1, public=True)
  msg = ctx.str('msg', 5)
  if p['versioned']:
    s = lib.key_set(kz.keyczar.Signer, 'SIGN_AND_VERIFY', [a], ['PRIMARY'])
    v = lib.key_set(kz.keyczar.Verifier, 'VERIFY', [b], ['PRIMARY'])
    sig = b.header() + s.Sign(msg, encoder=None)[5:]
  else:
    s = lib.key_set(kz.keyczar.UnversionedSigner, 'SIGN_AND_VERIFY', [a],
                    ['PRIMARY'])
    v = lib.key_set(kz.keyczar.UnversionedVerifier, 'VERIFY', [b],
                    ['PRIMARY'])
    sig = s.Sign(msg, encoder=None)
  ctx.end_honest()
  how, r = lib.outcome(lambda: v.Verify(msg, sig, decoder=None))
  ctx.reach('judged')
  ctx.check(how == 'error' or ctx.no(r), 'refused')


def instances(tier):
  quick = tier == 'quick'
  out = []
  for bits in (512, 768, 1024, 2048, 4096):
    for i in (0,) if quick else (0, 1):
      lens = lib.lengths(300, 21) if quick else lib.lengths(4200, 101)
      if quick and bits == 512:
        for j, ch in enumerate(lib.long_chunks(300)):
          out.append({'name': 'long-%d' % j, 'fn': 'sign', 'weight': 3,
                      'limits': {'lead': 1},
                      'params': {'bits': bits, 'i': i, 'lens': ch,
                                 'export': False}})
      if bits != 512:
        lens = [0, 1, 20, 64, 300]
      if bits > 2048:
        lens = [0, 7]
      for j, ch in enumerate(lib.chunks(lens, 5 if bits == 512 else 2)):
        out.append({'name': 'sign-%d-%d-%d' % (bits, i, j), 'fn': 'sign',
                    'weight': bits / 500, 'limits': {'lead': 1},
                    'params': {'bits': bits, 'i': i, 'lens': ch,
                               'export': j == 0}})
      if bits == 512:
        out.append({'name': 'zeros-%d-%d' % (bits, i), 'fn': 'sign',
                    'limits': {'lead': 2 if quick else 3}, 'weight': 3,
                    'params': {'bits': bits, 'i': i, 'lens': [3],
                               'export': False}})
      size = bits // 8
      if bits > (1024 if quick else 2048):
        continue
      sl = (list(range(67)) if bits == 512 else
            [0, size - 1, size]) if quick else range(size + 1)
      for j, ch in enumerate(lib.chunks([x for x in sl if x <= size], 16)):
        for ver in (0, 1):
          out.append({'name': 'forge-%d-%d-%d-%d' % (bits, i, ver, j),
                      'fn': 'forge', 'weight': bits / 300,
                      'limits': {'lead': 1},
                      'params': {'bits': bits, 'i': i, 'versioned': ver,
                                 'honest': [[], [4], [0, 4]][j % 3],
                                 'lens': [0, 4, 5], 'slens': ch,
                                 'private': j % 2}})
  for a, b in ((512, 512), (1024, 1024), (512, 1024)):
    for ver in (0, 1):
      out.append({'name': 'other-%d-%d-%d' % (a, b, ver), 'fn': 'other',
                  'limits': {'lead': 1}, 'weight': 2,
                  'params': {'bits': a, 'bits2': b, 'versioned': ver}})
  return out
