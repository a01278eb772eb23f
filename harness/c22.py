"""DSA signatures."""
from harness import lib

BOUNDS = {
    'quick': 'fixed 1024-bit key pairs; messages of lengths 0..10 and around '
             'the constants of the code up to 300, all bytes, all per-message '
             'secrets; r and s with up to 1 leading zero byte; two signatures '
             'in a row by one key; malformed and forged signatures: all '
             'strings of up to 7 bytes, sequences of one to three '
             'integers of chosen lengths with all contents, negative '
             'ones included, and with bytes in front, behind or missing; '
             'messages around constants of the code up to 70000 with free '
             'bytes at the ends and around the constants',
    'thorough': 'as quick, 3 key pairs, messages around constants up to 4200, '
                'all strings of up to 9 bytes',
}
OUTSIDE = ('key pairs outside the pool; other malformed signatures; other '
           'encodings of the same two integers (DSA signatures are '
           'malleable)')
ASSUMES = ['DSA signatures are unforgeable: what verifies is a hash that was '
           'signed with the private key, and signatures verify']
REACH = {'sign': ['fresh secret', 'verifies'], 'twice': ['both fresh'],
         'forge': ['judged'], 'garbage': ['judged'], 'other': ['judged']}


def der_int(ctx, s):
  """DER of the non-negative integer with these bytes."""
  s = lib.trim(s)
  if ord(s[0]) >= 128:
    s = '\x00' + s
  return '\x02' + chr(len(s)) + s


def der(ctx, *parts):
  body = ''.join(parts)
  n = len(body)
  return '\x30' + (chr(n) if n < 128 else '\x81' + chr(n)) + body


def fresh(ctx, k, key, start):
  """Is k a secret of the whole range made of the draws since start?"""
  ok = []
  data = ''
  for kind, name, v in ctx.draws[start:]:
    if kind != 'os':
      continue
    if isinstance(v, bytes):
      data += ctx.bstr(v)
      continue
    lo, hi = ctx.ranges[name]
    if hi - lo + 1 >= (key.q - 2) - (key.q >> 8):
      ok.append(k == v)
  for n in range(20, min(len(data), 40) + 1):
    for i in range(len(data) - n + 1):
      v = ctx.num(data[i:i + n])
      ok.append(k == v)
      if n == len(data):
        ok += [k == v % (key.q - 2) + 2, k == v % (key.q - 1) + 1]
  return ctx.any(ok)


def signer(kz, key, versioned):
  return lib.key_set(kz.keyczar.Signer if versioned else
                     kz.keyczar.UnversionedSigner, 'SIGN_AND_VERIFY', [key],
                     ['PRIMARY'])


def verifier(kz, key, versioned):
  return lib.key_set(kz.keyczar.Verifier if versioned else
                     kz.keyczar.UnversionedVerifier, 'VERIFY', [key],
                     ['ACTIVE'])


def one(ctx, key, s, msg, versioned, label):
  start = len(ctx.draws)
  seen = len(getattr(ctx, 'secrets', []))
  raw = s.Sign(msg, encoder=None)
  ks = ctx.secrets[seen:]
  ctx.check(len(ks) >= 1, 'signed')
  for k in ks:
    ctx.check(fresh(ctx, k, key, start), label)
  return raw, ks[-1]


def sign(ctx, kz, p):
  key = lib.Dsa(ctx, p['i'])
  versioned = p['versioned']
  s = signer(kz, key, versioned)
  msg = lib.msg(ctx, 'msg', ctx.choose('n', p['lens']))
  raw, k = one(ctx, key, s, msg, versioned, 'fresh secret')
  signed = msg
  sig = raw
  if versioned:
    ctx.check(ctx.eq(raw[:5], key.header()), 'header')
    sig, signed = raw[5:], msg + '\x00'
  r, v = ctx.dsa_sign(key, signed, k)
  ctx.check(ctx.eq(sig, der(ctx, der_int(ctx, ctx.be(r, 20)),
                            der_int(ctx, ctx.be(v, 20)))),
            'DER sequence of r and s over the hash')
  by = (s if p['private'] else
        verifier(kz, lib.Dsa(ctx, p['i'], public=True), versioned))
  ctx.check(by.Verify(msg, raw, decoder=None), 'verifies')
  ctx.check(by.Verify(msg, lib.b64(raw)), 'verifies encoded')


def twice(ctx, kz, p):
  """Two signatures: each with a secret of its own."""
  key = lib.Dsa(ctx, 0)
  s = signer(kz, key, p['versioned'])
  m = ctx.str('m', p['n'])
  m2 = m if p['same'] else ctx.str('m2', p['n'])
  # what the signatures look like does not matter here
  seen = len(getattr(ctx, 'secrets', []))
  start = len(ctx.draws)
  s.Sign(m, encoder=None)
  mid = len(ctx.draws)
  s2 = s if p['object'] else signer(kz, key, p['versioned'])
  s2.Sign(m2, encoder=None)
  ks = ctx.secrets[seen:]
  ctx.check(len(ks) == 2, 'signed')
  ctx.check(ctx.all([fresh(ctx, ks[0], key, start),
                     fresh(ctx, ks[1], key, mid)]), 'both fresh')


def forge(ctx, kz, p):
  """Well-formed sequences with any contents."""
  key = lib.Dsa(ctx, 0)
  versioned = p['versioned']
  done = []
  if p['honest']:
    m = ctx.str('m', 4)
    signer(kz, key, versioned).Sign(m, encoder=None)
    done.append(m)
  ctx.end_honest()
  msg = ctx.str('msg', ctx.choose('n', [0, 4]))
  parts = []
  for i, n in enumerate(p['ints']):
    parts.append('\x02' + chr(n) + ctx.str('i%d' % i, n))
  sig = der(ctx, *parts)
  sig = '\x00' * p.get('front', 0) + sig
  if p.get('behind'):
    sig += ctx.str('behind', p['behind'])
  if p.get('missing'):
    sig = sig[:-p['missing']]
  if versioned:
    sig = key.header() + sig
  v = verifier(kz, lib.Dsa(ctx, 0, public=True), versioned)
  how, r = lib.outcome(lambda: v.Verify(msg, sig, decoder=None))
  ctx.reach('judged')
  ctx.check(how == 'ok', 'no exception', lambda: repr(r))
  if how == 'ok' and r:
    ctx.check(ctx.any([ctx.eq(msg, m) for m in done]),
              'only a signed message verifies')


def garbage(ctx, kz, p):
  key = lib.Dsa(ctx, 0)
  versioned = p['versioned']
  ctx.end_honest()
  msg = ctx.str('msg', 2)
  sig = ctx.str('sig', p['n'])
  if versioned:
    sig = key.header() + sig
  v = verifier(kz, lib.Dsa(ctx, 0, public=True), versioned)
  how, r = lib.outcome(lambda: v.Verify(msg, sig, decoder=None))
  ctx.reach('judged')
  ctx.check(how == 'ok', 'no exception', lambda: repr(r))
  ctx.check(how == 'ok' and ctx.no(r), 'refused')


def other(ctx, kz, p):
  a = lib.Dsa(ctx, 0)
  b = lib.Dsa(ctx, 1, public=True)
  msg = ctx.str('msg', 3)
  sig = signer(kz, a, p['versioned']).Sign(msg, encoder=None)
  if p['versioned']:
    sig = b.header() + sig[5:]
  ctx.end_honest()
  r = verifier(kz, b, p['versioned']).Verify(msg, sig, decoder=None)
  ctx.reach('judged')
  ctx.check(ctx.no(r), 'refused')


def instances(tier):
  quick = tier == 'quick'
  out = []
  lens = lib.lengths(300, 11) if quick else lib.lengths(4200, 41)
  for i in (0, 1) if quick else (0, 1, 2):
    for ver in (0, 1):
      for j, ch in enumerate(lib.chunks(lens if i == 0 else [0, 5], 10)):
        out.append({'name': 'sign-%d-%d-%d' % (i, ver, j), 'fn': 'sign',
                    'weight': 4, 'limits': {'lead': 1},
                    'params': {'i': i, 'versioned': ver, 'lens': ch,
                               'private': (i + j) % 2}})
  for j, ch in enumerate(lib.long_chunks(300, 5)):
    out.append({'name': 'long-%d' % j, 'fn': 'sign', 'weight': 4,
                'limits': {'lead': 1},
                'params': {'i': 0, 'versioned': j % 2, 'lens': ch,
                           'private': j % 2}})
  for same in (0, 1):
    for obj in (0, 1):
      out.append({'name': 'twice-%d-%d' % (same, obj), 'fn': 'twice',
                  'weight': 4, 'limits': {'lead': 0},
                  'params': {'versioned': (same + obj) % 2, 'n': 3,
                             'same': same, 'object': obj}})
  for ver in (0, 1):
    for h in (0, 1):
      for j, (ints, more) in enumerate((
          ([20, 20], {}), ([21, 21], {}), ([1, 1], {}), ([22, 20], {}),
          ([20], {}), ([3, 3, 3], {}), ([], {}), ([0, 20], {}),
          ([20, 20], {'behind': 2}), ([20, 20], {'missing': 1}),
          ([20, 20], {'front': 1}), ([5, 5], {'missing': 6}))):
        if quick and (ver + h + j) % 2:
          continue
        out.append({'name': 'forge-%d-%d-%d' % (ver, h, j), 'fn': 'forge',
                    'weight': 2, 'limits': {'lead': 0},
                    'params': dict(more, versioned=ver, honest=h,
                                   ints=ints)})
    for n in range(8 if quick else 10):
      if (n + ver) % 2 or n > 5:
        out.append({'name': 'garbage-%d-%d' % (ver, n), 'fn': 'garbage',
                    'weight': 1 + n, 'params': {'versioned': ver, 'n': n}})
    out.append({'name': 'other-%d' % ver, 'fn': 'other',
                'limits': {'lead': 1}, 'params': {'versioned': ver}})
  return out
