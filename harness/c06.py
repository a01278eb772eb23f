"""Unversioned (standard) signatures."""
from harness import lib

BOUNDS = {
    'quick': 'messages of lengths 0..40 and around the constants of the code '
             'up to 4200, all byte values; HMAC key sets of 1 to 3 keys, any '
             'primary, any later statuses; RSA 1024/2048 and DSA pool keys in '
             'sets of 1 or 2; forgeries: signature strings of lengths 0..27, '
             'messages of lengths 0..9; every short string as an RSA or DSA '
             'signature; any key of larger sets (up to 17); forgeries after '
             'earlier verifications in the same process',
    'thorough': 'as quick with message lengths 0..300, constants up to 9000, '
                'signature strings up to 60 bytes',
}
OUTSIDE = 'RSA and DSA keys outside the pool; longer messages'
ASSUMES = ['HMAC-SHA1 is unforgeable: a 20-byte piece of the adversary\'s '
           'strings equals the MAC of a message only if an honest party '
           'computed that MAC', 'RSA and DSA signatures are unforgeable']
REACH = {'sign': ['format', 'verifies'], 'forge': ['judged'],
         'asym': ['verifies', 'other message'],
         'malformed': ['judged']}


def sign(ctx, kz, p):
  nk = p['keys']
  w = ctx.choose('writer', p.get('writers') or range(nk))
  ks = [lib.Hmac(ctx, 'k%d' % i,
                 fixed=i if p.get('writers') and i != w else None)
        for i in range(nk)]
  lib.distinct_ids(ctx, ks)
  st = ['ACTIVE'] * nk
  st[w] = 'PRIMARY'
  data = lib.msg(ctx, 'data', ctx.choose('n', p['lens']))
  s = lib.key_set(kz.keyczar.UnversionedSigner, 'SIGN_AND_VERIFY', ks, st)
  raw = s.Sign(data, encoder=None)
  sig = s.Sign(data)
  want = ctx.hmac(ks[w].key, data)
  ctx.check(ctx.eq(raw, want), 'format')
  ctx.check(ctx.eq(sig, lib.b64(want)), 'encoded format')
  after = (lib.many_statuses(ctx, 'after', nk, p['writers'])
           if p.get('writers') else
           lib.some_statuses(ctx, 'after', nk))
  v = lib.key_set(kz.keyczar.UnversionedVerifier, p['purpose'], ks, after)
  ctx.check(v.Verify(data, sig), 'verifies')
  ctx.check(v.Verify(data, raw, decoder=None), 'verifies raw')


def forge(ctx, kz, p):
  nk = p['keys']
  ks = [lib.Hmac(ctx, 'k%d' % i) for i in range(nk)]
  lib.distinct_ids(ctx, ks)
  done = []
  for i, n in enumerate(p['honest']):
    st = ['ACTIVE'] * nk
    st[i % nk] = 'PRIMARY'
    s = lib.key_set(kz.keyczar.UnversionedSigner, 'SIGN_AND_VERIFY', ks, st)
    d = ctx.str('m%d' % i, n)
    done.append((d, s.Sign(d, encoder=None)))
  ctx.end_honest()
  d = ctx.str('d', ctx.choose('dlen', p['dlens']))
  x = ctx.str('x', ctx.choose('len', p['lens']))
  ctx.adversarial(x)
  v = lib.key_set(kz.keyczar.UnversionedVerifier, 'VERIFY', ks,
                  ['PRIMARY'] + ['ACTIVE', 'INACTIVE'][:nk - 1])
  if p.get('used'):
    for a, b in done:
      ctx.check(v.Verify(a, b, decoder=None), 'verifies')
  r = v.Verify(d, x, decoder=None)
  ctx.reach('judged')
  if r:
    ctx.reach('accepted')
    ctx.check(ctx.any([ctx.all([ctx.eq(d, a), ctx.eq(x, b)])
                       for a, b in done]), 'only a signed message verifies')


def malformed(ctx, kz, p):
  """Any signature string against asymmetric keys: no exception."""
  ks = [lib.Rsa(ctx, 512, 0, public=True)] if p['type'] == 'rsa' else \
      [lib.Dsa(ctx, 0, public=True)]
  v = lib.key_set(kz.keyczar.UnversionedVerifier, 'VERIFY', ks, ['PRIMARY'])
  ctx.end_honest()
  n = ctx.choose('n', p['lens'])
  fix = ctx.choose('like', p['like'])[:n]
  sig = fix + ctx.str('sig', n - len(fix))
  how, r = lib.outcome(lambda: v.Verify('abc', sig, decoder=None))
  ctx.reach('judged')
  ctx.check(how == 'ok' and ctx.no(r), 'refused without an exception',
            lambda: repr(r))


def asym(ctx, kz, p):
  if p['type'] == 'rsa':
    mk = lambda i, pub: lib.Rsa(ctx, p['bits'], i, public=pub)
  else:
    mk = lambda i, pub: lib.Dsa(ctx, i, public=pub)
  nk = p['keys']
  w = ctx.choose('writer', range(nk))
  st = ['ACTIVE'] * nk
  st[w] = 'PRIMARY'
  data = ctx.str('data', ctx.choose('n', p['lens']))
  s = lib.key_set(kz.keyczar.UnversionedSigner, 'SIGN_AND_VERIFY',
                  [mk(i, False) for i in range(nk)], st)
  sig = s.Sign(data)
  v = lib.key_set(kz.keyczar.UnversionedVerifier, 'VERIFY',
                  [mk(i, True) for i in range(nk)],
                  ['ACTIVE'] * nk)
  ctx.check(v.Verify(data, sig), 'verifies')
  ctx.end_honest()
  other = ctx.str('other', ctx.choose('on', p['lens']))
  if len(other) == len(data):
    ctx.assume(ctx.no(ctx.eq(other, data)))
  ctx.reach('other message')
  ctx.check(ctx.no(v.Verify(other, sig)), 'another message is refused')


def instances(tier):
  quick = tier == 'quick'
  out = []
  lens = lib.lengths(lib.FAR, 41) if quick else lib.lengths(lib.FAR, 301)
  for j, ch in enumerate(lib.chunks(lens, 20)):
    out.append({'name': 'sign-%d' % j, 'fn': 'sign',
                'weight': 1 + sum(ch) / 1000,
                'params': {'lens': ch, 'keys': 1, 'purpose': (
                    'VERIFY', 'SIGN_AND_VERIFY')[j % 2]}})
  for keys in (2, 3):
    out.append({'name': 'rotate-%d' % keys, 'fn': 'sign', 'weight': 4,
                'params': {'lens': [0, 3], 'keys': keys,
                           'purpose': 'VERIFY'}})
  out.append({'name': 'many', 'fn': 'sign', 'weight': 9,
              'params': {'lens': [3], 'keys': 12, 'purpose': 'VERIFY',
                         'writers': [0, 1, 4, 9, 10, 11]}})
  for h in ([], [2], [0, 1], [9, 9]):
    for j, ch in enumerate(lib.chunks(
        range(28) if quick else range(61), 10)):
      out.append({'name': 'forge-%s-%d' % ('+'.join(map(str, h)), j),
                  'fn': 'forge', 'weight': 3, 'params': {
                      'keys': 2 if len(h) > 1 else 1, 'honest': h,
                      'dlens': [0, 1, 2, 3, 9], 'lens': ch}})
  for h, nk in (([2, 2], 1), ([0, 5], 1), ([40, 40], 1), ([4, 4], 2)):
    out.append({'name': 'after-%s-%d' % ('+'.join(map(str, h)), nk),
                'fn': 'forge', 'weight': 5, 'params': {
                    'keys': nk, 'honest': h, 'dlens': sorted(set(h)),
                    'lens': [20], 'used': 1}})
  for j, ch in enumerate(lib.chunks(range(65), 13)):
    out.append({'name': 'malformed-rsa-%d' % j, 'fn': 'malformed',
                'limits': {'lead': 1}, 'params': {
                    'type': 'rsa', 'lens': ch, 'like': ['']}})
  out.append({'name': 'malformed-dsa-any', 'fn': 'malformed', 'weight': 4,
              'params': {'type': 'dsa', 'lens': [0, 1, 2, 3, 4],
                         'like': ['']}})
  for i, f in enumerate(('\x30\x06\x02\x01', '\x30\x03\x02\x01',
                         '\x30\x09\x02\x01\x01\x02', '\x02\x03', '\x30\x80')):
    out.append({'name': 'malformed-dsa-%d' % i, 'fn': 'malformed',
                'weight': 4, 'limits': {'lead': 1}, 'params': {
                    'type': 'dsa', 'lens': [5, 8, 11], 'like': [f]}})
  for t, bits in (('rsa', 1024), ('rsa', 2048), ('dsa', 1024)):
    for nk in (1, 2):
      out.append({'name': 'asym-%s%d-%d' % (t, bits, nk), 'fn': 'asym',
                  'weight': 5, 'limits': {'lead': 1},
                  'params': {'type': t, 'bits': bits, 'keys': nk,
                             'lens': [0, 7] if quick else [0, 1, 7, 64]}})
  return out
