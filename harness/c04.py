"""HMAC signatures: format, verification after rotation, no forgery."""
from harness import lib

BOUNDS = {
    'quick': 'messages of lengths 0..70 and around the constants of the code '
             'up to 4200, all byte values, key sets of 1 to 3 keys with all '
             'key bytes and later statuses; forgeries: signature strings of '
             'every length 0..48, messages of lengths 0..8, 20 and 63..65, '
             '1 or 2 honest signatures; any key of larger sets (up to 17); '
             'forgeries after earlier verifications in the same process',
    'thorough': 'as quick with message lengths 0..500, constants up to 9000, '
                'key sets of up to 4 keys, signature strings up to 120 bytes',
}
OUTSIDE = ('longer messages; blobs of attached signatures presented as plain '
           'ones; key-id collisions')
ASSUMES = ['HMAC-SHA1 is unforgeable: a 20-byte piece of the adversary\'s '
           'strings equals the MAC of a message only if an honest party '
           'computed that MAC']
REACH = {'sign': ['format', 'verifies'], 'forge': ['judged']}


def sign(ctx, kz, p):
  n = ctx.choose('n', p['lens'])
  nk = p['keys']
  w = ctx.choose('writer', p.get('writers') or range(nk))
  ks = [lib.Hmac(ctx, 'k%d' % i,
                 fixed=i if p.get('writers') and i != w else None)
        for i in range(nk)]
  lib.distinct_ids(ctx, ks)
  st = ['ACTIVE'] * nk
  st[w] = 'PRIMARY'
  data = lib.msg(ctx, 'data', n)
  s = lib.key_set(kz.keyczar.Signer, 'SIGN_AND_VERIFY', ks, st)
  sig = s.Sign(data)
  raw = s.Sign(data, encoder=None)
  want = ks[w].header() + ctx.hmac(ks[w].key, data + '\x00')
  ctx.check(ctx.eq(raw, want), 'format')
  ctx.check(ctx.eq(sig, lib.b64(want)), 'encoded format')
  after = (lib.many_statuses(ctx, 'after', nk, p['writers'])
           if p.get('writers') else
           lib.some_statuses(ctx, 'after', nk))
  v = lib.key_set(kz.keyczar.Verifier, p['purpose'], ks, after)
  for i in range(2):
    ctx.check(v.Verify(data, sig), 'verifies')
    ctx.check(v.Verify(data, raw, decoder=None), 'verifies raw')


def forge(ctx, kz, p):
  nk = p['keys']
  ks = [lib.Hmac(ctx, 'k%d' % i) for i in range(nk)]
  lib.distinct_ids(ctx, ks)
  done = []
  for i, n in enumerate(p['honest']):
    st = ['ACTIVE'] * nk
    st[i % nk] = 'PRIMARY'
    s = lib.key_set(kz.keyczar.Signer, 'SIGN_AND_VERIFY', ks, st)
    d = ctx.str('m%d' % i, n)
    done.append((d, s.Sign(d, encoder=None)))
  ctx.end_honest()
  d = ctx.str('d', ctx.choose('dlen', p['dlens']))
  x = ctx.str('x', ctx.choose('len', p['lens']))
  ctx.adversarial(x)
  d0 = ctx.str('d0', len(d)) if p.get('used') == 'tried' else None
  st = ['PRIMARY'] + ['ACTIVE', 'INACTIVE'][:nk - 1]
  v = lib.key_set(kz.keyczar.Verifier, 'SIGN_AND_VERIFY', ks, st)
  if p.get('used'):
    for a, b in done:
      ctx.check(v.Verify(a, b, decoder=None), 'verifies')
    if p['used'] == 'tried':
      lib.outcome(lambda: v.Verify(d0, x, decoder=None))
  how, r = lib.outcome(lambda: v.Verify(d, x, decoder=None))
  ctx.reach('judged')
  if how == 'ok' and r:
    ctx.reach('accepted')
    ctx.check(ctx.any([ctx.all([ctx.eq(d, a), ctx.eq(x, b)])
                       for a, b in done]), 'only a signed message verifies')


def instances(tier):
  quick = tier == 'quick'
  out = []
  lens = lib.lengths(lib.FAR, 71) if quick else lib.lengths(lib.FAR, 501)
  for j, ch in enumerate(lib.chunks(lens, 24)):
    out.append({'name': 'sign-%d' % j, 'fn': 'sign',
                'weight': 1 + sum(ch) / 1000,
                'params': {'lens': ch, 'keys': 1, 'purpose': (
                    'VERIFY', 'SIGN_AND_VERIFY')[j % 2]}})
  for keys in (2, 3) if quick else (2, 3, 4):
    out.append({'name': 'rotate-%d' % keys, 'fn': 'sign', 'weight': keys,
                'params': {'lens': [0, 9], 'keys': keys,
                           'purpose': 'VERIFY'}})
  out.append({'name': 'many', 'fn': 'sign', 'weight': 9,
              'params': {'lens': [3], 'keys': 12, 'purpose': 'VERIFY',
                         'writers': [0, 1, 4, 9, 10, 11]}})
  dl = [0, 1, 2, 3, 8, 20, 63, 64, 65]
  xs = range(49) if quick else range(121)
  for j, ch in enumerate(lib.chunks(xs, 10)):
    out.append({'name': 'forge-%d' % j, 'fn': 'forge', 'weight': 3, 'params': {
        'keys': 1, 'honest': [2], 'dlens': [2, 3], 'lens': ch}})
  for nk in (1, 2):
    for h in ([], [0, 1], [8, 8], [20]):
      for j, ch in enumerate(lib.chunks(dl, 5)):
        out.append({'name': 'forge-%dk-%s-%d' % (
            nk, '+'.join(map(str, h)), j), 'fn': 'forge', 'weight': 3,
            'params': {'keys': nk, 'honest': h, 'dlens': ch,
                       'lens': [0, 4, 5, 6, 24, 25, 26]}})
  for h, nk in (([2, 2], 1), ([0, 5], 1), ([40, 40], 1), ([4, 4], 2)):
    for used in ('seen', 'tried'):
      out.append({'name': 'after-%s-%s-%d' % (used, '+'.join(map(str, h)), nk),
                  'fn': 'forge', 'weight': 5, 'params': {
                      'keys': nk, 'honest': h, 'dlens': sorted(set(h)),
                      'lens': [25], 'used': used}})
  return out
