"""Attached signatures bind data and nonce."""
from harness import lib

BOUNDS = {
    'quick': 'data lengths 0..40 and around the constants of the code up to '
             '4200, nonce lengths 0..20, all byte values; HMAC key sets of 1 '
             'to 3 keys under all later statuses, and RSA and DSA keys from a '
             'pool; forgeries: blobs of lengths 0..36 against 1 or 2 '
             'honest blobs, nonces of one length, also after earlier '
             'verifications; data of 65535..65537 bytes',
    'thorough': 'as quick with data lengths 0..300, constants up to 9000, '
                'blobs up to 140 bytes',
}
OUTSIDE = ('verifying with a nonce of another length than the one signed (the '
           'format does not length-prefix the data that is signed); longer '
           'data; key-id collisions')
ASSUMES = ['HMAC-SHA1 is unforgeable: a 20-byte piece of the adversary\'s '
           'strings equals the MAC of a message only if an honest party '
           'computed that MAC', 'RSA and DSA signatures are unforgeable']
REACH = {'sign': ['format', 'data is back', 'other nonce'],
         'forge': ['judged'], 'asym': ['data is back', 'other nonce']}


def sign(ctx, kz, p):
  nk = p['keys']
  ks = [lib.Hmac(ctx, 'k%d' % i) for i in range(nk)]
  lib.distinct_ids(ctx, ks)
  w = ctx.choose('writer', range(nk))
  st = ['ACTIVE'] * nk
  st[w] = 'PRIMARY'
  n = ctx.choose('n', p['lens'])
  data = lib.msg(ctx, 'data', n)
  nonce = ctx.str('nonce', ctx.choose('nn', p['nlens']))
  s = lib.key_set(kz.keyczar.Signer, 'SIGN_AND_VERIFY', ks, st)
  raw = s.AttachedSign(data, nonce, encoder=None)
  blob = s.AttachedSign(data, nonce)
  want = ks[w].header() + lib.be4(len(data)) + data + ctx.hmac(
      ks[w].key, data + lib.be4(len(nonce)) + nonce + '\x00')
  ctx.check(ctx.eq(raw, want), 'format')
  ctx.check(ctx.eq(blob, lib.b64(want)), 'encoded format')
  after = lib.some_statuses(ctx, 'after', nk)
  v = lib.key_set(kz.keyczar.Verifier, 'VERIFY', ks, after)
  got = v.AttachedVerify(blob, nonce)
  ctx.check(got is not None and ctx.eq(got, data), 'data is back')
  got = v.AttachedVerify(raw, nonce, decoder=None)
  ctx.check(got is not None and ctx.eq(got, data), 'raw data is back')
  ctx.reach('other nonce')
  if n > 9999:
    return
  other = ctx.str('other', len(nonce))
  how, got = lib.outcome(lambda: v.AttachedVerify(raw, other, decoder=None))
  if how == 'ok' and got is not None:
    ctx.check(ctx.eq(other, nonce), 'only the signed nonce verifies')
  else:
    ctx.check(ctx.no(ctx.eq(other, nonce)), 'the signed nonce verifies')


def forge(ctx, kz, p):
  nk = p['keys']
  ks = [lib.Hmac(ctx, 'k%d' % i) for i in range(nk)]
  lib.distinct_ids(ctx, ks)
  done = []
  for i, n in enumerate(p['honest']):
    st = ['ACTIVE'] * nk
    st[i % nk] = 'PRIMARY'
    s = lib.key_set(kz.keyczar.Signer, 'SIGN_AND_VERIFY', ks, st)
    d = ctx.str('m%d' % i, n)
    nonce = ctx.str('nonce%d' % i, p['nonce'])
    done.append((d, nonce, s.AttachedSign(d, nonce, encoder=None)))
  ctx.end_honest()
  nonce = ctx.str('nonce', p['nonce'])
  x = ctx.str('x', ctx.choose('len', p['lens']))
  ctx.adversarial(x)
  v = lib.key_set(kz.keyczar.Verifier, 'VERIFY', ks,
                  ['PRIMARY'] + ['ACTIVE', 'INACTIVE'][:nk - 1])
  if p.get('used'):
    for a, c, b in done:
      got = v.AttachedVerify(b, c, decoder=None)
      ctx.check(got is not None and ctx.eq(got, a), 'data is back')
  how, r = lib.outcome(lambda: v.AttachedVerify(x, nonce, decoder=None))
  ctx.reach('judged')
  if how == 'ok' and r is not None:
    ctx.reach('accepted')
    ctx.check(ctx.any([ctx.all([ctx.eq(x, b), ctx.eq(nonce, c), ctx.eq(r, a)])
                       for a, c, b in done]),
              'only an honest blob with its nonce is accepted')


def asym(ctx, kz, p):
  if p['type'] == 'rsa':
    priv, pub = lib.Rsa(ctx, p['bits']), lib.Rsa(ctx, p['bits'], public=True)
  else:
    priv, pub = lib.Dsa(ctx), lib.Dsa(ctx, public=True)
  data = ctx.str('data', ctx.choose('n', p['lens']))
  nonce = ctx.str('nonce', p['nonce'])
  s = lib.key_set(kz.keyczar.Signer, 'SIGN_AND_VERIFY', [priv], ['PRIMARY'])
  v = lib.key_set(kz.keyczar.Verifier, 'VERIFY', [pub], ['PRIMARY'])
  blob = s.AttachedSign(data, nonce)
  got = v.AttachedVerify(blob, nonce)
  ctx.check(got is not None and ctx.eq(got, data), 'data is back')
  ctx.end_honest()
  other = ctx.str('other', len(nonce))
  ctx.assume(ctx.no(ctx.eq(other, nonce)))
  ctx.reach('other nonce')
  got = v.AttachedVerify(blob, other)
  ctx.check(got is None, 'another nonce is refused')


def instances(tier):
  quick = tier == 'quick'
  out = []
  lens = lib.lengths(lib.FAR, 41) if quick else lib.lengths(lib.FAR, 301)
  for j, ch in enumerate(lib.chunks(lens, 12)):
    out.append({'name': 'sign-%d' % j, 'fn': 'sign',
                'weight': 1 + sum(ch) / 1000,
                'params': {'lens': ch, 'keys': 1, 'nlens': [16]}})
  for j, ch in enumerate(lib.chunks(range(21), 11)):
    out.append({'name': 'nonce-%d' % j, 'fn': 'sign',
                'params': {'lens': [0, 5], 'keys': 1, 'nlens': ch}})
  out.append({'name': 'huge', 'fn': 'sign', 'weight': 30, 'params': {
      'lens': [65536], 'keys': 1, 'nlens': [2]}})
  for keys in (2, 3):
    out.append({'name': 'rotate-%d' % keys, 'fn': 'sign', 'weight': 4,
                'params': {'lens': [3], 'keys': keys, 'nlens': [2]}})
  for nonce, h in ((0, [2]), (1, [0, 1]), (16, [6, 6]), (16, [])) if quick \
      else [(a, b) for a in (0, 1, 16) for b in ([], [2], [0, 1], [6, 6])]:
    if True:
      xs = [0, 4, 8, 9, 10, 28, 29, 30, 31, 32, 35, 36] if quick else range(141)
      for j, ch in enumerate(lib.chunks(xs, 6)):
        out.append({'name': 'forge-%d-%s-%d' % (
            nonce, '+'.join(map(str, h)), j), 'fn': 'forge', 'weight': 2,
            'params': {'keys': 2 if len(h) > 1 else 1, 'honest': h,
                       'nonce': nonce, 'lens': ch}})
  for nonce, h, nk in ((2, [2, 2], 1), (16, [6], 1), (9, [40, 40], 1), (1, [3, 3], 2)):
    out.append({'name': 'after-%d-%s' % (nonce, '+'.join(map(str, h))),
                'fn': 'forge', 'weight': 5, 'params': {
                    'keys': nk, 'honest': h, 'nonce': nonce, 'used': 1,
                    'lens': sorted(set(29 + n for n in h))}})
  for t, bits in (('rsa', 1024), ('rsa', 2048), ('dsa', 1024)):
    out.append({'name': 'asym-%s%d' % (t, bits), 'fn': 'asym', 'weight': 5,
                'limits': {'lead': 1},
                'params': {'type': t, 'bits': bits, 'nonce': 16,
                           'lens': [0, 7, 40]}})
  return out
