"""Nothing but an honest ciphertext decrypts."""
from harness import lib

BOUNDS = {
    'quick': 'adversarial strings of every length 0..96 (and 105..107), all '
             'byte values, against 1 to 2 honest ciphertexts of plaintext '
             'lengths 0..33 under key sets of 1 or 2 keys, all key bytes; both '
             'crypt libraries; raw and Base64 input; '
             'strings with lengths around the constants of the code up to '
             '4200; after earlier honest and forged inputs to the same '
             'process; long honest ciphertexts changed at '
             'the start or the end',
    'thorough': 'as quick, adversarial lengths 0..300, key sets of up to 3 '
                'keys and 3 honest ciphertexts',
}
OUTSIDE = ('key sets in which two keys share an identifier; Base64 strings '
           'that decode to the honest bytes (spacing, unused bits); streaming '
           'decryption (C17)')
ASSUMES = ['HMAC-SHA1 is unforgeable: a 20-byte piece of the adversary\'s '
           'string equals the MAC of a message only if an honest party '
           'computed that MAC']
REACH = {'forge': ['judged'], 'changed': ['judged']}


def forge(ctx, kz, p):
  lib.use_lib(kz, p['lib'])
  nk = p['keys']
  ks = [lib.Aes(ctx, 'k%d' % i, p['bits']) for i in range(nk)]
  lib.distinct_ids(ctx, ks)
  cts = []
  for i, n in enumerate(p['honest']):
    st = ['ACTIVE'] * nk
    st[i % nk] = 'PRIMARY'
    e = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', ks, st)
    cts.append(e.Encrypt(ctx.str('m%d' % i, n), encoder=None))
  ctx.end_honest()
  m = ctx.choose('len', p['lens'])
  x = ctx.str('x', m)
  ctx.adversarial(x)
  if p.get('used') == 'tried':
    y0 = ctx.str('y', m)
    ctx.adversarial(y0)
  st = ['PRIMARY'] + ['ACTIVE', 'INACTIVE'][:nk - 1]
  d = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', ks, st)
  if p.get('used'):
    # what the decrypting side saw before: the honest ones, a forgery
    for i, c in enumerate(cts):
      lib.outcome(lambda: d.Decrypt(c, decoder=None))
    if p['used'] == 'tried':
      lib.outcome(lambda: d.Decrypt(y0, decoder=None))
  if p['raw']:
    how, v = lib.outcome(lambda: d.Decrypt(x, decoder=None))
  else:
    y = lib.b64(x)
    how, v = lib.outcome(lambda: d.Decrypt(y))
  ctx.reach('judged')
  if how == 'ok':
    ctx.reach('accepted')
    ctx.check(ctx.any([ctx.eq(x, c) for c in cts]),
              'only an honest ciphertext decrypts')


def changed(ctx, kz, p):
  lib.use_lib(kz, p['lib'])
  k = lib.Aes(ctx, 'k', 128)
  e = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [k], ['PRIMARY'])
  ct = e.Encrypt(lib.msg(ctx, 'm', p['n'], 300), encoder=None)
  ctx.end_honest()
  at = p['at']
  if at == 'start':
    lo, hi = 0, 24
  else:
    lo, hi = len(ct) - 36, len(ct)
  x = ct[:lo] + ctx.str('x', hi - lo) + ct[hi:]
  ctx.adversarial(x)
  d = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [k], ['PRIMARY'])
  how, v = lib.outcome(lambda: d.Decrypt(x, decoder=None))
  ctx.reach('judged')
  if how == 'ok':
    ctx.check(ctx.eq(x, ct), 'only an honest ciphertext decrypts')


def instances(tier):
  quick = tier == 'quick'
  out = []
  top = 97 if quick else 301
  lens = list(range(top)) + [105, 106, 107]
  for l in lib.LIBS:
    for raw in (True, False):
      for j, ch in enumerate(lib.chunks(lens, 20)):
        out.append({'name': 'one-%s-%s-%d' % (l, raw, j), 'fn': 'forge',
                    'params': {'lib': l, 'raw': raw, 'bits': 128, 'keys': 1,
                               'honest': [20], 'lens': ch}})
  # long strings: around the constants of the code, as whole lengths, as
  # lengths of the body and of the plaintext
  limit = 4200 if quick else 9000
  long = set()
  for c in lib.lengths(limit, 0):
    if c > 90:
      long |= set([c, c + 5, c + 21, c + 41, 57 + 16 * (c // 16),
                   57 + 16 * (c // 16 + 1)])
  for j, ch in enumerate(lib.chunks(sorted(long), 40)):
    for l in lib.LIBS:
      out.append({'name': 'long-%s-%d' % (l, j), 'fn': 'forge', 'weight': 9,
                  'params': {'lib': l, 'raw': True, 'bits': 128, 'keys': 1,
                             'honest': [], 'lens': ch}})
  # a long honest ciphertext, changed
  for j, c in enumerate(c for c in lib.lengths(lib.FAR, 0) if c > 90):
    if c > 300 and c % 16 == 0:
      for at in ('start', 'end') if c < 4000 else ('end',):
        out.append({'name': 'changed-%d-%s' % (c, at), 'fn': 'changed',
                    'weight': 4, 'path_s': 240,
                    'params': {'lib': lib.LIBS[j % 2], 'n': c, 'at': at}})
  for bits in (128, 192, 256):
    for h in ([0, 16], [3, 33], []) if quick else (
        [0, 16], [3, 33], [], [5, 5, 40], [16, 16, 16]):
      for nk in (2,) if quick else (2, 3):
        want = sorted(set([0, 4, 5, 25, 40, 41, 42, 60, 61, 73, 89] +
                          [5 + 16 + 16 * (n // 16 + 1) + 20 + dx
                           for n in h for dx in (-16, -1, 0, 1, 16)]))
        for j, ch in enumerate(lib.chunks(want, 4)):
          out.append({'name': 'two-%d-%s-%d-%d' % (
              bits, '+'.join(map(str, h)), nk, j), 'fn': 'forge',
              'weight': 3, 'params': {
                  'lib': 'm2crypto', 'raw': True, 'bits': bits, 'keys': nk,
                  'honest': h, 'lens': ch}})
  for h, nk in (([3, 33], 1), ([16], 1), ([7, 7], 2)):
    for used in ('seen', 'tried'):
      for n in sorted(set(h)):
        base = 5 + 16 + 16 * (n // 16 + 1) + 20
        out.append({'name': 'after-%s-%s-%d-%d' % (
            used, '+'.join(map(str, h)), nk, n), 'fn': 'forge', 'weight': 5,
            'params': {'lib': 'm2crypto', 'raw': True, 'bits': 128,
                       'keys': nk, 'honest': h, 'used': used,
                       'lens': [base] if used == 'tried' else
                       [base - 16, base, base + 16]}})
  return out
