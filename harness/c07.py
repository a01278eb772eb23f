"""Inputs are routed by their header; malformed ones raise the stated error."""
from harness import lib

BOUNDS = {
    'quick': 'every byte string of each length 0..44, 57..58, 61..62 and every '
             'Base64 string length 0..60 (as any bytes encoded, and lengths '
             'of 1 mod 4), key sets of 0 to 3 AES or HMAC keys with all key '
             'bytes, any statuses',
    'thorough': 'as quick, byte strings of each length 0..130',
}
OUTSIDE = 'key-id collisions; RSA and DSA bodies (C20-C22)'
ASSUMES = ['HMAC-SHA1 is unforgeable']
REACH = {'decrypt': ['short', 'judged'], 'verify': ['judged'],
         'attached': ['judged'], 'base64': ['judged']}


def classify(ctx, kz, x, ks, low, err_short):
  """The exception the header of x calls for, or None if a key is named."""
  if len(x) < low:
    ctx.reach('short')
    return err_short
  if x[0] != '\x00':
    return kz.errors.BadVersionError
  for k in ks:
    if x[1:5] == k.id():
      return None
  return kz.errors.KeyNotFoundError


def same(ctx, e, cls):
  return type(e).__name__ == cls.__name__


def decrypt(ctx, kz, p):
  nk = p['keys']
  ks = [lib.Aes(ctx, 'k%d' % i) for i in range(nk)]
  lib.distinct_ids(ctx, ks)
  st = lib.some_statuses(ctx, 's', nk) if nk else []
  src = lib.Source(lib.meta('DECRYPT_AND_ENCRYPT', 'AES', st),
                   {i + 1: k.json() for i, k in enumerate(ks)})
  c = kz.keyczar.Crypter(src)
  x = ctx.str('x', ctx.choose('n', p['lens']))
  ctx.end_honest()
  ctx.adversarial(x)
  want = classify(ctx, kz, x, ks, 5, kz.errors.ShortCiphertextError)
  if want is None:
    want = kz.errors.ShortCiphertextError if len(x) < 41 else \
        kz.errors.InvalidSignatureError
  if p['raw']:
    how, e = lib.outcome(lambda: c.Decrypt(x, decoder=None))
  else:
    y = lib.b64(x)
    how, e = lib.outcome(lambda: c.Decrypt(y))
  ctx.reach('judged')
  ctx.check(how == 'error' and same(ctx, e, want), 'error type',
            lambda: '%s %r, expected %s' % (how, e, want.__name__))


def verify(ctx, kz, p):
  nk = p['keys']
  ks = [lib.Hmac(ctx, 'k%d' % i) for i in range(nk)]
  lib.distinct_ids(ctx, ks)
  st = lib.some_statuses(ctx, 's', nk) if nk else []
  src = lib.Source(lib.meta('VERIFY', 'HMAC_SHA1', st),
                   {i + 1: k.json() for i, k in enumerate(ks)})
  v = kz.keyczar.Verifier(src)
  x = ctx.str('x', ctx.choose('n', p['lens']))
  d = ctx.str('d', p['d'])
  ctx.end_honest()
  ctx.adversarial(x)
  want = classify(ctx, kz, x, ks, 5, kz.errors.ShortSignatureError)
  how, e = lib.outcome(lambda: v.Verify(d, x, decoder=None))
  ctx.reach('judged')
  if want is None:
    ctx.check(how == 'ok' and ctx.no(e), 'a bad signature gives False')
  else:
    ctx.check(how == 'error' and same(ctx, e, want), 'error type',
              lambda: '%s %r, expected %s' % (how, e, want.__name__))


def attached(ctx, kz, p):
  nk = p['keys']
  ks = [lib.Hmac(ctx, 'k%d' % i) for i in range(nk)]
  lib.distinct_ids(ctx, ks)
  v = lib.key_set(kz.keyczar.Verifier, 'VERIFY', ks, ['ACTIVE'] * nk)
  x = ctx.str('x', ctx.choose('n', p['lens']))
  nonce = ctx.str('nonce', 3)
  ctx.end_honest()
  ctx.adversarial(x)
  how, e = lib.outcome(lambda: v.AttachedVerify(x, nonce, decoder=None))
  ctx.reach('judged')
  if how == 'ok':
    ctx.check(e is None, 'a bad blob gives None')
  elif len(x) < 9:
    ctx.check(same(ctx, e, kz.errors.ShortSignatureError), 'error type')
  else:
    ctx.check(isinstance(e, kz.errors.KeyczarError), 'error type')


def base64(ctx, kz, p):
  """Base64 of an impossible length is refused as such."""
  k = lib.Aes(ctx, 'k')
  c = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [k], ['PRIMARY'])
  h = lib.Hmac(ctx, 'h')
  v = lib.key_set(kz.keyczar.Verifier, 'VERIFY', [h], ['PRIMARY'])
  n = ctx.choose('n', p['lens'])
  body = lib.b64(ctx.str('x', (n - 1) * 3 // 4))
  s = body + 'A' * (n - len(body))
  assert len(s) % 4 == 1
  for f in (lambda: c.Decrypt(s), lambda: v.Verify('', s),
            lambda: v.AttachedVerify(s, '')):
    how, e = lib.outcome(f)
    ctx.reach('judged')
    ctx.check(how == 'error' and same(ctx, e, kz.errors.Base64DecodingError),
              'impossible Base64 length')


def instances(tier):
  quick = tier == 'quick'
  out = []
  lens = list(range(45)) + [57, 58, 61, 62] if quick else list(range(131))
  for j, ch in enumerate(lib.chunks(lens, 10)):
    for raw in (True, False):
      out.append({'name': 'decrypt-%s-%d' % (raw, j), 'fn': 'decrypt',
                  'params': {'keys': 1, 'lens': ch, 'raw': raw},
                  'reach': ['judged']})
    out.append({'name': 'verify-%d' % j, 'fn': 'verify',
                'params': {'keys': 1, 'lens': ch, 'd': 4}})
  for nk in (0, 2, 3):
    out.append({'name': 'decrypt-%dkeys' % nk, 'fn': 'decrypt', 'weight': 5,
                'params': {'keys': nk, 'raw': True,
                           'lens': [0, 4, 5, 40, 41, 57]}})
    out.append({'name': 'verify-%dkeys' % nk, 'fn': 'verify', 'weight': 5,
                'params': {'keys': nk, 'lens': [0, 4, 5, 24, 25, 26],
                           'd': 0}})
  for j, ch in enumerate(lib.chunks(
      [0, 4, 5, 7, 8, 9, 10, 12, 29, 31] if quick else range(50), 5)):
    out.append({'name': 'attached-%d' % j, 'fn': 'attached', 'weight': 4,
                'params': {'keys': 1, 'lens': ch}})
  out.append({'name': 'base64', 'fn': 'base64',
              'params': {'lens': [1, 5, 9, 21, 57] if quick else
                         list(range(1, 100, 4))}})
  return out
