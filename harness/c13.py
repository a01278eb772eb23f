"""Purpose enforcement."""
from harness import lib

BOUNDS = {
    'quick': 'every object kind, every purpose, every key type, sets of 0 to '
             '2 keys with all key bytes of symmetric keys, any statuses; '
             'opened from a reader, a directory and an encrypted directory',
    'thorough': 'as quick, sets of up to 3 keys',
}
OUTSIDE = 'key types and purposes other than the defined ones (C10)'
REACH = {'opened': ['allowed', 'refused'], 'path': ['allowed', 'refused']}

MAY = {'GenericKeyczar': None,
       'Encrypter': ('ENCRYPT', 'DECRYPT_AND_ENCRYPT'),
       'Crypter': ('DECRYPT_AND_ENCRYPT',),
       'Verifier': ('VERIFY', 'SIGN_AND_VERIFY'),
       'UnversionedVerifier': ('VERIFY', 'SIGN_AND_VERIFY'),
       'Signer': ('SIGN_AND_VERIFY',),
       'UnversionedSigner': ('SIGN_AND_VERIFY',)}
PURPOSES = ['DECRYPT_AND_ENCRYPT', 'ENCRYPT', 'SIGN_AND_VERIFY', 'VERIFY']


def keys_of(ctx, p):
  mk = {'HMAC': lambda i: lib.Hmac(ctx, 'k%d' % i),
        'AES': lambda i: lib.Aes(ctx, 'k%d' % i),
        'RSA': lambda i: lib.Rsa(ctx, 1024, i),
        'DSA': lambda i: lib.Dsa(ctx, i),
        'RSAPUB': lambda i: lib.Rsa(ctx, 1024, i, public=True),
        'DSAPUB': lambda i: lib.Dsa(ctx, i, public=True)}[p['type']]
  return [mk(i) for i in range(p['keys'])]


TYPE = {'HMAC': 'HMAC_SHA1', 'AES': 'AES', 'RSA': 'RSA_PRIV',
        'DSA': 'DSA_PRIV', 'RSAPUB': 'RSA_PUB', 'DSAPUB': 'DSA_PUB'}


def judge(ctx, kz, kind, purpose, fn):
  how, v = lib.outcome(fn)
  if MAY[kind] is None or purpose in MAY[kind]:
    ctx.reach('allowed')
    ctx.check(how == 'ok', 'allowed', lambda: '%s for %s: %r' % (
        kind, purpose, v))
    ctx.check(isinstance(v, getattr(kz.keyczar, kind)), 'kind')
  else:
    ctx.reach('refused')
    ctx.check(how == 'error' and isinstance(v, kz.errors.KeyczarError),
              'refused', lambda: '%s for %s: %r' % (kind, purpose, v))


def opened(ctx, kz, p):
  ks = keys_of(ctx, p)
  lib.distinct_ids(ctx, ks)
  st = lib.some_statuses(ctx, 's', len(ks))
  kind = ctx.choose('kind', sorted(MAY))
  purpose = ctx.choose('purpose', PURPOSES)
  m = lib.meta(purpose, TYPE[p['type']], st)
  src = lib.Source(m, {i + 1: k.json() for i, k in enumerate(ks)})
  judge(ctx, kz, kind, purpose, lambda: getattr(kz.keyczar, kind)(src))


def path(ctx, kz, p):
  ks = keys_of(ctx, p)
  lib.distinct_ids(ctx, ks)
  st = ['PRIMARY', 'ACTIVE'][:len(ks)]
  kind = ctx.choose('kind', sorted(MAY))
  purpose = ctx.choose('purpose', PURPOSES)
  d = ctx.dir('set')
  ctx.write(d + '/meta', lib.meta(purpose, TYPE[p['type']], st))
  for i, k in enumerate(ks):
    ctx.write('%s/%d' % (d, i + 1), k.json())
  cls = getattr(kz.keyczar, kind)
  judge(ctx, kz, kind, purpose, lambda: cls.Read(d))
  if p['type'] in ('AES', 'HMAC'):
    c = lib.Aes(ctx, 'c')
    crypter = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [c],
                          ['PRIMARY'])
    e = ctx.dir('sealed')
    ctx.write(e + '/meta', lib.meta(purpose, TYPE[p['type']], st,
                                    encrypted=True))
    for i, k in enumerate(ks):
      ctx.write('%s/%d' % (e, i + 1), crypter.Encrypt(k.json()))
    judge(ctx, kz, kind, purpose, lambda: cls(kz.readers.EncryptedReader(
        kz.readers.CreateReader(e), crypter)))


def instances(tier):
  out = []
  for t in sorted(TYPE):
    for n in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
      if n == 3 and t not in ('AES', 'HMAC'):
        continue
      out.append({'name': 'opened-%s-%d' % (t, n), 'fn': 'opened',
                  'weight': n, 'params': {'type': t, 'keys': n}})
    out.append({'name': 'path-%s' % t, 'fn': 'path',
                'params': {'type': t, 'keys': 1}})
  return out
