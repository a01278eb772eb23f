"""Key identifiers."""
from harness import lib

BOUNDS = {
    'quick': 'AES keys of 128/192/256 bits with signing keys of 32 bytes and '
             'HMAC keys of 1..64 bytes, all key bytes; RSA pool keys of every '
             'size and DSA pool keys, private and public, with 0..3 leading '
             'zero bytes; public parameters of up to 6 arbitrary bytes each; '
             'several keys of one type in one process',
    'thorough': 'as quick, public parameters of up to 12 bytes',
}
OUTSIDE = 'asymmetric keys outside the pool beyond the parameter bound'
REACH = {'aes': ['identifier'], 'hmac': ['identifier'],
         'asym': ['identifier'], 'params': ['identifier'],
         'generated': ['identifier'], 'several': ['identifier']}


def judge(ctx, k, want):
  ctx.check(ctx.eq(k.hash_id, lib.b64(want)), 'identifier')
  ctx.check(ctx.eq(k.Header(), '\x00' + want), 'header')


def read(kz, k):
  return kz.keys.ReadKey(kz.keyinfo.GetType(k.type), k.json())


def aes(ctx, kz, p):
  k = lib.Aes(ctx, 'k', p['bits'], p['mac'])
  r = read(kz, k)
  judge(ctx, r, k.id())
  c = lib.key_set(kz.keyczar.GenericKeyczar, 'DECRYPT_AND_ENCRYPT', [k],
                  ['PRIMARY'])
  ctx.check(ctx.eq(c.primary_key.hash_id, lib.b64(k.id())), 'in a set')
  ctx.check(c.GetKey(lib.b64(k.id())) is c.primary_key, 'in a set')


def hmac(ctx, kz, p):
  k = lib.Hmac(ctx, 'k', ctx.choose('n', p['lens']))
  judge(ctx, read(kz, k), k.id())


def asym(ctx, kz, p):
  pad = ctx.choose('zeros', [0, 1, 2, 3])
  pub = ctx.choose('public', [False, True])
  if p['type'] == 'rsa':
    k = lib.Rsa(ctx, p['bits'], p['i'], public=pub, pad=pad)
  else:
    k = lib.Dsa(ctx, p['i'], public=pub, pad=pad)
  r = read(kz, k)
  judge(ctx, r, k.id())
  if not pub:
    judge(ctx, r.public_key, k.id())


def params(ctx, kz, p):
  names = p['names']
  n = {a: ctx.choose('len-' + a, p['lens']) for a in names}
  v = {a: ctx.str(a, n[a]) for a in names}
  cls = kz.keys.RsaPublicKey if p['type'] == 'rsa' else kz.keys.DsaPublicKey
  k = cls(v, None)
  parts = []
  for a in names:
    t = lib.trim(v[a])
    parts += [lib.be4(len(t)), t]
  judge(ctx, k, ctx.sha1(*parts)[:4])


def several(ctx, kz, p):
  """Identifiers of keys made one after the other."""
  mk = {'aes': lambda i: lib.Aes(ctx, 'k%d' % i, (128, 192)[i % 2]),
        'hmac': lambda i: lib.Hmac(ctx, 'k%d' % i, (32, 20)[i % 2]),
        'rsa': lambda i: lib.Rsa(ctx, 1024, i),
        'dsa': lambda i: lib.Dsa(ctx, i % 3),
        'rsapub': lambda i: lib.Rsa(ctx, 1024, i, public=True),
        'dsapub': lambda i: lib.Dsa(ctx, i % 3, public=True)}
  ks = [mk[t](i) for i, t in enumerate(p['types'])]
  rs = []
  for k in ks:
    r = read(kz, k)
    judge(ctx, r, k.id())
    rs.append(r)
  for k, r in zip(ks, rs):
    judge(ctx, r, k.id())
  for k in ks:
    judge(ctx, read(kz, k), k.id())


def generated(ctx, kz, p):
  k = kz.keys.GenKey(kz.keyinfo.GetType(p['type']), p['size'])
  if p['type'] == 'AES':
    want = ctx.sha1(lib.be4(p['size'] // 8), k.key_bytes,
                    k.hmac_key.key_bytes)[:4]
  elif p['type'] == 'HMAC_SHA1':
    want = ctx.sha1(k.key_bytes)[:4]
  elif p['type'] == 'RSA_PRIV':
    want = lib.Rsa(ctx, p['size'], 0).id()
  else:
    want = lib.Dsa(ctx, 0).id()
  judge(ctx, k, want)


def instances(tier):
  quick = tier == 'quick'
  out = []
  for bits in (128, 192, 256):
    for mac in (32, 20):
      out.append({'name': 'aes-%d-%d' % (bits, mac), 'fn': 'aes',
                  'params': {'bits': bits, 'mac': mac}})
  for j, ch in enumerate(lib.chunks(range(1, 65), 16)):
    out.append({'name': 'hmac-%d' % j, 'fn': 'hmac', 'params': {'lens': ch}})
  for bits, c in ((512, 3), (768, 2), (1024, 4), (2048, 4), (4096, 3)):
    for i in range(c):
      out.append({'name': 'rsa-%d-%d' % (bits, i), 'fn': 'asym',
                  'params': {'type': 'rsa', 'bits': bits, 'i': i}})
  for i in range(3):
    out.append({'name': 'dsa-%d' % i, 'fn': 'asym',
                'params': {'type': 'dsa', 'i': i}})
  out.append({'name': 'params-rsa', 'fn': 'params', 'weight': 4, 'params': {
      'type': 'rsa', 'names': ['modulus', 'publicExponent'],
      'lens': [1, 2, 3, 6] if quick else [1, 2, 3, 6, 12]}})
  out.append({'name': 'params-dsa', 'fn': 'params', 'weight': 4, 'params': {
      'type': 'dsa', 'names': ['p', 'q', 'g', 'y'],
      'lens': [2] if quick else [1, 3]}})
  for t, s in (('AES', 128), ('AES', 256), ('HMAC_SHA1', 256),
               ('RSA_PRIV', 1024), ('DSA_PRIV', 1024)):
    out.append({'name': 'generated-%s-%d' % (t, s), 'fn': 'generated',
                'params': {'type': t, 'size': s}})
  for i, ts in enumerate((['aes', 'aes', 'aes'], ['hmac', 'hmac', 'hmac'],
                          ['rsa', 'rsa', 'rsapub'], ['dsa', 'dsa', 'dsapub'],
                          ['aes', 'hmac', 'rsa', 'dsa', 'aes'])):
    out.append({'name': 'several-%d' % i, 'fn': 'several', 'weight': 3,
                'params': {'types': [t for t in ts]}})
  return out
