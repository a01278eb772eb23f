"""Key generation."""
from harness import lib

BOUNDS = {
    'quick': 'every key type; every size -16..5000 for refusal and every '
             'supported size for generation; all random outcomes; one or two '
             'keys generated in a row; RSA and DSA: the size and random '
             'source handed to the generator of the crypto library',
    'thorough': 'as quick, three keys in a row',
}
OUTSIDE = ('the crypto library\'s own RSA and DSA generation; RSA sizes 512 '
           'and 768, which the installed crypto library refuses to generate')
REACH = {'symmetric': ['size', 'random'], 'refused': ['refused'],
         'asymmetric': ['made'], 'public': ['refused'], 'direct': ['random']}


def pieces(ctx, whole, parts):
  """Do the parts lie in disjoint places of whole?"""
  if not parts:
    return True
  if len(parts) == 1:
    return lib.within(ctx, parts[0], whole)
  out = []
  a, b = parts
  for i in range(len(whole) - len(a) + 1):
    here = ctx.eq(a, whole[i:i + len(a)])
    rest = [ctx.eq(b, whole[j:j + len(b)])
            for j in range(len(whole) - len(b) + 1)
            if j + len(b) <= i or j >= i + len(a)]
    if rest:
      out.append(ctx.all([here, ctx.any(rest)]))
  return ctx.any(out)


def material(kz, k):
  if k.type == kz.keyinfo.AES:
    return [k.key_bytes, k.hmac_key.key_bytes]
  return [k.key_bytes]


def one(ctx, kz, name, size, make):
  start = len(ctx.draws)
  k = make()
  ctx.check(k.type == kz.keyinfo.GetType(name), 'type')
  ctx.check(k.size == size, 'size')
  m = material(kz, k)
  ctx.check(len(m[0]) * 8 == size, 'size')
  if name == 'AES':
    ctx.check(len(m[1]) == 32 and k.hmac_key.size == 256,
              'size of the signing key')
  d = lib.drawn(ctx, start)
  ctx.check(pieces(ctx, d, m), 'random')
  ctx.check(len(k.hash_id) == 6, 'identifier')
  return k


def symmetric(ctx, kz, p):
  for i in range(p['count']):
    size = ctx.choose('size%d' % i, p['sizes'])
    one(ctx, kz, p['type'], size or p['default'],
        lambda: kz.keys.GenKey(kz.keyinfo.GetType(p['type']), size))


def direct(ctx, kz, p):
  cls = {'AES': kz.keys.AesKey, 'HMAC_SHA1': kz.keys.HmacKey}[p['type']]
  one(ctx, kz, p['type'], p['default'], cls.Generate)
  for s in p['sizes']:
    one(ctx, kz, p['type'], s, lambda: cls.Generate(s))


def refused(ctx, kz, p):
  size = ctx.int('size', -16, 5000)
  for s in p['valid']:
    ctx.assume(size != s)
  how, e = lib.outcome(lambda: kz.keys.GenKey(kz.keyinfo.GetType(p['type']),
                                              size))
  ctx.reach('refused')
  ctx.check(how == 'error' and isinstance(e, kz.errors.KeyczarError),
            'refused')


def public(ctx, kz, p):
  t = kz.keyinfo.GetType(p['type'])
  size = ctx.choose('size', [None] + p['valid'])
  how, e = lib.outcome(lambda: kz.keys.GenKey(t, size))
  ctx.check(how == 'error' and isinstance(e, kz.errors.KeyczarError),
            'refused')


def asymmetric(ctx, kz, p):
  kind = 'rsa' if p['type'] == 'RSA_PRIV' else 'dsa'
  for i in range(2):
    size = ctx.choose('size%d' % i, p['sizes'])
    real = size or p['default']
    n = len(ctx.generated)
    k = kz.keys.GenKey(kz.keyinfo.GetType(p['type']), size)
    new = ctx.generated[n:]
    ctx.check(len(new) == 1 and new[0][0] == kind and new[0][1] == real,
              'made', lambda: str(new))
    ctx.check(new[0][2] == 'os', 'random source', lambda: str(new))
    ctx.check(k.size == real and k.public_key.size == real, 'size')
    ctx.check(k.type == kz.keyinfo.GetType(p['type']), 'type')
    ctx.check(k.hash_id == k.public_key.hash_id, 'identifier')
    used = sum(1 for g in ctx.generated[:n] if g[1] == real)
    want = (lib.Rsa(ctx, real, used) if kind == 'rsa' else
            lib.Dsa(ctx, used))
    again = kz.keys.ReadKey(k.type, str(k))
    ref = kz.keys.ReadKey(k.type, want.json())
    ctx.check(str(again) == str(ref), 'the key that was generated',
              lambda: str(k))


def instances(tier):
  out = []
  n = 2 if tier == 'quick' else 3
  for t, valid, default in (('AES', [128, 192, 256], 128),
                            ('HMAC_SHA1', [256], 256)):
    for c in range(1, n + 1):
      out.append({'name': '%s-%d' % (t, c), 'fn': 'symmetric', 'weight': 3 * c,
                  'params': {'type': t, 'count': c, 'default': default,
                             'sizes': [None] + valid}})
    out.append({'name': 'direct-' + t, 'fn': 'direct',
                'params': {'type': t, 'default': default, 'sizes': valid}})
  for t, valid in (('AES', [128, 192, 256]), ('HMAC_SHA1', [256]),
                   ('RSA_PRIV', [512, 768, 1024, 2048, 4096]),
                   ('RSA_PUB', [512, 768, 1024, 2048, 4096]),
                   ('DSA_PRIV', [1024]), ('DSA_PUB', [1024])):
    out.append({'name': 'refused-' + t, 'fn': 'refused',
                'params': {'type': t, 'valid': valid}})
    if t.endswith('PUB'):
      out.append({'name': 'public-' + t, 'fn': 'public',
                  'params': {'type': t, 'valid': valid}})
  out.append({'name': 'rsa', 'fn': 'asymmetric', 'params': {
      'type': 'RSA_PRIV', 'sizes': [None, 1024, 2048, 4096],
      'default': 2048}})
  out.append({'name': 'dsa', 'fn': 'asymmetric', 'params': {
      'type': 'DSA_PRIV', 'sizes': [None, 1024], 'default': 1024}})
  return out
