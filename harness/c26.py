"""Keys in JSON, and equality of keys."""
import json

from harness import lib

BOUNDS = {
    'quick': 'AES keys of 128/192/256 bits and HMAC keys with all key bytes; '
             'RSA pool keys of every size and DSA pool keys, private and '
             'public, with 0..3 leading zero bytes; all pairs of these for '
             'equality; generated keys with all random outcomes',
    'thorough': 'as quick',
}
OUTSIDE = 'asymmetric keys outside the pool'
REACH = {'trip': ['json', 'back'], 'same': ['equal', 'different'],
         'pool_same': ['compared'], 'generated': ['back'], 'asym': ['back']}


def canon(text):
  return json.loads(text)


def read(kz, k):
  return kz.keys.ReadKey(kz.keyinfo.GetType(k.type), k.json())


def mk(ctx, p, name):
  if p['type'] == 'AES':
    return lib.Aes(ctx, name, p['bits'])
  return lib.Hmac(ctx, name, p['n'])


def trip(ctx, kz, p):
  k = mk(ctx, p, 'k')
  r = read(kz, k)
  ctx.check(r.type == kz.keyinfo.GetType(k.type), 'type')
  text = str(r)
  ctx.check(ctx.eq(canon(text), canon(k.json())), 'json')
  again = kz.keys.ReadKey(r.type, text)
  ctx.check(again.type == r.type and again.size == r.size, 'type and size')
  ctx.check(ctx.eq(again.key_bytes, k.key), 'back')
  ctx.check(ctx.eq(again.hash_id, r.hash_id), 'identifier')
  ctx.check(ctx.eq(str(again), text), 'same json again')
  ctx.check(again == r, 'equal')
  ctx.check(ctx.no(again != r), 'equal')
  m = ctx.str('m', 3)
  if p['type'] == 'AES':
    ctx.check(ctx.eq(again.hmac_key.key_bytes, k.mac), 'back')
    ctx.check(again.size == p['bits'], 'size')
    ctx.check(ctx.eq(again.Decrypt(r.Encrypt(m)), m), 'behaves the same')
  else:
    ctx.check(again.size == 256, 'size')
    ctx.check(ctx.eq(again.Sign(m), ctx.hmac(k.key, m)), 'behaves the same')


def same(ctx, kz, p):
  a, b = mk(ctx, p, 'a'), mk(ctx, p, 'b')
  x, y = read(kz, a), read(kz, b)
  eq = ctx.eq(a.key, b.key)
  if p['type'] == 'AES':
    eq = ctx.all([eq, ctx.eq(a.mac, b.mac)])
  r = x == y
  if eq:
    ctx.reach('equal')
    ctx.check(r, 'same material is equal')
    ctx.check(y == x, 'same material is equal')
    ctx.check(ctx.no(x != y), 'same material is equal')
  else:
    ctx.reach('different')
    ctx.check(ctx.no(r), 'different material is not equal')
    ctx.check(ctx.no(y == x), 'different material is not equal')
    ctx.check(x != y, 'different material is not equal')


def pool_keys(ctx):
  out = []
  for bits, c in ((512, 3), (768, 2), (1024, 4), (2048, 2), (4096, 2)):
    for i in range(c):
      for pub in (False, True):
        out.append(lib.Rsa(ctx, bits, i, public=pub))
  for i in range(3):
    for pub in (False, True):
      out.append(lib.Dsa(ctx, i, public=pub))
  return out


def pool_same(ctx, kz, p):
  ks = pool_keys(ctx)
  i = ctx.choose('i', range(len(ks)))
  x = read(kz, ks[i])
  other = [lib.Aes(ctx, 'a'), lib.Hmac(ctx, 'h')]
  for j, k in enumerate(ks + other):
    y = read(kz, k)
    if i == j:
      ctx.check(x == y and not x != y, 'same key is equal')
    else:
      ctx.check(ctx.no(x == y), 'different keys are not equal',
                lambda: '%d %d' % (i, j))
      ctx.check(ctx.no(y == x), 'different keys are not equal')
      ctx.check(x != y, 'different keys are not equal')
  ctx.reach('compared')


def asym(ctx, kz, p):
  pad = ctx.choose('zeros', [0, 1, 2, 3])
  pub = ctx.choose('public', [False, True])
  if p['type'] == 'rsa':
    k = lib.Rsa(ctx, p['bits'], p['i'], public=pub, pad=pad)
  else:
    k = lib.Dsa(ctx, p['i'], public=pub, pad=pad)
  r = read(kz, k)
  text = str(r)
  ctx.check(canon(text) == canon(k.json()), 'json', lambda: text)
  again = kz.keys.ReadKey(r.type, text)
  ctx.check(again.type == r.type == kz.keyinfo.GetType(k.type), 'type')
  ctx.check(again.size == r.size == k.bits, 'size')
  ctx.check(again.hash_id == r.hash_id == lib.b64(k.id()), 'identifier')
  ctx.check(str(again) == text, 'same json again')
  ctx.check(again == r, 'equal')
  for o in [again] + ([] if pub else [again.public_key]):
    if p['type'] == 'rsa':
      ctx.check(o.key.n == k.n and o.key.e == k.e, 'back')
    else:
      ctx.check(o.key.p == k.p and o.key.q == k.q and o.key.g == k.g and
                o.key.y == k.y, 'back')
  if not pub:
    ctx.check(str(again.public_key) == str(r.public_key), 'public part')
    ctx.check(canon(str(again.public_key)) == canon(k.pub_json()),
              'public part')
    if p['type'] == 'rsa':
      ctx.check(again.key.d == k.d, 'back')
      ctx.check({again.key.p, again.key.q} == {k.p, k.q}, 'back')
    else:
      ctx.check(again.key.x == k.x, 'back')


def generated(ctx, kz, p):
  g = kz.keys.GenKey(kz.keyinfo.GetType(p['type']), p['size'])
  text = str(g)
  again = kz.keys.ReadKey(g.type, text)
  ctx.check(ctx.eq(str(again), text), 'back')
  ctx.check(again == g, 'back')
  ctx.check(again.size == p['size'] and g.size == p['size'], 'size')
  ctx.check(ctx.eq(again.hash_id, g.hash_id), 'identifier')
  if p['type'] in ('AES', 'HMAC_SHA1'):
    ctx.check(ctx.eq(again.key_bytes, g.key_bytes), 'back')
  elif p['type'] == 'RSA_PRIV':
    ctx.check(canon(text) == canon(lib.Rsa(ctx, p['size'], 0).json()), 'json',
              lambda: text)
  else:
    ctx.check(canon(text) == canon(lib.Dsa(ctx, 0).json()), 'json')


def instances(tier):
  out = []
  for bits in (128, 192, 256):
    pr = {'type': 'AES', 'bits': bits}
    out.append({'name': 'trip-aes%d' % bits, 'fn': 'trip', 'params': pr})
    out.append({'name': 'same-aes%d' % bits, 'fn': 'same', 'params': pr})
  for n in (32,) if tier == 'quick' else (32, 20, 64):
    pr = {'type': 'HMAC', 'n': n}
    out.append({'name': 'trip-hmac%d' % n, 'fn': 'trip', 'params': pr})
    out.append({'name': 'same-hmac%d' % n, 'fn': 'same', 'params': pr})
  for bits, c in ((512, 3), (768, 2), (1024, 4), (2048, 4), (4096, 3)):
    for i in range(c):
      out.append({'name': 'rsa-%d-%d' % (bits, i), 'fn': 'asym',
                  'params': {'type': 'rsa', 'bits': bits, 'i': i}})
  for i in range(3):
    out.append({'name': 'dsa-%d' % i, 'fn': 'asym',
                'params': {'type': 'dsa', 'i': i}})
  out.append({'name': 'pool', 'fn': 'pool_same', 'weight': 9})
  for t, s in (('AES', 128), ('AES', 192), ('AES', 256), ('HMAC_SHA1', 256),
               ('RSA_PRIV', 1024), ('RSA_PRIV', 2048), ('RSA_PRIV', 4096),
               ('DSA_PRIV', 1024)):
    out.append({'name': 'generated-%s-%d' % (t, s), 'fn': 'generated',
                'params': {'type': t, 'size': s}})
  return out
