"""AES encryption round trip across rotation, key sizes and encodings."""
from harness import lib

BOUNDS = {
    'quick': 'plaintext lengths 0..96 and c-1,c,c+1 for every integer constant '
             'c <= 4200 of the code, all byte values; key sets of 1 to 3 keys, '
             'all key bytes, 128/192/256 bits; every writer key and every '
             'later status assignment; both crypt libraries on either side; '
             'Base64 and raw; histories of 2 messages; '
             'any key of sets of 9 and 17 keys; several key sets used in turn '
             'in one process; lengths around constants of the code up to '
             '70000 with free bytes at the ends and around the constants',
    'thorough': 'as quick with lengths 0..600 and constants <= 9000, key sets '
                'of 1 to 4 keys, histories of 3 messages',
}
OUTSIDE = 'longer plaintexts, larger key sets, key-id collisions'
REACH = {'round_trip': ['plaintext is back'], 'history': ['plaintext is back'],
         'sets': ['plaintext is back']}


def round_trip(ctx, kz, p):
  n = ctx.choose('n', p['lens'])
  w = ctx.choose('writer', p.get('writers') or range(p['keys']))
  ks = [lib.Aes(ctx, 'k%d' % i, p['bits'],
                fixed=i if p.get('writers') and i != w else None)
        for i in range(p['keys'])]
  lib.distinct_ids(ctx, ks)
  before = ['ACTIVE'] * p['keys']
  before[w] = 'PRIMARY'
  data = lib.msg(ctx, 'data', n)
  enc = kz.keyczar.Encrypter if p['enc_only'] else kz.keyczar.Crypter
  lib.use_lib(kz, p['lib'])
  a = lib.key_set(enc, 'DECRYPT_AND_ENCRYPT', ks, before)
  raw = p['raw']
  ct = a.Encrypt(data, encoder=None) if raw else a.Encrypt(data)
  after = (lib.many_statuses(ctx, 'after', p['keys'], p['writers'])
           if p.get('writers') else
           lib.some_statuses(ctx, 'after', p['keys']))
  lib.use_lib(kz, p['lib2'])
  b = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', ks, after)
  pt = b.Decrypt(ct, decoder=None) if raw else b.Decrypt(ct)
  ctx.check(ctx.eq(pt, data), 'plaintext is back')


def history(ctx, kz, p):
  """Several messages through the same objects, decrypted in any order."""
  lib.use_lib(kz, p['lib'])
  k = lib.Aes(ctx, 'k', p['bits'])
  c = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [k], ['PRIMARY'])
  d = c if p['same'] else lib.key_set(
      kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [k], ['PRIMARY'])
  msgs = [ctx.str('m%d' % i, n) for i, n in enumerate(p['ns'])]
  cts = [c.Encrypt(m) for m in msgs]
  left = list(range(len(msgs)))
  while left:
    i = ctx.choose('next%d' % len(left), left)
    left.remove(i)
    ctx.check(ctx.eq(d.Decrypt(cts[i]), msgs[i]), 'plaintext is back')
  ctx.check(ctx.eq(d.Decrypt(c.Encrypt(msgs[0])), msgs[0]),
            'plaintext is back')


def sets(ctx, kz, p):
  """Several key sets at work in the same process."""
  lib.use_lib(kz, p['lib'])
  ks = [lib.Aes(ctx, 'k%d' % i, b) for i, b in enumerate(p['bits'])]
  lib.distinct_ids(ctx, ks)
  cs = [lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [k],
                    ['PRIMARY']) for k in ks]
  msgs = [ctx.str('m%d' % i, p['n']) for i in range(len(ks))]
  cts = [c.Encrypt(m) for c, m in zip(cs, msgs)]
  left = list(range(len(ks)))
  while left:
    i = ctx.choose('next%d' % len(left), left)
    left.remove(i)
    ctx.check(ctx.eq(cs[i].Decrypt(cts[i]), msgs[i]), 'plaintext is back')
    fresh = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [ks[i]],
                        ['ACTIVE'])
    ctx.check(ctx.eq(fresh.Decrypt(cts[i]), msgs[i]), 'plaintext is back')


def instances(tier):
  out = []
  quick = tier == 'quick'
  lens = lib.lengths(lib.FAR, 97) if quick else lib.lengths(lib.FAR, 601)
  short = [0, 1, 15, 16, 17, 31, 32, 33, 100]
  for bits in (128, 192, 256):
    for l in lib.LIBS:
      for raw in (False, True):
        for j, ch in enumerate(lib.chunks(lens if bits == 128 else short, 24)):
          out.append({'name': 'aes%d-%s-%s-%d' % (
              bits, l, 'raw' if raw else 'b64', j),
              'fn': 'round_trip', 'weight': 1 + sum(ch) / 1000, 'params': {
                  'bits': bits, 'lib': l, 'lib2': l, 'raw': raw, 'lens': ch,
                  'keys': 1, 'enc_only': raw}})
      other = lib.LIBS[1 - lib.LIBS.index(l)]
      for keys in (2, 3) if quick else (2, 3, 4):
        out.append({'name': 'aes%d-%s-rotate%d' % (bits, l, keys),
                    'fn': 'round_trip', 'weight': keys * 3, 'params': {
                        'bits': bits, 'lib': l, 'lib2': other, 'raw': False,
                        'lens': [0, 16, 21] if keys == 2 else [16],
                        'keys': keys, 'enc_only': True}})
      if l == 'm2crypto':
        out.append({'name': 'aes%d-many' % bits, 'fn': 'round_trip',
                    'weight': 20, 'params': {
                        'bits': bits, 'lib': l, 'lib2': l, 'raw': False,
                        'lens': [16], 'keys': 12, 'enc_only': True,
                        'writers': [0, 1, 4, 9, 10, 11]}})
      for same in (True, False):
        for ns in ((5, 16), (16, 0)) if quick else ((5, 16, 33), (0, 0, 1)):
          out.append({'name': 'aes%d-%s-history-%s-%s' % (
              bits, l, same, '+'.join(map(str, ns))), 'fn': 'history',
              'params': {'bits': bits, 'lib': l, 'ns': list(ns),
                         'same': same}})
  for l in lib.LIBS:
    for i, bits in enumerate(([128, 128], [128, 256], [192, 128, 192])):
      out.append({'name': 'sets-%s-%d' % (l, i), 'fn': 'sets', 'weight': 4,
                  'params': {'lib': l, 'bits': bits, 'n': 5}})
  return out
