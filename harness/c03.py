"""The AES ciphertext format and its fresh initialisation vector."""
from harness import lib

BOUNDS = {
    'quick': 'plaintext lengths 0..80 and around the constants of the code up '
             'to 4200, all byte values and key bytes, 128/192/256 bits, both '
             'crypt libraries, 2 consecutive messages, also after '
             'another key set was used, raw and Base64; streams and whole '
             'messages in turn; constants up to 70000 '
             'with free bytes at the ends and around the constants',
    'thorough': 'as quick with lengths 0..600 and constants up to 9000',
}
OUTSIDE = 'longer plaintexts'
REACH = {'layout': ['format', 'iv is fresh', 'encoded form'],
         'streams': ['format', 'iv is fresh']}


def expect(ctx, k, iv, data):
  pad = 16 - len(data) % 16
  body = k.header() + iv + ctx.cbc(k.key, iv, data + chr(pad) * pad)
  return body + ctx.hmac(k.mac, body)


def layout(ctx, kz, p):
  n = ctx.choose('n', p['lens'])
  lib.use_lib(kz, p['lib'])
  k = lib.Aes(ctx, 'k', p['bits'])
  e = lib.key_set(kz.keyczar.Encrypter, 'DECRYPT_AND_ENCRYPT', [k],
                  ['PRIMARY'])
  data = lib.msg(ctx, 'data', n)
  if p['other']:
    # another key set of the same process
    o = lib.Aes(ctx, 'other', p['other'])
    ctx.assume(ctx.no(ctx.eq(o.id(), k.id())))
    iv = (lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [o],
                      ['PRIMARY']).Encrypt(data, encoder=None))
    ctx.check(ctx.eq(iv, expect(ctx, o, iv[5:21], data)), 'format')
  for i in range(2):
    start = len(ctx.draws)
    if i == p['b64']:
      ct = lib.unb64(e.Encrypt(data))
      ctx.reach('encoded form')
    else:
      ct = e.Encrypt(data, encoder=None)
    size = 5 + 16 + 16 * (n // 16 + 1) + 20
    ctx.check(len(ct) == size, 'length')
    iv = ct[5:21]
    ctx.check(lib.within(ctx, iv, lib.drawn(ctx, start)), 'iv is fresh')
    ctx.check(ctx.eq(ct, expect(ctx, k, iv, data)), 'format')


def streams(ctx, kz, p):
  n = ctx.choose('n', p['lens'])
  lib.use_lib(kz, p['lib'])
  k = lib.Aes(ctx, 'k', p['bits'])
  e = lib.key_set(kz.keyczar.Encrypter, 'DECRYPT_AND_ENCRYPT', [k],
                  ['PRIMARY'])
  data = ctx.str('data', n)
  for i in range(3):
    start = len(ctx.draws)
    if i == p['whole']:
      ct = e.Encrypt(data, encoder=None)
    else:
      out = lib.Sink()
      w = e.CreateEncryptingStreamWriter(out, encoder=None)
      w.write(data)
      w.flush()
      ct = out.data
    iv = ct[5:21]
    ctx.check(lib.within(ctx, iv, lib.drawn(ctx, start)), 'iv is fresh')
    ctx.check(ctx.eq(ct, expect(ctx, k, iv, data)), 'format')


def instances(tier):
  quick = tier == 'quick'
  out = []
  lens = lib.lengths(lib.FAR, 81) if quick else lib.lengths(lib.FAR, 601)
  for bits in (128, 192, 256):
    for l in lib.LIBS:
      for j, ch in enumerate(lib.chunks(
          lens if bits == 128 else [0, 7, 15, 16, 17, 32, 48, 200], 16)):
        out.append({'name': '%d-%s-%d' % (bits, l, j), 'fn': 'layout',
                    'weight': 1 + sum(ch) / 500,
                    'params': {'bits': bits, 'lib': l, 'lens': ch,
                               'b64': j % 2,
                               'other': 128 if not j or bits > 128 else 0}})
      for w in range(3):
        out.append({'name': 'streams-%d-%s-%d' % (bits, l, w),
                    'fn': 'streams',
                    'params': {'bits': bits, 'lib': l, 'whole': w,
                               'lens': [0, 5, 16, 17, 33]}})
  return out
