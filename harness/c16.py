"""Streaming encryption and decryption."""
from harness import lib

BOUNDS = {
    'quick': 'plaintexts of lengths 0..50 and around the constants of the '
             'code up to 300 (all bytes, all keys); written in every division '
             'into up to 3 pieces for lengths 0..34 (pieces of fixed length '
             'above); ciphertexts delivered in patterns of two piece lengths '
             'from a list with up to 3 pauses anywhere, read with patterns of '
             'up to 2 requests; both libraries, Base64 and raw, 128/256-bit '
             'keys, any writer key in sets of 2; lengths around constants up '
             'to 70000 (reading 9000), free at the ends and the constants, '
             'in one or two pieces, and with unread data piling up',
    'thorough': 'as quick, lengths 0..100 and around constants up to 4200',
}
OUTSIDE = ('longer data, other delivery patterns; flushing an encrypting '
           'stream twice; blanks in the Base64 stream')
REACH = {'write': ['decrypts'], 'read': ['plaintext'],
         'both': ['plaintext']}


def cut(ctx, n, k):
  out = []
  left = n
  for i in range(k - 1):
    if not left:
      break
    c = ctx.choose('cut%d' % i, [x for x in range(left + 1)
                                 if x < 3 or left - x < 3 or x % 16 in
                                 (0, 1, 15)])
    out.append(c)
    left -= c
  out.append(left)
  return out


def pieces(data, cuts):
  out = []
  i = 0
  for c in cuts:
    out.append(data[i:i + c])
    i += c
  return out


def sealed(ctx, k, iv, data):
  pad = 16 - len(data) % 16
  body = k.header() + iv + ctx.cbc(k.key, iv, data + chr(pad) * pad)
  return body + ctx.hmac(k.mac, body)


def write(ctx, kz, p):
  lib.use_lib(kz, p['lib'])
  k = lib.Aes(ctx, 'k', p['bits'])
  e = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [k], ['PRIMARY'])
  n = ctx.choose('n', p['lens'])
  data = lib.msg(ctx, 'data', n, 300 if p.get('far') else 4200)
  if 'each' in p:
    ps = lib.split(data, [p['each']])
  else:
    ps = pieces(data, cut(ctx, n, p['pieces']))
  out = lib.Sink()
  start = len(ctx.draws)
  w = (e.CreateEncryptingStreamWriter(out, None) if p['raw'] else
       e.CreateEncryptingStreamWriter(out))
  for x in ps:
    w.write(x)
  w.flush()
  raw = out.data if p['raw'] else lib.unb64(out.data)
  ctx.check(out.flushed > 0 or not p['raw'], 'flushed')
  iv = raw[5:21]
  ctx.check(ctx.eq(raw, sealed(ctx, k, iv, data)), 'format')
  ctx.check(lib.within(ctx, iv, lib.drawn(ctx, start)), 'fresh vector')
  if not p['raw']:
    ctx.check(ctx.eq(out.data, lib.b64(raw)), 'encoded')
  lib.use_lib(kz, p['lib2'])
  d = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [k], ['ACTIVE'])
  got = (d.Decrypt(out.data, decoder=None) if p['raw'] else
         d.Decrypt(out.data))
  ctx.check(ctx.eq(got, data), 'decrypts')
  w.close()
  for f in (lambda: w.write('x'), w.flush, w.close):
    how, err = lib.outcome(f)
    ctx.check(how == 'error' and isinstance(err, ValueError),
              'closed stream refuses')


def drain(ctx, r, asks, data, nones):
  got = ''
  i = 0
  while True:
    a = asks[i % len(asks)]
    i += 1
    if i > 80 + 6 * len(data):
      ctx.fail('comes to an end')
    x = r.read() if a is None else r.read(a)
    if x is None:
      continue
    if a == 0:
      ctx.check(x == '', 'never more than asked for')
      continue
    if x == '':
      break
    if a is not None and a >= 0:
      ctx.check(len(x) <= a, 'never more than asked for')
    got += x
    if len(got) > len(data):
      ctx.fail('nothing else')
    if len(data) <= 300:
      ctx.check(ctx.eq(got, data[:len(got)]), 'in order')
  ctx.check(ctx.eq(got, data), 'plaintext')
  for a in asks[:9]:
    ctx.check((r.read() if a is None else r.read(a)) == '',
              'still at the end')


def read(ctx, kz, p):
  lib.use_lib(kz, p['lib'])
  nk = p.get('keys', 1)
  ks = [lib.Aes(ctx, 'k%d' % i, p['bits']) for i in range(nk)]
  lib.distinct_ids(ctx, ks)
  w = ctx.choose('writer', range(nk))
  n = ctx.choose('n', p['lens'])
  data = lib.msg(ctx, 'data', n, 300 if p.get('far') else 4200)
  text = sealed(ctx, ks[w], ctx.str('iv', 16), data)
  if not p['raw']:
    text = lib.b64(text)
  cuts = [ctx.choose('piece%d' % i, p['cuts']) for i in range(p['ncuts'])]
  ps = lib.split(text, cuts)
  for i in range(p['pauses']):
    at = ctx.choose('pause%d' % i, p['at'])
    at = min(at, len(ps) - 1)
    ps = ps[:at] + [None] + ps[at:]
  asks = [ctx.choose('ask%d' % i, p['asks']) for i in range(p['nasks'])]
  if p.get('slow'):
    # what was decrypted and not asked for piles up
    asks = [1] * p['slow'] + [None] * len(data)
  if all(a == 0 for a in asks):
    asks.append(1)
  d = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', ks,
                  ['PRIMARY', 'INACTIVE'][:nk])
  feed = lib.Feed(ps)
  args = {} if p.get('size') is None else {'buffer_size': p['size']}
  if p['raw']:
    args['decoder'] = None
  r = d.CreateDecryptingStreamReader(feed, **args)
  drain(ctx, r, asks, data, p['pauses'])
  r.close()
  how, err = lib.outcome(lambda: r.read())
  ctx.check(how == 'error' and isinstance(err, ValueError),
            'closed stream refuses')


def both(ctx, kz, p):
  """Two streams at once, written and read through the code."""
  lib.use_lib(kz, p['lib'])
  k = lib.Aes(ctx, 'k', 128)
  c = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [k], ['PRIMARY'])
  datas = [ctx.str('d%d' % i, n) for i, n in enumerate(p['ns'])]
  outs = [lib.Sink() for _ in datas]
  ws = [c.CreateEncryptingStreamWriter(o) for o in outs]
  left = [lib.split(d, [7]) for d in datas]
  turn = ctx.choose('first', [0, 1])
  while any(left):
    if left[turn]:
      ws[turn].write(left[turn].pop(0))
    turn = 1 - turn
  for w in ws:
    w.flush()
  rs = [c.CreateDecryptingStreamReader(lib.Feed(lib.split(o.data, [5])))
        for o in outs]
  got = ['', '']
  done = [False, False]
  steps = 0
  while not all(done):
    steps += 1
    if steps > 300:
      ctx.fail('comes to an end')
    turn = 1 - turn
    if done[turn]:
      continue
    x = rs[turn].read(9)
    if x is None:
      continue
    if x == '':
      done[turn] = True
      continue
    got[turn] += x
  for g, d in zip(got, datas):
    ctx.check(ctx.eq(g, d), 'plaintext')


def instances(tier):
  quick = tier == 'quick'
  out = []
  lens = lib.lengths(300, 51) if quick else lib.lengths(4200, 101)
  for l in lib.LIBS:
    o = lib.LIBS[1 - lib.LIBS.index(l)]
    for raw in (True, False):
      for j, ch in enumerate(lib.chunks(range(0, 35), 5)):
        out.append({'name': 'write-%s-%s-%d' % (l, raw, j), 'fn': 'write',
                    'weight': 4, 'params': {
                        'lib': l, 'lib2': o, 'bits': 128, 'raw': raw,
                        'lens': ch, 'pieces': 3 if j < 4 else 2}})
      for each in (1, 7, 16, 33, 200):
        out.append({'name': 'write-%s-%s-each%d' % (l, raw, each),
                    'fn': 'write', 'weight': 3, 'params': {
                        'lib': l, 'lib2': l, 'bits': 256, 'raw': raw,
                        'lens': [x for x in lens if x <= 40 * each and
                                 (x > 34 or each < 9)], 'each': each}})
      for j, ch in enumerate(lib.chunks(
          [0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49], 4)):
        out.append({'name': 'read-%s-%s-%d' % (l, raw, j), 'fn': 'read',
                    'weight': 4, 'params': {
                        'lib': l, 'bits': 128, 'raw': raw, 'lens': ch,
                        'cuts': [1, 4, 5, 16, 17, 20, 1000], 'ncuts': 1,
                        'pauses': 0, 'nasks': 1,
                        'asks': [None, 1, 7, 16, 100]}})
      out.append({'name': 'mixed-%s-%s' % (l, raw), 'fn': 'read',
                  'weight': 6, 'params': {
                      'lib': l, 'bits': 256, 'raw': raw, 'lens': [5, 32],
                      'cuts': [3, 19, 41], 'ncuts': 2, 'pauses': 0,
                      'nasks': 2, 'asks': [None, 5, 20], 'size': 100}})
      for pauses in (1, 2, 3):
        out.append({'name': 'pauses-%s-%s-%d' % (l, raw, pauses),
                    'fn': 'read', 'weight': 6, 'params': {
                        'lib': l, 'bits': 128, 'raw': raw, 'lens': [0, 16, 21],
                        'cuts': [5, 8] if pauses == 1 else [16],
                        'ncuts': 1, 'pauses': pauses,
                        'at': list(range(15)) if pauses == 1 else
                        [0, 1, 2, 3, 9], 'nasks': 1, 'asks': [None, 6]}})
      out.append({'name': 'keys-%s-%s' % (l, raw), 'fn': 'read', 'params': {
          'lib': l, 'bits': 192, 'raw': raw, 'lens': [3], 'keys': 2,
          'cuts': [7], 'ncuts': 1, 'pauses': 0, 'nasks': 1, 'asks': [None]}})
    for size in (-1, 0, 1, 16, 40):
      out.append({'name': 'buffer-%s-%d' % (l, size), 'fn': 'read', 'params': {
          'lib': l, 'bits': 128, 'raw': True, 'lens': [0, 16, 50],
          'cuts': [9, 1000], 'ncuts': 1, 'pauses': 0, 'nasks': 1,
          'asks': [None, 10], 'size': size}})
    long = [x for x in lens if x > 50]
    for j, ch in enumerate(lib.chunks(long, 8)):
      out.append({'name': 'long-%s-%d' % (l, j), 'fn': 'read', 'weight': 5,
                  'params': {
                      'lib': l, 'bits': 128, 'raw': j % 2 == 0, 'lens': ch,
                      'cuts': [64, 5000], 'ncuts': 1, 'pauses': 0,
                      'nasks': 1, 'asks': [None, 50]}})
      if j % 4 == 0:
        out.append({'name': 'zero-%s-%d' % (l, j), 'fn': 'read', 'weight': 5,
                    'params': {
                        'lib': l, 'bits': 128, 'raw': j % 8 == 0,
                        'lens': [0, 5, 16, 40, ch[0]], 'cuts': [16, 5000],
                        'ncuts': 1, 'pauses': 0, 'nasks': 3,
                        'asks': [0, 3, -1]}})
    at = lib.LIBS.index(l)
    for j, n in enumerate(x for x in lib.lengths(lib.FAR, 0) if x > 300):
      if j % 2 == at:
        for each in (1 << 20, n // 2 + 1):
          out.append({'name': 'far-write-%s-%d-%d' % (l, n, each),
                      'fn': 'write', 'weight': 5, 'params': {
                          'lib': l, 'lib2': l, 'bits': 128,
                          'raw': j % 4 < 2, 'lens': [n], 'far': True,
                          'each': each}})
        if n <= 9000:
          out.append({'name': 'far-read-%s-%d' % (l, n), 'fn': 'read',
                      'weight': 6, 'params': {
                          'lib': l, 'bits': 128, 'raw': j % 4 < 2,
                          'lens': [n], 'far': True, 'cuts': [1 << 20],
                          'ncuts': 1, 'pauses': 0, 'nasks': 1,
                          'asks': [None]}})
    for j, c in enumerate(x for x in lib.lengths(9000, 0) if x > 300):
      if j % 6 == 3 * at + 1:
        out.append({'name': 'slow-%s-%d' % (l, c), 'fn': 'read',
                    'weight': 8, 'params': {
                        'lib': l, 'bits': 128, 'raw': True, 'far': True,
                        'lens': [c + c // 10 + 70], 'cuts': [1 << 20],
                        'ncuts': 1, 'pauses': 0, 'nasks': 1, 'asks': [1],
                        'slow': c // 15 + 3}})
    out.append({'name': 'both-' + l, 'fn': 'both',
                'params': {'lib': l, 'ns': [20, 33]}})
  return out
