"""Decrypting streams that were tampered with or cut short."""
from harness import lib

BOUNDS = {
    'quick': 'adversarial streams of every length 0..96, all byte values, '
             'against up to 2 honest ciphertexts under key sets of 1 or 2 keys '
             '(all key bytes), delivered in pieces of 1 to all bytes with up '
             'to 2 pauses, read with requests of several sizes; every '
             'truncation point of honest streams; both libraries; raw and '
             'Base64; honest streams of lengths around constants up to 1100 '
             'with the last 20 to 36 bytes replaced, shortened or extended',
    'thorough': 'as quick, adversarial lengths 0..200, more delivery and '
                'reading patterns',
}
OUTSIDE = ('key sets in which two keys share an identifier; Base64 text that '
           'decodes to the honest bytes; longer streams')
ASSUMES = ['HMAC-SHA1 is unforgeable: a 20-byte piece of the adversary\'s '
           'string equals the MAC of a message only if an honest party '
           'computed that MAC']
REACH = {'forge': ['judged'], 'cut': ['judged'], 'tail': ['judged']}


def sealed(ctx, k, iv, data):
  pad = 16 - len(data) % 16
  body = k.header() + iv + ctx.cbc(k.key, iv, data + chr(pad) * pad)
  return body + ctx.hmac(k.mac, body)


def drain(r, asks, n):
  """What was read up to the end of the data."""
  got = ''
  i = 0
  while i < 80 + 4 * n:
    a = asks[i % len(asks)]
    i += 1
    x = r.read() if a is None else r.read(a)
    if x is None:
      continue
    if x == '' and a != 0:
      return got
    got += x
  raise lib.Endless()


def deliver(ctx, x, p):
  cuts = [ctx.choose('piece', p['cuts'])]
  ps = lib.split(x, cuts)
  for i in range(p['pauses']):
    at = min(ctx.choose('pause%d' % i, p['at']), len(ps))
    ps = ps[:at] + [None] + ps[at:]
  return lib.Feed(ps)


def opened(ctx, kz, ks, text, p):
  d = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', ks,
                  ['PRIMARY'] + ['ACTIVE', 'INACTIVE'][:len(ks) - 1])
  args = {} if p.get('size') is None else {'buffer_size': p['size']}
  if p['raw']:
    args['decoder'] = None
  r = d.CreateDecryptingStreamReader(deliver(ctx, text, p), **args)
  asks = [ctx.choose('ask%d' % i, p['asks']) for i in range(p['nasks'])]
  how, v = lib.outcome(lambda: drain(r, asks, len(text)))
  if how == 'error' and p.get('again'):
    for i in range(2):
      again, x = lib.outcome(r.read)
      ctx.check(again == 'error', 'and stays in error')
  return how, v


def forge(ctx, kz, p):
  lib.use_lib(kz, p['lib'])
  nk = p['keys']
  ks = [lib.Aes(ctx, 'k%d' % i, p['bits']) for i in range(nk)]
  lib.distinct_ids(ctx, ks)
  cts = []
  for i, n in enumerate(p['honest']):
    st = ['ACTIVE'] * nk
    st[i % nk] = 'PRIMARY'
    e = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', ks, st)
    m = ctx.str('m%d' % i, n)
    if p['stream']:
      out = lib.Sink()
      w = e.CreateEncryptingStreamWriter(out, None)
      w.write(m)
      w.flush()
      cts.append((m, out.data))
    else:
      cts.append((m, e.Encrypt(m, encoder=None)))
  ctx.end_honest()
  x = ctx.str('x', ctx.choose('len', p['lens']))
  ctx.adversarial(x)
  how, v = opened(ctx, kz, ks, x if p['raw'] else lib.b64(x), p)
  ctx.reach('judged')
  if how == 'ok':
    ctx.reach('accepted')
    ctx.check(ctx.any([ctx.all([ctx.eq(x, c), ctx.eq(v, m)])
                       for m, c in cts]),
              'only an honest stream ends cleanly')


def tail(ctx, kz, p):
  """A long honest stream with another end."""
  lib.use_lib(kz, p['lib'])
  k = lib.Aes(ctx, 'k', p['bits'])
  m = 'm' * (p['n'] - 16) + ctx.str('m', 16)
  e = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [k], ['PRIMARY'])
  out = lib.Sink()
  w = e.CreateEncryptingStreamWriter(out, None)
  w.write(m)
  w.flush()
  ct = out.data
  ctx.end_honest()
  x = ct[:-p['free']] + ctx.str('x', p['free'] + p['more'])
  ctx.adversarial(x[:60])
  ctx.adversarial(x[-80:])
  how, v = opened(ctx, kz, [k], x, p)
  ctx.reach('judged')
  if how == 'ok':
    ctx.check(ctx.all([ctx.eq(x, ct), ctx.eq(v, m)]),
              'only the honest stream ends cleanly')


def cut(ctx, kz, p):
  """Honest streams, cut short anywhere, or with more at the end."""
  lib.use_lib(kz, p['lib'])
  k = lib.Aes(ctx, 'k', p['bits'])
  m = ctx.str('m', p['n'])
  e = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [k], ['PRIMARY'])
  ct = e.Encrypt(m, encoder=None)
  ctx.end_honest()
  if p['more']:
    x = ct + ctx.str('more', ctx.choose('extra', p['extra']))
  else:
    x = ct[:ctx.choose('keep', range(len(ct)))]
  ctx.adversarial(x)
  how, v = opened(ctx, kz, [k], x if p['raw'] else lib.b64(x), p)
  ctx.reach('judged')
  ctx.check(how == 'error', 'cut or extended streams end with an error')


def instances(tier):
  quick = tier == 'quick'
  out = []
  lens = list(range(97 if quick else 201))
  for l in lib.LIBS:
    for raw in (True, False):
      for j, ch in enumerate(lib.chunks(lens, 14)):
        out.append({'name': 'one-%s-%s-%d' % (l, raw, j), 'fn': 'forge',
                    'weight': 2, 'params': {
                        'lib': l, 'raw': raw, 'bits': 128, 'keys': 1,
                        'honest': [20], 'lens': ch, 'cuts': [500], 'pauses': 0,
                        'asks': [None], 'nasks': 1, 'stream': True}})
  i = 0
  for h in ([0, 16], [33, 3], []):
    want = sorted(set([20, 25, 41, 57, 58, 73, 89] +
                      [5 + 16 + 16 * (n // 16 + 1) + 20 + dx
                       for n in h for dx in (-16, -1, 0, 1, 16)]))
    for j, ch in enumerate(lib.chunks(want, 4)):
      i += 1
      for cuts, asks, pauses in (([1, 7, 16], [None], 0),
                                 ([500], [1, 16], 0),
                                 ([16], [None, 5], 2)):
        if quick and (i + len(cuts) + pauses) % 3:
          continue
        out.append({'name': 'two-%s-%d-%s-%s-%d' % (
            '+'.join(map(str, h)), j, cuts, asks, pauses), 'fn': 'forge',
            'weight': 4, 'params': {
                'lib': 'm2crypto' if j % 2 else 'pycrypto', 'raw': True,
                'bits': (128, 192, 256)[j % 3], 'keys': 2, 'honest': h,
                'lens': ch, 'cuts': cuts, 'asks': asks,
                'nasks': len(asks), 'pauses': pauses, 'at': [0, 1, 3, 4],
                'stream': bool(j % 2)}})
  for l in lib.LIBS:
    for n in (0, 5, 16, 40):
      for raw in (True, False):
        for k, (cuts, asks, pauses, size) in enumerate((
            ([500], [None], 0, None), ([1], [None, 3], 0, None),
            ([11], [None], 1, 0))):
          if quick and (k + n + raw) % 3:
            continue
          p = {'lib': l, 'raw': raw, 'bits': 256, 'n': n, 'more': False,
               'cuts': cuts, 'asks': asks, 'nasks': len(asks),
               'pauses': pauses, 'at': [0, 2, 5], 'size': size,
               'again': True}
          out.append({'name': 'cut-%s-%d-%s-%d' % (l, n, raw, k), 'fn': 'cut',
                      'weight': 2, 'params': p})
          out.append({'name': 'more-%s-%d-%s-%d' % (l, n, raw, k),
                      'fn': 'cut', 'weight': 2,
                      'params': dict(p, more=True, extra=[1, 2, 15, 16, 20, 32,
                                                          36])})
  for j, n in enumerate(x for x in lib.lengths(1100 if quick else 2100, 0)
                        if x > 300):
    for k, (free, more) in enumerate(((20, 0), (36, 0), (21, -1), (20, 16))):
      if quick and (j % 3 != 2 or (j // 3 + k) % 2):
        continue
      out.append({'name': 'tail-%d-%d-%d' % (n, free, more), 'fn': 'tail',
                  'weight': 4, 'params': {
                      'lib': lib.LIBS[(j + k // 2) % 2], 'raw': True,
                      'bits': 128, 'n': n, 'free': free, 'more': more,
                      'cuts': [1 << 20, 700] if k % 2 else [1 << 20],
                      'asks': [None],
                      'nasks': 1, 'pauses': 0}})
  return out
