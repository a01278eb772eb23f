"""Incremental Base64."""
from harness import lib

BOUNDS = {
    'quick': 'data of lengths 0..13 (all byte values) written in every '
             'division into up to 4 pieces (longer data up to 4100 bytes in '
             'equal pieces); encodings of data of lengths 0..10 delivered in '
             'every pattern of two alternating piece lengths out of '
             '1,2,3,4,5,7 with unavailable data before any piece, read with '
             'every pattern of up to 3 requests out of a list; lengths around '
             'constants up to 70000 (reading 9000) in one or two pieces, free '
             'at the ends and the constants',
    'thorough': 'as quick, lengths 0..20 and up to 5 pieces',
}
OUTSIDE = ('longer data, other read patterns; blanks inside a streamed '
           'encoding; reads that ask for no characters')
REACH = {'write': ['written'], 'read': ['read'], 'codec': ['encoded'],
         'decodec': ['decoded']}


def pieces(ctx, name, n, k):
  """Any division of n bytes into up to k pieces."""
  out = []
  left = n
  for i in range(k - 1):
    if not left:
      break
    c = ctx.choose('%s%d' % (name, i), range(left + 1))
    out.append(c)
    left -= c
  if left:
    out.append(left)
  return out


def write(ctx, kz, p):
  n = ctx.choose('n', p['lens'])
  data = lib.msg(ctx, 'data', n, 300 if p.get('far') else 4200)
  out = lib.Sink()
  w = kz.util.IncrementalBase64WSStreamWriter(out)
  if 'each' in p:
    cuts = [p['each']] * (n // p['each']) + [n % p['each']]
  else:
    cuts = pieces(ctx, 'cut', n, p['pieces'])
  i = 0
  for c in cuts:
    w.write(data[i:i + c])
    i += c
    want = lib.b64(data[:i])
    ctx.check(ctx.eq(out.data, want[:len(out.data)])
              if len(out.data) <= len(want) else False, 'nothing else')
  if p.get('close'):
    w.close()
    ctx.check(out.closed, 'closed')
  else:
    w.flush()
  ctx.check(ctx.eq(out.data, lib.b64(data)), 'written')


def codec(ctx, kz, p):
  n = ctx.choose('n', p['lens'])
  data = ctx.str('data', n)
  e = kz.util.BufferedIncrementalBase64WSEncoder()
  got = ''
  i = 0
  cuts = pieces(ctx, 'cut', n, p['pieces'])
  for k, c in enumerate(cuts):
    last = p['final'] and k == len(cuts) - 1
    r = e.encode(data[i:i + c], final=last)
    got += r[0]
    i += c
  if not p['final']:
    got += e.flush()
  ctx.check(ctx.eq(got, lib.b64(data)), 'encoded')
  ctx.check(e.flush() == '', 'nothing left')


def decodec(ctx, kz, p):
  n = ctx.choose('n', p['lens'])
  data = ctx.str('data', n)
  text = lib.b64(data)
  e = kz.util.BufferedIncrementalBase64WSDecoder()
  got = ''
  i = 0
  cuts = pieces(ctx, 'cut', len(text), p['pieces'])
  for k, c in enumerate(cuts):
    last = p['final'] and k == len(cuts) - 1
    r = e.decode(text[i:i + c], final=last)
    got += r[0]
    i += c
  if not p['final']:
    got += e.flush()
  ctx.check(ctx.eq(got, data), 'decoded')
  ctx.check(e.flush() == '', 'nothing left')


def read(ctx, kz, p):
  n = ctx.choose('n', p['lens'])
  data = lib.msg(ctx, 'data', n, 300 if p.get('far') else 4200)
  text = lib.b64(data)
  cuts = [ctx.choose('cut%d' % i, p['cuts']) for i in range(2)]
  ps = lib.split(text, cuts)
  nones = 0
  if p['nones']:
    at = ctx.choose('none', range(len(ps) + 1))
    ps = ps[:at] + [None] * p['nones'] + ps[at:]
    nones = p['nones']
  r = kz.util.IncrementalBase64WSStreamReader(lib.Feed(ps))
  asks = [ctx.choose('ask%d' % i, p['asks']) for i in range(p['nasks'])]
  got = ''
  k = 0
  empty = 0
  while True:
    a = asks[k % len(asks)]
    k += 1
    if k > 20 + 8 * n:
      ctx.fail('comes to an end')
    if a[0] == 'all':
      x = r.read()
    elif a[0] == 'size':
      x = r.read(a[1])
    elif a[0] == 'both':
      x = r.read(a[1], a[2])
    else:
      x = r.read(chars=a[1])
    if x is None:
      nones -= 1
      ctx.check(nones >= 0, 'no more pauses than the source had')
      continue
    if x == '':
      break
    if a[0] in ('chars', 'both'):
      ctx.check(len(x) <= a[-1], 'never more than asked for',
                lambda: '%r gave %d' % (a, len(x)))
    got += x
    if n <= 300:
      ctx.check(ctx.eq(got, data[:len(got)]), 'in order')
  ctx.check(ctx.eq(got, data), 'read')
  again = r.read()
  ctx.check(again == '', 'still at the end')


def instances(tier):
  quick = tier == 'quick'
  out = []
  for n in range(14 if quick else 21):
    out.append({'name': 'write-%d' % n, 'fn': 'write', 'weight': 1 + n / 3,
                'params': {'lens': [n], 'pieces': 4 if n < 9 else 3,
                           'close': n % 2 == 1}})
  for each in (1, 2, 3, 4, 5, 7, 16, 100, 1000, 4096):
    out.append({'name': 'write-each-%d' % each, 'fn': 'write',
                'params': {'lens': [n for n in (0, 31, 100, 1001, 4100)
                                    if n <= 40 * each], 'each': each}})
  for final in (True, False):
    for n in (0, 1, 2, 3, 4, 5, 6, 7, 8):
      out.append({'name': 'codec-%d-%s' % (n, final), 'fn': 'codec',
                  'params': {'lens': [n], 'pieces': 3, 'final': final}
                  if n or not final else {'lens': [0], 'pieces': 1,
                                          'final': False}})
      out.append({'name': 'decodec-%d-%s' % (n, final), 'fn': 'decodec',
                  'params': {'lens': [n], 'pieces': 3, 'final': final}
                  if n or not final else {'lens': [0], 'pieces': 1,
                                          'final': False}})
  asks = [['all'], ['size', 1], ['size', 3], ['size', 4], ['size', 6],
          ['chars', 1], ['chars', 2], ['chars', 5], ['both', 3, 2],
          ['both', 5, 4]]
  for n in range(11 if quick else 21):
    for nones in (0, 1, 2):
      out.append({'name': 'read-%d-%d' % (n, nones), 'fn': 'read',
                  'weight': 2 + n, 'params': {
                      'lens': [n], 'cuts': [1, 2, 3, 4, 5, 7],
                      'nones': nones, 'nasks': 1, 'asks': asks}
                  if nones == 0 else {
                      'lens': [n], 'cuts': [1, 3, 4] if nones == 1 else [4, 7],
                      'nones': nones, 'nasks': 1, 'asks': asks}})
  few = [['all'], ['size', 2], ['size', 5], ['chars', 1], ['chars', 3],
         ['both', 4, 2]]
  for n in (1, 2, 4, 6, 8, 11):
    out.append({'name': 'mixed-%d' % n, 'fn': 'read', 'weight': 8,
                'params': {'lens': [n], 'cuts': [2, 5], 'nones': 0,
                           'nasks': 2 if quick else 3, 'asks': few}})
  for j, n in enumerate(x for x in lib.lengths(lib.FAR, 0) if x > 300):
    for each in (n, n // 2 + 1):
      out.append({'name': 'far-write-%d-%d' % (n, each), 'fn': 'write',
                  'weight': 3, 'params': {'lens': [n], 'far': True,
                                          'each': each}})
    if n <= 9000:
      out.append({'name': 'far-read-%d' % n, 'fn': 'read', 'weight': 3,
                  'params': {'lens': [n], 'far': True, 'cuts': [1 << 20],
                             'nones': 0, 'nasks': 1, 'asks': [
                                 [['all'], ['size', n // 3]],
                                 [['all'], ['chars', n // 2]],
                                 [['all'], ['size', 1 << 20]]][j % 3]}})
  return out
