"""Conversions between numbers, bits and bytes; exclusive-or; MGF1."""
from harness import lib

BOUNDS = {
    'quick': 'byte strings of lengths 0..20 (all values), integers below 2^64 '
             'for exact inverses, bit strings of up to 17 bits, four-byte integers 0..2^32-1, operands of '
             'exclusive-or of lengths 0..12 in all pairs and some up to 256, '
             'trimming with 0..5 leading zeros, MGF1 with seeds of lengths '
             '0, 1, 20, 107 and mask lengths 0..64 and around the constants '
             'up to 300',
    'thorough': 'byte strings up to 48 bytes, integers below 2^128, mask '
                'lengths up to 600',
}
OUTSIDE = 'longer operands; negative numbers'
REACH = {'big': ['bytes', 'back'], 'tolong': ['number'], 'four': ['bytes'],
         'xor': ['bytewise'], 'trim': ['trimmed'], 'bits': ['bits', 'back'],
         'mgf': ['mask'], 'tobits': ['number to bits'], 'frombits': ['bytes'], 'hashes': ['hash']}


def big(ctx, kz, p):
  n = ctx.int('n', 0, (1 << p['bits']) - 1)
  s = kz.util.BigIntToBytes(n)
  ctx.check(len(s) * 8 <= p['bits'] + 7, 'size')
  ctx.check(ctx.num(s) == n, 'bytes')
  if len(s):
    ctx.check(s[0] != '\x00', 'minimal')
  ctx.check(kz.util.BytesToLong(s) == n, 'back')


def tolong(ctx, kz, p):
  s = ctx.str('s', ctx.choose('len', p['lens']))
  ctx.check(kz.util.BytesToLong(s) == ctx.num(s), 'number')


def four(ctx, kz, p):
  n = ctx.int('n', 0, (1 << 32) - 1)
  s = kz.util.IntToBytes(n)
  ctx.check(len(s) == 4, 'size')
  ctx.check(ctx.num(s) == n, 'bytes')


def xor(ctx, kz, p):
  a = ctx.str('a', ctx.choose('la', p['la']))
  b = ctx.str('b', ctx.choose('lb', p['lb']))
  m = max(len(a), len(b))
  x = kz.util.Xor(a, b)
  ctx.check(len(x) == m, 'length')
  aa = '\x00' * (m - len(a)) + a
  bb = '\x00' * (m - len(b)) + b
  ctx.check(ctx.all([ord(x[i]) == (ord(aa[i]) ^ ord(bb[i]))
                     for i in range(m)]), 'bytewise')


def trim(ctx, kz, p):
  z = ctx.choose('zeros', p['zeros'])
  s = '\x00' * z + ctx.str('s', ctx.choose('n', p['lens']))
  t = kz.util.TrimBytes(s)
  ctx.check(len(t) >= 1, 'not empty')
  ctx.check(ctx.num(t) == ctx.num(s), 'trimmed')
  if len(t) > 1:
    ctx.check(t[0] != '\x00', 'no leading zero')
  for k in p['pads']:
    ctx.check(ctx.eq(kz.util.PadBytes(s, k), '\x00' * k + s), 'padded')


def bits(ctx, kz, p):
  """One arbitrary byte among fixed ones (each byte is converted alone)."""
  s = p['before'] + ctx.str('s', 1) + p['after']
  b = kz.util.BytesToBin(s)
  ctx.check(len(b) == 8 * len(s), 'length')
  ok = []
  for i, c in enumerate(s):
    for j in range(8):
      one = ((ord(c) >> (7 - j)) & 1) == 1
      ok.append(ctx.any([ctx.all([one, b[8 * i + j] == '1']),
                         ctx.all([ctx.no(one), b[8 * i + j] == '0'])]))
  ctx.check(ctx.all(ok), 'bits')
  ctx.check(ctx.eq(kz.util.BinToBytes(b), s), 'back')


def frombits(ctx, kz, p):
  """Bit strings of any length are padded on the left."""
  n = ctx.choose('n', p['lens'])
  b = ctx.str('b', n, (1 << 48) | (1 << 49))
  s = kz.util.BinToBytes(b)
  want = 0
  for c in b:
    want = want * 2 + (ord(c) - 48)
  ctx.check(len(s) == (n + 7) // 8, 'length')
  ctx.check(ctx.num(s) == want, 'bytes')


def tobits(ctx, kz, p):
  v = ctx.int('v', p['lo'], p['hi'])
  t = kz.util.IntToBin(v)
  ctx.check(len(t) == max(1, p['hi'].bit_length()), 'minimal')
  ok = [ctx.any([c == '0', c == '1']) for c in t]
  back = 0
  for c in t:
    back = back * 2 + (ord(c) - 48)
  ctx.check(ctx.all(ok), 'digits')
  ctx.check(back == v, 'number to bits')


def mgf(ctx, kz, p):
  seed = ctx.str('seed', p['seed'])
  n = ctx.choose('n', p['lens'])
  m = kz.util.MGF(seed, n)
  want = ''
  i = 0
  while len(want) < n:
    want += ctx.sha1(seed, lib.be4(i))
    i += 1
  ctx.check(ctx.eq(m, want[:n]), 'mask')
  if n and n < 65:
    # another seed of the same length
    seed = ctx.str('seed2', p['seed'])
    want = ''.join([ctx.sha1(seed, lib.be4(j)) for j in range(i)])
    ctx.check(ctx.eq(kz.util.MGF(seed, n), want[:n]), 'mask')


def hashes(ctx, kz, p):
  parts = [ctx.str('p%d' % i, n) for i, n in enumerate(p['lens'])]
  ctx.check(ctx.eq(kz.util.Hash(*parts), ctx.sha1(*parts)), 'hash')
  pre = []
  for s in parts:
    pre += [lib.be4(len(s)), s]
  ctx.check(ctx.eq(kz.util.PrefixHash(*parts), ctx.sha1(*pre)), 'hash')


def instances(tier):
  quick = tier == 'quick'
  out = []
  for b in (1, 7, 8, 9, 16, 31, 32, 33, 63, 64) if quick else (
      1, 7, 8, 9, 16, 24, 31, 32, 33, 63, 64, 65, 96, 127, 128):
    out.append({'name': 'big-%d' % b, 'fn': 'big', 'weight': 1 + b / 16,
                'params': {'bits': b}})
  top = 21 if quick else 49
  for j, ch in enumerate(lib.chunks(list(range(top)) + [
      x for x in lib.lengths(600, 0) if x >= top], 6)):
    out.append({'name': 'tolong-%d' % j, 'fn': 'tolong',
                'params': {'lens': ch}})
  out.append({'name': 'four', 'fn': 'four', 'weight': 2})
  for la in range(13):
    out.append({'name': 'xor-%d' % la, 'fn': 'xor',
                'params': {'la': [la], 'lb': list(range(13))}})
  out.append({'name': 'xor-long', 'fn': 'xor',
              'params': {'la': [20, 107, 255, 256], 'lb': [19, 107, 257]}})
  for z in range(6):
    out.append({'name': 'trim-%d' % z, 'fn': 'trim',
                'params': {'zeros': [z], 'lens': [0, 1, 2, 3, 4, 9],
                           'pads': [0, 1, 3]}})
  for x, y in (('', ''), ('\x00', ''), ('', '\x81'), ('\xff\x01', '\x00'),
               ('\x00\x00', '\x7f\x80')):
    out.append({'name': 'bits-%d-%d' % (len(x), len(y)), 'fn': 'bits',
                'weight': 2, 'params': {'before': x, 'after': y}})
  out.append({'name': 'frombits', 'fn': 'frombits', 'weight': 3,
              'params': {'lens': list(range(18 if quick else 34))}})
  for k in range(1, 9 if quick else 12):
    out.append({'name': 'tobits-%d' % k, 'fn': 'tobits', 'weight': k,
                'params': {'lo': 1 << (k - 1), 'hi': (1 << k) - 1}})
  out.append({'name': 'tobits-0', 'fn': 'tobits',
              'params': {'lo': 0, 'hi': 0}})
  lens = lib.lengths(300, 65) if quick else lib.lengths(700, 300)
  for s in (0, 1, 20, 107):
    for j, ch in enumerate(lib.chunks(lens, 30)):
      out.append({'name': 'mgf-%d-%d' % (s, j), 'fn': 'mgf',
                  'params': {'seed': s, 'lens': ch}})
  for ls in ([], [0], [3], [0, 2], [4, 16, 32], [1, 1, 1, 1]):
    out.append({'name': 'hash-%s' % '+'.join(map(str, ls)), 'fn': 'hashes',
                'params': {'lens': ls}})
  return out
