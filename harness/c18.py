"""Packing of byte arrays."""
from harness import lib

BOUNDS = {
    'quick': 'single arrays of lengths 0..70 and around the constants of the '
             'code up to 4200 and 65535..65537; lists of 0 to 4 arrays of '
             'lengths 0..3, 16, 32, 255..257; malformed input: every byte '
             'string of length 0..24, all offsets',
    'thorough': 'as quick, lengths 0..300, inputs of length 0..40',
}
OUTSIDE = 'arrays of more than 65537 bytes'
REACH = {'one': ['packed', 'unpacked'], 'many': ['packed', 'unpacked'],
         'strange': ['judged'], 'strange_many': ['judged'], 'none': ['packed']}


def one(ctx, kz, p):
  n = ctx.choose('n', p['lens'])
  s = ctx.str('s', n)
  e = kz.util.PackByteArray(s)
  ctx.check(ctx.eq(e, lib.be4(n) + s), 'packed')
  pre = ctx.str('pre', p['pre'])
  post = ctx.str('post', p['post'])
  got, off = kz.util.UnpackByteArray(pre + e + post, len(pre))
  ctx.check(ctx.eq(got, s), 'unpacked')
  ctx.check(off == len(pre) + 4 + n, 'offset')


def none(ctx, kz, p):
  ctx.check(kz.util.PackByteArray(None) == '', 'packed')


def many(ctx, kz, p):
  arrays = [ctx.str('a%d' % i, n) for i, n in enumerate(p['lens'])]
  e = kz.util.PackMultipleByteArrays(*arrays)
  want = lib.be4(len(arrays))
  for a in arrays:
    want += lib.be4(len(a)) + a
  ctx.check(ctx.eq(e, want), 'packed')
  got = kz.util.UnpackMultipleByteArrays(e)
  ctx.check(len(got) == len(arrays), 'count')
  ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(got, arrays)]), 'unpacked')


def strange(ctx, kz, p):
  n = ctx.choose('n', p['lens'])
  s = ctx.str('s', n)
  off = ctx.choose('off', range(n - 3))
  how, v = lib.outcome(lambda: kz.util.UnpackByteArray(s, off))
  size = ctx.num(s[off:off + 4])
  room = n - off - 4
  ctx.reach('judged')
  if how == 'ok':
    ctx.check(size <= room, 'only a length that fits')
    got, end = v
    ctx.check(len(got) == size, 'the whole array')
    ctx.check(end == off + 4 + len(got), 'offset')
    ctx.check(ctx.eq(got, s[off + 4:off + 4 + len(got)]), 'its own bytes')
  else:
    ctx.check(isinstance(v, kz.errors.KeyczarError), 'error type')
    ctx.check(size > room, 'a length that fits is accepted')


def strange_many(ctx, kz, p):
  n = ctx.choose('n', p['lens'])
  s = ctx.str('s', n)
  how, v = lib.outcome(lambda: kz.util.UnpackMultipleByteArrays(s))
  ctx.reach('judged')
  if how == 'ok':
    again = s[:4]
    for a in v:
      again += lib.be4(len(a)) + a
    ctx.check(ctx.eq(again, s), 'arrays make up the input')


def instances(tier):
  quick = tier == 'quick'
  out = []
  lens = lib.lengths(lib.FAR, 71 if quick else 301, [65535, 65536, 65537])
  for j, ch in enumerate(lib.chunks(lens, 20)):
    out.append({'name': 'one-%d' % j, 'fn': 'one', 'weight': sum(ch) / 1000,
                'params': {'lens': ch, 'pre': j % 3, 'post': (j + 1) % 4}})
  out.append({'name': 'none', 'fn': 'none'})
  for ls in ([], [0], [1], [0, 0], [16, 32], [3, 0], [0, 3], [1, 2, 3],
             [255, 256, 257], [0, 1, 0, 2], [16, 32, 20, 5],
             [5, 128, 127, 129]):
    out.append({'name': 'many-%s' % '+'.join(map(str, ls)), 'fn': 'many',
                'params': {'lens': ls}})
  top = 25 if quick else 41
  out.append({'name': 'strange', 'fn': 'strange', 'weight': 4,
              'params': {'lens': list(range(4, top))}})
  out.append({'name': 'strange-many', 'fn': 'strange_many', 'weight': 4,
              'params': {'lens': list(range(4, top))}})
  return out
