"""Web-safe Base64."""
import base64

from harness import lib

BOUNDS = {
    'quick': 'byte strings of lengths 0..48 and around the constants of the '
             'code up to 300 (all values); texts: encodings with up to 3 blank '
             'characters inserted anywhere (lengths up to 9), every text of '
             'length 0..4 over all characters 0..255, texts of up to 12 '
             'alphabet characters',
    'thorough': 'byte strings of lengths 0..200 and around the constants up '
                'to 4200, texts of length 0..6 over all characters',
}
OUTSIDE = ('longer strings, characters above 255; what becomes of characters '
           'outside the alphabet and of padding characters inside a text')
REACH = {'trip': ['encoded', 'decoded'], 'blanks': ['decoded'],
         'anytext': ['judged'], 'alphabet': ['judged'], 'old': ['decoded']}

ALPHABET = ('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_')
DOM = sum(1 << ord(c) for c in ALPHABET)
BLANK = sum(1 << ord(c) for c in ' \n\r')


def value(ctx, c):
  """The 6-bit value of an alphabet character, by its defining ranges."""
  o = ord(c)
  if ctx.all([o >= 65, o <= 90]):
    return o - 65
  if ctx.all([o >= 97, o <= 122]):
    return o - 71
  if ctx.all([o >= 48, o <= 57]):
    return o + 4
  return 62 if o == 45 else 63


def trip(ctx, kz, p):
  n = ctx.choose('n', p['lens'])
  s = ctx.str('s', n)
  e = kz.util.Base64WSEncode(s)
  ctx.check(ctx.eq(e, lib.b64(s)), 'encoded')
  ctx.check(len(e) == (n * 8 + 5) // 6, 'length without padding')
  ctx.check(ctx.eq(kz.util.Base64WSDecode(e), s), 'decoded')


def bits(ctx, kz, p):
  """The encoding, bit by bit, for one group of three bytes."""
  s = ctx.str('s', p['n'])
  e = kz.util.Base64WSEncode(s)
  total = ctx.num(s) << (-len(s) * 8 % 6)
  for i, c in enumerate(e):
    ctx.check(value(ctx, c) == (total >> (6 * (len(e) - 1 - i))) & 63,
              'bits')


def blanks(ctx, kz, p):
  n = p['n']
  s = ctx.str('s', n)
  e = lib.b64(s)
  pad = ctx.choose('padding', ['', '='])
  if pad:
    e += '=' * (-len(e) % 4)
  for i in range(p['blanks']):
    at = ctx.choose('at%d' % i, range(len(e) + 1))
    e = e[:at] + ctx.str('b%d' % i, 1, BLANK) + e[at:]
  ctx.check(ctx.eq(kz.util.Base64WSDecode(e), s), 'decoded')


def old(ctx, kz, p):
  """The deprecated names do the same."""
  s = ctx.str('s', p['n'])
  e = kz.util.Encode(s)
  ctx.check(ctx.eq(e, lib.b64(s)), 'encoded')
  ctx.check(ctx.eq(kz.util.Decode(e), s), 'decoded')


def anytext(ctx, kz, p):
  """Any text: decoded, or refused with the documented error."""
  n = ctx.choose('n', p['lens'])
  t = ctx.str('t', n)
  how, v = lib.outcome(lambda: kz.util.Base64WSDecode(t))
  ctx.reach('judged')
  if how == 'error':
    ctx.check(isinstance(v, kz.errors.Base64DecodingError),
              'only the Base64 error', lambda: repr(v))


def alphabet(ctx, kz, p):
  n = ctx.choose('n', p['lens'])
  t = ctx.str('t', n, DOM)
  how, v = lib.outcome(lambda: kz.util.Base64WSDecode(t))
  ctx.reach('judged')
  if n % 4 == 1:
    ctx.check(how == 'error' and
              isinstance(v, kz.errors.Base64DecodingError), 'bad length')
  else:
    ctx.check(how == 'ok', 'good length')
    ctx.check(ctx.eq(v, lib.unb64(t)), 'decoded')


def instances(tier):
  quick = tier == 'quick'
  out = []
  lens = lib.lengths(300, 49) if quick else lib.lengths(4200, 201)
  for j, ch in enumerate(lib.chunks(lens, 12)):
    out.append({'name': 'trip-%d' % j, 'fn': 'trip',
                'weight': 1 + sum(ch) / 100, 'params': {'lens': ch}})
  if quick:
    for j, ch in enumerate(lib.long_chunks(300, 4)):
      out.append({'name': 'long-%d' % j, 'fn': 'trip', 'weight': 9,
                  'params': {'lens': ch}})
  for n in (1, 2, 3):
    out.append({'name': 'bits-%d' % n, 'fn': 'bits', 'params': {'n': n}})
  for n in (0, 1, 2, 3, 4, 9) if quick else (0, 1, 2, 3, 4, 5, 9, 16):
    for b in (1, 2, 3) if n < 4 else (1, 2):
      out.append({'name': 'blanks-%d-%d' % (n, b), 'fn': 'blanks',
                  'weight': (n + 1) ** b,
                  'params': {'n': n, 'blanks': b}})
  for n in (0, 1, 5):
    out.append({'name': 'old-%d' % n, 'fn': 'old', 'params': {'n': n}})
  for n in range(5 if quick else 7):
    out.append({'name': 'anytext-%d' % n, 'fn': 'anytext', 'weight': n * n,
                'params': {'lens': [n]}})
  out.append({'name': 'alphabet', 'fn': 'alphabet', 'weight': 4,
              'params': {'lens': list(range(13 if quick else 26))}})
  return out
