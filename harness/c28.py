"""PKCS#8 and X.509 encodings of keys."""
from harness import lib

BOUNDS = {
    'quick': 'RSA and DSA parameters of 1..129 bytes (lengths on both sides '
             'of the DER length forms), all values of the free ones, leading '
             'zero bytes and the top bit included; X.509 export: every value '
             'of one free byte at a time, at chosen places of the parameters; '
             'refused encodings: all versions of 1 to 3 bytes, a list of '
             'other algorithms, every number of fields up to two more than '
             'there should be',
    'thorough': 'as quick, every combination of top bits of the parameters, '
                'more lengths, more free bytes, two free bytes at a time in '
                'X.509 export',
}
OUTSIDE = ('negative parameters; encodings that are not DER; bytes behind the '
           'encoding; other algorithm identifiers')
REACH = {'pkcs8_rsa': ['same parameters'], 'pkcs8_dsa': ['same parameters'],
         'x509': ['same parameters'], 'x509_export': ['same parameters'],
         'version': ['judged'], 'algorithm': ['judged'],
         'fields': ['judged']}

RSA = [42, 840, 113549, 1, 1, 1]
DSA = [42, 840, 10040, 4, 1]
RSA_NAMES = ['n', 'e', 'd', 'p', 'q', 'dp', 'dq', 'invq']
DSA_NAMES = ['p', 'q', 'g']


def tlv(tag, body):
  n = len(body)
  if n < 128:
    head = chr(n)
  elif n < 256:
    head = '\x81' + chr(n)
  else:
    head = '\x82' + chr(n // 256) + chr(n % 256)
  return chr(tag) + head + body


def integer(s):
  """DER of the non-negative integer with these bytes."""
  s = lib.trim(s)
  if ord(s[0]) >= 128:
    s = '\x00' + s
  return tlv(2, s)


def seq(*parts):
  return tlv(0x30, ''.join(parts))


def oid(arcs):
  out = []
  for i, x in enumerate(arcs):
    part = [x & 127]
    while x > 127:
      x >>= 7
      part.insert(0, 128 | (x & 127))
    out += part
  return tlv(6, ''.join([chr(b) for b in out]))


def bits(body):
  return tlv(3, '\x00' + body)


NULL = '\x05\x00'


def pkcs8_of(alg, body):
  return seq(integer('\x00'), alg, tlv(4, body))


def rsa_alg():
  return seq(oid(RSA), NULL)


def number(ctx, name, n, kind):
  """n bytes of a parameter."""
  s = ctx.str(name, n)
  if kind == 'any':
    return s
  if kind == 'high':
    ctx.assume(ord(s[0]) >= 128)
  else:
    ctx.assume(ord(s[0]) > 0)
    ctx.assume(ord(s[0]) < 128)
  return s


def numbers(ctx, p, names):
  out = []
  for i, name in enumerate(names):
    kind = 'any' if i in p['any'] else \
        ('high' if p['high'] >> i & 1 else 'low')
    out.append(number(ctx, name, p['lens'][i], kind))
  return out


def same(ctx, got, names, vals, label):
  ctx.check(sorted(got.keys()) == sorted(names), label + ' names')
  ctx.check(ctx.all([got[n] == ctx.num(v) for n, v in zip(names, vals)]),
            label)


def pkcs8_rsa(ctx, kz, p):
  vals = numbers(ctx, p, RSA_NAMES)
  params = dict((n, ctx.num(v)) for n, v in zip(RSA_NAMES, vals))
  der = pkcs8_of(rsa_alg(), seq(*[integer(v) for v in ['\x00'] + vals]))
  ctx.check(ctx.eq(kz.util.ExportRsaPkcs8(params), lib.b64(der)),
            'standard encoding')
  same(ctx, kz.util.ParsePkcs8(lib.b64(der)), RSA_NAMES, vals,
       'same parameters')


def dsa_alg(vals):
  return seq(oid(DSA), seq(*[integer(v) for v in vals]))


def pkcs8_dsa(ctx, kz, p):
  names = DSA_NAMES + ['x']
  vals = numbers(ctx, p, names)
  params = dict((n, ctx.num(v)) for n, v in zip(names, vals))
  der = pkcs8_of(dsa_alg(vals[:3]), integer(vals[3]))
  ctx.check(ctx.eq(kz.util.ExportDsaPkcs8(params), lib.b64(der)),
            'standard encoding')
  same(ctx, kz.util.ParsePkcs8(lib.b64(der)), names, vals, 'same parameters')


def x509_of(kind, vals):
  if kind == 'rsa':
    return seq(rsa_alg(), bits(seq(*[integer(v) for v in vals])))
  return seq(dsa_alg(vals[:3]), bits(integer(vals[3])))


def x509(ctx, kz, p):
  names = ['n', 'e'] if p['kind'] == 'rsa' else DSA_NAMES + ['y']
  vals = numbers(ctx, p, names)
  same(ctx, kz.util.ParseX509(lib.b64(x509_of(p['kind'], vals))), names, vals,
       'same parameters')


def x509_export(ctx, kz, p):
  names = ['n', 'e'] if p['kind'] == 'rsa' else DSA_NAMES + ['y']
  vals = []
  for i, name in enumerate(names):
    n = p['lens'][i]
    v = ''.join([chr((37 * j + 91 * i + p['salt']) % 255 + 1)
                 for j in range(n)])
    for j, (which, at) in enumerate(p['free']):
      if which == i:
        v = v[:at] + ctx.str('b%d' % j, 1) + v[at + 1:]
    vals.append(v)
  params = dict((n, ctx.num(v)) for n, v in zip(names, vals))
  out = (kz.util.ExportRsaX509 if p['kind'] == 'rsa' else
         kz.util.ExportDsaX509)(params)
  ctx.check(ctx.eq(out, lib.b64(x509_of(p['kind'], vals))),
            'standard encoding')
  same(ctx, kz.util.ParseX509(out), names, vals, 'same parameters')


def refused(ctx, fn, der):
  how, r = lib.outcome(lambda: fn(lib.b64(der)))
  ctx.reach('judged')
  ctx.check(how == 'error', 'refused')


SMALL = ['\x05', '\x07\x11', '\x09', '\x0b', '\x0d', '\x11', '\x13', '\x17']


def version(ctx, kz, p):
  v = ctx.str('v', p['n'])
  ctx.assume(ctx.any([ord(c) != 0 for c in v]))
  bad, good = tlv(2, v), integer('\x00')
  ints = [integer(s) for s in SMALL]
  if p['where'] == 'rsa':
    der = pkcs8_of(rsa_alg(), seq(bad, *ints))
  elif p['where'] == 'outer-rsa':
    der = seq(bad, rsa_alg(), tlv(4, seq(good, *ints)))
  else:
    der = seq(bad, dsa_alg(SMALL[:3]), tlv(4, ints[3]))
  refused(ctx, kz.util.ParsePkcs8, der)


OTHERS = [RSA[:-1], RSA + [1], RSA[:-1] + [5], DSA[:-1], DSA + [1],
          DSA[:-1] + [3], [42, 840, 10045, 2, 1], [43, 14, 3, 2, 26],
          RSA[:-1] + [10], [43, 14, 3, 2, 12], [42, 840, 10046, 2, 1],
          [85, 8, 1, 1], RSA[:1] + [841] + RSA[2:]]


def algorithm(ctx, kz, p):
  other = oid(OTHERS[ctx.choose('o', list(range(len(OTHERS))))])
  free = ctx.str('free', 3)
  vals = [integer(s) for s in SMALL]
  three = seq(*[integer(s) for s in [free] + SMALL[:2]])
  if p['shape'] == 'rsa8':
    der = pkcs8_of(seq(other, NULL), seq(integer('\x00'), integer(free),
                                         *vals[1:]))
  elif p['shape'] == 'dsa8':
    der = pkcs8_of(seq(other, three), vals[3])
  elif p['shape'] == 'rsa5':
    der = seq(seq(other, NULL), bits(seq(integer(free), vals[0])))
  else:
    der = seq(seq(other, three), bits(vals[3]))
  refused(ctx, kz.util.ParsePkcs8 if p['shape'][-1] == '8' else
          kz.util.ParseX509, der)


def resize(parts, n, more):
  """The first n parts, or all of them and as many more."""
  return parts[:n] + [more] * (n - len(parts))


def fields(ctx, kz, p):
  """One of the sequences has too few or too many fields."""
  free = ctx.str('free', 2)
  more = {'int': integer(free), 'octets': tlv(4, free), 'null': NULL}[
      ctx.choose('more', ['int', 'octets', 'null'])]
  right = {'outer': 3 if p['shape'][-1] == '8' else 2, 'alg': 2,
           'params': 3, 'key': 9 if p['shape'] == 'rsa8' else 2}[p['which']]
  n = ctx.choose('n', [i for i in range(1, right + 3) if i != right])
  size = {'outer': None, 'alg': None, 'params': None, 'key': None}
  size[p['which']] = n

  def cut(which, parts):
    parts = list(parts)
    return seq(*(resize(parts, size[which], more)
                 if size[which] is not None else parts))
  ints = [integer(s) for s in SMALL]
  if p['shape'].startswith('rsa'):
    alg = cut('alg', [oid(RSA), NULL])
  else:
    alg = cut('alg', [oid(DSA), cut('params', ints[:3])])
  key = {'rsa8': lambda: cut('key', [integer('\x00')] + ints),
         'rsa5': lambda: cut('key', ints[:2]),
         'dsa8': lambda: ints[3], 'dsa5': lambda: ints[3]}[p['shape']]()
  if p['shape'][-1] == '8':
    der = cut('outer', [integer('\x00'), alg, tlv(4, key)])
    refused(ctx, kz.util.ParsePkcs8, der)
  else:
    refused(ctx, kz.util.ParseX509, cut('outer', [alg, bits(key)]))


def instances(tier):
  quick = tier == 'quick'
  out = []
  j = 0
  rsa_lens = [[128, 3, 128, 64, 64, 64, 64, 64], [1, 1, 2, 1, 1, 1, 1, 1],
              [129, 3, 127, 65, 64, 63, 1, 66]]
  if not quick:
    rsa_lens += [[256, 3, 256, 128, 128, 128, 128, 128],
                 [15, 16, 17, 18, 19, 20, 21, 22],
                 [13, 14, 15, 12, 14, 14, 13, 14]]
  for k, lens in enumerate(rsa_lens):
    for a in range(8):
      for high in (0, 255, 0x55, 0xaa) if not quick else \
          ((a * 37 + k * 91) % 256,):
        lead = {'lead': 2}
        out.append({'name': 'pkcs8-rsa-%d-%d-%d' % (k, a, high),
                    'fn': 'pkcs8_rsa', 'weight': 3, 'limits': lead,
                    'params': {'lens': lens, 'any': [a], 'high': high}})
  dsa_lens = [[128, 20, 128, 20], [1, 1, 1, 1], [127, 21, 129, 19],
              [64, 20, 63, 20]]
  for k, lens in enumerate(dsa_lens):
    for a in range(4):
      for high in range(16) if not quick else ((a * 5 + k * 3) % 16,):
        out.append({'name': 'pkcs8-dsa-%d-%d-%d' % (k, a, high),
                    'fn': 'pkcs8_dsa', 'weight': 2, 'limits': {'lead': 2},
                    'params': {'lens': lens, 'any': [a], 'high': high}})
        out.append({'name': 'x509-dsa-%d-%d-%d' % (k, a, high),
                    'fn': 'x509', 'limits': {'lead': 2},
                    'params': {'lens': lens, 'any': [a], 'high': high,
                               'kind': 'dsa'}})
  for k, lens in enumerate([[128, 3], [1, 1], [129, 1], [64, 5], [256, 3]]):
    for high in range(4):
      out.append({'name': 'x509-rsa-%d-%d' % (k, high), 'fn': 'x509',
                  'limits': {'lead': 2},
                  'params': {'lens': lens, 'any': [high & 1], 'high': high,
                             'kind': 'rsa'}})
  places = [('rsa', [5, 3], [(0, 0)]), ('rsa', [5, 3], [(0, 4)]),
            ('rsa', [5, 3], [(1, 0)]), ('rsa', [128, 3], [(0, 60)]),
            ('dsa', [6, 3, 5, 4], [(3, 0)]), ('dsa', [6, 3, 5, 4], [(3, 3)]),
            ('dsa', [6, 3, 5, 4], [(0, 0)]), ('dsa', [6, 3, 5, 1], [(3, 0)]),
            ('dsa', [128, 20, 128, 128], [(3, 0)])]
  if not quick:
    places += [('rsa', [128, 3], [(0, 0)]), ('rsa', [256, 3], [(0, 0)]),
               ('rsa', [64, 1], [(1, 0)]), ('rsa', [4, 2], [(0, 0), (0, 1)]),
               ('dsa', [4, 2, 2, 3], [(3, 0), (3, 1)]),
               ('dsa', [128, 20, 128, 127], [(3, 0)]),
               ('dsa', [128, 20, 128, 128], [(3, 127)])]
  for k, (kind, lens, free) in enumerate(places):
    out.append({'name': 'export-%d' % k, 'fn': 'x509_export', 'weight': 6,
                'limits': {'values': 70000},
                'params': {'kind': kind, 'lens': lens, 'free': free,
                           'salt': 11 * k}})
  for where in ('rsa', 'outer-rsa', 'outer-dsa'):
    for n in (1, 2, 3):
      out.append({'name': 'version-%s-%d' % (where, n), 'fn': 'version',
                  'params': {'where': where, 'n': n}})
  for shape in ('rsa8', 'dsa8', 'rsa5', 'dsa5'):
    out.append({'name': 'algorithm-' + shape, 'fn': 'algorithm',
                'params': {'shape': shape}})
    for which in ('outer', 'alg') + (('params',) if shape[0] == 'd' else
                                     ('key',)):
      out.append({'name': 'fields-%s-%s' % (shape, which), 'fn': 'fields',
                  'params': {'shape': shape, 'which': which}})
  return out
