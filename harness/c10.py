"""Key set metadata survives its JSON form."""
import json

from harness import lib

BOUNDS = {
    'quick': 'names of length 0..2 with all characters 0..255 and of length '
             '3..8 with one arbitrary character among printable ones, every '
             'purpose, type, encrypted flag, 0 to 3 versions with numbers from '
             'a list, every status and exportable flag; unknown names of '
             'purposes, types, statuses and cipher modes: every string of '
             'each length 0..20; more than 9 versions',
    'thorough': 'as quick, names up to length 24, 4 versions',
}
OUTSIDE = 'characters above 255, longer names'
REACH = {'trip': ['fields', 'json'], 'foreign': ['fields'],
         'unknown': ['judged'], 'numbers': ['checked']}

TYPES = ('AES', 'HMAC_SHA1', 'DSA_PRIV', 'DSA_PUB', 'RSA_PRIV', 'RSA_PUB')
PURPOSES = ('DECRYPT_AND_ENCRYPT', 'ENCRYPT', 'SIGN_AND_VERIFY', 'VERIFY')
PLAIN = sum(1 << c for c in range(32, 127) if c not in (34, 92))
STATUSES = ('PRIMARY', 'ACTIVE', 'INACTIVE')


def spec(ctx, p):
  n = ctx.choose('len', p['lens'])
  if n <= 2:
    name = ctx.str('name', n)
  else:
    # one arbitrary character anywhere among plain ones
    i = ctx.choose('at', range(n))
    name = ctx.str('a', i, PLAIN) + ctx.str('b', 1) + \
        ctx.str('c', n - 1 - i, PLAIN)
  vs = []
  if len(p['numbers']) > 4:
    a = ctx.choose('shift', range(6))
    nums = p['numbers'][:ctx.choose('count', range(4, len(p['numbers']) + 1))]
    vs = [(n, p['statuses'][(i + a) % 3], (i + a) % 2 == 0)
          for i, n in enumerate(nums)]
  else:
    for i, n in enumerate(p['numbers']):
      vs.append((n, ctx.choose('status%d' % i, p['statuses']),
                 ctx.choose('exp%d' % i, [False, True])))
  return (name, ctx.choose('purpose', p['purposes']),
          ctx.choose('type', p['types']),
          ctx.choose('encrypted', [False, True]), vs)


def same(ctx, kz, m, s):
  name, purpose, ktype, enc, vs = s
  ctx.check(ctx.eq(m.name, name), 'fields', 'name')
  ctx.check(m.purpose is kz.keyinfo.GetPurpose(purpose) and
            str(m.purpose) == purpose, 'fields', 'purpose')
  ctx.check(m.type is kz.keyinfo.GetType(ktype) and str(m.type) == ktype,
            'fields', 'type')
  ctx.check(m.encrypted == enc, 'fields', 'encrypted')
  got = [(v.version_number, str(v.status), v.exportable) for v in m.versions]
  ctx.check(sorted(got) == sorted(vs), 'fields', 'versions')
  for n, st, ex in vs:
    v = m.GetVersion(n)
    ctx.check((v.version_number, str(v.status), v.exportable) == (n, st, ex),
              'fields', 'version')


def trip(ctx, kz, p):
  s = spec(ctx, p)
  name, purpose, ktype, enc, vs = s
  m = kz.keydata.KeyMetadata(name, kz.keyinfo.GetPurpose(purpose),
                             kz.keyinfo.GetType(ktype), enc)
  for n, st, ex in vs:
    ctx.check(m.AddVersion(kz.keydata.KeyVersion(
        n, kz.keyinfo.GetStatus(st), ex)), 'added')
  text = str(m)
  d = json.loads(text)
  d['versions'] = sorted(d['versions'], key=lambda v: v['versionNumber'])
  want = {'name': name, 'purpose': purpose, 'type': ktype, 'encrypted': enc,
          'versions': [{'versionNumber': n, 'status': st, 'exportable': ex}
                       for n, st, ex in sorted(vs)]}
  ctx.check(ctx.eq(d, want), 'json')
  same(ctx, kz, kz.keydata.KeyMetadata.Read(text), s)
  again = str(kz.keydata.KeyMetadata.Read(text))
  same(ctx, kz, kz.keydata.KeyMetadata.Read(again), s)


def foreign(ctx, kz, p):
  """Metadata written by another implementation."""
  s = spec(ctx, p)
  name, purpose, ktype, enc, vs = s
  text = ('{ "versions" : [ %s ],\n  "extra" : 1, "encrypted":%s,"type":"%s" '
          ', "purpose":"%s" ,' % (
              ' , '.join(['{"exportable":%s,"status":"%s" ,\n"versionNumber":'
                          '%d}' % (str(ex).lower(), st, n)
                          for n, st, ex in vs]),
              str(enc).lower(), ktype, purpose) +
          '"name":' + json.dumps(name) + '}')
  same(ctx, kz, kz.keydata.KeyMetadata.Read(text), s)


def unknown(ctx, kz, p):
  x = ctx.str('x', ctx.choose('n', p['lens']))
  for fn, names in ((kz.keyinfo.GetType, TYPES),
                    (kz.keyinfo.GetPurpose, PURPOSES),
                    (kz.keyinfo.GetStatus, STATUSES),
                    (kz.keyinfo.GetMode, ('CBC', 'CTR', 'ECB', 'DET_CBC'))):
    how, e = lib.outcome(lambda: fn(x))
    ctx.reach('judged')
    if how == 'ok':
      ctx.check(ctx.any([ctx.eq(x, n) for n in names]),
                'unknown names are refused')
      ctx.check(ctx.eq(str(e), x), 'names are their own')
    else:
      ctx.check(isinstance(e, kz.errors.KeyczarError), 'error type')
      ctx.check(ctx.no(ctx.any([ctx.eq(x, n) for n in names])),
                'known names are accepted')


def numbers(ctx, kz, p):
  """Version numbers are unique, unknown ones are refused."""
  m = kz.keydata.KeyMetadata('n', kz.keyinfo.VERIFY, kz.keyinfo.HMAC_SHA1)
  have = {}
  for i in range(p['n']):
    num = ctx.choose('num%d' % i, [1, 2, 3])
    st = ctx.choose('st%d' % i, ['ACTIVE', 'INACTIVE'])
    ok = m.AddVersion(kz.keydata.KeyVersion(num, kz.keyinfo.GetStatus(st),
                                            False))
    ctx.check(bool(ok) == (num not in have), 'added once')
    have.setdefault(num, st)
    ctx.check({v.version_number: str(v.status) for v in m.versions} == have,
              'first one is kept')
  q = ctx.choose('query', [1, 2, 3, 4])
  how, e = lib.outcome(lambda: m.GetVersion(q))
  if q in have:
    ctx.check(how == 'ok' and str(e.status) == have[q], 'looked up')
  else:
    ctx.check(how == 'error' and isinstance(e, kz.errors.KeyczarError),
              'refused')
  how, e = lib.outcome(lambda: m.RemoveVersion(q))
  if q in have:
    del have[q]
    ctx.check(how == 'ok', 'removed')
  else:
    ctx.check(how == 'error' and isinstance(e, kz.errors.KeyczarError),
              'refused')
  ctx.check({v.version_number: str(v.status) for v in m.versions} == have,
            'removed')
  ctx.reach('checked')


def instances(tier):
  quick = tier == 'quick'
  out = []
  top = 9 if quick else 25
  for fn in ('trip', 'foreign'):
    for j, ch in enumerate(lib.chunks(range(top), 3)):
      out.append({'name': '%s-names-%d' % (fn, j), 'fn': fn, 'weight': 3,
                  'params': {'lens': ch, 'numbers': [1],
                             'statuses': ['PRIMARY'], 'types': ['AES'],
                             'purposes': ['VERIFY']}})
    out.append({'name': '%s-kinds' % fn, 'fn': fn, 'params': {
        'lens': [1], 'numbers': [], 'statuses': [], 'types': list(TYPES),
        'purposes': list(PURPOSES)}})
    for nums in ([2], [1, 2], [10, 9], [3, 1, 2], list(range(1, 18)),
                 [300, 2, 100, 10, 99, 1, 11]) + (
        () if quick else ([4, 7, 1, 2],)):
      out.append({'name': '%s-%s' % (fn, '+'.join(map(str, nums[:4]))) +
                  ('-many' if len(nums) > 4 else ''), 'fn': fn,
                  'weight': len(nums), 'params': {
                      'lens': [0], 'numbers': nums,
                      'statuses': list(STATUSES), 'types': ['HMAC_SHA1'],
                      'purposes': ['SIGN_AND_VERIFY']}})
  for j, ch in enumerate(lib.chunks(range(21), 7)):
    out.append({'name': 'unknown-%d' % j, 'fn': 'unknown',
                'params': {'lens': ch}})
  out.append({'name': 'numbers', 'fn': 'numbers',
              'params': {'n': 3 if quick else 4}})
  return out
