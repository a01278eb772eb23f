"""Adding a key version."""
import json

from harness import lib

BOUNDS = {
    'quick': 'key sets of 0 to 3 keys (HMAC, AES; RSA and DSA pool keys), '
             'version numbers in any of the listed orders with gaps, every '
             'status assignment with at most one primary, every status and '
             'every size 0..4200 for the new version; up to two identifier '
             'collisions in a row; two additions in a row; additions to sets of 9 and more keys',
    'thorough': 'as quick, three additions in a row, sets of up to 4 keys',
}
OUTSIDE = 'more than two collisions in a row; larger sets'
REACH = {'add': ['number', 'status', 'others'], 'collide': ['unique'],
         'sizes': ['refused']}


def keys_of(ctx, p):
  mk = {'HMAC': lambda i: lib.Hmac(
      ctx, 'k%d' % i,
      fixed=i if len(p['numbers']) > 5 and i != 3 else None),
        'AES': lambda i: lib.Aes(ctx, 'k%d' % i),
        'RSA': lambda i: lib.Rsa(ctx, 1024, i),
        'DSA': lambda i: lib.Dsa(ctx, i)}[p['type']]
  return [mk(i) for i in range(len(p['numbers']))]


TYPE = {'HMAC': 'HMAC_SHA1', 'AES': 'AES', 'RSA': 'RSA_PRIV',
        'DSA': 'DSA_PRIV'}


def make(ctx, kz, p, ks, sts):
  purpose = 'DECRYPT_AND_ENCRYPT' if p['type'] == 'AES' else 'SIGN_AND_VERIFY'
  return kz.keyczar.GenericKeyczar(lib.Source(
      lib.meta(purpose, TYPE[p['type']], sts, p['numbers']),
      {n: k.json() for n, k in zip(p['numbers'], ks)}))


def view(g):
  d = json.loads(str(g.metadata))
  return {v['versionNumber']: v['status'] for v in d['versions']}


def keys_in(g):
  return {v.version_number: str(g.GetKey(v)) for v in g.versions}


def add(ctx, kz, p):
  ks = keys_of(ctx, p)
  lib.distinct_ids(ctx, ks)
  sts = []
  if len(ks) > 5:
    sts = lib.many_statuses(ctx, 's', len(ks), [0, len(ks) - 1])
  elif ks:
    sts = lib.some_statuses(ctx, 's', len(ks))
  g = make(ctx, kz, p, ks, sts)
  want = dict(zip(p['numbers'], sts))
  for i in range(p['adds']):
    before = keys_in(g)
    status = ctx.choose('status%d' % i, ['PRIMARY', 'ACTIVE', 'INACTIVE'])
    size = ctx.choose('size%d' % i, p['sizes'])
    if size is None:
      g.AddVersion(kz.keyinfo.GetStatus(status))
    else:
      g.AddVersion(kz.keyinfo.GetStatus(status), size)
    new = max(list(want) + [0]) + 1
    if status == 'PRIMARY':
      want = {k: 'ACTIVE' if v == 'PRIMARY' else v for k, v in want.items()}
    want[new] = status
    got = view(g)
    ctx.check(sorted(got) == sorted(want), 'number',
              lambda: '%r, expected %r' % (got, want))
    ctx.check(got == want, 'status', lambda: '%r, expected %r' % (got, want))
    prim = [k for k in want if want[k] == 'PRIMARY']
    ctx.check((g.primary_version.version_number
               if g.primary_version is not None else None) ==
              (prim[0] if prim else None), 'one primary')
    after = keys_in(g)
    ctx.check(sorted(after) == sorted(want), 'others')
    for n in before:
      ctx.check(ctx.eq(after[n], before[n]), 'others')
    key = [g.GetKey(v) for v in g.versions if v.version_number == new][0]
    ctx.check(key.size == (size or p['default']), 'size')
    ids = [g.GetKey(v).hash_id for v in g.versions]
    for a in range(len(ids)):
      for b in range(a):
        ctx.check(ctx.no(ctx.eq(ids[a], ids[b])), 'identifiers differ')
    ctx.check(ctx.eq(str(g.GetKey(key.hash_id)), str(key)), 'found by id')


def collide(ctx, kz, p):
  """The new identifier is distinct even if generation collides."""
  ks = keys_of(ctx, p)
  lib.distinct_ids(ctx, ks)
  g = make(ctx, kz, p, ks, ['PRIMARY'] + ['ACTIVE'] * (len(ks) - 1))
  g.AddVersion(kz.keyinfo.ACTIVE)
  keys = [g.GetKey(v) for v in g.versions]
  ctx.check(len(keys) == len(ks) + 1, 'added')
  new = [g.GetKey(v) for v in g.versions
         if v.version_number not in p['numbers']][0]
  if len(ctx.draws) > p['per']:
    ctx.reach('collided')
  ctx.reach('unique')
  for k in ks:
    ctx.check(ctx.no(ctx.eq(new.hash_id, lib.b64(k.id()))), 'unique')
    ctx.check(ctx.eq(str(g.GetKey(lib.b64(k.id()))), str(
        kz.keys.ReadKey(kz.keyinfo.GetType(k.type), k.json()))),
        'old key is found')


def sizes(ctx, kz, p):
  ks = keys_of(ctx, p)
  g = make(ctx, kz, p, ks, ['PRIMARY'] * len(ks))
  before = str(g.metadata)
  size = ctx.int('size', 0, 4200)
  for s in p['valid']:
    ctx.assume(size != s)
  status = ctx.choose('status', ['PRIMARY', 'ACTIVE'])
  how, e = lib.outcome(lambda: g.AddVersion(kz.keyinfo.GetStatus(status),
                                            size))
  ctx.reach('refused')
  ctx.check(how == 'error' and isinstance(e, kz.errors.KeyczarError),
            'invalid size is refused')
  ctx.check(ctx.eq(str(g.metadata), before), 'nothing changed')
  ctx.check(len(g.versions) == len(ks), 'nothing changed')
  if ks:
    ctx.check(g.primary_version.version_number == p['numbers'][0],
              'nothing changed')


def instances(tier):
  quick = tier == 'quick'
  out = []
  for t, sz, default, valid in (
      ('HMAC', [None, 256], 256, [256]),
      ('AES', [None, 128, 192, 256], 128, [128, 192, 256]),
      ('RSA', [None, 1024, 4096], 2048, [2048, 4096, 1024, 768, 512]),
      ('DSA', [None, 1024], 1024, [1024])):
    for nums in ([], [1], [2, 1], [7], [1, 5], [3, 1, 2], [10, 9]):
      if t in ('RSA', 'DSA') and len(nums) > 2:
        continue
      if t == 'AES' and len(nums) > 2 and quick:
        sz = [None]
      out.append({'name': '%s-%s' % (t, '+'.join(map(str, nums))),
                  'fn': 'add', 'weight': 1 + len(nums),
                  'limits': {'draws': {'AES': 2, 'HMAC': 1}.get(t, 9)},
                  'params': {'type': t, 'numbers': nums, 'sizes': sz,
                             'adds': 1, 'default': default}})
    if t == 'HMAC':
      for nums in (list(range(1, 10)), [9, 10, 2, 3, 4, 5, 6, 7, 8, 1, 11],
                   [99] + list(range(20, 28))):
        out.append({'name': '%s-many-%d-%d' % (t, len(nums), nums[0]),
                    'fn': 'add', 'weight': 9, 'limits': {'draws': 1},
                    'params': {'type': t, 'numbers': nums, 'sizes': sz[:1],
                               'adds': 1, 'default': default}})
    for nums in ([], [1], [4, 2]):
      if len(nums) > 1 and (t in ('RSA', 'DSA') or t == 'AES' and quick):
        continue
      n = 2 if quick or t in ('RSA', 'DSA') else 3
      out.append({'name': '%s-twice-%s' % (t, '+'.join(map(str, nums))),
                  'fn': 'add', 'weight': 8,
                  'limits': {'draws': {'AES': 2 * n, 'HMAC': n}.get(t, 99)},
                  'params': {'type': t, 'numbers': nums, 'sizes': sz[:1],
                             'adds': n, 'default': default}})
    if t in ('HMAC', 'AES'):
      for nums in ([1], [1, 2]):
        out.append({'name': '%s-collide-%d' % (t, len(nums)), 'fn': 'collide',
                    'weight': 3, 'reach': ['collided', 'unique'],
                    'limits': {'draws': {'AES': 6, 'HMAC': 3}[t]},
                    'params': {'type': t, 'numbers': nums,
                               'per': {'AES': 2, 'HMAC': 1}[t]}})
    for nums in ([], [3]):
      out.append({'name': '%s-sizes-%d' % (t, len(nums)), 'fn': 'sizes',
                  'params': {'type': t, 'numbers': nums, 'valid': valid}})
  return out
