"""Promote, demote and revoke."""
import json

from harness import lib

BOUNDS = {
    'quick': 'key sets of 1 to 3 HMAC keys (all key bytes), version numbers '
             'any distinct values 1..9, every status assignment with at most '
             'one primary, every sequence of up to 2 operations (3 for sets of '
             'up to 2 keys) of promote/demote/revoke with any argument among '
             'the numbers and one absent number; AES, RSA and DSA sets for '
             'single operations; single operations on sets of 9 and more keys',
    'thorough': 'sequences of up to 3 operations on sets of up to 3 keys, 4 on '
                'sets of 2 keys, single operations on sets of 5 keys',
}
OUTSIDE = 'longer histories, larger key sets, key-id collisions'
REACH = {'ops': ['state'], 'usable': ['checked']}


def state(ctx, g, kz):
  """What the object reports: {number: status} and the primary's number."""
  d = json.loads(str(g.metadata))
  return ({v['versionNumber']: v['status'] for v in d['versions']},
          None if g.primary_version is None
          else g.primary_version.version_number)


def model(op, n, st):
  """(new statuses, None) or (unchanged, 'error')"""
  st = dict(st)
  if n not in st:
    return st, 'error'
  if op == 'Promote':
    if st[n] == 'PRIMARY':
      return st, 'error'
    if st[n] == 'ACTIVE':
      for k in st:
        if st[k] == 'PRIMARY':
          st[k] = 'ACTIVE'
      st[n] = 'PRIMARY'
    else:
      st[n] = 'ACTIVE'
  elif op == 'Demote':
    if st[n] == 'INACTIVE':
      return st, 'error'
    st[n] = 'ACTIVE' if st[n] == 'PRIMARY' else 'INACTIVE'
  else:
    if st[n] != 'INACTIVE':
      return st, 'error'
    del st[n]
  return st, None


def keys_of(ctx, p):
  if p['type'] == 'HMAC':
    return [lib.Hmac(ctx, 'k%d' % i, fixed=i if p['keys'] > 5 and i not in (4, 10)
                     else None)
            for i in range(p['keys'])]
  if p['type'] == 'AES':
    return [lib.Aes(ctx, 'k%d' % i) for i in range(p['keys'])]
  if p['type'] == 'RSA':
    return [lib.Rsa(ctx, 1024, i) for i in range(p['keys'])]
  return [lib.Dsa(ctx, i) for i in range(p['keys'])]


def ops(ctx, kz, p):
  nk = p['keys']
  ks = keys_of(ctx, p)
  lib.distinct_ids(ctx, ks)
  nums = p['numbers'] if 'numbers' in p else list(range(1, nk + 1))
  st = dict(zip(nums, lib.some_statuses(ctx, 's', nk) if nk < 6 else
                lib.many_statuses(ctx, 's', nk, [0, 4, nk - 2, nk - 1])))
  purpose = 'DECRYPT_AND_ENCRYPT' if p['type'] == 'AES' else 'SIGN_AND_VERIFY'
  g = lib.key_set(kz.keyczar.GenericKeyczar, purpose, ks,
                  [st[n] for n in nums], nums)
  of = dict(zip(nums, ks))
  for i in range(p['ops']):
    op = ctx.choose('op%d' % i, ['Promote', 'Demote', 'Revoke'])
    n = ctx.choose('n%d' % i, nums + [max(nums) + 1])
    new, err = model(op, n, st)
    how, e = lib.outcome(lambda: getattr(g, op)(n))
    if err:
      ctx.check(how == 'error' and isinstance(e, kz.errors.KeyczarError),
                'refused', lambda: '%s(%d) on %r: %r' % (op, n, st, e))
    else:
      ctx.check(how == 'ok', 'accepted',
                lambda: '%s(%d) on %r: %r' % (op, n, st, e))
    st = new
    got, prim = state(ctx, g, kz)
    ctx.check(got == st, 'state',
              lambda: '%s(%d): %r, expected %r' % (op, n, got, st))
    want = [k for k in st if st[k] == 'PRIMARY']
    ctx.check(len(want) <= 1 and prim == (want[0] if want else None),
              'one primary')
    ctx.check(sorted(v.version_number for v in g.versions) == sorted(st),
              'versions')
  # the keys themselves stay reachable, revoked ones do not
  for n in nums:
    how, k = lib.outcome(lambda: g.GetKey(lib.b64(of[n].id())))
    if n in st:
      ctx.check(how == 'ok' and ctx.eq(str(k), normal(of[n], kz)),
                'key is kept')
    else:
      ctx.check(how == 'error' and isinstance(k, kz.errors.KeyNotFoundError),
                'revoked key is gone')


def normal(k, kz):
  """The key's own serialisation, through a fresh object."""
  return str(kz.keys.ReadKey(kz.keyinfo.GetType(k.type), k.json()))


def usable(ctx, kz, p):
  """After one operation and a save, users of the set see the new state."""
  nk = p['keys']
  ks = keys_of(ctx, p)
  lib.distinct_ids(ctx, ks)
  nums = p['numbers']
  st = dict(zip(nums, lib.some_statuses(ctx, 's', nk)))
  g = lib.key_set(kz.keyczar.GenericKeyczar, 'SIGN_AND_VERIFY', ks,
                  [st[n] for n in nums], nums)
  of = dict(zip(nums, ks))
  op = ctx.choose('op', ['Promote', 'Demote', 'Revoke'])
  n = ctx.choose('n', nums)
  new, err = model(op, n, st)
  lib.outcome(lambda: getattr(g, op)(n))
  d = ctx.dir('set')
  g.Write(kz.writers.CreateWriter(d))
  msg = ctx.str('msg', 3)
  s = kz.keyczar.Signer.Read(d)
  prim = [k for k in new if new[k] == 'PRIMARY']
  how, sig = lib.outcome(lambda: s.Sign(msg, encoder=None))
  if prim:
    ctx.check(how == 'ok' and ctx.eq(
        sig, of[prim[0]].header() +
        ctx.hmac(of[prim[0]].key, msg + '\x00')), 'primary signs')
  else:
    ctx.check(how == 'error' and
              isinstance(sig, kz.errors.NoPrimaryKeyError), 'nobody signs')
  for k in nums:
    old = of[k].header() + ctx.hmac(of[k].key, msg + '\x00')
    how, r = lib.outcome(lambda: s.Verify(msg, old, decoder=None))
    if k in new:
      ctx.check(how == 'ok' and r, 'old signatures verify')
    else:
      ctx.check(how == 'error' and
                isinstance(r, kz.errors.KeyNotFoundError),
                'signatures of a revoked key are refused')
  ctx.reach('checked')


def instances(tier):
  quick = tier == 'quick'
  out = []
  for nk, nops in ((1, 3), (2, 3), (3, 2)) if quick else (
      (1, 4), (2, 4), (3, 3), (4, 2), (5, 1)):
    out.append({'name': 'hmac-%d-%d' % (nk, nops), 'fn': 'ops',
                'weight': nk ** nops,
                'params': {'type': 'HMAC', 'keys': nk, 'ops': nops}})
  for i, nums in enumerate(([3, 1], [2, 10], [9, 4, 7], [1, 11, 2])):
    out.append({'name': 'numbers-%d' % i, 'fn': 'ops', 'weight': 3,
                'params': {'type': 'HMAC', 'keys': len(nums), 'ops': 1,
                           'numbers': nums}})
  out.append({'name': 'many', 'fn': 'ops', 'weight': 20,
              'params': {'type': 'HMAC', 'keys': 12,
                         'ops': 1 if quick else 2}})
  for t in ('AES', 'RSA', 'DSA'):
    out.append({'name': t, 'fn': 'ops', 'weight': 3,
                'params': {'type': t, 'keys': 2, 'ops': 1 if quick else 2}})
  for nums in [[1], [1, 2], [12, 3]] + ([] if quick else [[1, 2, 3]]):
    out.append({'name': 'usable-%s' % '+'.join(map(str, nums)),
                'fn': 'usable', 'weight': 3,
                'params': {'type': 'HMAC', 'keys': len(nums),
                           'numbers': nums}})
  return out
