"""The key tool."""
import itertools
import json

from harness import lib
from harness import c08
from harness import c10
from harness import c11

BOUNDS = {
    'quick': 'create: every purpose and algorithm, names of length 0..3 with '
             'all characters, all orders of the flags, on empty and used '
             'locations; histories of one or two commands on sets of 0 to 2 '
             'AES or HMAC keys (all key bytes) with any statuses and version '
             'numbers from lists, plain and sealed, every status, sizes and '
             'version arguments from lists, two orders of the flags; RSA and '
             'DSA pool keys; refused commands: unknown commands and flags of '
             'every value of the listed lengths, missing flags',
    'thorough': 'as quick, histories of up to three commands, sets of up to 3 '
                'keys, names up to length 8',
}
OUTSIDE = ('malformed flags (no equals sign, a size that is no number), which '
           'the tool reports and leaves out; flags given twice; the '
           'undocumented genkey command; crashes between the writes')
ASSUMES = ['HMAC-SHA1 is unforgeable']
REACH = {'create': ['created'], 'history': ['state'], 'pubkey': ['exported'],
         'refused': ['judged'], 'begin': ['state']}

TYPES = {('crypt', None): 'AES', ('crypt', 'rsa'): 'RSA_PRIV',
         ('sign', None): 'HMAC_SHA1', ('sign', 'rsa'): 'RSA_PRIV',
         ('sign', 'dsa'): 'DSA_PRIV'}
PURPOSE = {'crypt': 'DECRYPT_AND_ENCRYPT', 'sign': 'SIGN_AND_VERIFY'}
SIZE = {'AES': 128, 'HMAC_SHA1': 256, 'RSA_PRIV': 2048, 'DSA_PRIV': 1024}


def run(kz, argv):
  return lib.outcome(lambda: kz.keyczart.main(argv))


def ordered(ctx, name, flags, orders):
  ps = list(itertools.permutations(flags))
  if orders and len(ps) > orders:
    ps = [ps[0], ps[-1]]
  return list(ps[ctx.choose(name, list(range(len(ps))))])


def meta_of(ctx, d):
  m = json.loads(ctx.read(d + '/meta'))
  m['versions'] = sorted(m['versions'], key=lambda v: v['versionNumber'])
  return m


def contents(ctx, d):
  return dict((f, ctx.read(d + '/' + f)) for f in ctx.files(d))


def unchanged(ctx, d, before, label):
  now = contents(ctx, d)
  ctx.check(sorted(now) == sorted(before), label,
            lambda: '%s, was %s' % (sorted(now), sorted(before)))
  ctx.check(ctx.all([ctx.eq(now[f], before[f]) for f in before if f in now]),
            label)


def create(ctx, kz, p):
  d = ctx.dir('set')
  purpose, alg = p['what']
  flags = ['--location=' + d, '--purpose=' + purpose]
  name = 'Test'
  if p['name'] is not None:
    name = ctx.str('name', p['name'])
    flags.append('--name=' + name)
  if alg:
    flags.append('--asymmetric=' + alg)
  argv = ['create'] + ordered(ctx, 'order', flags, 0 if p['orders'] else 2)
  how, e = run(kz, argv)
  ctx.check(how == 'ok', 'created', lambda: repr(e))
  ctx.check(ctx.files(d) == ['meta'], 'only metadata')
  ctx.check(ctx.eq(meta_of(ctx, d), {
      'name': name, 'purpose': PURPOSE[purpose], 'type': TYPES[purpose, alg],
      'encrypted': False, 'versions': []}), 'metadata')
  # a second time
  before = contents(ctx, d)
  other = ctx.choose('again', ['crypt', 'sign'])
  how, e = run(kz, ['create', '--purpose=' + other, '--location=' + d])
  ctx.check(how == 'error', 'no overwriting')
  unchanged(ctx, d, before, 'no overwriting')


def lay(ctx, kz, p, d, sealed=None):
  """A key set written by hand, with its expected state."""
  ks = c11.keys_of(ctx, p)
  lib.distinct_ids(ctx, ks)
  sts = lib.some_statuses(ctx, 's', len(ks)) if ks else []
  name = ctx.str('name', 2, c10.PLAIN)
  ex = [ctx.choose('exp%d' % i, [False, True]) for i in range(len(ks))] \
      if p.get('exportable') else [False] * len(ks)
  m = {'name': name, 'purpose': c11.purpose_of(p), 'type': c11.TYPE[p['type']],
       'encrypted': bool(sealed) and bool(ks), 'versions': [
           {'versionNumber': n, 'status': s, 'exportable': x}
           for n, s, x in zip(p['numbers'], sts, ex)]}
  ctx.write(d + '/meta', json.dumps(m))
  for n, k in zip(p['numbers'], ks):
    text = k.json()
    if sealed:
      text = sealed.Encrypt(text)
    ctx.write('%s/%d' % (d, n), text)
  keys = dict((n, c11.canon(ctx, k.json())) for n, k in zip(p['numbers'], ks))
  return {'meta': m, 'keys': keys,
          'st': dict(zip(p['numbers'], sts)),
          'ex': dict(zip(p['numbers'], ex))}


def agree(ctx, kz, d, w, crypter, new=()):
  """The directory holds exactly the state w."""
  nums = sorted(w['st'])
  ctx.check(ctx.files(d) == sorted(['meta'] + [str(n) for n in nums]),
            'files', lambda: '%s, expected %s' % (ctx.files(d), nums))
  m = meta_of(ctx, d)
  want = dict(w['meta'], versions=[
      {'versionNumber': n, 'status': w['st'][n], 'exportable': w['ex'][n]}
      for n in nums])
  ctx.check(ctx.eq(m, want), 'state', lambda: '%r, expected %r' % (m, want))
  for n in nums:
    text = ctx.read('%s/%d' % (d, n))
    if want['encrypted']:
      text = crypter.Decrypt(text)
    got = c11.canon(ctx, text)
    if n in w['keys']:
      ctx.check(ctx.eq(got, w['keys'][n]), 'keys are kept')
    else:
      ctx.check(got['size'] == w['new'][n], 'size of the new key')
      w['keys'][n] = got
  if m['encrypted']:
    src = kz.readers.EncryptedReader(kz.readers.CreateReader(d), crypter)
  else:
    src = kz.readers.CreateReader(d)
  g = kz.keyczar.GenericKeyczar(src)
  ctx.check(sorted(v.version_number for v in g.versions) == nums, 'readable')


def apply(w, op, arg, size, crypted):
  """The state after the command, or None if it has to be refused."""
  w = {'meta': dict(w['meta']), 'keys': dict(w['keys']), 'st': dict(w['st']),
       'ex': dict(w['ex']), 'new': dict(w.get('new', {}))}
  st = w['st']
  if op == 'addkey':
    n = max(list(st) + [0]) + 1
    if arg == 'PRIMARY':
      for k in st:
        if st[k] == 'PRIMARY':
          st[k] = 'ACTIVE'
    st[n] = arg
    w['ex'][n] = False
    w['new'][n] = size
    w['meta']['encrypted'] = crypted
    return w
  st, err = c08.model(op.capitalize(), arg, st)
  if err:
    return None
  w['st'] = st
  for k in list(w['keys']):
    if k not in st:
      del w['keys'][k]
  return w


def step(ctx, kz, p, i, d, w, cloc, crypter, bystander):
  op = ctx.choose('op%d' % i, p['ops'][i])
  flags = ['--location=' + d]
  sealed = w['meta']['encrypted']
  if op == 'addkey':
    status = ctx.choose('status%d' % i, [None, 'active', 'primary'])
    if status:
      flags.append('--status=' + status)
    size = ctx.choose('size%d' % i, p['sizes'])
    if size:
      flags.append('--size=%d' % size)
    use = p['sealed']
    if use:
      flags.append('--crypter=' + cloc)
    arg = (status or 'active').upper()
    nxt = apply(w, op, arg, size or p['default'], use)
  else:
    arg = ctx.choose('version%d' % i, p['args'])
    flags.append('--version=%d' % arg)
    nxt = apply(w, op, arg, None, None)
  before = contents(ctx, d)
  if len(p['ops']) == 1:
    flags = ordered(ctx, 'order%d' % i, flags, 2)
  elif i:
    flags.reverse()
  how, e = run(kz, [op] + flags)
  if nxt is None:
    ctx.check(how == 'error', 'refused', lambda: '%s %s' % (op, arg))
  elif not (sealed and op != 'addkey'):
    # (the tool takes no crypter for the other commands)
    ctx.check(how == 'ok', 'done', lambda: '%s %s: %r' % (op, arg, e))
  if how == 'error':
    unchanged(ctx, d, before, 'refused and unchanged')
    return w
  agree(ctx, kz, d, nxt, crypter)
  return nxt


def sealer(ctx, kz):
  c = lib.Aes(ctx, 'c')
  cloc = ctx.dir('crypter')
  ctx.write(cloc + '/meta', lib.meta('DECRYPT_AND_ENCRYPT', 'AES',
                                     ['PRIMARY']))
  ctx.write(cloc + '/1', c.json())
  return cloc, lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [c],
                           ['PRIMARY'])


def history(ctx, kz, p):
  """Commands applied to a set written by hand."""
  d = ctx.dir('set')
  cloc, crypter = sealer(ctx, kz) if p['sealed'] else (None, None)
  w = lay(ctx, kz, p, d, crypter)
  kept = contents(ctx, cloc) if cloc else {}
  for i in range(len(p['ops'])):
    w = step(ctx, kz, p, i, d, w, cloc, crypter, None)
    ctx.reach('state')
  if cloc:
    unchanged(ctx, cloc, kept, 'crypter set untouched')


def begin(ctx, kz, p):
  """Create, then the first commands."""
  d = ctx.dir('set')
  cloc, crypter = sealer(ctx, kz) if p['sealed'] else (None, None)
  purpose, alg = p['what']
  kz.keyczart.main(['create', '--location=' + d, '--purpose=' + purpose] +
                   (['--asymmetric=' + alg] if alg else []))
  ktype = TYPES[purpose, alg]
  w = {'meta': {'name': 'Test', 'purpose': PURPOSE[purpose], 'type': ktype,
                'encrypted': False, 'versions': []},
       'keys': {}, 'st': {}, 'ex': {}}
  p = dict(p, default=SIZE[ktype])
  for i in range(len(p['ops'])):
    w = step(ctx, kz, p, i, d, w, cloc, crypter, None)
    ctx.reach('state')


def pubkey(ctx, kz, p):
  d = ctx.dir('set')
  w = lay(ctx, kz, p, d)
  if p.get('purpose'):
    w['meta']['purpose'] = p['purpose']
    ctx.write(d + '/meta', json.dumps(w['meta']))
  before = contents(ctx, d)
  e = ctx.dir('public')
  how, err = run(kz, ['pubkey'] + ordered(ctx, 'order', [
      '--location=' + d, '--destination=' + e], 0))
  unchanged(ctx, d, before, 'source untouched')
  if p['type'] in ('AES', 'HMAC'):
    ctx.reach('exported')
    ctx.check(how == 'error', 'refused')
    ctx.check(ctx.files(e) == [], 'refused')
    return
  ctx.check(how == 'ok', 'exported', lambda: repr(err))
  ctx.check(ctx.files(e) == sorted(before), 'files')
  m = meta_of(ctx, e)
  want = dict(w['meta'],
              purpose='VERIFY' if w['meta']['purpose'] == 'SIGN_AND_VERIFY'
              else 'ENCRYPT', type=p['type'] + '_PUB',
              versions=sorted(w['meta']['versions'],
                              key=lambda v: v['versionNumber']))
  ctx.check(ctx.eq(m, want), 'metadata', lambda: '%r, expected %r' % (m, want))
  pubs = c11.keys_of(ctx, dict(p, type=p['type'] + 'PUB'))
  for n, k in zip(p['numbers'], pubs):
    ctx.check(ctx.eq(c11.canon(ctx, ctx.read('%s/%d' % (e, n))),
                     c11.canon(ctx, k.json())), 'public keys')


COMMANDS = ('create', 'addkey', 'pubkey', 'promote', 'demote', 'revoke',
            'genkey')
FLAGS = ('location', 'name', 'size', 'status', 'purpose', 'destination',
         'version', 'asymmetric', 'crypter')


def refused(ctx, kz, p):
  """Commands that say nothing sensible."""
  d = ctx.dir('set')
  lay(ctx, kz, {'type': 'HMAC', 'numbers': [1, 2]}, d)
  empty = ctx.dir('empty')
  before = contents(ctx, d)
  cmd = p['cmd']
  if cmd is None:
    cmd = ctx.str('cmd', p['n'])
    for c in COMMANDS:
      if len(c) == p['n']:
        ctx.assume(ctx.no(ctx.eq(cmd, c)))
    argv = [cmd, '--location=' + d]
  else:
    argv = [cmd] + ['--location=' + {'set': d, 'empty': empty}.get(
        a[1], a[1]) if a[0] == 'location' else '--%s=%s' % tuple(a)
                    for a in p['flags']]
  if 'unknown' in p:
    f = ctx.str('flag', p['unknown'])
    ctx.assume(ctx.no(ctx.any([c == '=' for c in f])))
    for c in FLAGS:
      if len(c) == p['unknown']:
        ctx.assume(ctx.no(ctx.eq(f, c)))
    argv.insert(1 + ctx.choose('at', range(len(argv))), '--' + f + '=1')
  how, e = run(kz, argv)
  ctx.reach('judged')
  ctx.check(how == 'error', 'refused', lambda: repr(argv))
  unchanged(ctx, d, before, 'unchanged')
  unchanged(ctx, empty, {}, 'unchanged')


def draws(t, adds, sealed, keys):
  """Random draws of a history in which no identifiers collide."""
  if t in ('rsa', 'dsa'):
    return 9
  n = (2 if t in ('AES', 'crypt') else 1) * adds
  if sealed:  # an IV for each key that is written
    n += keys + sum(keys + i + 1 for i in range(adds))
  return n


def instances(tier):
  quick = tier == 'quick'
  out = []
  for k, what in enumerate(sorted(TYPES, key=str)):
    for n in (None, 0, 1, 2, 3) if quick else (None, 0, 1, 2, 3, 4, 8):
      if quick and k and n == 2:
        continue
      out.append({'name': 'create-%s-%s-%s' % (what[0], what[1], n),
                  'fn': 'create', 'weight': 2 + (n or 0),
                  'params': {'what': what, 'name': n,
                             'orders': n is None or n == 1 and not k}})
  sizes = {'AES': [None, 192, 256], 'HMAC': [None, 256]}
  default = {'AES': 128, 'HMAC': 256, 'RSA': 2048, 'DSA': 1024}
  change = ['promote', 'demote', 'revoke']
  for t in ('AES', 'HMAC'):
    for nums in ([], [1], [2, 1], [3, 7]) if quick else (
        [], [1], [2, 1], [3, 7], [1, 2, 3]):
      args = sorted(set(nums + [1, 0, 4]))
      base = {'type': t, 'numbers': nums, 'args': args, 'sizes': sizes[t],
              'default': default[t], 'sealed': False}
      if nums:
        out.append({'name': 'change-%s-%s' % (t, '+'.join(map(str, nums))),
                    'fn': 'history', 'weight': 3,
                    'params': dict(base, ops=[change], exportable=1)})
        if len(nums) < 3:
          out.append({'name': 'change2-%s-%s' % (t, '+'.join(map(str, nums))),
                      'fn': 'history', 'weight': 9,
                      'params': dict(base, args=nums,
                                     ops=[change] * (2 if quick else 3))})
      for sealed in (False, True):
        if quick and sealed and len(nums) > 1:
          continue
        out.append({'name': 'add-%s-%s-%d' % (
            t, '+'.join(map(str, nums)), sealed), 'fn': 'history', 'weight': 5,
            'limits': {'draws': draws(t, 1, sealed, len(nums))},
            'params': dict(base, ops=[['addkey']], sealed=sealed)})
        if len(nums) < 2:
          out.append({'name': 'mix-%s-%s-%d' % (
              t, '+'.join(map(str, nums)), sealed), 'fn': 'history',
              'weight': 9,
              'limits': {'draws': draws(t, 1, sealed, len(nums))},
              'params': dict(base, ops=[['addkey'], change], sealed=sealed,
                             sizes=[None], args=nums + [1, 2])})
  for k, what in enumerate(sorted(TYPES, key=str)):
    for sealed in (False, True):
      if what[1] and sealed:
        continue
      ops = [['addkey'], ['addkey'] + change]
      if what[1]:
        ops = [['addkey'], change]
      out.append({'name': 'begin-%s-%s-%d' % (what[0], what[1], sealed),
                  'fn': 'begin', 'weight': 6, 'limits': {'draws': draws(
                      what[1] or what[0], 2, sealed, 0)},
                  'params': {'what': what, 'ops': ops, 'args': [1],
                             'sizes': [None], 'sealed': sealed}})
  for t, purposes in (('RSA', ('SIGN_AND_VERIFY', 'DECRYPT_AND_ENCRYPT')),
                      ('DSA', (None,)), ('AES', (None,)), ('HMAC', (None,))):
    for pu in purposes:
      for nums in ([1], [2, 1], []):
        out.append({'name': 'pubkey-%s-%s-%s' % (t, pu, '+'.join(
            map(str, nums))), 'fn': 'pubkey',
            'params': {'type': t, 'numbers': nums, 'purpose': pu,
                       'exportable': 1}})
  for n in (0, 3, 6, 7):
    out.append({'name': 'command-%d' % n, 'fn': 'refused',
                'params': {'cmd': None, 'n': n}})
  lacking = [('create', []), ('create', [('purpose', 'sign')]),
             ('create', [('location', 'empty')]),
             ('create', [('location', 'empty'), ('purpose', 'verify')]),
             ('create', [('location', 'set'), ('purpose', 'sign')]),
             ('addkey', []), ('addkey', [('location', 'empty')]),
             ('addkey', [('location', 'set'), ('status', 'secondary')]),
             ('addkey', [('location', 'set'), ('size', '129')]),
             ('addkey', [('location', 'set'), ('crypter', 'nowhere')]),
             ('pubkey', [('location', 'set')]), ('pubkey', []),
             ('pubkey', [('location', 'empty')])]
  for c in change:
    lacking += [(c, []), (c, [('location', 'set')]), (c, [('version', '1')]),
                (c, [('location', 'empty'), ('version', '1')]),
                (c, [('location', 'set'), ('version', '-1')]),
                (c, [('location', 'set'), ('version', '12')])]
  for i, (c, fl) in enumerate(lacking):
    out.append({'name': 'lacking-%s-%d' % (c, i), 'fn': 'refused',
                'params': {'cmd': c, 'flags': fl}})
  for n in (0, 4, 7):
    for c, fl in (('create', [('location', 'empty'), ('purpose', 'sign')]),
                  ('addkey', [('location', 'set')]),
                  ('demote', [('location', 'set'), ('version', '1')])):
      out.append({'name': 'flag-%s-%d' % (c, n), 'fn': 'refused',
                  'params': {'cmd': c, 'flags': fl, 'unknown': n}})
  return out
