"""Export of public key sets."""
import json

from harness import lib

BOUNDS = {
    'quick': 'sets of 1 to 3 RSA (512, 1024, 2048 bits) or DSA pool keys, '
             'every status assignment with at most one primary, version '
             'numbers from a list, both RSA purposes, sets that say they are '
             'encrypted; export directly, after one lifecycle operation, '
             'after adding a key, and twice; messages of 0 to 20 bytes, all '
             'contents; refusal for every other type and purpose',
    'thorough': 'as quick, sets of up to 4 keys, two lifecycle operations',
}
OUTSIDE = 'keys outside the pool; failing writes'
ASSUMES = ['RSA: the private operation undoes the public one',
           'DSA signatures verify']
REACH = {'export': ['files', 'keys'], 'use': ['used'], 'refuse': ['refused'],
         'history': ['keys']}

PUB = {'DECRYPT_AND_ENCRYPT': 'ENCRYPT', 'SIGN_AND_VERIFY': 'VERIFY'}


def make(ctx, p):
  if p['type'] == 'RSA':
    return [lib.Rsa(ctx, p['bits'][i % len(p['bits'])], i)
            for i in range(len(p['numbers']))]
  return [lib.Dsa(ctx, i) for i in range(len(p['numbers']))]


class Open(object):
  """A crypter whose ciphertexts are the plaintexts."""

  def Decrypt(self, s):
    return s


def private(ctx, kz, p, ks, sts):
  src = lib.Source(
      lib.meta(p['purpose'], ks[0].type, sts, p['numbers'],
               encrypted=p.get('sealed', False), name=p.get('name', 'set')),
      {n: k.json() for n, k in zip(p['numbers'], ks)})
  if p.get('sealed'):
    src = kz.readers.EncryptedReader(src, Open())
  return kz.keyczar.GenericKeyczar(src)


def fields(text):
  return json.loads(text)


def look(ctx, d, p, of, st, label):
  """The exported files are exactly the public halves."""
  ctx.check(ctx.files(d) == sorted(['meta'] + [str(n) for n in st]), 'files',
            lambda: str(ctx.files(d)))
  m = json.loads(ctx.read(d + '/meta'))
  vs = m.pop('versions')
  ctx.check(m == {'name': p.get('name', 'set'), 'encrypted': False,
                  'purpose': PUB[p['purpose']],
                  'type': p['type'] + '_PUB'}, 'metadata', lambda: repr(m))
  ctx.check({v['versionNumber']: v['status'] for v in vs} == st and
            len(vs) == len(st), 'statuses', lambda: repr(vs))
  for n in st:
    text = ctx.read('%s/%d' % (d, n))
    ctx.check(json.loads(text) == json.loads(of[n]), label,
              lambda: '%s, expected %s' % (text, of[n]))


def export(ctx, kz, p):
  ks = make(ctx, p)
  sts = lib.some_statuses(ctx, 's', len(ks))
  g = private(ctx, kz, p, ks, sts)
  before = str(g.metadata)
  d = ctx.dir('pub')
  g.PublicKeyExport(d)
  st = dict(zip(p['numbers'], sts))
  of = {n: k.pub_json() for n, k in zip(p['numbers'], ks)}
  look(ctx, d, p, of, st, 'keys')
  ctx.check(str(g.metadata) == before, 'the set itself is unchanged')
  pub = kz.keyczar.GenericKeyczar.Read(d)
  for n, k in zip(p['numbers'], ks):
    ctx.check(pub.GetKey(lib.b64(k.id())).hash_id == lib.b64(k.id()),
              'same identifier')


def history(ctx, kz, p):
  """Export after changes, and again after more."""
  ks = make(ctx, p)
  sts = lib.some_statuses(ctx, 's', len(ks))
  g = private(ctx, kz, p, ks, sts)
  st = dict(zip(p['numbers'], sts))
  of = {n: k.pub_json() for n, k in zip(p['numbers'], ks)}
  if p['first']:
    d = ctx.dir('first')
    g.PublicKeyExport(d)
  for i in range(p['ops']):
    op = ctx.choose('op%d' % i, ['Promote', 'Demote', 'Revoke', 'Add'])
    if op == 'Add':
      s = ctx.choose('status%d' % i, lib.STATUSES)
      start = len(ctx.generated)
      g.AddVersion(getattr(kz.keyinfo, s), p['add'])
      n = max(list(st) + [0]) + 1
      if s == 'PRIMARY':
        st = {a: 'ACTIVE' if b == 'PRIMARY' else b for a, b in st.items()}
      st[n] = s
      new = [v for v in g.versions if v.version_number == n]
      ctx.check(len(new) == 1, 'added')
      of[n] = json.dumps(json.loads(str(g.GetKey(new[0])))['publicKey'])
    else:
      n = ctx.choose('n%d' % i, list(st))
      how, e = lib.outcome(lambda: getattr(g, op)(n))
      if how == 'ok':
        if op == 'Revoke':
          del st[n]
        elif op == 'Promote':
          if st[n] == 'ACTIVE':
            st = {a: 'ACTIVE' if b == 'PRIMARY' else b for a, b in st.items()}
          st[n] = 'PRIMARY' if st[n] == 'ACTIVE' else 'ACTIVE'
        else:
          st[n] = 'ACTIVE' if st[n] == 'PRIMARY' else 'INACTIVE'
  d = ctx.dir('pub')
  g.PublicKeyExport(d)
  look(ctx, d, p, of, st, 'keys')


def use(ctx, kz, p):
  ks = make(ctx, p)
  nk = len(ks)
  w = ctx.choose('primary', range(nk))
  sts = ['ACTIVE'] * nk
  sts[w] = 'PRIMARY'
  for i in range(nk):
    if i != w:
      sts[i] = ctx.choose('s%d' % i, ['ACTIVE', 'INACTIVE'])
  g = private(ctx, kz, p, ks, sts)
  d = ctx.dir('pub')
  g.PublicKeyExport(d)
  msg = ctx.str('msg', ctx.choose('len', p['lens']))
  if p['purpose'] == 'DECRYPT_AND_ENCRYPT':
    c = lib.key_set(kz.keyczar.Crypter, p['purpose'], ks, sts, p['numbers'])
    e = kz.keyczar.Encrypter.Read(d)
    ct = e.Encrypt(msg)
    ctx.check(ctx.eq(lib.unb64(ct)[:5], ks[w].header()), 'header')
    ctx.check(ctx.eq(c.Decrypt(ct), msg), 'used')
    how, x = lib.outcome(lambda: kz.keyczar.Crypter.Read(d))
    ctx.check(how == 'error' and isinstance(x, kz.errors.KeyczarError),
              'no decryption with public keys')
  else:
    s = lib.key_set(kz.keyczar.Signer, p['purpose'], ks, sts, p['numbers'])
    v = kz.keyczar.Verifier.Read(d)
    sig = s.Sign(msg)
    ctx.check(v.Verify(msg, sig), 'used')
    how, x = lib.outcome(lambda: kz.keyczar.Signer.Read(d))
    ctx.check(how == 'error' and isinstance(x, kz.errors.KeyczarError),
              'no signing with public keys')


def refuse(ctx, kz, p):
  k = {'AES': lambda: lib.Aes(ctx, 'k'), 'HMAC': lambda: lib.Hmac(ctx, 'k'),
       'RSAPUB': lambda: lib.Rsa(ctx, 1024, public=True),
       'RSA': lambda: lib.Rsa(ctx, 1024), 'DSA': lambda: lib.Dsa(ctx),
       'DSAPUB': lambda: lib.Dsa(ctx, public=True)}[p['type']]()
  nk = p['keys']
  purpose = ctx.choose('purpose', p['purposes'])
  g = kz.keyczar.GenericKeyczar(lib.Source(
      lib.meta(purpose, k.type, ['PRIMARY'] * nk), {1: k.json()}))
  d = ctx.dir('pub')
  how, e = lib.outcome(lambda: g.PublicKeyExport(d))
  ctx.check(how == 'error' and isinstance(e, kz.errors.KeyczarError),
            'refused', lambda: repr(e))
  ctx.check(ctx.files(d) == [], 'nothing written')


def instances(tier):
  quick = tier == 'quick'
  out = []
  RC, RS = 'DECRYPT_AND_ENCRYPT', 'SIGN_AND_VERIFY'
  numbers = [[1], [1, 2], [3, 1], [2, 10, 9]] + (
      [] if quick else [[1, 2, 3, 4], [11, 2, 1]])
  for j, ns in enumerate(numbers):
    for t, pu, bits in (('RSA', RC, [1024]), ('RSA', RS, [512, 2048]),
                        ('DSA', RS, None)):
      if t == 'DSA' and len(ns) > 3:
        continue
      p = {'type': t, 'purpose': pu, 'bits': bits, 'numbers': ns,
           'sealed': bool(j % 2), 'name': ('set', 'x y', '')[j % 3]}
      out.append({'name': 'export-%s-%s-%d' % (t, pu, j), 'fn': 'export',
                  'weight': 2, 'params': p})
      # the pool has to have keys left to add
      n_ops = 1 if quick or len(ns) > 2 or (t, len(ns)) == ('DSA', 2) else 2
      if len(ns) + n_ops <= (4 if t == 'RSA' else 3):
        out.append({'name': 'history-%s-%s-%d' % (t, pu, j), 'fn': 'history',
                    'weight': 4, 'params': dict(
                        p, add=1024, ops=n_ops, first=j % 2)})
      if len(ns) < 3:
        out.append({'name': 'use-%s-%s-%d' % (t, pu, j), 'fn': 'use',
                    'weight': 6, 'limits': {'lead': 1},
                    'params': dict(p, lens=[0, 3, 20] if len(ns) == 1
                                   else [5])})
  every = [RC, RS, 'ENCRYPT', 'VERIFY']
  for t, pus in (('AES', every), ('HMAC', every), ('RSAPUB', every),
                 ('DSAPUB', every), ('RSA', ['ENCRYPT', 'VERIFY']),
                 ('DSA', [RC, 'VERIFY', 'ENCRYPT'])):
    for nk in (0, 1):
      out.append({'name': 'refuse-%s-%d' % (t, nk), 'fn': 'refuse',
                  'params': {'type': t, 'purposes': pus, 'keys': nk}})
  return out
