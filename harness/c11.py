"""Key sets on disk, plain and encrypted."""
import json

from harness import lib

BOUNDS = {
    'quick': 'sets of 1 to 3 AES or HMAC keys (all key bytes) and 1 or 2 RSA '
             'or DSA pool keys, every status assignment with at most one '
             'primary, version numbers from a list; plain and encrypted under '
             'any AES key; rewriting plain over encrypted and back, another set '
             'over a set; removal of '
             'a key next to keys whose numbers begin alike; key files that are '
             'not sealed in an encrypted set',
    'thorough': 'as quick, sets of up to 4 keys',
}
OUTSIDE = 'crashes between the writes; other storage back ends'
ASSUMES = ['HMAC-SHA1 is unforgeable']
REACH = {'plain': ['files', 'back'], 'sealed': ['files', 'back', 'refused'],
         'misc': ['checked'], 'again': ['back'],
         'replaced': ['back']}

TYPE = {'HMAC': 'HMAC_SHA1', 'AES': 'AES', 'RSA': 'RSA_PRIV',
        'DSA': 'DSA_PRIV', 'RSAPUB': 'RSA_PUB', 'DSAPUB': 'DSA_PUB'}


def keys_of(ctx, p):
  mk = {'HMAC': lambda i: lib.Hmac(ctx, 'k%d' % i),
        'AES': lambda i: lib.Aes(ctx, 'k%d' % i, p.get('bits', 128)),
        'RSA': lambda i: lib.Rsa(ctx, 1024, i),
        'DSA': lambda i: lib.Dsa(ctx, i),
        'RSAPUB': lambda i: lib.Rsa(ctx, 1024, i, public=True),
        'DSAPUB': lambda i: lib.Dsa(ctx, i, public=True)}[p['type']]
  return [mk(i) for i in range(len(p['numbers']))]


def purpose_of(p):
  if p['type'] == 'AES':
    return 'DECRYPT_AND_ENCRYPT'
  return 'VERIFY' if p['type'].endswith('PUB') else 'SIGN_AND_VERIFY'


def start(ctx, kz, p):
  ks = keys_of(ctx, p)
  lib.distinct_ids(ctx, ks)
  sts = lib.some_statuses(ctx, 's', len(ks))
  g = lib.key_set(kz.keyczar.GenericKeyczar, purpose_of(p), ks, sts,
                  p['numbers'])
  return ks, sts, g


def check_meta(ctx, text, p, sts, enc):
  d = json.loads(text)
  d['versions'] = sorted(d['versions'], key=lambda v: v['versionNumber'])
  ctx.check(d == {
      'name': 'set', 'purpose': purpose_of(p), 'type': TYPE[p['type']],
      'encrypted': enc, 'versions': [
          {'versionNumber': n, 'status': s, 'exportable': False}
          for n, s in sorted(zip(p['numbers'], sts))]}, 'metadata')


def canon(ctx, text):
  """A key's JSON as nested lists of (name, value)."""
  def go(d):
    return {k: go(v) if isinstance(v, dict) else v for k, v in d.items()}
  return go(json.loads(text))


def check_keys(ctx, g, ks, p, label):
  got = {v.version_number: g.GetKey(v) for v in g.versions}
  ctx.check(sorted(got) == sorted(p['numbers']), label, 'numbers')
  for n, k in zip(p['numbers'], ks):
    ctx.check(ctx.eq(canon(ctx, str(got[n])), canon(ctx, k.json())), label,
              'key %d' % n)
    ctx.check(ctx.eq(got[n].hash_id, lib.b64(k.id())), label, 'id %d' % n)
    ctx.check(g.GetKey(lib.b64(k.id())) is got[n], label, 'by id')


def statuses(ctx, g, p, sts, label):
  got = {v.version_number: str(v.status) for v in g.metadata.versions}
  ctx.check(got == dict(zip(p['numbers'], sts)), label, 'statuses')
  prim = [n for n, s in zip(p['numbers'], sts) if s == 'PRIMARY']
  ctx.check((g.primary_version.version_number if g.primary_version is not None
             else None) == (prim[0] if prim else None), label, 'primary')


def plain(ctx, kz, p):
  ks, sts, g = start(ctx, kz, p)
  d = ctx.dir('set')
  g.Write(kz.writers.CreateWriter(d))
  ctx.check(ctx.files(d) == sorted(['meta'] + [str(n) for n in p['numbers']]),
            'files', lambda: str(ctx.files(d)))
  check_meta(ctx, ctx.read(d + '/meta'), p, sts, False)
  for n, k in zip(p['numbers'], ks):
    ctx.check(ctx.eq(canon(ctx, ctx.read('%s/%d' % (d, n))),
                     canon(ctx, k.json())), 'key files')
  r = kz.keyczar.GenericKeyczar.Read(d)
  check_keys(ctx, r, ks, p, 'back')
  statuses(ctx, r, p, sts, 'back')
  ctx.check(r.metadata.encrypted is False, 'back')


def opened(ctx, kz, c, text):
  """The plaintext of an AES ciphertext, by the format."""
  raw = lib.unb64(text)
  body, tag = raw[:-20], raw[-20:]
  ctx.check(ctx.eq(raw[:5], c.header()), 'sealed under the crypter')
  ctx.check(ctx.eq(tag, ctx.hmac(c.mac, body)), 'sealed under the crypter')
  pt = ctx.cbc_d(c.key, body[5:21], body[21:])
  pad = pt[-1]
  for i in range(1, 17):
    if pad == chr(i):
      return pt[:-i]
  ctx.fail('padding of the sealed key')


def sealed(ctx, kz, p):
  ks, sts, g = start(ctx, kz, p)
  c = lib.Aes(ctx, 'c')
  crypter = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [c],
                        ['PRIMARY'])
  d = ctx.dir('set')
  start_draw = len(ctx.draws)
  g.Write(kz.writers.CreateWriter(d), crypter)
  ctx.check(ctx.files(d) == sorted(['meta'] + [str(n) for n in p['numbers']]),
            'files')
  check_meta(ctx, ctx.read(d + '/meta'), p, sts, True)
  for n, k in zip(p['numbers'], ks):
    text = opened(ctx, kz, c, ctx.read('%s/%d' % (d, n)))
    ctx.check(ctx.eq(canon(ctx, text), canon(ctx, k.json())), 'key files')
  ctx.check(len([1 for x in ctx.draws[start_draw:] if x[0] == 'os']) >=
            len(ks), 'fresh ivs')
  # only through the crypter
  for cls in (kz.keyczar.GenericKeyczar,
              kz.keyczar.Crypter if p['type'] == 'AES' else
              kz.keyczar.Verifier):
    how, e = lib.outcome(lambda: cls(kz.readers.CreateReader(d)))
    ctx.check(how == 'error' and isinstance(e, kz.errors.KeyczarError),
              'refused')
    how, e = lib.outcome(lambda: cls.Read(d))
    ctx.check(how == 'error' and isinstance(e, kz.errors.KeyczarError),
              'refused')
  r = kz.keyczar.GenericKeyczar(kz.readers.EncryptedReader(
      kz.readers.CreateReader(d), crypter))
  check_keys(ctx, r, ks, p, 'back')
  statuses(ctx, r, p, sts, 'back')
  ctx.check(r.metadata.encrypted is True, 'back')
  # a key file that the crypter did not make
  n, k = p['numbers'][-1], ks[-1]
  put = ctx.read('%s/%d' % (d, n))
  for bad in (k.json(), ''):
    ctx.write('%s/%d' % (d, n), bad)
    how, e = lib.outcome(lambda: kz.keyczar.GenericKeyczar(
        kz.readers.EncryptedReader(kz.readers.CreateReader(d), crypter)))
    ctx.check(how == 'error', 'a file that is not sealed is refused')
  ctx.write('%s/%d' % (d, n), put)
  w = lib.Aes(ctx, 'w')
  lib.distinct_ids(ctx, [c, w])
  wrong = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [w],
                      ['PRIMARY'])
  how, e = lib.outcome(lambda: kz.keyczar.GenericKeyczar(
      kz.readers.EncryptedReader(kz.readers.CreateReader(d), wrong)))
  ctx.check(how == 'error', 'another crypter does not open it')


def again(ctx, kz, p):
  """Rewriting in the other form, and with fewer keys."""
  ks, sts, g = start(ctx, kz, p)
  c = lib.Aes(ctx, 'c')
  crypter = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [c],
                        ['PRIMARY'])
  d = ctx.dir('set')
  order = [None, crypter] if ctx.choose('order', [0, 1]) else [crypter, None]
  for e in order:
    g.Write(kz.writers.CreateWriter(d), e)
    reader = kz.readers.CreateReader(d)
    if e is not None:
      reader = kz.readers.EncryptedReader(reader, crypter)
    check_meta(ctx, ctx.read(d + '/meta'), p, sts, e is not None)
    g = kz.keyczar.GenericKeyczar(reader)
    check_keys(ctx, g, ks, p, 'back')
    statuses(ctx, g, p, sts, 'back')


def replaced(ctx, kz, p):
  """Another set of the same shape written over a set."""
  ks, sts, g = start(ctx, kz, p)
  d = ctx.dir('set')
  c = lib.Aes(ctx, 'c')
  crypter = lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [c],
                        ['PRIMARY']) if p['sealed'] else None
  g.Write(kz.writers.CreateWriter(d), crypter)
  read(ctx, kz, d, ks, sts, p, crypter)
  mk = lib.Hmac if p['type'] == 'HMAC' else lib.Aes
  ks2 = [mk(ctx, 'n%d' % i) for i in range(len(ks))]
  lib.distinct_ids(ctx, ks2)
  sts2 = lib.some_statuses(ctx, 't', len(ks))
  g2 = lib.key_set(kz.keyczar.GenericKeyczar, purpose_of(p), ks2, sts2,
                   p['numbers'])
  g2.Write(kz.writers.CreateWriter(d), crypter)
  read(ctx, kz, d, ks2, sts2, p, crypter)


def read(ctx, kz, d, ks, sts, p, crypter):
  reader = kz.readers.CreateReader(d)
  if crypter is not None:
    reader = kz.readers.EncryptedReader(reader, crypter)
  g = kz.keyczar.GenericKeyczar(reader)
  check_keys(ctx, g, ks, p, 'back')
  statuses(ctx, g, p, sts, 'back')


def misc(ctx, kz, p):
  ks, sts, g = start(ctx, kz, p)
  d = ctx.dir('set')
  none = ctx.dir('absent', make=False)
  for f in (lambda: kz.readers.CreateReader(none),
            lambda: kz.writers.CreateWriter(none),
            lambda: kz.keyczar.GenericKeyczar.Read(none),
            lambda: kz.keyczar.GenericKeyczar.Read(d)):
    how, e = lib.outcome(f)
    ctx.check(how == 'error' and isinstance(e, kz.errors.KeyczarError),
              'missing set is refused')
  w = kz.writers.CreateWriter(d)
  w.WriteMetadata(g.metadata, overwrite=False)
  first = ctx.read(d + '/meta')
  check_meta(ctx, first, p, sts, False)
  other = kz.keydata.KeyMetadata('other', kz.keyinfo.VERIFY,
                                 kz.keyinfo.HMAC_SHA1)
  how, e = lib.outcome(lambda: w.WriteMetadata(other, overwrite=False))
  ctx.check(how == 'error' and isinstance(e, kz.errors.KeyczarError),
            'existing metadata is not overwritten')
  ctx.check(ctx.eq(ctx.read(d + '/meta'), first),
            'existing metadata is not overwritten')
  g.Write(w)
  before = ctx.snapshot_files(d)
  n = ctx.choose('gone', p['numbers'])
  w.Remove(n)
  ctx.check(ctx.files(d) == sorted(['meta'] + [
      str(m) for m in p['numbers'] if m != n]), 'removed')
  for f in ctx.files(d):
    ctx.check(ctx.eq(ctx.read(d + '/' + f), before[f]), 'others kept')
  how, e = lib.outcome(lambda: kz.keyczar.GenericKeyczar.Read(d))
  ctx.check(how == 'error' and isinstance(e, kz.errors.KeyczarError),
            'missing key is refused')
  w.Close()
  kz.readers.CreateReader(d).Close()
  ctx.reach('checked')


def instances(tier):
  quick = tier == 'quick'
  out = []
  for t in ('AES', 'HMAC', 'RSA', 'DSA', 'RSAPUB', 'DSAPUB'):
    for nums in ([1], [2, 1], [1, 2, 10]) + (() if quick else ([4, 3, 2, 1],)):
      if len(nums) > 2 and t not in ('AES', 'HMAC'):
        continue
      tag = '%s-%s' % (t, '+'.join(map(str, nums)))
      pr = {'type': t, 'numbers': nums}
      out.append({'name': 'plain-' + tag, 'fn': 'plain', 'params': pr})
      if not t.endswith('PUB'):
        out.append({'name': 'sealed-' + tag, 'fn': 'sealed', 'params': pr,
                    'weight': 2 * len(nums)})
      if len(nums) < 3:
        out.append({'name': 'again-' + tag, 'fn': 'again', 'params': pr,
                    'weight': 2})
  for t in ('HMAC', 'AES'):
    for nums in ([1], [2, 5]):
      for s in (False, True):
        out.append({'name': 'replaced-%s-%d-%s' % (t, len(nums), s),
                    'fn': 'replaced', 'weight': 2,
                    'params': {'type': t, 'numbers': nums, 'sealed': s}})
  for bits in (192, 256):
    out.append({'name': 'sealed-AES%d' % bits, 'fn': 'sealed',
                'params': {'type': 'AES', 'numbers': [5], 'bits': bits}})
  for i, nums in enumerate(([1, 3], [1, 10, 12], [2, 21])):
    out.append({'name': 'misc-%d' % i, 'fn': 'misc',
                'params': {'type': 'HMAC', 'numbers': nums}})
  return out
