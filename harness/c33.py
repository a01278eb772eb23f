"""Storage back ends."""
import json
import os
import sys

from harness import lib
from harness import c11

BOUNDS = {
    'quick': 'two readers and two writers of their own, each accepting or '
             'refusing, also changing between two requests, locations that '
             'exist or not, location texts from a '
             'list; sets of 1 to 3 AES or HMAC keys (all key '
             'bytes), RSA and DSA pool keys, every status assignment, plain '
             'and sealed, read and written through such a back end; one '
             'command of the key tool on it; up to three plug-in directories '
             'with the listed files',
    'thorough': 'as quick, sets of up to 4 keys, two commands of the key tool',
}
OUTSIDE = ('which of several accepting back ends is taken; plug-in modules '
           'with the same name in two directories; back ends that fail')
ASSUMES = ['HMAC-SHA1 is unforgeable']
REACH = {'select': ['judged'], 'again': ['judged'], 'use': ['used'],
         'write': ['written'], 'tool': ['state'], 'plugins': ['loaded']}

NOW = {}
CLASSES = {}


class State(object):
  def __init__(self, ctx):
    self.accept = {}
    self.asked = []
    self.made = []
    self.sets = {}
    self.ctx = ctx


def back_ends(ctx, kz):
  """Readers and writers over NOW, defined once for the loaded code."""
  NOW['s'] = State(ctx)
  if kz.readers.Reader in CLASSES:
    return NOW['s']

  def reader(label):
    class MemReader(kz.readers.Reader):
      def __init__(self, location):
        self.label = label
        self.location = location
        self.closed = 0
        NOW['s'].made.append(self)

      def GetMetadata(self):
        return NOW['s'].sets[self.location]['meta']

      def GetKey(self, version_number):
        return NOW['s'].sets[self.location][version_number]

      def Close(self):
        self.closed += 1

      @classmethod
      def CreateReader(cls, location):
        NOW['s'].asked.append((label, location))
        return cls(location) if NOW['s'].accept.get(label) else None
    return MemReader

  def writer(label):
    class MemWriter(kz.writers.Writer):
      def __init__(self, location):
        self.label = label
        self.location = location
        self.closed = 0
        self.calls = []
        NOW['s'].made.append(self)

      def WriteMetadata(self, metadata, overwrite=True):
        self.calls.append('meta')
        d = NOW['s'].sets.setdefault(self.location, {})
        if not overwrite and 'meta' in d:
          raise kz.errors.KeyczarError('exists')
        d['meta'] = str(metadata)

      def WriteKey(self, key, version_number, encrypter=None):
        self.calls.append(version_number)
        text = str(key)
        if encrypter:
          text = encrypter.Encrypt(text)
        NOW['s'].sets[self.location][version_number] = text

      def Remove(self, version_number):
        self.calls.append(('remove', version_number))
        del NOW['s'].sets[self.location][version_number]

      def Close(self):
        self.closed += 1

      @classmethod
      def CreateWriter(cls, location):
        NOW['s'].asked.append((label, location))
        return cls(location) if NOW['s'].accept.get(label) else None
    return MemWriter

  CLASSES[kz.readers.Reader] = [reader('r1'), reader('r2'), writer('w1'),
                                writer('w2')]
  return NOW['s']


def select(ctx, kz, p):
  s = back_ends(ctx, kz)
  kind = p['kind']
  labels = ['r1', 'r2'] if kind == 'reader' else ['w1', 'w2']
  for l in labels:
    s.accept[l] = ctx.choose('accept ' + l, [False, True])
  d = None
  if p['where'] == 'dir':
    d = ctx.dir(ctx.choose('dir', ['set', 'set2', '17', 'a b.d']))
    loc = d + ctx.choose('end', ['', '/'])
  elif p['where'] == 'missing':
    loc = ctx.dir('missing', make=False)
  else:
    loc = ctx.choose('loc', ['mem:', 'x', 'mem:a/b', 'db://h:1/k?v=2',
                             'mem:\xe9 \u20ac', ' mem', '%s%d', 'mem:x'])
  make = kz.readers.CreateReader if kind == 'reader' else \
      kz.writers.CreateWriter
  how, r = lib.outcome(lambda: make(loc))
  able = [l for l in labels if s.accept[l]]
  ctx.reach('judged')
  if not able and d is None:
    ctx.check(how == 'error' and isinstance(r, kz.errors.KeyczarError),
              'no back end accepts', lambda: '%s %r' % (how, r))
    ctx.check(not s.made, 'no back end accepts')
    if p['where'] == 'missing':
      ctx.check(not ctx.exists(loc), 'nothing made')
  else:
    ctx.check(how == 'ok', 'accepted', lambda: repr(r))
    mine = [m for m in s.made if m is r]
    if mine:
      ctx.check(r.label in able, 'one that accepts')
      ctx.check(ctx.eq(r.location, loc), 'the location')
    else:
      ctx.check(d is not None, 'one that accepts', lambda: repr(r))
      want = kz.readers.FileReader if kind == 'reader' else \
          kz.writers.FileWriter
      ctx.check(isinstance(r, want), 'one that accepts', lambda: repr(r))
      name = ctx.str('text', 3)
      if kind == 'reader':
        ctx.write(d + '/meta', name)
        ctx.write(d + '/2', name + 'x')
        ctx.check(ctx.eq(r.GetMetadata(), name), 'reads there')
        ctx.check(ctx.eq(r.GetKey(2), name + 'x'), 'reads there')
      else:
        r.WriteMetadata(name)
        r.WriteKey(name + 'x', 3)
        ctx.check(ctx.files(d) == ['3', 'meta'], 'writes there')
        ctx.check(ctx.eq(ctx.read(d + '/meta'), name), 'writes there')
        ctx.check(ctx.eq(ctx.read(d + '/3'), name + 'x'), 'writes there')
    for l, at in s.asked:
      ctx.check(ctx.eq(at, loc), 'the location')
  if d is not None and how == 'ok' and not mine and kind == 'reader':
    ctx.check(ctx.files(d) == ['2', 'meta'], 'nothing made')


def again(ctx, kz, p):
  """One location, asked for twice: what accepts it may change."""
  s = back_ends(ctx, kz)
  kind = p['kind']
  labels = ['r1', 'r2'] if kind == 'reader' else ['w1', 'w2']
  make = kz.readers.CreateReader if kind == 'reader' else \
      kz.writers.CreateWriter
  loc = 'mem:x'
  for i in range(2):
    for l in labels:
      s.accept[l] = ctx.choose('accept %s %d' % (l, i), [False, True])
    able = [l for l in labels if s.accept[l]]
    how, r = lib.outcome(lambda: make(loc))
    ctx.reach('judged')
    if able:
      ctx.check(how == 'ok', 'accepted', lambda: repr(r))
      ctx.check(r.label in able, 'one that accepts')
      ctx.check(ctx.eq(r.location, loc), 'the location')
    else:
      ctx.check(how == 'error' and isinstance(r, kz.errors.KeyczarError),
                'no back end accepts', lambda: '%s %r' % (how, r))


def lay(ctx, s, loc, p, ks, sts, seal=None):
  s.sets[loc] = {'meta': lib.meta(purpose(p), c11.TYPE[p['type']], sts,
                                  p['numbers'], encrypted=bool(seal))}
  for n, k in zip(p['numbers'], ks):
    s.sets[loc][n] = seal.Encrypt(k.json()) if seal else k.json()


def purpose(p):
  return p.get('purpose') or c11.purpose_of(p)


def sealer(ctx, kz):
  k = lib.Aes(ctx, 'sealer', fixed=9)
  return lib.key_set(kz.keyczar.Crypter, 'DECRYPT_AND_ENCRYPT', [k],
                     ['PRIMARY'])


def use(ctx, kz, p):
  """Key sets read through the back end work as those read from files."""
  s = back_ends(ctx, kz)
  s.accept['r2'] = True
  ks = c11.keys_of(ctx, p)
  lib.distinct_ids(ctx, ks)
  sts = lib.some_statuses(ctx, 's', len(ks))
  loc = 'mem:a'
  lay(ctx, s, loc, p, ks, sts)
  cls = getattr(kz.keyczar, p['cls'])
  o = cls.Read(loc)
  ctx.reach('used')
  ctx.check(isinstance(o, cls), 'its own kind', lambda: repr(o))
  c11.check_keys(ctx, o, ks, p, 'keys')
  c11.statuses(ctx, o, p, sts, 'statuses')
  if p['cls'] == 'Signer' and p['type'] == 'HMAC' and 'PRIMARY' in sts:
    k = ks[sts.index('PRIMARY')]
    data = ctx.str('data', 3)
    ctx.check(ctx.eq(lib.unb64(o.Sign(data)),
                     k.header() + ctx.hmac(k.key, data + '\x00')), 'signs')
  if p['cls'] == 'Crypter' and p['type'] == 'AES' and 'PRIMARY' in sts:
    data = ctx.str('data', 3)
    ctx.check(ctx.eq(o.Decrypt(o.Encrypt(data)), data), 'decrypts')


def write(ctx, kz, p):
  """Write hands the back end the metadata and every key, once."""
  s = back_ends(ctx, kz)
  s.accept['w2'] = True
  s.accept['r2'] = True
  ks = c11.keys_of(ctx, p)
  lib.distinct_ids(ctx, ks)
  sts = lib.some_statuses(ctx, 's', len(ks))
  g = lib.key_set(kz.keyczar.GenericKeyczar, c11.purpose_of(p), ks, sts,
                  p['numbers'])
  loc = 'mem:b'
  seal = sealer(ctx, kz) if p['sealed'] else None
  by = loc if p['by'] == 'text' else kz.writers.CreateWriter(loc)
  if seal:
    g.Write(by, seal)
  else:
    g.Write(by)
  ctx.reach('written')
  w = [m for m in s.made if m.label == 'w2']
  ctx.check(len(w) == 1, 'one writer')
  ctx.check(sorted(map(str, w[0].calls)) ==
            sorted(['meta'] + [str(n) for n in p['numbers']]), 'each once',
            lambda: repr(w[0].calls))
  got = s.sets[loc]
  ctx.check(sorted(map(str, got)) ==
            sorted(['meta'] + [str(n) for n in p['numbers']]), 'each once')
  c11.check_meta(ctx, got['meta'], p, sts, bool(seal))
  for n, k in zip(p['numbers'], ks):
    text = got[n]
    if seal:
      text = seal.Decrypt(text)
    ctx.check(ctx.eq(c11.canon(ctx, text), c11.canon(ctx, k.json())),
              'the key', 'key %d' % n)
  # and back
  r = kz.readers.CreateReader(loc)
  if seal:
    r = kz.readers.EncryptedReader(r, seal)
  again = kz.keyczar.GenericKeyczar(r)
  c11.check_keys(ctx, again, ks, p, 'back')
  c11.statuses(ctx, again, p, sts, 'back')
  r.Close()
  ctx.check([m.closed > 0 for m in s.made if m.label == 'r2'] == [True],
            'closing reaches the back end')


def tool(ctx, kz, p):
  """The key tool works on any back end as it does on files."""
  s = back_ends(ctx, kz)
  s.accept['w1'] = True
  s.accept['r1'] = True
  ks = c11.keys_of(ctx, p)
  lib.distinct_ids(ctx, ks)
  sts = lib.some_statuses(ctx, 's', len(ks))
  loc = 'mem:c'
  lay(ctx, s, loc, p, ks, sts)
  d = ctx.dir('set')
  for n, t in s.sets[loc].items():
    ctx.write('%s/%s' % (d, n), t)
  start = len(ctx.draws)
  for i, cmd in enumerate(p['commands']):
    if cmd in ('promote', 'demote', 'revoke'):
      extra = ['--version=%d' % ctx.choose('v%d' % i, p['numbers'])]
    elif cmd == 'addkey':
      extra = ['--status=' + ctx.choose('st%d' % i, ['active', 'primary'])]
    else:
      extra = []
    # first on the back end, then the same on files
    one = lib.outcome(lambda: kz.keyczart.main([cmd, '--location=' + loc] +
                                               extra))
    s.accept['w1'] = s.accept['r1'] = False
    two = lib.outcome(lambda: kz.keyczart.main([cmd, '--location=' + d] +
                                               extra))
    s.accept['w1'] = s.accept['r1'] = True
    ctx.check(one[0] == two[0], 'same outcome',
              lambda: '%s %s: %r, %r' % (cmd, extra, one, two))
  ctx.reach('state')
  got = s.sets[loc]
  ctx.check(sorted(map(str, got)) == ctx.files(d), 'same parts',
            lambda: '%s %s' % (sorted(map(str, got)), ctx.files(d)))
  for n in got:
    a = c11.canon(ctx, got[n])
    b = c11.canon(ctx, ctx.read('%s/%s' % (d, n)))
    if n == 'meta':
      for m in (a, b):
        m['versions'] = sorted(m['versions'],
                               key=lambda v: v['versionNumber'])
    if n == 'meta' or n in p['numbers']:
      ctx.check(ctx.eq(a, b), 'same contents', str(n))
    else:
      # a key of its own
      ctx.check(sorted(a) == sorted(b) and a['size'] == b['size'],
                'same contents', str(n))
  for m in s.made:
    ctx.check(m.closed > 0, 'closed', m.label)


def plugins(ctx, kz, p):
  """Every module in every plug-in directory is loaded."""
  s = back_ends(ctx, kz)
  s.accept['r1'] = s.accept['w1'] = True
  top = ctx.dir('plug')
  sys.path[:] = [x for x in sys.path if not str(x).startswith(top)]
  sys.sx_loaded = []
  want = []
  dirs = []
  for i, files in enumerate(p['dirs']):
    there = files is not None
    d = ctx.dir('plug/d%d' % i, make=there)
    dirs.append(d)
    for f in files or []:
      here = ctx.choose('has %d %s' % (i, f), [True, False]) \
          if p.get('some') else True
      if here:
        ctx.write(d + '/' + f, 'import sys\nsys.sx_loaded.append(__name__)\n')
        if f.endswith('.py'):
          want.append(f[:-3])
  os.environ['KEYCZAR_BACKEND_PATHS'] = os.pathsep.join(dirs)
  try:
    if p['kind'] == 'reader':
      kz.readers.CreateReader('mem:x')
    else:
      kz.writers.CreateWriter('mem:x')
  finally:
    del os.environ['KEYCZAR_BACKEND_PATHS']
  ctx.reach('loaded')
  ctx.check(sorted(sys.sx_loaded) == sorted(want), 'plug-ins',
            lambda: '%s, expected %s' % (sorted(sys.sx_loaded), sorted(want)))
  ctx.check(len(s.made) == 1, 'chosen')


def instances(tier):
  deep = tier == 'thorough'
  raw = []
  for kind in ('reader', 'writer'):
    for where in ('dir', 'missing'):
      raw.append((select, {'kind': kind, 'where': where}))
    raw.append((select, {'kind': kind, 'where': 'own'}))
    raw.append((again, {'kind': kind}))
    for dirs in ([['sxp_a.py']], [['sxp_a.py', 'sxp_b.py', 'sxp_c.txt']],
                 [['sxp_a.py', 'sxp_a.pyc', 'sxp_py'], None, ['sxp_d.py']],
                 [[], ['sxp_e.py'], ['sxp_f.py', 'sxp_g.py']], [None]):
      raw.append((plugins, {'kind': kind, 'dirs': dirs}))
    raw.append((plugins, {'kind': kind, 'some': True, 'dirs': [
        ['sxp_h.py', 'sxp_i.txt'], ['sxp_j.py', 'sxp_k.py']]}))
  sets = [('AES', [1]), ('AES', [2, 1]), ('HMAC', [1]), ('HMAC', [3, 1, 2]),
          ('RSA', [1]), ('DSA', [1, 2])]
  if deep:
    sets += [('HMAC', [1, 10, 2, 4]), ('AES', [5, 7, 12])]
  for t, nums in sets:
    for by in ('text', 'writer'):
      for sealed in (False, True):
        raw.append((write, {'type': t, 'numbers': nums, 'by': by,
                            'sealed': sealed}))
    for c in (('addkey',), ('promote',), ('demote',), ('revoke',)):
      if c == ('addkey',) and t in ('RSA', 'DSA'):
        continue
      raw.append((tool, {'type': t, 'numbers': nums, 'commands': c}))
  if deep:
    for c in (('demote', 'revoke'), ('promote', 'demote'),
              ('addkey', 'promote')):
      raw.append((tool, {'type': 'HMAC', 'numbers': [1, 2], 'commands': c}))
  for cls, t, pur, nums in (
      ('GenericKeyczar', 'HMAC', None, [2, 1]),
      ('Signer', 'HMAC', None, [2, 1]), ('Verifier', 'HMAC', None, [1, 3]),
      ('Crypter', 'AES', None, [2, 1]), ('Encrypter', 'AES', None, [1]),
      ('Verifier', 'DSAPUB', None, [1]), ('Verifier', 'RSAPUB', None, [2, 1]),
      ('Encrypter', 'RSAPUB', 'ENCRYPT', [1]),
      ('Crypter', 'RSA', 'DECRYPT_AND_ENCRYPT', [1]),
      ('Signer', 'RSA', 'SIGN_AND_VERIFY', [1])):
    raw.append((use, {'cls': cls, 'type': t, 'purpose': pur,
                      'numbers': nums}))
  out = []
  for i, (fn, params) in enumerate(raw):
    tag = '-'.join(str(params[k]) for k in ('kind', 'where', 'cls', 'type',
                                            'by', 'sealed') if k in params)
    if 'commands' in params:
      tag += '-' + '+'.join(params['commands'])
    adds = list(params.get('commands', ())).count('addkey')
    # no more draws than where no identifiers collide
    limits = {'draws': 2 * adds * (2 if params['type'] == 'AES' else 1)} \
        if adds else {}
    out.append({'name': '%s-%s-%d' % (fn.__name__, tag, i),
                'fn': fn.__name__, 'params': params, 'limits': limits,
                'weight': 2 ** len(params.get('numbers', ()))})
  return out
