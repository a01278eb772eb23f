"""What the interoperability runner asks of each implementation."""
import json
import os
import subprocess

from harness import inter
from harness import lib

INTEROP = True
BOUNDS = {
    'quick': 'the configurations of C30; key creation in empty and used '
             'directories; implementations whose output is any string of up '
             'to 4 characters, and ones that fail at any call; one argument '
             'of up to 12 characters (every value), lists of two and three '
             'arguments with one malformed, every order of valid flags',
    'thorough': 'as quick, arguments of up to 16 characters',
}
OUTSIDE = 'the implementations themselves; what is printed'
REACH = {'create': ['asked'], 'requests': ['asked'], 'flags': ['asked'],
         'malformed': ['nothing started'], 'failing': ['stopped'],
         'carried': ['asked']}


def flags_of(cmd):
  return cmd[0], sorted(cmd[1:])


def norm(p):
  return os.path.normpath(p)


def expect_create(ctx, cfg, r, impl, alg, size, crypter):
  a = cfg['algorithms'][alg]
  name = alg + str(size)
  loc = 'keys/%s/%s' % (impl, name) + (crypter or '')
  cmds = [flags_of(c) for c in r['keyczartCommands']]
  add = ['--location=' + loc, '--size=%d' % size, '--status=primary'] + \
      a['addKeyFlags']
  want = [('create', sorted(['--location=' + loc, '--name=' + name] +
                            a['createFlags']))]
  if crypter:
    want.append(('addkey', sorted(
        add + ['--crypter=keys/%s/%s' % (impl, crypter)])))
  else:
    want += 2 * [('addkey', sorted(add))]
    if a['asymmetric']:
      want.append(('pubkey', sorted(['--location=' + loc,
                                     '--destination=' + loc + 'public'])))
  return cmds == want


def create(ctx, kz, p):
  cfg = inter.config(p['config'])
  inter.lay(ctx, cfg)
  base = ctx.cwd()
  todo = []
  for impl in cfg['implementations']:
    for alg in cfg['algorithms']:
      for size in cfg['algorithms'][alg]['keySizes']:
        todo += [(impl, alg, size, None), (impl, alg, size, 'aes128')]
  if p['used']:
    # left over from an earlier run
    for impl, alg, size, c in todo:
      d = '%s/keys/%s/%s%d%s' % (base, impl, alg, size, c or '')
      os.makedirs(d)
      ctx.write(d + '/meta', 'old')
      ctx.write(d + '/2', 'old')
      if cfg['algorithms'][alg]['asymmetric'] and not c:
        os.makedirs(d + 'public')
        ctx.write(d + 'public/1', 'old')
    os.makedirs(base + '/keys/other')
    ctx.write(base + '/keys/other/meta', 'kept')
    ctx.write(base + '/keys/note', 'kept')
  done = []
  if p.get('free'):
    # extra flags are passed on as they are
    extra = '--' + ctx.str('extra', 3, inter.PLAIN)
    cfg['algorithms'][p['free']]['createFlags'].append(extra)
    cfg['algorithms'][p['free']]['addKeyFlags'].append(extra)
    ctx.write(base + '/config/interopAlgorithms.json',
              json.dumps(cfg['algorithms']))

  def answer(impl, r):
    if r['command'] != 'create':
      return None
    hit = [t for t in todo if t[0] == impl and t not in done and
           expect_create(ctx, cfg, r, *t)]
    ctx.check(len(hit) == 1, 'key set commands', lambda: repr(r))
    t = hit[0]
    if t[3]:
      have_crypter = not [x for x in todo if x[1] + str(x[2]) == t[3]] or \
          [x for x in done if x[0] == impl and x[1] + str(x[2]) == t[3] and
           not x[3]]
      ctx.check(bool(have_crypter), 'crypter comes first')
    done.append(t)
    d = '%s/keys/%s/%s%d%s' % (base, impl, t[1], t[2], t[3] or '')
    for x in [d] + ([d + 'public'] if cfg['algorithms'][t[1]]['asymmetric'] and
                    not t[3] else []):
      ctx.check(ctx.exists(x) and ctx.files(x) == [], 'empty directory',
                lambda: x)
    ctx.write(d + '/meta', 'new')
    return b''
  f = inter.Fleet(ctx, cfg, answer)
  kz.interop.main(p['args'])
  ctx.reach('asked')
  ctx.check(sorted(done, key=str) == sorted(todo, key=str), 'every key set',
            lambda: repr([t for t in todo if t not in done]))
  first = [i for i, (_, r) in enumerate(f.calls) if r['command'] != 'create']
  ctx.check(all(r['command'] != 'create' for _, r in f.calls[first[0]:])
            if first else True, 'keys before data')
  for t in todo:
    ctx.check(ctx.read('%s/keys/%s/%s%d%s/meta' % (
        base, t[0], t[1], t[2], t[3] or '')) == 'new', 'new keys are kept')
  if p['used']:
    ctx.check(ctx.read(base + '/keys/other/meta') == 'kept' and
              ctx.read(base + '/keys/note') == 'kept', 'the rest is kept')


def check_request(ctx, cfg, impl, r, by):
  """A generate or test request for keys of the implementation by."""
  ctx.check(norm(r['keyPath']) == 'keys/' + by, 'key path',
            lambda: repr(r))
  ctx.check(r['operation'] in cfg['operations'], 'operation')
  ctx.check(r['testData'] == 'This is some test data.', 'test data')


def requests(ctx, kz, p):
  cfg = inter.config(p['config'])
  inter.lay(ctx, cfg)
  f = inter.Fleet(ctx, cfg)
  kz.interop.main(['--create=n'])
  want = inter.expected(cfg)
  ctx.reach('asked')
  ctx.check(len(f.made) > 0, 'asked')
  for impl, r in f.calls:
    keys = {'generate': ['algorithm', 'command', 'generateOptions', 'keyPath',
                         'operation', 'testData'],
            'test': ['algorithm', 'command', 'generateOptions', 'keyPath',
                     'operation', 'output', 'testData', 'testOptions']}
    ctx.check(r['command'] in keys and
              all(k in r for k in keys[r['command']]), 'fields',
              lambda: repr(r))
    if r['command'] == 'generate':
      check_request(ctx, cfg, impl, r, impl)
    else:
      i = int(r['output']['output'][3:])
      by, made = f.made[i]
      check_request(ctx, cfg, impl, r, by)
      for k in ('operation', 'algorithm', 'generateOptions', 'keyPath',
                'testData'):
        ctx.check(r[k] == made[k], 'test of what was generated',
                  lambda: '%s: %r, generated with %r' % (k, r[k], made[k]))
      g = (by, made['operation'], made['algorithm'],
           tuple(sorted(made['generateOptions'].items())))
      ctx.check((impl, tuple(sorted(r['testOptions'].items()))) in want[g],
                'test options')
  for g, ts in want.items():
    i = [j for j, (by, m) in enumerate(f.made) if
         (by, m['operation'], m['algorithm'],
          tuple(sorted(m['generateOptions'].items()))) == g]
    ctx.check(len(i) == 1, 'each output is tested')
    got = [(impl, tuple(sorted(r['testOptions'].items())))
           for impl, r in f.calls if r['command'] == 'test' and
           r['output']['output'] == 'out%d' % i[0]]
    ctx.check(sorted(got) == sorted(ts), 'each output is tested')
  ctx.check(not f.failed, 'no failures')
  ctx.check(f.ran == len([1 for _, r in f.calls if r['command'] == 'test']),
            'every test runs')


def carried(ctx, kz, p):
  """The generated output reaches the test as it was."""
  cfg = inter.config(p['config'])
  inter.lay(ctx, cfg)
  outs = {}

  def answer(impl, r):
    if r['command'] != 'generate':
      return None
    n = len(outs)
    if n in p['at']:
      s = ctx.str('out%d' % n, p['n'], inter.PLAIN)
    else:
      s = 'abcd%d' % n
    outs[impl, r['operation'], r['algorithm'],
         json.dumps(r['generateOptions'], sort_keys=True)] = s
    f.made.append((impl, r))
    return ('{"output": "' + s + '", "sessionMaterial": "m%d"}\n' %
            n).encode('ascii')
  f = inter.Fleet(ctx, cfg, answer)
  kz.interop.main(['--create=n'])
  ctx.reach('asked')
  for impl, r in f.calls:
    if r['command'] == 'test':
      ks = [k for k in outs if k[1:] == (
          r['operation'], r['algorithm'],
          json.dumps(r['generateOptions'], sort_keys=True)) and
          norm(r['keyPath']) == 'keys/' + k[0]]
      ctx.check(len(ks) == 1, 'one origin')
      i = list(outs).index(ks[0])
      ctx.check(ctx.eq(r['output'], {'output': outs[ks[0]],
                                     'sessionMaterial': 'm%d' % i}),
                'output is passed on')


def failing(ctx, kz, p):
  """An implementation reports a failure with its exit status."""
  cfg = inter.config(p['config'])
  inter.lay(ctx, cfg)
  at = ctx.choose('at', p['at'])
  count = []

  def answer(impl, r):
    if r['command'] != p['command']:
      return None
    count.append(1)
    if len(count) == at + 1:
      if r['command'] == 'generate':
        f.made.append((impl, r))
      raise subprocess.CalledProcessError(1, ['x'], b'broken')
    return None
  f = inter.Fleet(ctx, cfg, answer)
  how, e = lib.outcome(lambda: kz.interop.main(['--create=y']))
  ctx.reach('stopped')
  if p['command'] == 'test':
    ctx.check(len(f.failed) == 1, 'the test fails')
    ctx.check(len(count) == f.ran, 'the others run')
  else:
    ctx.check(how == 'error', 'reported')
    ctx.check(len(count) == at + 1, 'nothing more is started')


def started(ctx, kz, argv, create='y'):
  cfg = inter.config('aes')
  inter.lay(ctx, cfg)
  base = ctx.cwd()
  d = base + '/keys/py/aes128'
  os.makedirs(d)
  ctx.write(d + '/meta', 'old')
  f = inter.Fleet(ctx, cfg)
  r = kz.interop.main(argv)
  kept = ctx.exists(d + '/meta')
  return f, r, kept


def flags(ctx, kz, p):
  """Valid flags."""
  argv = p['args']
  f, r, kept = started(ctx, kz, argv)
  asked = set(q['command'] for _, q in f.calls)
  create = [a for a in argv if a.startswith('--create=')]
  create = create[-1][-1] if create else 'y'
  ctx.reach('asked')
  ctx.check(asked == (set(['create', 'generate', 'test']) if create == 'y'
                      else set(['generate', 'test'])), 'create flag',
            lambda: repr(asked))
  ctx.check(kept == (create == 'n'), 'create flag')
  verbose = [a for a in argv if a.startswith('--verbose=')]
  if create == 'y':
    loud = bool(verbose) and verbose[-1][-1] == 'y'
    ctx.check(any('overwrote' in s for s in ctx.printed) == loud,
              'verbose flag')


VALID = ['display', 'options', '--create=y', '--create=n', '--verbose=y',
         '--verbose=n']


def malformed(ctx, kz, p):
  """One argument that is none of the valid ones."""
  s = p['head'] + ctx.str('arg', p['n'])
  for v in VALID:
    if len(v) == len(s):
      ctx.assume(ctx.no(ctx.eq(s, v)))
  argv = list(p['before']) + [s] + list(p['after'])
  f, r, kept = started(ctx, kz, argv)
  ctx.reach('nothing started')
  ctx.check(f.calls == [], 'nothing started', lambda: repr(f.calls))
  ctx.check(kept, 'nothing removed')
  ctx.check(f.ran == 0, 'nothing started')


def instances(tier):
  quick = tier == 'quick'
  out = []
  for c in ('crypt', 'sign', 'bare', 'all', 'aes'):
    for used in (0, 1):
      out.append({'name': 'create-%s-%d' % (c, used), 'fn': 'create',
                  'params': {'config': c, 'used': used,
                             'args': [] if used else ['--create=y']}})
    out.append({'name': 'requests-' + c, 'fn': 'requests',
                'params': {'config': c}})
  for a in ('aes', 'rsa-crypt', 'hmac', 'dsa'):
    out.append({'name': 'extra-' + a, 'fn': 'create',
                'params': {'config': 'all', 'used': 0, 'args': [],
                           'free': a}})
  for c in ('aes', 'bare', 'sign'):
    for n in (0, 1, 4):
      out.append({'name': 'carried-%s-%d' % (c, n), 'fn': 'carried',
                  'params': {'config': c, 'n': n, 'at': [0, 1, 3]}})
  for cmd in ('create', 'generate', 'test'):
    out.append({'name': 'failing-' + cmd, 'fn': 'failing',
                'params': {'config': 'aes', 'command': cmd,
                           'at': [0, 1, 2, 5]}})
  for i, args in enumerate((
      [], ['--create=y'], ['--create=n'], ['--verbose=y'], ['--verbose=n'],
      ['--create=n', '--verbose=y'], ['--verbose=y', '--create=n'],
      ['--create=y', '--verbose=n'], ['--verbose=y', '--create=y'],
      ['--verbose=n', '--create=n'], ['--create=n', '--create=y'])):
    out.append({'name': 'flags-%d' % i, 'fn': 'flags',
                'params': {'args': args}})
  for n in range(13 if quick else 17):
    out.append({'name': 'any-%d' % n, 'fn': 'malformed', 'weight': 3,
                'params': {'head': '', 'n': n, 'before': [], 'after': []}})
  for head in ('--', '--create=', '--verbose=', '--create', '--help'):
    for n in (0, 1, 2, 3):
      # (a later flag of the same name takes over)
      other = '--verbose=y' if head.startswith('--create') else '--create=y'
      for b, a in (([], []), (['--create=n'], []), ([], [other]),
                   (['--verbose=n'], [other])):
        if quick and (n + len(a) + len(head)) % 2:
          continue
        out.append({'name': 'head%s-%d-%d%d' % (head, n, len(b), len(a)),
                    'fn': 'malformed',
                    'params': {'head': head, 'n': n, 'before': b,
                               'after': a}})
  return out
