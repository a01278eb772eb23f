"""Shared parts of the interop harnesses: configurations, a stand-in for the
implementations, and the combinations a configuration describes."""
import itertools
import json
import subprocess

PLAIN = sum(1 << c for c in range(33, 127) if c not in (34, 92))


def config(which):
  """A configuration without ignore rules."""
  algorithms = {
      'aes': {'purpose': 'crypt', 'asymmetric': False, 'keySizes': [128, 256],
              'createFlags': ['--purpose=crypt'], 'addKeyFlags': []},
      'rsa-crypt': {'purpose': 'crypt', 'asymmetric': True,
                    'keySizes': [1024], 'createFlags': [
                        '--purpose=crypt', '--asymmetric=rsa'],
                    'addKeyFlags': ['--extra=1']},
      'hmac': {'purpose': 'sign', 'asymmetric': False, 'keySizes': [256],
               'createFlags': ['--purpose=sign'], 'addKeyFlags': []},
      'dsa': {'purpose': 'sign', 'asymmetric': True, 'keySizes': [1024],
              'createFlags': ['--purpose=sign', '--asymmetric=dsa'],
              'addKeyFlags': []},
  }
  operations = {
      'encrypt': {'keytype': 'crypt', 'generateOptions': {
          'encoding': ['encoded', 'unencoded']}, 'testOptions': {}},
      'sign': {'keytype': 'sign', 'generateOptions': {
          'encoding': ['encoded', 'unencoded']},
          'testOptions': {'how': ['late']}},
      'session': {'keytype': 'crypt', 'generateOptions': {
          'signer': 'ALL_SIGNING_KEYS'}, 'testOptions': {}},
      'bare': {'keytype': 'sign', 'generateOptions': {}, 'testOptions': {}},
  }
  options = {
      'sign': {'generateOptions': {'cryptedKeySet': ['', 'aes128']},
               'testOptions': {'class': ['verifier', 'signer'],
                               'pubKey': ['']}},
      'verify': {'generateOptions': {'cryptedKeySet': ['', 'aes128']},
                 'testOptions': {'class': ['verifier'],
                                 'pubKey': ['public']}},
      'crypt': {'generateOptions': {'class': ['crypter', 'encrypter'],
                                    'pubKey': ['']},
                'testOptions': {}},
      'encrypt': {'generateOptions': {'class': ['encrypter'],
                                      'pubKey': ['public']},
                  'testOptions': {}},
  }
  impls = {'py': ['../py/test.py'], 'jv': ['java', '-cp', 'x', 'Interop']}
  pick = {
      'crypt': (['aes', 'rsa-crypt', 'hmac'], ['encrypt', 'session']),
      'sign': (['dsa', 'hmac', 'aes'], ['sign']),
      'bare': (['hmac', 'dsa'], ['bare']),
      'all': (list(algorithms), list(operations)),
      'aes': (['aes'], ['encrypt']),
      'none': (['hmac'], ['encrypt']),
  }[which]
  if which == 'bare':
    options['sign'] = {'generateOptions': {}, 'testOptions': {'pubKey': ['']}}
    options['verify'] = {'generateOptions': {},
                         'testOptions': {'pubKey': ['public']}}
  return {'algorithms': dict((a, algorithms[a]) for a in pick[0]),
          'operations': dict((o, operations[o]) for o in pick[1]),
          'options': options, 'implementations': impls, 'ignored': []}


def lay(ctx, cfg):
  """Write the configuration files where the runner looks for them."""
  base = ctx.cwd()
  d = base + '/config'
  import os
  os.makedirs(d)
  for name, part in (('interopAlgorithms', 'algorithms'),
                     ('ignoredTests', 'ignored'), ('operations', 'operations'),
                     ('implementations', 'implementations'),
                     ('keySetOptions', 'options')):
    ctx.write('%s/%s.json' % (d, name), json.dumps(cfg[part]))


class Fleet(object):
  """Stands in for the implementations: answers and records requests."""

  def __init__(self, ctx, cfg, answer=None):
    self.ctx = ctx
    self.cfg = cfg
    self.calls = []  # (implementation, request)
    self.answer = answer
    self.made = []  # (implementation, request) of each generation

    class Suite(object):
      """Runs the tests it is given, one after another."""

      def __init__(me, *a, **k):
        pass

      def run(me, suite, *a):
        self.run_tests(suite)

    def output(args, **kw):
      return self.call(list(args))

    def run(args, **kw):
      out = self.call(list(args))
      return type('Done', (), {'returncode': 0, 'stdout': out,
                               'stderr': b''})()
    ctx.stub('subprocess.check_output', output)
    ctx.stub('subprocess.run', run)
    ctx.stub('unittest.TextTestRunner', Suite)
    self.failed = []
    self.ran = 0

  def run_tests(self, suite):
    for t in suite:
      if hasattr(t, '_testMethodName'):
        self.ran += 1
        try:
          getattr(t, t._testMethodName)()
        except Exception as e:
          self.failed.append((t._testMethodName, e))
      else:
        self.run_tests(t)

  def call(self, args):
    who = [i for i in self.cfg['implementations']
           if self.cfg['implementations'][i] == args[:-1]]
    self.ctx.check(len(who) == 1, 'command of an implementation',
                   lambda: repr(args))
    req = json.loads(args[-1])
    self.calls.append((who[0], req))
    if self.answer:
      out = self.answer(who[0], req)
      if out is not None:
        return out
    if req['command'] == 'generate':
      self.made.append((who[0], req))
      return ('{"output": "out%d"}' % (len(self.made) - 1)).encode('ascii')
    return b''


def product(*dicts):
  """Every way to pick one value for each name."""
  d = {}
  for x in dicts:
    d.update(x)
  names = sorted(d)
  return [dict(zip(names, vs))
          for vs in itertools.product(*[d[n] for n in names])]


def resolve(cfg, opts):
  signing = [a + str(s) for a in cfg['algorithms']
             for s in cfg['algorithms'][a]['keySizes']
             if cfg['algorithms'][a]['purpose'] == 'sign']
  return dict((n, signing if v == 'ALL_SIGNING_KEYS' else v)
              for n, v in opts.items())


def generations(cfg):
  """(implementation, operation, key set, its kind, options)"""
  for impl in cfg['implementations']:
    for op in cfg['operations']:
      o = cfg['operations'][op]
      for a in cfg['algorithms']:
        alg = cfg['algorithms'][a]
        if alg['purpose'] != o['keytype']:
          continue
        for s in alg['keySizes']:
          kinds = [alg['purpose']]
          if alg['asymmetric'] and alg['purpose'] == 'crypt':
            kinds.append('encrypt')
          for kind in kinds:
            for opts in product(
                cfg['options'][kind]['generateOptions'],
                resolve(cfg, o['generateOptions'])):
              yield impl, op, (a, s), kind, opts


def trials(cfg, op, a, kind):
  """(implementation, options) that a generation is tested with."""
  kinds = {'crypt': ['crypt'], 'encrypt': ['crypt'], 'sign': ['sign']}[kind]
  if kind == 'sign' and cfg['algorithms'][a]['asymmetric']:
    kinds = ['sign', 'verify']
  for impl in cfg['implementations']:
    for k in kinds:
      for opts in product(cfg['options'][k]['testOptions'],
                          resolve(cfg, cfg['operations'][op]['testOptions'])):
        yield impl, opts


def matches(rule, impl, op, name, opts):
  """Does the ignore rule apply?  (branches on the rule's strings)"""
  for want, have in ((rule['implementation'], impl), (rule['operation'], op),
                     (rule['algorithm'], name)):
    ok = False
    for x in want:
      if x == have or x == '*':
        ok = True
    if not ok:
      return False
  for n in rule['options']:
    if n == '*':
      continue
    if n not in opts:
      return False
    ok = False
    for x in rule['options'][n]:
      if x == opts[n]:
        ok = True
    if not ok:
      return False
  return True


def ignored(cfg, impl, op, name, opts):
  for rule in cfg['ignored']:
    if matches(rule, impl, op, name, opts):
      return True
  return False


def expected(cfg):
  """What has to be run: {generation: set of trials}"""
  out = {}
  for impl, op, (a, s), kind, opts in generations(cfg):
    name = a + str(s)
    if ignored(cfg, impl, op, name, opts):
      continue
    g = (impl, op, name, tuple(sorted(opts.items())))
    ts = out.setdefault(g, [])
    for timpl, topts in trials(cfg, op, a, kind):
      both = dict(topts)
      both.update(opts)
      if not ignored(cfg, timpl, op, name, both):
        ts.append((timpl, tuple(sorted(topts.items()))))
  return out
