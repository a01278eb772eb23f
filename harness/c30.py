"""Which combinations the interoperability runner runs."""
from harness import inter

INTEROP = True
BOUNDS = {
    'quick': 'configurations of 2 implementations, 2 to 4 algorithms with one '
             'or two sizes, 1 to 4 operations with 0 to 3 options of 1 to 3 '
             'values, macros; no rule, one rule whose implementation, '
             'operation, algorithm and option values are any strings of the '
             'chosen lengths (one or two per list), and two rules; '
             'configurations of 0 to 2 algorithms and operations with every '
             'purpose, symmetry and listed number of sizes, options and '
             'values; display and run',
    'thorough': 'as quick, larger configurations with rules, longer lists',
}
OUTSIDE = ('options with the same name for generating and testing; option '
           'values for which the names of two tests coincide; rules with '
           'options that are not lists')
REACH = {'plain': ['requests'], 'rules': ['requests', 'ignored something'],
         'display': ['shown'], 'shaped': ['requests']}


def run(ctx, kz, cfg):
  inter.lay(ctx, cfg)
  f = inter.Fleet(ctx, cfg)
  kz.interop.main(['--create=n'])
  return f


def judge(ctx, f, cfg):
  want = inter.expected(cfg)
  gens = {}
  for i, (impl, r) in enumerate(f.made):
    g = (impl, r['operation'], r['algorithm'],
         tuple(sorted(r['generateOptions'].items())))
    ctx.check(g not in gens, 'each once', lambda: repr(g))
    gens[g] = 'out%d' % i
  ctx.check(sorted(gens) == sorted(want), 'generations',
            lambda: 'missing %r, unexpected %r' % (
                [g for g in want if g not in gens],
                [g for g in gens if g not in want]))
  seen = dict((g, []) for g in gens)
  back = dict((v, k) for k, v in gens.items())
  for impl, r in f.calls:
    if r['command'] != 'test':
      continue
    g = back[r['output']['output']]
    seen[g].append((impl, tuple(sorted(r['testOptions'].items()))))
  for g in want:
    ctx.check(sorted(seen[g]) == sorted(want[g]), 'tests',
              lambda: '%r: %r, expected %r' % (g, seen[g], want[g]))
  ctx.reach('requests')
  return want


def plain(ctx, kz, p):
  cfg = inter.config(p['config'])
  if p.get('without'):
    for k in cfg['options'].values():
      for which in k.values():
        which.pop(p['without'], None)
  judge(ctx, run(ctx, kz, cfg), cfg)


def texts(ctx, name, lens):
  """A list of strings, each '*' or any of that length."""
  return ['*' if n == '*' else n if isinstance(n, str) else
          ctx.str('%s%d' % (name, i), n, inter.PLAIN)
          for i, n in enumerate(lens)]


def rule(ctx, i, r):
  return {'implementation': texts(ctx, 'impl%d.' % i, r['implementation']),
          'operation': texts(ctx, 'op%d.' % i, r['operation']),
          'algorithm': texts(ctx, 'alg%d.' % i, r['algorithm']),
          'options': dict((n, texts(ctx, 'opt%d.%s' % (i, n), ls)
                           if isinstance(ls, list) else ls)
                          for n, ls in r['options'].items()),
          'reason': 'a reason'}


def rules(ctx, kz, p):
  cfg = inter.config(p['config'])
  cfg['ignored'] = [rule(ctx, i, r) for i, r in enumerate(p['rules'])]
  for r in cfg['ignored']:
    for n in r['options']:
      if n != '*':
        for x in r['options'][n]:
          ctx.assume(ctx.no(ctx.eq(x, '*')))
  f = run(ctx, kz, cfg)
  want = judge(ctx, f, cfg)
  if len(want) < len(list(inter.generations(cfg))):
    ctx.reach('ignored something')


def shaped(ctx, kz, p):
  """Small configurations of every shape."""
  algs = {}
  for i in range(p['algs']):
    algs['alg%d-' % i] = {
        'purpose': ctx.choose('purpose%d' % i, ['crypt', 'sign']),
        'asymmetric': ctx.choose('asym%d' % i, [False, True]),
        'keySizes': ctx.choose('sizes%d' % i, p['sizes']),
        'createFlags': [], 'addKeyFlags': []}
  lists = [[], ['x'], ['x', 'y'], ['v%d' % i for i in range(9)]]
  ops = {}
  for i in range(p['ops']):
    g, t = {}, {}
    k = ctx.choose('g%d' % i, p['gen'])
    if k == 'macro':
      g['signer'] = 'ALL_SIGNING_KEYS'
    elif k is not None:
      g['g%d' % i] = lists[k]
    k = ctx.choose('t%d' % i, p['test'])
    if k is not None:
      t['t%d' % i] = lists[k]
    if p.get('override'):
      g['size'] = ['big', 'small']
    ops['op%d' % i] = {'keytype': ctx.choose('kind%d' % i, ['crypt', 'sign']),
                       'generateOptions': g, 'testOptions': t}
  cfg = {'algorithms': algs, 'operations': ops, 'ignored': [],
         'implementations': dict((n, [n + '.exe']) for n in p['impls']),
         'options': {
             'crypt': {'generateOptions': {'pub': ['']}, 'testOptions': {}},
             'encrypt': {'generateOptions': {'pub': ['p']},
                         'testOptions': {}},
             'sign': {'generateOptions': {'size': ['any']},
                      'testOptions': {'pub': ['']}},
             'verify': {'generateOptions': {}, 'testOptions': {'pub': ['p']}},
         }}
  judge(ctx, run(ctx, kz, cfg), cfg)


def display(ctx, kz, p):
  cfg = inter.config(p['config'])
  cfg['ignored'] = [rule(ctx, i, r) for i, r in enumerate(p['rules'])]
  inter.lay(ctx, cfg)
  f = inter.Fleet(ctx, cfg)
  kz.interop.main(['display'])
  ctx.check(not f.calls, 'only shown')
  n = sum(len(ts) for ts in inter.expected(cfg).values())
  lines = [l for l in ctx.printed if str(l).startswith('test_')]
  ctx.reach('shown')
  ctx.check(len(lines) == n and len(set(lines)) == n, 'every test shown once',
            lambda: '%d lines, %d different, %d tests' % (
                len(lines), len(set(lines)), n))


def R(i, o, a, opts):
  return {'implementation': i, 'operation': o, 'algorithm': a, 'options': opts}


def instances(tier):
  quick = tier == 'quick'
  out = []
  for c in ('crypt', 'sign', 'bare', 'all', 'aes', 'none'):
    out.append({'name': 'plain-' + c, 'fn': 'plain', 'reach': ['requests'],
                'params': {'config': c}})
    out.append({'name': 'plain-less-' + c, 'fn': 'plain',
                'params': {'config': c, 'without': 'cryptedKeySet'}})
  one = [
      ('aes', R([2], ['*'], ['*'], {'*': '*'})),
      ('aes', R(['*'], [7], ['*'], {'*': '*'})),
      ('aes', R(['*'], ['*'], [6], {'*': '*'})),
      ('aes', R([2], [7], [6], {'*': '*'})),
      ('aes', R([2], ['*'], [6], {'encoding': [7]})),
      ('aes', R([2], ['*'], ['*'], {'encoding': [9, 7]})),
      ('aes', R([1], [1], [1], {})),
      ('aes', R(['*'], ['*'], ['*'], {})),
      ('aes', R([2, 2], ['*'], [6, 6], {})),
      ('aes', R(['*'], ['*'], ['*'], {'class': [7], 'encoding': [7]})),
      ('aes', R(['*'], ['*'], ['*'], {'class': [9], 'encoding': [9]})),
      ('aes', R(['*'], ['*'], ['*'], {'class': [7], 'absent': [7]})),
      ('aes', R([2], ['*'], ['*'], {'pubKey': [0]})),
      ('aes', R(['*'], ['*'], ['*'], {'pubKey': [1]})),
      ('aes', R(['*'], ['*'], ['*'], {'encoding': []})),
      ('aes', R([], ['*'], ['*'], {})),
      ('aes', R(['*', 'py'], ['*'], ['aes128'], {'encoding': [9]})),
      ('sign', R([2], ['*'], ['*'], {'class': [8]})),
      ('sign', R(['*'], [4], [7], {'class': [6], 'encoding': [7]})),
      ('sign', R(['*'], ['*'], ['*'], {'cryptedKeySet': [6],
                                       'pubKey': [6]})),
      ('sign', R([2], ['*'], ['*'], {'how': [4]})),
      ('sign', R(['*'], ['*'], [7], {'pubKey': [6], '*': '*'})),
      ('crypt', R([2], [7], ['*'], {'signer': [7]})),
      ('crypt', R(['*'], [7], [13], {'*': '*'})),
      ('crypt', R(['*'], ['*'], [13], {'pubKey': [6]})),
      ('bare', R([2], ['*'], ['*'], {'pubKey': [6]})),
      ('bare', R([2], [4], [8], {'*': '*'})),
  ]
  if True:
    one += [('all', R([2], [7], [6], {'*': '*'})),
            ('all', R([2], ['*'], [13], {'encoding': [7]})),
            ('sign', R([2, 2], [4], [7, 8], {'class': [6, 8]})),
            ('crypt', R([2], [7], [13, 6], {'pubKey': [6], 'class': [9]})),
            ('sign', R([2], [4], [7], {'class': [6], 'encoding': [7],
                                       'cryptedKeySet': [6]}))]
  for i, (c, r) in enumerate(one):
    out.append({'name': 'rule-%s-%d' % (c, i), 'fn': 'rules', 'weight': 5,
                'reach': ['requests'],
                'params': {'config': c, 'rules': [r]}})
  two = [('aes', [R([2], ['*'], ['*'], {'encoding': [7]}),
                  R(['*'], ['*'], [6], {'*': '*'})]),
         ('aes', [R(['zz'], ['*'], ['*'], {}),
                  R([2], ['*'], ['*'], {'encoding': [9]})]),
         ('aes', [R(['*'], ['*'], ['*'], {'absent': ['x']}),
                  R(['*'], ['*'], [6], {'class': [7]})]),
         ('sign', [R(['*'], ['*'], ['*'], {'class': [6], 'pubKey': ['']}),
                   R([2], ['*'], ['dsa1024'], {'*': '*'})])]
  for i, (c, rs) in enumerate(two):
    out.append({'name': 'two-%s-%d' % (c, i), 'fn': 'rules', 'weight': 6,
                'reach': ['requests'], 'params': {'config': c, 'rules': rs}})
  for i, p in enumerate([
      {'algs': 1, 'ops': 1, 'sizes': [[], [1], [2, 1], [1, 2, 3]],
       'gen': [None, 0, 1, 2, 'macro'], 'test': [None, 0, 1, 2],
       'impls': ['a', 'b']},
      {'algs': 2, 'ops': 1, 'sizes': [[1], [2, 1]],
       'gen': [None, 2, 'macro'], 'test': [None, 2], 'impls': ['a']},
      {'algs': 1, 'ops': 2, 'sizes': [[7]], 'gen': [None, 2, 'macro'],
       'test': [None, 2], 'impls': ['a', 'b', 'c']},
      {'algs': 1, 'ops': 1, 'sizes': [[], [5]], 'gen': [None, 2],
       'test': [None, 1], 'impls': ['a', 'b'], 'override': 1},
      {'algs': 1, 'ops': 1, 'sizes': [[1024, 2048], [512, 4096, 768],
                                      [7, 70000]],
       'gen': [None, 3], 'test': [None, 3], 'impls': ['a', 'b']},
      {'algs': 1, 'ops': 1, 'sizes': [[256]], 'gen': [3], 'test': [3],
       'impls': ['a', 'b', 'c', 'd', 'e']},
      {'algs': 1, 'ops': 0, 'sizes': [[1]], 'impls': ['a']},
      {'algs': 0, 'ops': 1, 'gen': [None], 'test': [None], 'impls': ['a']},
      {'algs': 1, 'ops': 1, 'sizes': [[1]], 'gen': [2], 'test': [2],
       'impls': []}] + ([] if quick else [
           {'algs': 3, 'ops': 2, 'sizes': [[1], [1, 2]],
            'gen': [None, 'macro'], 'test': [1], 'impls': ['a', 'b']}])):
    out.append({'name': 'shaped-%d' % i, 'fn': 'shaped', 'weight': 8,
                'params': p})
  for c in ('crypt', 'sign', 'aes', 'bare'):
    for j, rs in enumerate([[], [R([2], ['*'], ['*'], {})]]):
      out.append({'name': 'display-%s-%d' % (c, j), 'fn': 'display',
                  'params': {'config': c, 'rules': rs}})
  return out
