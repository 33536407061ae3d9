"""U01: shared helpers: strict zipping, regex lists, NaN-safe product, calls given as strings, PRNG bookkeeping."""
import contextlib
import sys
import types
import jax
import jax.numpy as jnp
import numpy as np
from lib import rx, sx
from lib.engine import unwrap
from lib.runner import Case
from vmoe import utils

FUNCTIONS = ['vmoe.utils.SafeZipIterator', 'vmoe.utils.safe_zip', 'vmoe.utils.safe_map', 'vmoe.utils.make_match_fn_from_regex_list', 'vmoe.utils.multiply_no_nan',
             'vmoe.utils.parse_call', 'vmoe.utils.partialclass', 'vmoe.utils.make_rngs', 'vmoe.utils.tree_rngs_split', 'vmoe.utils.get_flops_and_seconds_per_device']
BOUNDS = {'quick': 'up to 3 iterators of every length up to 3; 19 lists of regexes against every string of up to 4 characters of an alphabet of 7; every real factor, and infinite or NaN ones; '
                   'every call text built from 4 callables, up to 2 positional and 2 named literals out of 9; up to 3 generators, every seed',
          'thorough': '4 iterators up to length 4; strings of up to 6 characters'}
OUTSIDE = 'other regexes; text that is not a call; the quality of the random numbers'
ASSUMPTIONS = ['regexes are given to a symbolic matcher following the documented semantics of `re` (compared with `re` itself on every counterexample and sample)',
               'jax.random.PRNGKey and split stand for injective functions']
ALPHABET = ['a', 'b', 'A', '1', '/', ' ', '\n']


# ------------------------------------------------------------------- zip and map
class It:
  """An iterator of symbolic length which knows how often it was asked."""

  def __init__(self, k, n):
    self.k, self.n, self.j, self.ended = k, n, 0, 0

  def __iter__(self):
    return self

  def __next__(self):
    if self.j < self.n:
      self.j += 1
      return (self.k, self.j - 1)
    self.ended += 1
    raise StopIteration


def szip(ctx, K, N, how):
  n = [ctx.int('length %d' % k, 0, N) for k in range(K)]
  its = [It(k, n[k]) for k in range(K)]
  if how == 'lists':
    its = [[(k, j) for j in range(n[k].__index__())] for k in range(K)]
  if how == 'map':
    z = utils.safe_map(lambda *a: ('f', a), *its)
  else:
    z = utils.safe_zip(*its)
  m = 0
  end = None
  while m <= N + 1:
    try:
      e = next(z)
    except StopIteration:
      end = 'stop'
      break
    except utils.SafeZipIteratorError:
      end = 'error'
      break
    ok = ('f', tuple((k, m) for k in range(K))) if how == 'map' else tuple((k, m) for k in range(K))
    ctx.prove('elements come together, in order', e == ok)
    m += 1
    if how != 'lists':
      ctx.prove('lazily', all(i.j == m and not i.ended for i in its))
  for k in range(K):
    ctx.prove('nothing is dropped and nothing is invented', sx.ge(unwrap(n[k]), m))
  ctx.prove('it goes on while every iterator does', sx.bor(False, *[sx.eq(unwrap(x), m) for x in n]) if K else m == 0)
  same = sx.band(*[sx.eq(unwrap(x), unwrap(n[0])) for x in n[1:]]) if K > 1 else True
  ctx.prove('different lengths are reported, equal ones are not', same if end == 'stop' else (sx.bnot(same) if end == 'error' else False))


# ----------------------------------------------------------------------- regexes
@contextlib.contextmanager
def fake_re(ctx):
  if not ctx.sym:
    yield
    return
  old = utils.re
  utils.re = rx.Re()
  try:
    yield
  finally:
    utils.re = old


def regex(ctx, rs, N):
  s = rx.string(ctx, 's', ALPHABET, N)
  with fake_re(ctx):
    f = utils.make_match_fn_from_regex_list(rs)
    got = f(s)
  want = sx.bor(False, *[rx.spec(ctx, r, s) for r in ([rs] if isinstance(rs, str) else rs)])
  ctx.prove('true exactly when one of the regexes is found', sx.iff(sx.to_bool(unwrap(got)), want) if ctx.sym else got == want)


def regex_none(ctx):
  for r in (None, [], (), ''):
    ctx.prove('no regexes, no function', utils.make_match_fn_from_regex_list(r) is None)


# ----------------------------------------------------------------------- product
def product(ctx, y):
  """x real, y real or not finite."""
  x = ctx.arr('x', (2,), lo=-8, hi=8)
  yy = ctx.arr('y', (2,), lo=-8, hi=8) if y is None else np.full((2,), y, np.float32)
  for i in range(2):
    if y is not None:
      # Only the value at x = 0 is promised then.
      x[i] = 0 if ctx.sym else x[i] * 0
  f = utils.multiply_no_nan
  v = ctx.run(f, x, yy)
  for i in range(2):
    want = sx.mul(x[i], yy[i]) if y is None else 0
    ctx.prove('the product, or zero when the first factor is zero', ctx.close(v[i], want))
  gx, gy = ctx.run(jax.grad(lambda x, y: f(x, y).sum(), argnums=(0, 1)), x, yy)
  for i in range(2):
    zero = sx.eq(x[i], 0)
    ctx.prove('gradients: those of the product, zero (never NaN) when the first factor is zero', sx.band(
        ctx.close(gx[i], sx.ite(zero, 0, yy[i]) if y is None else 0), ctx.close(gy[i], x[i])))


# ------------------------------------------------------------------------- calls
LIT = ["3", "-1", "'a, b=(c)'", "(1, 2)", "[0.5]", "{'k': None}", "True", "''", "1e-3"]


@contextlib.contextmanager
def modules():
  made = {}
  for n in ('u01_pkg', 'u01_pkg.sub', 'u01_default'):
    made[n] = types.ModuleType(n)
    made[n].Thing = type('Thing', (), {'where': n})
  made['u01_pkg'].sub = made['u01_pkg.sub']
  made['u01_pkg'].__path__ = []
  sys.modules.update(made)
  try:
    yield made
  finally:
    for n in made:
      sys.modules.pop(n, None)


def call(ctx):
  by_name = ctx.choice('default by name', [False, True])
  callee, where = ctx.choice('callee', [('Thing', 'u01_default'), ('u01_pkg.Thing', 'u01_pkg'), ('u01_pkg.sub.Thing', 'u01_pkg.sub')])
  form = ctx.choice('form', ['bare', 'call'])
  args, kw = [], {}
  if form == 'call':
    na, nk = ctx.choice('positional', [0, 1, 2]), ctx.choice('named', [0, 1])
    args = [ctx.choice('a%d' % i, LIT) if i == 0 else LIT[3] for i in range(na)]
    kw = {('alpha', 'beta')[i]: ctx.choice('k%d' % i, LIT) for i in range(nk)}
    if kw:
      kw['name'] = "'Thing'"
    sp = ctx.choice('spaces', ['', ' '])
    text = callee + '(' + (',' + sp).join(args + ['%s=%s' % i for i in kw.items()]) + ')'
  else:
    text = callee
  with modules() as mods:
    f, a, k = utils.parse_call(text, 'u01_default' if by_name else mods['u01_default'])
  ctx.prove('the callable named', f is mods[where].Thing)
  ctx.prove('the arguments given', type(a) is tuple and list(map(repr, a)) == [repr(eval(x)) for x in args] and {n: repr(v) for n, v in k.items()} == {n: repr(eval(v)) for n, v in kw.items()})


def call_bad(ctx):
  t = ctx.choice('text', ['f().g()', 'f()()', '1', "'f'", 'f(x)', 'f(k=x)', 'f(g())', 'f[0]', 'u01_pkg.sub().Thing(1)', 'lambda: 0', '[f][0](1)', 'u01_pkg.missing', 'u01_none.Thing'])
  with modules() as mods:
    mods['u01_default'].f = lambda *a, **k: mods['u01_default']
    mods['u01_default'].g = mods['u01_default'].f
    try:
      utils.parse_call(t, mods['u01_default'])
      bad = False
    except (ValueError, AttributeError, ImportError):
      bad = True
  ctx.prove('anything else is refused', bad)


def partial(ctx):
  vals = {k: ctx.int(k, -5, 5) for k in ('a', 'b', 'c', 'd', 'e')}
  seen = []

  class Base:
    flag = 7

    def __init__(self, *args, **kw):
      seen.append((args, kw))

    def who(self):
      return self.flag
  C = utils.partialclass(Base, vals['a'], x=vals['b'], y=vals['c'])
  o = C(vals['d'], y=vals['e'])
  p = C()
  ctx.prove('a subclass', issubclass(C, Base) and isinstance(o, Base) and o.who() == 7)
  ctx.prove('given arguments first, given keywords unless overridden', len(seen) == 2 and seen[0][0] == (vals['a'], vals['d']) and seen[0][1] == {'x': vals['b'], 'y': vals['e']})
  ctx.prove('each use starts from the given ones', seen[1][0] == (vals['a'],) and seen[1][1] == {'x': vals['b'], 'y': vals['c']})


# -------------------------------------------------------------------------- keys
class Key:
  """A term: ('seed', s) or ('split', key, i)."""

  def __init__(self, *t):
    self.t = t

  def same(self, o):
    if not isinstance(o, Key) or self.t[0] != o.t[0]:
      return False
    if self.t[0] == 'seed':
      return sx.eq(unwrap(self.t[1]), unwrap(o.t[1]))
    return sx.band(self.t[1].same(o.t[1]), self.t[2:] == o.t[2:])


class Keys:

  def __init__(self, k, n):
    self.k, self.n = k, n

  def __getitem__(self, i):
    i = max(0, min(i + self.n if i < 0 else i, self.n - 1))  # As jax does.
    return Key('split', self.k, i, self.n)

  def __iter__(self):
    return (self[i] for i in range(self.n))

  def __len__(self):
    return self.n


@contextlib.contextmanager
def fake_random():
  old = jax.random.PRNGKey, jax.random.split, jax.random.key
  jax.random.PRNGKey = lambda s: Key('seed', s)
  jax.random.key = jax.random.PRNGKey
  used = []
  jax.random.split = lambda k, n=2: used.append(k) or Keys(k, n)
  try:
    yield used
  finally:
    jax.random.PRNGKey, jax.random.split, jax.random.key = old


def differ(ctx, keys):
  return sx.band(True, *[sx.bnot(a.same(b)) for i, a in enumerate(keys) for b in keys[:i]])


def rngs(ctx, n):
  s, t = ctx.int('seed', 0, 2**31 - 1), ctx.int('other seed', 0, 2**31 - 1)
  names = ('params', 'dropout', 'gating')[:n]
  with fake_random() as used:
    a, b, c = utils.make_rngs(names, s), utils.make_rngs(names, s), utils.make_rngs(names, t)
  ctx.prove('one generator for each name', list(a) == list(names))
  if not n:
    return
  ks = list(a.values())
  ctx.prove('all different', differ(ctx, ks))
  ctx.prove('none that was already used to derive others', sx.band(True, *[sx.bnot(k.same(u)) for k in ks for u in used]))
  ctx.prove('a function of the seed', sx.band(*[x.same(y) for x, y in zip(ks, b.values())]))
  ctx.prove('a different one for each seed', sx.bor(sx.eq(unwrap(s), unwrap(t)), sx.band(*[sx.bnot(x.same(y)) for x, y in zip(ks, c.values())])))


def split(ctx, n, m):
  names = ('params', 'dropout', 'gating')[:n]
  tree = {k: Key('seed', ctx.int(k, 0, 100)) for k in names}
  tree = {'a': tree, 'b': [Key('seed', ctx.int('extra', 200, 300))]}
  with fake_random():
    parts = utils.tree_rngs_split(tree, m) if m != 2 else utils.tree_rngs_split(tree)
  ctx.prove('as many trees as asked', isinstance(parts, tuple) and len(parts) == m)
  leaves = [(list(p['a']), [*p['a'].values(), *p['b']]) for p in parts]
  ctx.prove('of the same structure', all(l[0] == sorted(names) or l[0] == list(names) for l in leaves) and all(len(l[1]) == n + 1 for l in leaves))
  for j in range(n + 1):
    old = [tree['a'][k] for k in leaves[0][0]] + tree['b']
    ctx.prove('new generators come from the one in the same place, and differ from it and from each other', sx.band(
        differ(ctx, [l[1][j] for l in leaves] + [old[j]]), *[l[1][j].t[0] == 'split' and l[1][j].t[1].same(old[j]) for l in leaves]))


def flops(ctx):
  d = {}
  for k in ('flops', 'optimal_seconds'):
    if ctx.choice(k + ' present', [True, False]):
      d[k] = ctx.real(k + ' value', -4, 4)
  got = utils.get_flops_and_seconds_per_device(types.SimpleNamespace(cost_analysis=lambda: dict(d)))
  for k, g in zip(('flops', 'optimal_seconds'), got):
    v = unwrap(d[k]) if k in d else None
    if g is None:
      ctx.prove('unknown when absent or not positive', True if v is None else sx.le(v, 0))
    else:
      ctx.prove('the value reported by the compiler when positive', v is not None and sx.band(sx.eq(unwrap(g), v), sx.gt(v, 0)))


REGEXES = [['a'], ['ab', 'b1'], ['a|b', '1'], ['^a', 'b$'], ['a+b?$', '[^ab1]'], ['(a)b', r'(b)\1'], [r'(a|b)\1', r'(A)(1)\2', r'(/)\1'], ['(?P<x>a)1', '(?P<x>b)/'],
           ['(?i)ab', '1'], ['b', '(?i)a1'], 'a|b1', 'ab', ['', 'a'], ['b.*a', r'\s1'], [r'\ba\b', r'/[ab]?/'], ['a', '^b', '1$'], ('^(?:a|b)/', '^$'), ['(?s)a.b'], ['a # b', '(?x) a # b']]


def cases(tier):
  q = tier == 'quick'
  out = [Case(szip, K=K, N=3 if q else 4, how=how) for K in (range(4) if q else range(5)) for how in ('zip', 'map', 'lists')]
  out += [Case(regex, rs=r, N=4 if q else 6) for r in REGEXES] + [Case(regex_none)]
  out += [Case(product, y=y) for y in (None, float('inf'), float('-inf'), float('nan'))]
  out += [Case(call), Case(call_bad), Case(partial)]
  out += [Case(rngs, n=n) for n in range(4)] + [Case(split, n=n, m=m) for n in range(4 if not q else 3) for m in (1, 2, 3)]
  out += [Case(flops)]
  return out
