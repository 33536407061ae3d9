"""P02: each array gets the partition spec of the first matching pattern; arrays of at most one element are replicated; structure kept."""
import contextlib
import re as real_re
import types as pytypes
import flax
import jax
import numpy as np
import optax
from lib import sx
from lib.engine import unwrap
from lib.runner import Case
from lib.shadow import shadow
from vmoe import partitioning
from vmoe.train.train_state import TrainState

FUNCTIONS = ['vmoe.partitioning.tree_axis_resources_from_regexes', 'vmoe.partitioning.parse_partition_spec', 'vmoe.partitioning.with_sharding_constraint']
BOUNDS = {'quick': 'four leaves (dict, FrozenDict or TrainState) of symbolic shape (rank 0-3, sides 0..4), three patterns whose match against each leaf name is a free '
                   'variable (search, match and fullmatch distinguished), three ways of writing a spec; concrete names against eight concrete patterns',
          'thorough': 'sides 0..16, four patterns'}
OUTSIDE = 'parameter names containing "/"; more leaves (they are handled independently)'
ASSUMPTIONS = ['the re module is a stub: which pattern matches which name is symbolic']
P = partitioning.PartitionSpec


class Leaf:
  """An array of symbolic shape."""

  def __init__(self, shape):
    self.shape = shape
    self.ndim = len(shape)
    self.dtype = np.dtype('float32')
    n = 1
    for d in shape:
      n = d * n
    self.size = n


class FakeRe:
  """fullmatch implies match implies search; each is otherwise free."""

  def __init__(self, ctx):
    self.ctx = ctx
    self.tab = {}

  def m(self, pat, key):
    k = (pat, key)
    if k not in self.tab:
      i = len(self.tab)
      s, m, f = [self.ctx.bool('%s_%s_%s' % (w, pat, key.replace('/', '_'))) for w in ('search', 'match', 'full')]
      self.ctx.assume(sx.implies(unwrap(f), unwrap(m)))
      self.ctx.assume(sx.implies(unwrap(m), unwrap(s)))
      self.tab[k] = s, m, f
    return self.tab[k]

  def _r(self, b):
    return pytypes.SimpleNamespace(group=lambda *a: '', span=lambda: (0, 0)) if b else None

  def compile(self, pat, flags=0):
    if isinstance(pat, pytypes.SimpleNamespace):
      return pat
    return pytypes.SimpleNamespace(pattern=pat, search=lambda key: self.search(pat, key), match=lambda key: self.match(pat, key),
                                   fullmatch=lambda key: self.fullmatch(pat, key))

  def _p(self, pat):
    return pat.pattern if isinstance(pat, pytypes.SimpleNamespace) else pat

  def search(self, pat, key):
    return self._r(self.m(self._p(pat), key)[0])

  def match(self, pat, key):
    return self._r(self.m(self._p(pat), key)[1])

  def fullmatch(self, pat, key):
    return self._r(self.m(self._p(pat), key)[2])


@contextlib.contextmanager
def fake_re(ctx):
  r = FakeRe(ctx)
  real = partitioning.re
  partitioning.re = r
  try:
    with shadow(partitioning):
      yield r
  finally:
    partitioning.re = real


def leaves(ctx, ranks, hi):
  return [Leaf(tuple(ctx.int('n%d_%d' % (i, j), 0, hi) for j in range(r))) for i, r in enumerate(ranks)]


def check(ctx, r, name, leaf, got, pats, specs):
  want = P()
  big = leaf.size > 1
  ok = False
  # First matching pattern, only for arrays of more than one element.
  none = True
  for pat, spec in zip(pats, specs):
    hit = sx.band(none, unwrap(r.m(pat, name)[0]))
    ok = sx.bor(ok, sx.band(unwrap(big), hit, got == spec))
    none = sx.band(none, sx.bnot(unwrap(r.m(pat, name)[0])))
  ok = sx.bor(ok, sx.band(sx.bor(none, sx.bnot(unwrap(big))), got == P()))
  ctx.prove('spec of the first matching pattern, replicated if none matches or at most one element', sx.band(isinstance(got, P), ok))


SPECS = [('expert', P('expert')), ((None, ('expert', 'replica')), P(None, ('expert', 'replica'))), (P('replica'), P('replica')), (['expert', None], P('expert', None))]


def dicts(ctx, frozen, ranks, npat, hi):
  ls = leaves(ctx, ranks, hi)
  tree = {'a': {'kernel': ls[0], 'bias': ls[1]}, 'b': ls[2], 'none': {}}
  if frozen:
    tree = flax.core.freeze(tree)
  pats = ['p%d' % i for i in range(npat)]
  with fake_re(ctx) as r:
    out = partitioning.tree_axis_resources_from_regexes(tree=tree, axis_resources_regexes=[(p, s[0]) for p, s in zip(pats, SPECS)])
    ctx.prove('the structure of the tree is kept', type(out) is type(tree) and set(out) == {'a', 'b', 'none'} and set(out['a']) == {'kernel', 'bias'} and dict(out['none']) == {})
    for name, leaf, got in (('a/kernel', ls[0], out['a']['kernel']), ('a/bias', ls[1], out['a']['bias']), ('b', ls[2], out['b'])):
      check(ctx, r, name, leaf, got, pats, [s[1] for s in SPECS])


def state(ctx, ranks, hi):
  """A whole train state: step, parameters and the optimizer's copies."""
  ls = leaves(ctx, ranks, hi)
  kern, mu, step = ls
  st = TrainState(step=step, apply_fn=None, params={'w': kern}, tx=optax.identity(), opt_state=(optax.TraceState(trace={'w': mu}), optax.EmptyState()), rngs={})
  pats = ['p0', 'p1']
  with fake_re(ctx) as r:
    out = partitioning.tree_axis_resources_from_regexes(tree=st, axis_resources_regexes=[(p, s[0]) for p, s in zip(pats, SPECS)])
    ctx.prove('the structure of the tree is kept', isinstance(out, TrainState) and isinstance(out.opt_state[0], optax.TraceState) and isinstance(out.opt_state[1], optax.EmptyState))
    for name, leaf, got in (('step', step, out.step), ('params/w', kern, out.params['w']), ('opt_state/0/trace/w', mu, out.opt_state[0].trace['w'])):
      check(ctx, r, name, leaf, got, pats, [s[1] for s in SPECS])


NAMES = ['params/Encoder/encoderblock_1/Moe/Mlp/Dense_0/kernel', 'opt_state/0/mu/Moe/Router/dense/kernel', 'Moe/x', 'params/Emoe/b']
PATS = ['Moe/Mlp/.*', 'Moe', '^Moe', 'Moe/.*/kernel$', '.*Router.*', 'encoderblock_\\d+/', 'Mo', '(?i)moe']


def concrete(ctx):
  """The real regular expressions."""
  name = ctx.choice('name', NAMES)
  i, j = ctx.choice('first', list(range(len(PATS)))), ctx.choice('second', list(range(len(PATS))))
  leaf = Leaf((ctx.int('rows', 0, 3), 2))
  tree = {}
  d = tree
  for k in name.split('/')[:-1]:
    d = d.setdefault(k, {})
  d[name.split('/')[-1]] = leaf
  with shadow(partitioning):
    out = partitioning.tree_axis_resources_from_regexes(tree=tree, axis_resources_regexes=((PATS[i], 'expert'), (PATS[j], ('replica',))))
  for k in name.split('/'):
    out = out[k]
  m = [bool(real_re.compile(PATS[k]).search(name)) for k in (i, j)]
  want = P('expert') if m[0] else P('replica') if m[1] else P()
  ctx.prove('patterns are searched anywhere in the full name', sx.ite(unwrap(leaf.shape[0] >= 1), out == want, out == P()))


def unsharded(ctx):
  """Without a mesh, or without a spec, the sharding constraint is the identity."""
  x = ctx.arr('x', (2, 3), lo=-8, hi=8)
  for spec in (P('expert'), None):
    y = ctx.run(lambda v: partitioning.with_sharding_constraint(v, spec), x)
    ctx.prove('values are unchanged', sx.allof([sx.eq(a, b) for a, b in zip(y.flat, x.flat)]))
  mesh = jax.sharding.Mesh(np.asarray(jax.devices()[:1]).reshape(1, 1), ('expert', 'replica'))
  with mesh:
    for spec in (P('expert'), P(None, ('expert', 'replica')), None):
      y = ctx.run(lambda v: partitioning.with_sharding_constraint(v, spec), x)
      ctx.prove('values are unchanged', sx.allof([sx.eq(a, b) for a, b in zip(y.flat, x.flat)]))


def cases(tier):
  hi = 4 if tier == 'quick' else 16
  out = [Case(dicts, frozen=f, ranks=r, npat=2, hi=hi) for f in (False, True) for r in ((2, 1, 3), (0, 2, 1))]
  out += [Case(dicts, frozen=False, ranks=(1, 0, 0), npat=3 if tier == 'quick' else 4, hi=hi), Case(state, ranks=(2, 1, 0), hi=hi), Case(concrete), Case(unsharded)]
  return out
