"""M02: which assignments are dropped under capacity pressure (priority order)."""
import numpy as np
from lib import sx
from lib.moe_h import count
from lib.runner import Case
from checks.m01 import route

FUNCTIONS = ['vmoe.moe.get_top_experts_per_item_dispatcher (einsum, indices; vanilla and batch priority)']
BOUNDS = {
    'quick': 'all gates in [0,1] with no ties inside an item (and, for batch priority, no ties between '
             'the items\' largest gates); sizes in the cases listed, up to 5 items x 3 experts',
    'thorough': 'as quick, up to 6 items x 4 experts, K<=3',
}
OUTSIDE = 'ties (resolution unspecified), larger groups, NaN, float rounding'
ASSUMPTIONS = ['gates are finite reals in [0,1] without the ties above',
               'floating point arithmetic read as real arithmetic']


def harness(ctx, S, E, K, C, bpr, name):
  gates = ctx.arr('gates', (S, E), lo=0, hi=1)
  for s in range(S):
    for e in range(E):
      for f in range(e):
        ctx.assume(sx.ne(gates[s, e], gates[s, f]))
  top = []
  for s in range(S):
    m = gates[s, 0]
    for e in range(1, E):
      m = sx.smax(m, gates[s, e])
    top.append(m)
  if bpr:
    for s in range(S):
      for t in range(s):
        ctx.assume(sx.ne(top[s], top[t]))
  D, _ = ctx.run(lambda g: route(g, name, K, C, bpr), gates)
  # Specification: rank of expert e in item s's own preference list.
  rank = [[count(sx.gt(gates[s, f], gates[s, e]) for f in range(E) if f != e)
           for e in range(E)] for s in range(S)]
  dropped_any = False
  for s in range(S):
    for e in range(E):
      chosen = sx.lt(rank[s][e], K)
      ahead = []
      for t in range(S):
        if t == s:
          continue
        first = sx.gt(top[t], top[s]) if bpr else (t < s)
        prio = sx.bor(sx.lt(rank[t][e], rank[s][e]),
                      sx.band(sx.eq(rank[t][e], rank[s][e]), first))
        ahead.append(sx.band(sx.lt(rank[t][e], K), prio))
      expected = sx.band(chosen, sx.lt(count(ahead), C))
      got = sx.ge(sx.sumall(D[e, :, s]), 1)
      dropped_any = sx.bor(dropped_any, sx.band(chosen, sx.bnot(got)))
      ctx.prove('a choice is dropped iff higher-priority choices fill the buffer',
                sx.iff(got, expected))
  if S * K > C * E or S > C:
    ctx.cover('some choice is dropped', dropped_any)


def cases(tier):
  q = [(3, 2, 1, 1), (3, 2, 2, 2), (4, 3, 2, 2), (4, 2, 2, 3), (5, 3, 2, 2), (3, 3, 3, 2)]
  if tier == 'thorough':
    q += [(4, 4, 2, 1), (5, 3, 3, 3), (6, 3, 2, 2), (5, 4, 3, 2), (6, 2, 1, 2)]
  out = []
  for S, E, K, C in q:
    for bpr in (False, True):
      for name in ('einsum', 'indices'):
        out.append(Case(harness, S=S, E=E, K=K, C=C, bpr=bpr, name=name))
  return out
