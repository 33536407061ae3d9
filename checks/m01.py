"""M01: Top-experts-per-item routing respects K, capacity and slot uniqueness."""
import jax
import numpy as np
import vmoe.moe
from lib import sx
from lib.moe_h import observe, isin01, count
from lib.runner import Case

FUNCTIONS = ['vmoe.moe.get_top_experts_per_item_dispatcher', 'EinsumDispatcher.dispatch/combine',
             'ExpertIndicesDispatcher.dispatch/combine']
BOUNDS = {
    'quick': 'all gates in [0,1] (ties included); (items,experts,K,capacity) in the cases listed, up to 4x3',
    'thorough': 'as quick, up to 5 items x 4 experts, K<=3',
}
OUTSIDE = 'larger groups, more experts, NaN gates, float rounding (gates are exact reals)'
ASSUMPTIONS = ['gates are finite reals in [0,1]', 'floating point arithmetic read as real arithmetic']


def route(gates, name, K, C, bpr):
  disp = jax.vmap(lambda g: vmoe.moe.get_top_experts_per_item_dispatcher(
      g, name=name, num_selected_experts=K, batch_priority=bpr, capacity=C))(gates[None])
  return observe(disp, *gates.shape)


def harness(ctx, S, E, K, C, bpr, name):
  gates = ctx.arr('gates', (S, E), lo=0, hi=1)
  D, W = ctx.run(lambda g: route(g, name, K, C, bpr), gates)
  ctx.prove('buffer has exactly the given capacity', D.shape == (E, C, S))
  ctx.cover('some item is dispatched', sx.ne(D[0, 0, 0], 0))
  for e in range(E):
    for c in range(C):
      ctx.prove('dispatch is 0/1', sx.band(*[isin01(D[e, c, s]) for s in range(S)]))
      ctx.prove('at most one item per buffer slot', sx.le(sx.sumall(D[e, c]), 1))
  for s in range(S):
    ctx.prove('at most K experts per item', sx.le(sx.sumall(D[:, :, s].ravel()), K))
    for e in range(E):
      inside = sx.sumall(D[e, :, s])
      ctx.prove('item is in at most one slot of an expert', sx.le(inside, 1))
      better = count(sx.gt(gates[s, f], gates[s, e]) for f in range(E) if f != e)
      ctx.prove('only top-K experts process an item', sx.implies(sx.ge(inside, 1), sx.lt(better, K)))
      for c in range(C):
        ctx.prove('combine weight is the gate of the pair (zero when not dispatched)',
                  ctx.close(W[s, e, c], sx.ite(sx.eq(D[e, c, s], 1), gates[s, e], 0)))


def cases(tier):
  q = [(3, 2, 1, 1), (3, 2, 2, 2), (4, 3, 2, 2), (2, 3, 3, 1)]
  if tier == 'thorough':
    q += [(4, 3, 3, 2), (4, 4, 2, 1), (5, 3, 1, 2), (5, 3, 2, 3), (5, 2, 2, 2), (1, 4, 4, 4)]
  out = []
  for S, E, K, C in q:
    for bpr in (False, True):
      for name in ('einsum', 'indices'):
        out.append(Case(harness, S=S, E=E, K=K, C=C, bpr=bpr, name=name))
  return out
