"""M05: top-items-per-expert routing is perfectly balanced and picks the best items."""
import math
import jax
import numpy as np
import vmoe.moe
from lib import sx
from lib.moe_h import observe, isin01, count
from lib.runner import Case

FUNCTIONS = ['vmoe.moe.get_top_items_per_expert_dispatcher', 'EinsumDispatcher.dispatch/combine']
BOUNDS = {'quick': 'all gates in [0,1] incl. ties; (items, experts, capacity) up to 4x4', 'thorough': 'up to 6x4'}
OUTSIDE = 'larger sizes, capacity > group size (raises), NaN, float rounding'
ASSUMPTIONS = ['floating point read as real arithmetic']


def harness(ctx, S, E, C):
  gates = ctx.arr('gates', (S, E), lo=0, hi=1)

  def f(g):
    disp, metrics = jax.vmap(lambda x: vmoe.moe.get_top_items_per_expert_dispatcher(
        x, name='einsum', capacity=C))(g[None])
    return observe(disp, S, E) + (metrics,)
  D, W, metrics = ctx.run(f, gates)
  ctx.prove('buffer has exactly the given capacity', D.shape == (E, C, S))
  sel = [[sx.sumall(D[e, :, s]) for e in range(E)] for s in range(S)]
  ctx.cover('first item not selected by expert 0', sx.eq(sel[0][0], 0) if C < S else True)
  for e in range(E):
    for c in range(C):
      ctx.prove('dispatch is 0/1', sx.band(*[isin01(D[e, c, s]) for s in range(S)]))
      ctx.prove('exactly one item per slot', sx.eq(sx.sumall(D[e, c]), 1))
    for s in range(S):
      ctx.prove('an item takes at most one slot of an expert', sx.le(sel[s][e], 1))
      for t in range(S):
        if t != s:
          ctx.prove('every processed item scores at least as high as every ignored one',
                    sx.implies(sx.band(sx.eq(sel[s][e], 1), sx.eq(sel[t][e], 0)), sx.ge(gates[s, e], gates[t, e])))
      for c in range(C):
        ctx.prove('combine weight is the gate of the pair (zero when not dispatched)',
                  ctx.close(W[s, e, c], sx.ite(sx.eq(D[e, c, s], 1), gates[s, e], 0)))
  # Metrics.
  n = [sx.sumall(sel[s]) for s in range(S)]
  mx, mn = n[0], n[0]
  for v in n[1:]:
    mx, mn = sx.smax(mx, v), sx.smin(mn, v)
  m = {k: v[0] for k, v in metrics.items()}
  ctx.prove('metric: max experts per item', sx.eq(m['num_experts_per_item_max'], mx))
  ctx.prove('metric: min experts per item', sx.eq(m['num_experts_per_item_min'], mn))
  for k, v in m.items():
    if k.startswith('ratio_processed_items_by_at_least_'):
      t = int(k.split('_')[-2])
      ctx.prove('metric: ratio of items processed by at least t experts',
                ctx.close(sx.mul(v, S), count(sx.ge(x, t) for x in n)))
  for name, f in (('min_selected_gate', lambda a, b: sx.le(a, b)), ('max_selected_gate', lambda a, b: sx.ge(a, b))):
    picked = [(sx.eq(sel[s][e], 1), gates[s, e]) for s in range(S) for e in range(E)]
    ctx.prove('metric: %s bounds all selected gates' % name, sx.band(*[
        sx.implies(p, f(m[name], g)) for p, g in picked]))
    ctx.prove('metric: %s is a selected gate' % name, sx.bor(*[
        sx.band(p, ctx.close(m[name], g)) for p, g in picked]))
  ts = set([2**i for i in range(int(math.log2(E)) + 1)] + [E])
  ctx.prove('metric: one ratio per power of two and for all experts',
            set('ratio_processed_items_by_at_least_%d_experts' % t for t in ts) <= set(m))


def cases(tier):
  q = [(2, 2, 1), (3, 2, 2), (3, 3, 1), (4, 2, 2), (3, 2, 3), (3, 4, 1), (4, 3, 2)]
  if tier == 'thorough':
    q += [(5, 3, 2), (6, 2, 3), (5, 4, 2), (4, 5, 1), (4, 4, 3)]
  return [Case(harness, S=S, E=E, C=C) for S, E, C in q]
