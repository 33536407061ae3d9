"""M04: the einsum and the indices implementation route identically."""
import jax
import jax.numpy as jnp
import numpy as np
import vmoe.moe
from lib import sx
from lib.runner import Case

FUNCTIONS = ['vmoe.moe.get_top_experts_per_item_dispatcher(einsum | indices)',
             'dispatch', 'combine']
BOUNDS = {'quick': 'all gates in [0,1] incl. ties, all per-expert scalar expert functions; 1-2 groups, up to 4x3',
          'thorough': 'as quick, up to 5 items x 4 experts, 2 groups'}
OUTSIDE = 'larger sizes, float rounding, NaN'
ASSUMPTIONS = ['floating point arithmetic read as real arithmetic',
               'expert e computes x -> scale[e] * x (experts act item-wise)']


def harness(ctx, G, S, E, K, C, bpr):
  gates = ctx.arr('gates', (G, S, E), lo=0, hi=1)
  scale = [3, 5, 7, 11, 13][:E]     # distinct experts

  def f(name):
    def g(gates):
      disp = jax.vmap(lambda x: vmoe.moe.get_top_experts_per_item_dispatcher(
          x, name=name, num_selected_experts=K, batch_priority=bpr, capacity=C))(gates)
      eye = jnp.broadcast_to(jnp.eye(S, dtype=jnp.float32), (G, S, S))
      d = disp.dispatch(eye)
      # Which expert processes which item (any slot), per expert and item.
      d = d.reshape(E, G * C, S).sum(1)
      # Response of every item to every item's data through all the experts.
      y = disp.dispatch(eye) * jnp.asarray(scale, jnp.float32)[:, None, None]
      out = disp.combine(y)
      return d, out
    return g
  d1, o1 = ctx.run(f('einsum'), gates)
  d2, o2 = ctx.run(f('indices'), gates)
  ctx.cover('an item is processed', sx.gt(d1[0, 0], 0))
  for i in np.ndindex(*d1.shape):
    ctx.prove('same items reach the same experts', sx.eq(d1[i], d2[i]))
  for i in np.ndindex(*o1.shape):
    ctx.prove('same combined output', ctx.close(o1[i], o2[i]))


def cases(tier):
  q = [(1, 3, 2, 1, 1), (1, 3, 2, 2, 2), (1, 3, 3, 2, 1), (2, 2, 2, 2, 1)]
  if tier == 'thorough':
    q += [(1, 4, 3, 2, 2), (2, 3, 2, 2, 2), (3, 2, 2, 1, 1), (1, 4, 4, 2, 1)]
  return [Case(harness, G=G, S=S, E=E, K=K, C=C, bpr=b)
          for G, S, E, K, C in q for b in (False, True)]
