"""M03: dispatch/combine deliver every item to its experts and back, per group."""
import itertools
import jax
import jax.numpy as jnp
import numpy as np
import vmoe.moe
from lib import sx
from lib.runner import Case

FUNCTIONS = ['vmoe.moe.DenseEinsumDispatcher', 'vmoe.moe.EinsumDispatcher',
             'vmoe.moe.ExpertIndicesDispatcher', 'vmoe.moe.Bfloat16Dispatcher',
             'vmoe.moe.get_dense_einsum_dispatcher']
BOUNDS = {'quick': 'arbitrary real combine/dispatch weights and data; groups x items x experts x capacity in the cases '
                   '(both group%experts==0 and !=0), data of rank 2-3; indices arbitrary incl. over-capacity',
          'thorough': 'as quick with up to 6 groups, 3 experts, 3 items, 2 slots'}
OUTSIDE = 'larger sizes, float/bfloat16 rounding, actual multi-device layout (sharding constraints are value-preserving by JAX contract)'
ASSUMPTIONS = ['floating point read as real arithmetic',
               'expert e computes x -> scale[e]*x + bias[e]*1 item-wise, with scale/bias distinct symbolic per expert']


def apply_experts(x, scale, bias):
  sh = (x.shape[0],) + (1,) * (x.ndim - 1)
  return x * scale.reshape(sh) + bias.reshape(sh)


def wrapb(d, bf16):
  return vmoe.moe.Bfloat16Dispatcher(d) if bf16 else d


def einsum(ctx, G, S, E, C, item, bf16=False, soft=True):
  w = ctx.arr('w', (G, S, E, C))
  data = ctx.arr('data', (G, S) + tuple(item))
  scale = ctx.arr('scale', (E,))
  bias = ctx.arr('bias', (E,))
  if soft:
    d = ctx.arr('d', (G, S, E, C))
    dv = d
  else:
    d = ctx.arr('d', (G, S, E, C), dtype='bool')
    dv = np.vectorize(lambda b: sx.as_fd(b) if not isinstance(b, bool) else int(b), otypes=[object])(d)

  def f(w, d, data, scale, bias):
    disp = wrapb(vmoe.moe.EinsumDispatcher(combine_weights=w, dispatch_weights=d), bf16)
    x = disp.dispatch(data)
    return x, disp.combine(apply_experts(x, scale, bias))
  x, out = ctx.run(f, w, d, data, scale, bias)
  ctx.prove('expert buffers have shape (experts, groups*capacity, ...)', x.shape == (E, G * C) + tuple(item))
  if bf16:
    ctx.prove('dtype is preserved', ctx.dtypes[id(out)] == 'float32' and ctx.dtypes[id(x)] == 'float32')
  tol = 0.05 if bf16 else 1e-3
  ctx.prove('output has the shape of the input', out.shape == data.shape)
  for i in np.ndindex(*data.shape):
    g, s, it = i[0], i[1], i[2:]
    exp = sx.sumall(
        sx.mul(w[g, s, e, c], sx.add(sx.mul(scale[e], sx.sumall(
            sx.mul(dv[g, t, e, c], data[(g, t) + it]) for t in range(S))), bias[e]))
        for e in range(E) for c in range(C))
    ctx.prove('item receives exactly the weighted outputs of its own slots', ctx.close(out[i], exp, tol))


def einsum_default(ctx, G, S, E, C):
  """Without dispatch weights, exactly the positive combine weights dispatch."""
  w = ctx.arr('w', (G, S, E, C), lo=-2, hi=2)
  data = ctx.arr('data', (G, S), lo=-4, hi=4)
  consts = [2, 3, 5][:E]

  def f(w, data):
    disp = vmoe.moe.EinsumDispatcher(combine_weights=w)
    x = disp.dispatch(data)
    return disp.combine(x * 0 + jnp.asarray(consts, jnp.float32)[:, None]), x.sum(1)
  out, tot = ctx.run(f, w, data)
  for g in range(G):
    for s in range(S):
      exp = sx.sumall(sx.mul(consts[e], w[g, s, e, c]) for e in range(E) for c in range(C))
      ctx.prove('combine uses the combine weights', ctx.close(out[g, s], exp))
  for e in range(E):
    exp = sx.sumall(sx.ite(sx.gt(w[g, s, e, c], 0), data[g, s], 0)
                    for g in range(G) for s in range(S) for c in range(C))
    ctx.prove('expert e processes exactly the items with positive weight', ctx.close(tot[e], exp))


def dense(ctx, G, S, E, item, bf16=False):
  w = ctx.arr('w', (G, S, E))
  data = ctx.arr('data', (G, S) + tuple(item))
  scale = ctx.arr('scale', (E,))
  bias = ctx.arr('bias', (E,))

  def f(w, data, scale, bias):
    disp = wrapb(vmoe.moe.get_dense_einsum_dispatcher(w), bf16)
    x = disp.dispatch(data)
    return x, disp.combine(apply_experts(x, scale, bias))
  x, out = ctx.run(f, w, data, scale, bias)
  ctx.prove('every expert gets every item', x.shape == (E, G * S) + tuple(item))
  for i in np.ndindex(*data.shape):
    g, s, it = i[0], i[1], i[2:]
    exp = sx.sumall(sx.mul(w[g, s, e], sx.add(sx.mul(scale[e], data[i]), bias[e])) for e in range(E))
    ctx.prove('item receives the weighted outputs of all experts', ctx.close(out[i], exp, 0.05 if bf16 else 1e-3))


def indices(ctx, G, S, E, C, K, item, sym, bf16=False):
  """sym='data': arbitrary data, fixed distinct weights; sym='w': the converse."""
  eidx = ctx.arr('expert', (G, S, K), dtype='int32', lo=0, hi=E - 1)
  bidx = ctx.arr('buffer', (G, S, K), dtype='int32', lo=0, hi=C + 1)
  scale, bias = [2, 3, 5, 7][:E], [1, 4, 9, 16][:E]
  shape = (G, S) + tuple(item)
  if sym == 'data':
    data = ctx.arr('data', shape)
    w = ctx.typed(np.array([1 + (7 * i) % 31 for i in range(G * S * K)], dtype=object).reshape(G, S, K), 'float32')
  else:
    w = ctx.arr('w', (G, S, K))
    data = ctx.typed(np.array([1 + (5 * i) % 23 for i in range(int(np.prod(shape)))], dtype=object).reshape(shape), 'float32')

  def f(eidx, bidx, w, data):
    disp = wrapb(vmoe.moe.ExpertIndicesDispatcher(
        indices=jnp.stack([eidx, bidx], -1), combine_weights=w, num_experts=E, capacity=C), bf16)
    x = disp.dispatch(data)
    return x, disp.combine(apply_experts(x, jnp.asarray(scale, x.dtype), jnp.asarray(bias, x.dtype)))
  x, out = ctx.run(f, eidx, bidx, w, data)
  ctx.prove('expert buffers have shape (experts, groups*capacity, ...)', x.shape == (E, G * C) + tuple(item))
  ctx.cover('an assignment over capacity', sx.ge(bidx[0, 0, 0], C))
  for i in np.ndindex(*data.shape):
    g, s, it = i[0], i[1], i[2:]
    tot = []
    for k in range(K):
      for e in range(E):
        for c in range(C):
          here = sx.band(sx.eq(eidx[g, s, k], e), sx.eq(bidx[g, s, k], c))
          buf = sx.sumall(
              sx.ite(sx.band(sx.eq(eidx[g, t, j], e), sx.eq(bidx[g, t, j], c)), data[(g, t) + it], 0)
              for t in range(S) for j in range(K))
          tot.append(sx.ite(here, sx.mul(w[g, s, k], sx.add(sx.mul(scale[e], buf), bias[e])), 0))
    ctx.prove('item receives exactly the outputs of its in-capacity slots',
              ctx.close(out[i], sx.sumall(tot), 0.05 if bf16 else 1e-3))


def cases(tier):
  out = []
  ein = [(1, 2, 2, 2, ()), (2, 2, 2, 1, (2,)), (4, 1, 2, 1, ()), (3, 2, 2, 2, ()), (2, 1, 3, 1, ()), (6, 1, 3, 1, ()), (3, 1, 3, 2, ())]
  if tier == 'thorough':
    ein += [(4, 2, 2, 2, (2,)), (6, 2, 3, 2, ()), (4, 2, 3, 2, ()), (2, 3, 4, 1, (2,)), (8, 1, 4, 2, ()), (6, 1, 2, 2, (2, 2))]
  for G, S, E, C, item in ein:
    out.append(Case(einsum, G=G, S=S, E=E, C=C, item=item))
  out.append(Case(einsum, G=2, S=2, E=2, C=2, item=(), soft=False))
  out.append(Case(einsum, G=2, S=2, E=2, C=1, item=(), bf16=True))
  out.append(Case(einsum_default, G=2, S=2, E=2, C=1))
  out.append(Case(einsum_default, G=1, S=2, E=3, C=2))
  for G, S, E, item in [(1, 2, 2, ()), (2, 2, 2, (2,)), (3, 2, 2, ()), (4, 1, 2, ()), (2, 2, 3, ())]:
    out.append(Case(dense, G=G, S=S, E=E, item=item))
  out.append(Case(dense, G=2, S=1, E=2, item=(), bf16=True))
  for G, S, E, C, K, item in [(1, 2, 2, 1, 1, ()), (2, 2, 2, 1, 1, ()), (1, 2, 2, 2, 2, ()), (3, 1, 2, 1, 2, ()), (4, 1, 2, 1, 1, (2,))] + (
      [(2, 2, 3, 2, 2, ()), (3, 2, 2, 2, 2, (2,)), (6, 1, 3, 2, 1, ())] if tier == 'thorough' else []):
    for sym in ('data', 'w'):
      out.append(Case(indices, G=G, S=S, E=E, C=C, K=K, item=item, sym=sym))
  out.append(Case(indices, G=2, S=1, E=2, C=1, K=1, item=(), sym='data', bf16=True))
  return out
