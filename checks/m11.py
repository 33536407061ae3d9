"""M11: a sparse MoE layer computes, for every token, the gated sum of its experts."""
import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
import vmoe.moe
from vit_jax import models_vit
from vmoe.nn import vit_moe, vit_moe_ensemble
from lib import sx
from lib.runner import Case

models_vit.ACT = jnp.square      # the activation is not vmoe code; any function would do

FUNCTIONS = ['vmoe.moe.sparse_moe_spmd', 'vmoe.nn.vit_moe.MlpMoeBlock.__call__',
             'vmoe.nn.vit_moe_ensemble.MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter.__call__']
BOUNDS = {'quick': 'arbitrary tokens; <=4 tokens in total, 2-3 experts, hidden size 2; capacity ample (no drops) and capacity 1',
          'thorough': '<=6 tokens, 3 experts'}
OUTSIDE = 'larger sizes; dropout; float rounding'
ASSUMPTIONS = ['floating point read as real arithmetic', 'exp / tanh uninterpreted',
               'vit_jax (absent here) replaced by a stand-in with the published MlpBlock']


def P(E, H=2, M=1):
  r = np.arange(1, 200) / 8.0
  k0 = (r[:E * H * M].reshape(E, H, M) * 0.5 - 0.75).astype(np.float32)
  b0 = (np.arange(E * M).reshape(E, M) * 0.25).astype(np.float32)
  k1 = (r[3:3 + E * M * H].reshape(E, M, H) * 0.5).astype(np.float32)
  b1 = (np.arange(E * H).reshape(E, H) - 0.5).astype(np.float32)
  return k0, b0, k1, b1


def block(ctx, B, T, S, E, K, capacity=None, dispatcher='einsum'):
  """MlpMoeBlock on (B, T, H): token-wise gated sum over its top-K experts."""
  H = 2
  x = ctx.arr('tokens', (B, T, H), lo=-4, hi=4)
  k0, b0, k1, b1 = P(E)
  router = np.array([[1., -1., 0.5], [0.5, 1., -1.]], np.float32)[:, :E]
  params = {'Router': {'dense': {'kernel': jnp.asarray(router)}},
            'Mlp': {'Dense_0': {'kernel': k0, 'bias': b0}, 'Dense_1': {'kernel': k1, 'bias': b1}}}
  cap = capacity or S * K
  m = vit_moe.MlpMoeBlock(mlp_dim=1, num_experts=E, group_size=S, deterministic=True,
                          router=dict(num_selected_experts=K, noise_std=1.0,
                                      dispatcher=dict(name=dispatcher, batch_priority=False, capacity=cap)))

  def f(x):
    return m.apply({'params': params}, x)[0]

  def ref(x):
    lg = x @ router
    g = jnp.exp(lg) / jnp.exp(lg).sum(-1, keepdims=True)
    _, idx = jax.lax.top_k(lg, K)
    ys = jnp.stack([jnp.square(x @ k0[e] + b0[e]) @ k1[e] + b1[e] for e in range(E)], -2)   # (B, T, E, H)
    sel = jax.nn.one_hot(idx, E)                                                       # (B, T, K, E)
    if capacity:
      # Slots are handed out in (choice rank, token) order inside each group.
      s = sel.reshape(-1, S, K, E).transpose(0, 2, 1, 3).reshape(-1, K * S, E)
      pos = jnp.cumsum(s, 1) - s
      s = s * (pos < cap)
      sel = s.reshape(-1, K, S, E).transpose(0, 2, 1, 3).reshape(B, T, K, E)
    w = sel.sum(2) * g
    return (w[..., None] * ys).sum(-2)
  with ctx.forking():
    y = ctx.run(f, x)
    r = ctx.run(ref, x)
  ctx.prove('output shape', y.shape == x.shape)
  ctx.prove('output = gated sum of the selected experts applied to the token', ctx.close_arr(y, r, 0.02))


class Target(nn.Module):
  """An expert with two inputs, two outputs and an auxiliary value."""

  @nn.compact
  def __call__(self, a, b):
    k = self.param('k', nn.initializers.ones, ())
    return {'p': k * a, 'q': a * b + k}


class AuxTarget(nn.Module):

  @nn.compact
  def __call__(self, a):
    k = self.param('k', nn.initializers.ones, ())
    return k * a, k * a.shape[0]


def spmd(ctx, aux):
  """sparse_moe_spmd with an arbitrary einsum dispatcher: expert e uses parameters e."""
  S, E, C = 2, 2, 1
  a = ctx.arr('a', (1, S, 2), lo=-4, hi=4)
  b = ctx.arr('b', (1, S, 2), lo=-4, hi=4)
  D = ctx.arr('dispatch', (1, S, E, C), lo=0, hi=1)
  W = ctx.arr('combine', (1, S, E, C), lo=0, hi=1)
  k = ctx.arr('k', (E,), lo=-2, hi=2)

  def f(a, b, D, W, k):
    d = vmoe.moe.EinsumDispatcher(W, D)
    tgt = AuxTarget if aux else Target
    cls = vmoe.moe.sparse_moe_spmd(tgt, variable_axes={'params': 0}, split_rngs={'params': True}, has_aux=aux)
    args = (a,) if aux else (a, b)
    return cls().apply({'params': {'k': k}}, d, *args)
  out = ctx.run(f, a, b, D, W, k)

  def buf(v, e, c, h):
    return sx.sumall(sx.mul(D[0, s, e, c], v[0, s, h]) for s in range(S))
  for s in range(S):
    for h in range(2):
      p = sx.sumall(sx.mul(W[0, s, e, c], sx.mul(k[e], buf(a, e, c, h))) for e in range(E) for c in range(C))
      if aux:
        ctx.prove('outputs are combined per token', ctx.close(out[0][0, s, h], p))
        continue
      ctx.prove('every output leaf is combined per token', ctx.close(out['p'][0, s, h], p))
      q = sx.sumall(sx.mul(W[0, s, e, c], sx.add(sx.mul(buf(a, e, c, h), buf(b, e, c, h)), k[e]))
                    for e in range(E) for c in range(C))
      ctx.prove('expert e processes the slots of expert e with parameters e', ctx.close(out['q'][0, s, h], q))
  if aux:
    ctx.prove('auxiliary outputs are returned per expert, uncombined',
              out[1].shape == (E,) and ctx.close_arr(out[1], np.array([sx.mul(C, k[e]) for e in range(E)], dtype=object)))


def ensemble(ctx, B, T, M, S):
  """Ensemble MoE block: row b*M+m of the repeated batch only uses experts of member m."""
  H, E, K = 2, 2 * M, 1
  x = ctx.arr('tokens', (B * M, T, H), lo=-4, hi=4)
  k0, b0, k1, b1 = P(E)
  Em = E // M
  router = np.zeros((H, M, Em), np.float32)
  for m_ in range(M):
    router[:, m_, :] = np.array([[1., -1.], [0.5, 1.]]) * (1 if m_ % 2 == 0 else -1)
  params = {'Router': {'dense': {'kernel': jnp.asarray(router)}},
            'Mlp': {'Dense_0': {'kernel': k0, 'bias': b0}, 'Dense_1': {'kernel': k1, 'bias': b1}}}
  m = vit_moe_ensemble.MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter(
      mlp_dim=1, num_experts=E, group_size=S, deterministic=True, ensemble_size=M,
      router=dict(num_selected_experts=K, noise_std=1.0, dispatcher=dict(name='einsum', batch_priority=False, capacity=S * K)))

  def ref(x):
    rows = []
    for b in range(B):
      for mm in range(M):
        z = x[b * M + mm]
        lg = z @ router[:, mm]
        g = jnp.exp(lg) / jnp.exp(lg).sum(-1, keepdims=True)
        _, idx = jax.lax.top_k(lg, K)
        w = jax.nn.one_hot(idx, Em).sum(1) * g
        ys = jnp.stack([jnp.square(z @ k0[e] + b0[e]) @ k1[e] + b1[e] for e in range(mm * Em, (mm + 1) * Em)], -2)
        rows.append((w[..., None] * ys).sum(-2))
    return jnp.stack(rows)
  with ctx.forking():
    y = ctx.run(lambda x: m.apply({'params': params}, x)[0], x)
    r = ctx.run(ref, x)
  ctx.prove('member rows are computed by the experts of the member only', ctx.close_arr(y, r, 0.02))


def cases(tier):
  out = []
  q = [(1, 2, 2, 2, 1), (2, 2, 2, 2, 1), (2, 2, 4, 2, 1), (1, 2, 2, 3, 2), (2, 1, 2, 2, 2)]
  if tier == 'thorough':
    q += [(2, 3, 2, 2, 1), (1, 3, 3, 3, 2)]
  for B, T, S, E, K in q:
    out.append(Case(block, B=B, T=T, S=S, E=E, K=K))
  for disp in ('einsum', 'indices'):
    out.append(Case(block, B=2, T=2, S=2, E=2, K=1, capacity=1, dispatcher=disp))
    out.append(Case(block, B=1, T=2, S=2, E=2, K=2, capacity=1, dispatcher=disp))
  out.append(Case(spmd, aux=False))
  out.append(Case(spmd, aux=True))
  out.append(Case(ensemble, B=1, T=1, M=2, S=2))
  out.append(Case(ensemble, B=2, T=1, M=2, S=2))
  out.append(Case(ensemble, B=1, T=2, M=2, S=2))
  out.append(Case(ensemble, B=1, T=2, M=2, S=4))
  return out
