"""M07: ensemble routing keeps the members apart."""
import jax
import jax.numpy as jnp
import numpy as np
from vmoe.nn import ensemble_routing as er
from lib import sx
from lib.moe_h import observe, count
from lib.rnd import random_stub
from lib.runner import Case
from checks.m08 import ref_losses

FUNCTIONS = ['vmoe.nn.ensemble_routing.NoisyTopExpertsPerItemEnsembleRouter.__call__',
             'vmoe.nn.ensemble_routing.reshape_to_group_size_representation',
             'vmoe.nn.ensemble_routing.reshape_from_group_size_representation',
             'vmoe.nn.ensemble_routing.reshape_from_diag_blocks']
BOUNDS = {'quick': 'arbitrary real tokens / noise; M in 1..3 members, E<=4 experts, S<=4 items, G<=2 groups; '
                   'reshapes: B,M,T,S,H small integers, arbitrary contents',
          'thorough': 'E<=6, S<=6'}
OUTSIDE = 'larger sizes; float rounding'
ASSUMPTIONS = ['floating point read as real arithmetic', 'exp uninterpreted with monotonicity / shift axioms',
               'jax.random.normal stubbed: arbitrary reals per key']


def kernel(H, M, Em):
  k = np.zeros((H, M, Em), np.float32)
  for m in range(M):
    for e in range(Em):
      k[(e + m) % H, m, e] = 1.
  return k


def router(ctx, G, S, M, E, K, std, what):
  Em = E // M
  H = Em
  x = ctx.arr('inputs', (G, S, H), lo=-4, hi=4)
  ker = kernel(H, M, Em)
  m = er.NoisyTopExpertsPerItemEnsembleRouter(
      num_experts=E, num_selected_experts=K, ensemble_size=M, noise_std=std, deterministic=std == 0,
      dispatcher=dict(name='einsum', batch_priority=False, capacity=S * K))
  params = {'params': {'dense': {'kernel': jnp.asarray(ker)}}}

  def f(x):
    d, metrics = m.apply(params, x, rngs={'gating': jax.random.PRNGKey(3)} if std else None)
    if what != 'gates':
      return metrics[what]
    return [observe(jax.tree_util.tree_map(lambda a: a[g:g + 1], d), S, E) for g in range(G)]
  with random_stub(), ctx.forking():
    obs = ctx.run(f, x)
  draws = list(ctx.stub_values.values())
  ctx.prove('noise is drawn independently for each member', len(draws) == (M if std else 0))

  def logit(g, s, e):
    mem = s % M
    v = sx.sumall(sx.mul(sx.norm_num(float(ker[h, mem, e])), x[g, s, h]) for h in range(H))
    return v
  lg = np.empty((G, M, S // M, Em), dtype=object)
  for g, mm, t, e in np.ndindex(*lg.shape):
    v = logit(g, t * M + mm, e)
    if std:
      v = sx.add(v, sx.mul(sx.norm_num(sx.Fr(std) / Em), draws[mm][g, t, e]))
    lg[g, mm, t, e] = v
  if what != 'gates':
    ctx.prove('one loss per (group, member)', obs.shape == (G, M))
    for g in range(G):
      for mm in range(M):
        with ctx.forking():
          ref = ctx.run(lambda p: ref_losses(p, p, 0, K)[what], ctx.typed(lg[g, mm].copy(), 'float32'), validate=False)
        ctx.prove('%s of a member uses the gates of that member' % what, ctx.close(obs[g, mm], ref[()], 0.02))
    return
  for g in range(G):
    D, W = obs[g]
    for s in range(S):
      mem, t = s % M, s // M
      with ctx.forking():
        sm = ctx.run(lambda z: jnp.exp(z) / jnp.exp(z).sum(-1, keepdims=True),
                     ctx.typed(lg[g, mem, t].copy(), 'float32'), validate=False)
      for e in range(E):
        d = sx.sumall(D[e, :, s])
        w = sx.sumall(W[s, e])
        if e // Em != mem:
          # zero gates may take a slot, but never contribute (weight zero).
          ctx.prove('an item never receives the output of another member\'s expert', ctx.close(w, 0))
          continue
        l = lg[g, mem, t]
        le = e % Em
        better = count(sx.gt(l[h], l[le]) for h in range(Em) if h != le)
        ties = sx.anyof(sx.eq(l[h], l[le]) for h in range(Em) if h != le)
        ctx.prove('an item goes to the top-K experts of its member', sx.bor(ties, sx.iff(sx.ge(d, 1), sx.lt(better, K))))
        ctx.prove('weight = softmax over the experts of the member', sx.implies(sx.ge(d, 1), ctx.close(w, sm[le])))


def reshapes(ctx, B, M, T, S, H):
  x = ctx.arr('x', (B * M, T, H))

  def f(x):
    y = er.reshape_to_group_size_representation(x, S, M)
    return y, er.reshape_from_group_size_representation(y, T, M)
  y, z = ctx.run(f, x)
  ctx.prove('group layout shape', y.shape == (B * M * T // S, S, H))
  ctx.prove('reshape_from inverts reshape_to', z.shape == x.shape and sx.band(*[
      sx.eq(z[i], x[i]) for i in np.ndindex(*x.shape)]))
  flat = y.reshape(-1, H)
  for b in range(B):
    for m in range(M):
      for t in range(T):
        # position modulo M identifies the member whatever the group.
        ctx.prove('position in the flattened groups identifies image, token and member', sx.band(*[
            sx.eq(flat[(b * T + t) * M + m, h], x[b * M + m, t, h]) for h in range(H)]))


def invalid(ctx):
  """Inconsistent sizes are rejected rather than misrouted."""
  E = ctx.choice('E', [3, 4])
  M = ctx.choice('M', [0, 2, 3, 4])
  S = ctx.choice('S', [3, 4])
  m = er.NoisyTopExpertsPerItemEnsembleRouter(num_experts=E, num_selected_experts=1, ensemble_size=M,
                                              deterministic=True, dispatcher=dict(name='einsum', batch_priority=False, capacity=2))
  good = M > 0 and E % M == 0 and S % M == 0
  try:
    m.init(jax.random.PRNGKey(0), jnp.ones((1, S, 2)))
    ok = True
  except ValueError:
    ok = False
  ctx.prove('accepted iff ensemble_size divides experts and group size', ok == good)


def cases(tier):
  out = []
  q = [(1, 4, 2, 4, 1), (1, 2, 2, 4, 2), (2, 2, 2, 4, 1), (1, 3, 3, 6, 1), (1, 2, 1, 2, 1)]
  if tier == 'thorough':
    q += [(1, 4, 2, 6, 2), (1, 6, 3, 6, 1), (2, 4, 2, 4, 2)]
  for G, S, M, E, K in q:
    out.append(Case(router, G=G, S=S, M=M, E=E, K=K, std=0, what='gates'))
  for G, S, M, E, K in q[1:3] + q[5:]:
    out.append(Case(router, G=G, S=S, M=M, E=E, K=K, std=0.5, what='gates'))
  for w in ('importance_loss', 'gshard_loss'):
    out.append(Case(router, G=2, S=2, M=2, E=4, K=1, std=0, what=w))
  for B, M, T, S, H in [(2, 2, 2, 4, 2), (2, 2, 3, 6, 1), (1, 3, 2, 3, 1), (3, 2, 2, 12, 1), (2, 1, 2, 2, 1), (1, 2, 4, 2, 1)]:
    out.append(Case(reshapes, B=B, M=M, T=T, S=S, H=H))
  out.append(Case(invalid))
  return out
