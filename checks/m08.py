"""M08: the noisy top-experts router: gates, noise and auxiliary losses."""
import contextlib
import jax
import jax.numpy as jnp
import numpy as np
from vmoe.nn import routing
from lib import sx
from lib.moe_h import observe, count
from lib.rnd import random_stub
from lib.runner import Case

FUNCTIONS = ['vmoe.nn.routing.NoisyTopExpertsPerItemRouter.__call__', 'vmoe.nn.routing.NoisyTopItemsPerExpertRouter.__call__']
BOUNDS = {'quick': 'arbitrary real logits and noise draws; 1-2 groups, 1-2 items, 2-3 experts', 'thorough': '... up to 3 items, 3 experts'}
OUTSIDE = 'larger sizes; float rounding; the distribution of the noise (draws are arbitrary reals)'
ASSUMPTIONS = ['floating point read as real arithmetic', 'exp / erf uninterpreted with sign/monotonicity/shift axioms',
               'jax.random.normal stubbed: arbitrary reals per key',
               'the Gaussian CDF is (1 + erf(x / sqrt 2)) / 2 (its numeric case split in jax.scipy is replaced by the definition)']


def _cdf(x, loc=0, scale=1):
  return 0.5 * (1. + jax.lax.erf((jnp.asarray(x) - loc) / scale / np.sqrt(2.).astype(np.float32)))


@contextlib.contextmanager
def smooth_cdf():
  """Environment stub: the Gaussian CDF by its definition (no numeric case split)."""
  saved = [(jax.scipy.stats.norm, 'cdf', jax.scipy.stats.norm.cdf), (jax.scipy.stats.norm, 'sf', jax.scipy.stats.norm.sf),
           (jax.scipy.special, 'ndtr', jax.scipy.special.ndtr)]
  try:
    jax.scipy.stats.norm.cdf = _cdf
    jax.scipy.stats.norm.sf = lambda x, loc=0, scale=1: 1. - _cdf(x, loc, scale)
    jax.scipy.special.ndtr = _cdf
    yield
  finally:
    for m, k, v in saved:
      setattr(m, k, v)


def ref_losses(logits, noisy, sigma, K):
  """Reference: Appendix A.2 of the V-MoE paper and Algorithm 1 of GShard."""
  E = logits.shape[-1]
  sm = lambda x: jnp.exp(x) / jnp.exp(x).sum(-1, keepdims=True)
  imp = sm(logits).sum(0)
  cv2 = lambda v: ((v - v.mean()) ** 2).mean() / v.mean() ** 2
  g = sm(noisy)
  frac = (jnp.arange(E)[None] == jnp.argmax(noisy, -1)[:, None]).astype(jnp.float32).mean(0)
  out = dict(importance_loss=cv2(imp), gshard_loss=E * (g.mean(0) * frac).sum())
  if sigma:
    thr = -jnp.sort(-noisy, -1)[:, K - 1:K]
    p = 1. - jax.scipy.stats.norm.cdf((thr - logits) / sigma)
    out['load_loss'] = cv2(p.mean(0))
  return out


def router(ctx, G, S, E, K, std, det, which):
  x = ctx.arr('inputs', (G, S, E), lo=-4, hi=4)
  noisy = not det and std > 0
  sigma = sx.Fr(std) / E if noisy else 0
  m = routing.NoisyTopExpertsPerItemRouter(
      num_experts=E, num_selected_experts=K, noise_std=std, deterministic=det,
      dispatcher=dict(name='einsum', batch_priority=False, capacity=S * K))
  params = {'params': {'dense': {'kernel': jnp.eye(E)}}}

  def f(x):
    d, metrics = m.apply(params, x, rngs={'gating': jax.random.PRNGKey(7)} if noisy else None)
    out = []
    for g in range(G):
      dg = jax.tree_util.tree_map(lambda a: a[g:g + 1], d)
      out.append(observe(dg, S, E))
    if which == 'gates':
      return out, 0.
    if which == 'keys':
      return 0., metrics
    return 0., metrics[which]
  with random_stub(), smooth_cdf():
    with ctx.forking():
      obs, metrics = ctx.run(f, x, validate=True)
  draws = list(ctx.stub_values.values())
  if noisy and which == 'importance_loss':
    noisy = bool(draws)
  if noisy:
    ctx.prove('one noise draw per (group, item, expert)', len(draws) == 1 and draws[0].shape == (G, S, E))
    noise = draws[0]
  else:
    ctx.prove('no noise is drawn', not draws)
  lg = np.array(x, dtype=object)
  ln = np.empty((G, S, E), dtype=object)
  for i in np.ndindex(G, S, E):
    ln[i] = sx.add(lg[i], sx.mul(sx.norm_num(sigma), noise[i])) if noisy else lg[i]
  ctx.typed(lg, 'float32')
  ctx.typed(ln, 'float32')
  if which == 'gates':
    for g in range(G):
      with ctx.forking():
        sm = ctx.run(lambda z: jnp.exp(z) / jnp.exp(z).sum(-1, keepdims=True), ctx.typed(ln[g].copy(), 'float32'), validate=False)
      D, W = obs[g]
      for s in range(S):
        for e in range(E):
          w = sx.sumall(W[s, e])
          inside = sx.ge(sx.sumall(D[e, :, s]), 1)
          better = count(sx.gt(ln[g, s, h], ln[g, s, e]) for h in range(E) if h != e)
          ties = sx.anyof(sx.eq(ln[g, s, h], ln[g, s, e]) for h in range(E) if h != e)
          ctx.prove('an item is routed to the K experts with the largest (noisy) logits',
                    sx.bor(ties, sx.iff(inside, sx.lt(better, K))))
          ctx.prove('combine weight = softmax over experts of the (noisy) logits',
                    sx.implies(inside, ctx.close(w, sm[s, e])))
          ctx.prove('weight is zero for experts not selected', sx.implies(sx.bnot(inside), ctx.close(w, 0)))
    return
  if which != 'auxiliary_loss':
    for g in range(G):
      a, b = ctx.typed(lg[g].copy(), 'float32'), ctx.typed(ln[g].copy(), 'float32')
      with ctx.forking(), smooth_cdf():
        ref = ctx.run(lambda p, q: ref_losses(p, q, float(sigma), K)[which], a, b, validate=False)
      ctx.prove('%s follows its definition on each group' % which, ctx.close(metrics[g], ref[()], 0.02))


def weighted(ctx, G, S, E, K, std, det, weights):
  """The auxiliary loss is the weighted sum of the reported losses."""
  x = ctx.arr('inputs', (G, S, E), lo=-4, hi=4)
  noisy = not det and std > 0
  kw = dict(gshard_loss_weight=weights[0], importance_loss_weight=weights[1], load_loss_weight=weights[2])
  m = routing.NoisyTopExpertsPerItemRouter(
      num_experts=E, num_selected_experts=K, noise_std=std, deterministic=det,
      dispatcher=dict(name='einsum', batch_priority=False, capacity=S * K), **kw)
  params = {'params': {'dense': {'kernel': jnp.eye(E)}}}
  with random_stub(), smooth_cdf(), ctx.forking():
    metrics = ctx.run(lambda x: m.apply(params, x, rngs={'gating': jax.random.PRNGKey(7)} if noisy else None)[1], x)
  names = ['gshard_loss', 'importance_loss', 'load_loss']
  if not noisy:
    names = names[:2]
  ctx.prove('reported losses', set(names) | {'auxiliary_loss'} == set(metrics))
  for g in range(G):
    pos = [(k, w) for k, w in zip(names, weights) if w > 0]
    if not pos:
      ctx.prove('auxiliary loss without weights is zero', not np.any(metrics['auxiliary_loss']))
      continue
    tot = sx.sumall(sx.mul(sx.norm_num(w), metrics[k][g]) for k, w in pos)
    ctx.prove('auxiliary loss is the weighted sum of the losses with positive weight',
              ctx.close(metrics['auxiliary_loss'][g], tot, 0.02))


def items_router(ctx, G, S, E, C, std, det):
  x = ctx.arr('inputs', (G, S, E), lo=-4, hi=4)
  noisy = not det and std > 0
  m = routing.NoisyTopItemsPerExpertRouter(
      num_experts=E, noise_std=std, deterministic=det, dispatcher=dict(name='einsum', capacity=C))
  params = {'params': {'dense': {'kernel': jnp.eye(E)}}}

  def f(x):
    d, metrics = m.apply(params, x, rngs={'gating': jax.random.PRNGKey(7)} if noisy else None)
    return [observe(jax.tree_util.tree_map(lambda a: a[g:g + 1], d), S, E) for g in range(G)], metrics['auxiliary_loss']
  with random_stub():
    with ctx.forking():
      obs, aux = ctx.run(f, x)
  draws = list(ctx.stub_values.values())
  ctx.prove('noise is drawn iff stochastic', bool(draws) == noisy)
  ctx.prove('no auxiliary loss', sx.eq(aux[()], 0))
  for g in range(G):
    ln = np.empty((S, E), dtype=object)
    for s, e in np.ndindex(S, E):
      ln[s, e] = sx.add(x[g, s, e], sx.mul(sx.norm_num(sx.Fr(std) / E), draws[0][g, s, e])) if noisy else x[g, s, e]
    with ctx.forking():
      sm = ctx.run(lambda z: jnp.exp(z) / jnp.exp(z).sum(-1, keepdims=True), ctx.typed(ln, 'float32'), validate=False)
    D, W = obs[g]
    for e in range(E):
      for s in range(S):
        w = sx.sumall(W[s, e])
        inside = sx.ge(sx.sumall(D[e, :, s]), 1)
        ctx.prove('combine weight = softmax over experts of the (noisy) logits', sx.implies(inside, ctx.close(w, sm[s, e])))
        for t in range(S):
          if t != s:
            out = sx.eq(sx.sumall(D[e, :, t]), 0)
            ctx.prove('selected items have the largest (noisy) gates',
                      sx.implies(sx.band(inside, out), sx.ge(sm[s, e], sm[t, e])))


def cases(tier):
  out = []
  q = [(1, 1, 3, 2), (1, 2, 2, 1), (2, 1, 2, 1)]
  if tier == 'thorough':
    q += [(1, 2, 3, 2), (1, 3, 2, 1)]
  for G, S, E, K in q:
    for std, det in ((1.0, False), (1.0, True), (0.0, False), (0.5, False)):
      for which in ('gates', 'importance_loss', 'gshard_loss') + (('load_loss',) if std and not det else ()):
        out.append(Case(router, G=G, S=S, E=E, K=K, std=std, det=det, which=which))
  for std, det, w in ((1.0, False, (0.5, 1.0, 2.0)), (1.0, False, (0.0, -1.0, 3.0)), (1.0, True, (0.0, 0.0, 3.0)),
                      (0.0, False, (0.5, 0.25, 2.0))):
    out.append(Case(weighted, G=2, S=1, E=2, K=1, std=std, det=det, weights=w))
  for std, det in ((1.0, False), (1.0, True), (0.0, False)):
    out.append(Case(items_router, G=1, S=2, E=2, C=1, std=std, det=det))
  return out
