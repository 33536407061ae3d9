"""M09: Soft MoE routing: convex dispatch/combine weights from the documented logits."""
import jax
import jax.numpy as jnp
import numpy as np
from vmoe.projects.soft_moe import router as sr
from lib import sx
from lib.engine import unwrap
from lib.rnd import random_stub
from lib.runner import Case

FUNCTIONS = ['vmoe.projects.soft_moe.router.SoftRouter.__call__', 'vmoe.projects.soft_moe.router.SoftRouter.get_metrics',
             'vmoe.projects.soft_moe.router.normalize', 'vmoe.moe.EinsumDispatcher', 'vmoe.moe.Bfloat16Dispatcher']
BOUNDS = {'quick': 'arbitrary logits (through arbitrary noise) for G<=2, S<=3, E<=2, P<=2; arbitrary tokens/scale for the logit formula at '
                   'dim<=2; slot counts for S<=6, E<=3, 5 capacity factors; similarity metrics for up to 4 vectors, each along any axis with any sign and norm 1 or 2',
          'thorough': 'G<=2, S<=3, E<=3, P<=2'}
OUTSIDE = 'larger sizes; bfloat16 / float rounding; similarities of vectors that are not along an axis'
ASSUMPTIONS = ['floating point (incl. bfloat16) read as real arithmetic', 'exp uninterpreted with sign / monotonicity / shift axioms',
               'jax.random.normal stubbed: arbitrary reals per key']


def _obs(d, S, E, P):
  out = d.dispatch(jnp.eye(S, dtype=jnp.float32)[None])       # (E, P, S)
  y = jnp.eye(E * P, dtype=jnp.float32).reshape(E, P, E * P)
  return out, d.combine(y)[0].reshape(S, E, P)


def weights(ctx, G, S, E, P, std, metrics=False):
  D = 2
  m = sr.SoftRouter(num_experts=E, num_slots=P, noise_std=std, deterministic=False, compute_similarity_metrics=False)
  rs = np.random.RandomState(0)
  mu = np.zeros((D, E, P), np.float32)
  xin = jnp.zeros((G, S, D))                        # zero logits before the noise
  params = {'params': {'mu': jnp.asarray(mu), 'scale': jnp.asarray(1.0)}}

  dummy = ctx.arr('unused', (1,), lo=0, hi=1)

  def f(z):
    d, met = m.apply(params, xin + 0 * z[0], rngs={'gating': jax.random.PRNGKey(5)})
    if metrics:
      return met
    return [_obs(jax.tree_util.tree_map(lambda a: a[g:g + 1], d), S, E, P) for g in range(G)]
  with random_stub(), ctx.forking():
    res = ctx.run(f, dummy)
  (noise,) = ctx.stub_values.values()
  lg = np.empty((G, S, E, P), dtype=object)
  for i in np.ndindex(*lg.shape):
    lg[i] = sx.mul(sx.norm_num(std), noise[i])
  sm = lambda z, ax: jnp.exp(z) / jnp.exp(z).sum(ax, keepdims=True)
  with ctx.forking():
    rd, rc = ctx.run(lambda z: (sm(z, 1), sm(z, (2, 3))), ctx.typed(lg, 'float32'), validate=False)
  if metrics:
    # means of the extrema of the weights
    want = {'auxiliary_loss': 0}
    with ctx.forking():
      r = ctx.run(lambda a, b: dict(
          combine_weights_min_mean=a.min((2, 3)).mean(), combine_weights_max_mean=a.max((2, 3)).mean(),
          dispatch_weights_min_mean=b.min(1).mean(), dispatch_weights_max_mean=b.max(1).mean()), rc, rd, validate=False)
    want.update({k: v[()] for k, v in r.items()})
    ctx.prove('reported metrics', set(want) == set(res))
    for k, v in want.items():
      ctx.prove('metric %s' % k, ctx.close(res[k][()], v))
    return
  for g in range(G):
    Dm, W = res[g]
    for e in range(E):
      for p in range(P):
        for s in range(S):
          ctx.prove('dispatch weight = softmax over the items of the group', ctx.close(Dm[e, p, s], rd[g, s, e, p], 0.01))
          ctx.prove('dispatch weights are non-negative', sx.ge(Dm[e, p, s], 0))
        ctx.prove('every slot is a convex combination of the items', ctx.close(sx.sumall(Dm[e, p]), 1, 0.01))
    for s in range(S):
      for e in range(E):
        for p in range(P):
          ctx.prove('combine weight = softmax over all slots', ctx.close(W[s, e, p], rc[g, s, e, p], 0.01))
          ctx.prove('combine weights are non-negative', sx.ge(W[s, e, p], 0))
      ctx.prove('every item is a convex combination of the slot outputs', ctx.close(sx.sumall(W[s].ravel()), 1, 0.01))


MU = np.array([[[0.6], [-0.8]], [[0.8], [0.6]]], np.float32)      # unit vectors (dim, experts, slots)


def logits(ctx, S, scale_mu, dirs):
  """Logits are scale * <token direction, slot direction>, whatever their norms."""
  E, P = 2, 1
  scale = ctx.arr('scale', (), lo=-3, hi=3)
  t = ctx.arr('token_norm', (S,), lo=1, hi=8)
  u = np.array([[1., 0.], [0., 1.], [0.6, 0.8]], np.float32)[list(dirs)]
  m = sr.SoftRouter(num_experts=E, num_slots=P, deterministic=True, compute_similarity_metrics=False)

  def f(scale, t):
    x = (t[:, None] * u)[None]
    d, _ = m.apply({'params': {'mu': jnp.asarray(scale_mu * MU), 'scale': scale}}, x)
    return _obs(d, S, E, P)
  with ctx.forking():
    Dm, W = ctx.run(f, scale, t)
  cos = u @ MU[:, :, 0]
  for s in range(S):
    diff = float(cos[s, 0] - cos[s, 1])
    hi = 1 / (1 + np.exp(-3 * abs(diff)))
    w0, w1 = W[s, 0, 0], W[s, 1, 0]
    if diff > 0.01:
      ctx.prove('a positive scale favours the closer slot', sx.implies(sx.ge(scale[()], sx.Fr(1, 10)), sx.gt(w0, w1)))
      ctx.prove('a negative scale favours the farther slot', sx.implies(sx.le(scale[()], sx.Fr(-1, 10)), sx.lt(w0, w1)))
    elif diff < -0.01:
      ctx.prove('a positive scale favours the closer slot', sx.implies(sx.ge(scale[()], sx.Fr(1, 10)), sx.lt(w0, w1)))
      ctx.prove('a negative scale favours the farther slot', sx.implies(sx.le(scale[()], sx.Fr(-1, 10)), sx.gt(w0, w1)))


def logit_values(ctx, S, E, P, mult):
  """Exact weights as a function of an arbitrary scale, for tokens/slots of known directions."""
  scale = ctx.arr('scale', (), lo=-3, hi=3)
  unit = np.array([[1., 0.], [0.6, 0.8], [-0.8, 0.6], [0., -1.], [0.28, 0.96]])
  tok = unit[[1, 3, 2][:S]]
  mu = unit[[0, 1, 4, 2][:E * P]].T.reshape(2, E, P)
  m = sr.SoftRouter(num_experts=E, num_slots=P, deterministic=True, compute_similarity_metrics=False)

  def f(scale):
    d, _ = m.apply({'params': {'mu': jnp.asarray(64 * mu, jnp.float32), 'scale': scale}}, jnp.asarray(mult * tok[None], jnp.float32))
    return _obs(d, S, E, P)
  with ctx.forking():
    Dm, W = ctx.run(f, scale)
  c = np.vectorize(lambda v: sx.Fr(round(v * 10000), 10000), otypes=[object])(np.einsum('sd,dep->sep', tok, mu))
  lg = np.empty((S, E, P), dtype=object)
  for i in np.ndindex(*lg.shape):
    lg[i] = sx.mul(sx.norm_num(c[i]), scale[()])
  sm = lambda z, ax: jnp.exp(z) / jnp.exp(z).sum(ax, keepdims=True)
  with ctx.forking():
    a, b = ctx.run(lambda z: (sm(z, 0), sm(z, (1, 2))), ctx.typed(lg, 'float32'), validate=False)
  for s in range(S):
    for e in range(E):
      for p in range(P):
        ctx.prove('dispatch weight follows scale * cosine', ctx.close(Dm[e, p, s], a[s, e, p], 0.02))
        ctx.prove('combine weight follows scale * cosine', ctx.close(W[s, e, p], b[s, e, p], 0.02))


def similarity(ctx, G, S, E, P, D, which, norms=False):
  """Similarity metrics range over all pairs of different tokens (slots) of the same group."""
  m = sr.SoftRouter(num_experts=E, num_slots=P, deterministic=True)
  ng, nv, dim = {'combine': (G, S, E * P), 'dispatch': (G, E * P, S), 'mu': (1, E * P, D)}[which]
  vecs = np.empty((ng, nv, dim), dtype=object)
  pos = {}
  for g, v in np.ndindex(ng, nv):
    # A vector along any axis, of either sign and of norm 1 or 2.
    ax = ctx.int('axis_%d_%d' % (g, v), 0, dim - 1)
    val = sx.ite(unwrap(ctx.bool('positive_%d_%d' % (g, v))), 1, -1) if which == 'mu' else 1  # weights are not negative
    size = sx.ite(unwrap(ctx.bool('big_%d_%d' % (g, v))), 2, 1) if norms else 1
    for k in range(dim):
      vecs[g, v, k] = sx.mul(size, sx.ite(sx.eq(unwrap(ax), k), val, 0))
    pos[g, v] = (unwrap(ax), val)
  one = lambda *s: np.full(s, 1, dtype=object)
  c = vecs.reshape(G, S, E, P) if which == 'combine' else one(G, S, E, P)
  d = vecs.transpose(0, 2, 1).reshape(G, S, E, P) if which == 'dispatch' else one(G, S, E, P)
  mu = vecs[0].T.reshape(D, E, P) if which == 'mu' else one(D, E, P)
  got = ctx.run(lambda c, d, mu: m.get_metrics(c, d, mu), *[ctx.typed(a, 'float32') for a in (c, d, mu)])
  k = {'combine': 'combine_weights', 'dispatch': 'dispatch_weights', 'mu': 'mu'}[which]
  pairs = []
  for g in range(ng):
    for i in range(nv):
      for j in range(i):
        (a, s), (b, t) = pos[g, i], pos[g, j]
        pairs.append(sx.ite(sx.eq(a, b), sx.mul(s, t), 0))
  lo = hi = pairs[0]
  for v in pairs[1:]:
    lo, hi = sx.smin(lo, v), sx.smax(hi, v)
  for n, want in (('min', lo), ('max', hi), ('mean', sx.div(sx.sumall(pairs), len(pairs)))):
    v = got['%s_similarity_%s' % (k, n)][()]
    ctx.prove('similarity_%s is that of the pairs of different vectors of a group' % n, sx.le(sx.sabs(sx.sub(v, want)), sx.Fr(1, 1000)))


def slots(ctx):
  """Number of slots: as given, or round(S * capacity_factor / E)."""
  S = ctx.choice('S', [1, 3, 4, 6])
  E = ctx.choice('E', [1, 2, 3])
  num = ctx.choice('num', [2, 4, 6, 8, 12])      # factor = num / 4
  given = ctx.choice('given', [None, 1, 3])
  m = sr.SoftRouter(num_experts=E, num_slots=given, capacity_factor=num / 4, deterministic=True, compute_similarity_metrics=False)
  want = given or sx.round_half_even(sx.Fr(S * num, 4 * E))
  try:
    shape = jax.eval_shape(lambda: m.init(jax.random.PRNGKey(0), jnp.ones((1, S, 2))))['params']['mu'].shape
  except ValueError:
    ctx.prove('an error is raised only when no slot would result', want < 1)
    return
  ctx.prove('slots follow num_slots or the capacity factor', shape == (2, E, want))


def cases(tier):
  out = [Case(similarity, G=g, S=s, E=e, P=p, D=2, which=w, norms=True) for g, s, e, p, w in (
      (1, 3, 2, 1, 'combine'), (2, 2, 1, 2, 'combine'), (1, 2, 2, 1, 'combine'), (1, 2, 2, 1, 'dispatch'), (1, 2, 1, 3, 'dispatch'), (2, 2, 1, 2, 'dispatch'), (1, 2, 2, 1, 'mu'), (1, 2, 1, 3, 'mu'), (1, 2, 2, 2, 'mu'), (1, 4, 3, 1, 'combine'))]
  q = [(1, 2, 2, 1), (1, 3, 1, 2), (2, 2, 1, 2)]
  if tier == 'thorough':
    q += [(1, 2, 2, 2), (1, 3, 3, 1)]
  for G, S, E, P in q:
    out.append(Case(weights, G=G, S=S, E=E, P=P, std=1.0))
  out.append(Case(weights, G=1, S=2, E=2, P=1, std=0.5))
  out.append(Case(weights, G=1, S=2, E=2, P=1, std=1.0, metrics=True))
  for S, dirs in ((1, (0,)), (1, (1,)), (2, (0, 1))):
    out.append(Case(logits, S=S, scale_mu=3.0, dirs=dirs))
  for S, E, P in ((1, 2, 1), (3, 2, 1), (2, 2, 2), (3, 1, 2)):
    for mult in (32.0, 128.0):
      out.append(Case(logit_values, S=S, E=E, P=P, mult=mult))
  out.append(Case(slots))
  return out
