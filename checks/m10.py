"""M10: transport-plan routers: what is sent where, and with which weight."""
import contextlib
import types
import jax
import jax.numpy as jnp
import numpy as np
from vmoe.projects.sparsity_constrained_ot import kl_projection_routing as kl
from vmoe.projects.sparsity_constrained_ot import ksparse_projection_routing as ks
from vmoe.projects.sparsity_constrained_ot import sparse_projection_routing as sp
from lib import sx
from lib.moe_h import observe, count
from lib.rnd import random_stub, stub_random_p
from lib.runner import Case

FUNCTIONS = ['vmoe.projects.sparsity_constrained_ot.kl_projection_routing.*Router.__call__',
             'vmoe.projects.sparsity_constrained_ot.ksparse_projection_routing.*Router.__call__',
             'vmoe.projects.sparsity_constrained_ot.sparse_projection_routing.*Router.__call__',
             'vmoe.projects.sparsity_constrained_ot.ot_routing._replace_combine_weights']
BOUNDS = {'quick': 'arbitrary tokens, arbitrary positive transport plan returned by the numerical OT solver; G=1, S<=2, E<=3',
          'thorough': 'S<=3, E<=3'}
OUTSIDE = 'the numerical optimal-transport solvers (ott, jaxopt) themselves; larger sizes; several groups'
ASSUMPTIONS = ['the OT solver is an environment stub: it returns similarity + U with arbitrary U such that the plan is in (0, 1]',
               'floating point read as real arithmetic']
KEY = np.array([77, 99], np.uint32)
SEEN = []


def _plan(sim):
  u = stub_random_p.bind(jnp.asarray(KEY), shape=tuple(sim.shape), dtype='float32', kind='plan')
  return sim + u if ADD_SIM else u


ADD_SIM = True


@contextlib.contextmanager
def ot_stub():
  SEEN.clear()

  def sinkhorn(geom, a=None, b=None, **kw):
    SEEN.append(('sinkhorn', a, b, kw))
    return types.SimpleNamespace(matrix=_plan(-geom.cost_matrix))

  def transport(sim_matrix, marginals, make_solver=None, **kw):
    SEEN.append(('transport', *marginals, kw))
    return _plan(sim_matrix)

  def semi(cost_matrix, marginals_a, marginals_b, **kw):
    SEEN.append(('semi', marginals_a, marginals_b, kw))
    return _plan(-cost_matrix)
  proj = kl.projection
  saved = [(kl.sinkhorn, 'sinkhorn', kl.sinkhorn.sinkhorn), (proj, 'kl_projection_transport', proj.kl_projection_transport),
           (proj, 'projection_transport', proj.projection_transport),
           (proj, '_regularized_transport_semi_dual', proj._regularized_transport_semi_dual)]
  kl.sinkhorn.sinkhorn = sinkhorn
  proj.kl_projection_transport = transport
  proj.projection_transport = transport
  proj._regularized_transport_semi_dual = semi
  try:
    yield
  finally:
    for m, k, v in saved:
      setattr(m, k, v)


def _smax(z):
  return jnp.exp(z) / jnp.exp(z).sum(-1, keepdims=True)


ROUTERS = {
    'kl_experts': (kl.KLProjectionNoisyTopExpertsPerItemRouter, True, 'logits'),
    'kl_items': (kl.KLProjectionNoisyTopItemsPerExpertRouter, False, 'logits'),
    'ks_experts': (ks.KSparseProjectionTransportTopExpertsPerItemRouter, True, 'softmax_t'),
    'ks_items': (ks.KSparseProjectionTransportTopItemsPerExpertRouter, False, 'softmax'),
    'sp_items': (sp.SparseProjectionTransportTopItemsPerExpertRouter, False, 'softmax'),
}


def router(ctx, name, S, E, K, soft, lbfgs=False, std=0.0, addsim=True):
  global ADD_SIM
  ADD_SIM = addsim
  cls, experts, sim = ROUTERS[name]
  x = ctx.arr('inputs', (1, S, E), lo=-4, hi=4)
  cap = S * K if experts else K
  kw = dict(num_experts=E, use_softmax_combine_weights=soft, deterministic=std == 0, noise_std=std)
  if experts:
    kw.update(num_selected_experts=K, dispatcher=dict(name='einsum', batch_priority=False, capacity=cap))
  else:
    # a factor giving capacity K exactly
    kw.update(dispatcher=dict(name='einsum', capacity_factor=K * E / S, capacity_ceil_or_round='round', capacity_multiple_of=1))
  if lbfgs:
    kw.update(use_lbfgs=True)
  m = cls(**kw)
  params = {'params': {'dense': {'kernel': jnp.eye(E)}}}

  def f(x):
    d, met = m.apply(params, x, rngs={'gating': jax.random.PRNGKey(7)} if std else None)
    return observe(d, S, E), SEEN[-1][1], SEEN[-1][2]
  with ot_stub(), random_stub(), ctx.forking():
    (D, W), ma, mb = ctx.run(f, x)
  noise = [v for k, v in ctx.stub_values.items() if k[2] == 'normal']
  ma, mb = ma.astype(float), mb.astype(float)
  if sim == 'softmax_t':
    ma, mb = mb, ma
  ctx.prove('marginals: every item has mass 1 and every expert the same mass S/E',
            ma.shape == (S,) and np.allclose(ma, 1) and mb.shape == (E,) and np.allclose(mb, S / E))
  lg = np.empty((S, E), dtype=object)
  for s, e in np.ndindex(S, E):
    lg[s, e] = sx.add(x[0, s, e], sx.mul(sx.norm_num(sx.Fr(std) / E), noise[0][0, s, e])) if std else x[0, s, e]
  ctx.typed(lg, 'float32')
  with ctx.forking():
    sm = ctx.run(_smax, lg, validate=False)
  u = [v for k, v in ctx.stub_values.items() if k[2] == 'plan'][-1]
  if sim == 'softmax_t':
    u = u.T
  plan = np.empty((S, E), dtype=object)
  for i in np.ndindex(S, E):
    plan[i] = sx.add((lg[i] if sim == 'logits' else sm[i]) if addsim else 0, u[i])
    ctx.assume(sx.band(sx.gt(plan[i], sx.Fr(1, 1000)), sx.le(plan[i], 1)))
  for s in range(S):
    for e in range(E):
      inside = sx.ge(sx.sumall(D[e, :, s]), 1)
      w = sx.sumall(W[s, e])
      others = [plan[s, h] for h in range(E) if h != e] if experts else [plan[t, e] for t in range(S) if t != s]
      better = count(sx.gt(o, plan[s, e]) for o in others)
      ties = sx.anyof(sx.eq(o, plan[s, e]) for o in others)
      ctx.prove('pairs are selected by the entries of the transport plan', sx.bor(ties, sx.iff(inside, sx.lt(better, K))))
      if not (std and name == 'kl_experts'):
        ctx.prove('selected pairs are combined with the %s' % ('softmax gate' if soft else 'plan entry'),
                  sx.implies(inside, ctx.close(w, sm[s, e] if soft else plan[s, e])))
      ctx.prove('pairs not selected have weight zero', sx.implies(sx.bnot(inside), ctx.close(w, 0)))


def cases(tier):
  out = []
  q = [(2, 2, 1), (1, 3, 2)] + ([(3, 2, 1), (2, 3, 2)] if tier == 'thorough' else [])
  for n in ROUTERS:
    _, experts, sim = ROUTERS[n]
    for S, E, K in q:
      for soft in (True, False):
        if experts or sim == 'logits':
          if experts or K <= S:
            out.append(Case(router, name=n, S=S, E=E, K=K, soft=soft))
        else:
          # comparing plan entries of different items: arbitrary plan; its argument is checked with one item.
          if K <= S:
            out.append(Case(router, name=n, S=S, E=E, K=K, soft=soft, addsim=False))
    if not experts:
      out.append(Case(router, name=n, S=1, E=2, K=1, soft=False))
      out.append(Case(router, name=n, S=1, E=3, K=1, soft=False))
  out.append(Case(router, name='kl_experts', S=2, E=2, K=1, soft=True, lbfgs=True))
  out.append(Case(router, name='kl_items', S=2, E=2, K=1, soft=True, std=0.5))
  out.append(Case(router, name='kl_experts', S=2, E=2, K=1, soft=True, std=0.5))
  return out
