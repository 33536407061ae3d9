"""M06: expert capacity is exactly the smallest admissible one, or an error."""
import jax
import jax.numpy as jnp
import numpy as np
import vmoe.moe
from lib import sx
from lib.engine import unwrap
from lib.runner import Case
from lib.shadow import shadow

FUNCTIONS = ['vmoe.moe.compute_capacity', 'vmoe.moe.get_top_experts_per_item_dispatcher (capacity_factor)',
             'vmoe.moe.get_top_items_per_expert_dispatcher (capacity_factor)']
BOUNDS = {
    'quick': 'num_tokens 1..100000, num_experts per case in {1,2,3,4,7,8,32}, capacity_factor any of 10 '
             'listed binary fractions (1/16..8), multiple_of in {None,0,1,2,4,5,8}; both rounding modes; all symbolic within a case',
    'thorough': 'num_tokens 1..1000000, num_experts 1..64 (each), 24 binary-fraction factors (1/64..16)',
}
OUTSIDE = ('capacity factors that are not exact binary fractions (float rounding of the product), '
           'larger token counts')
ASSUMPTIONS = ['capacity factors are dyadic so the float product/quotient rounds to the same integer as the exact one']


FACTORS = [1.0, 0.5, 2.0, 0.25, 1.25, 1.5, 0.0625, 1.125, 3.0, 8.0, 0.015625, 0.875, 1.046875, 4.0,
           2.5, 0.75, 1.984375, 0.03125, 5.625, 10.0, 0.109375, 7.015625, 16.0, 1.0078125]


def harness(ctx, mode, multiple, E, tmax, den):
  n = ctx.int('num_tokens', 1, tmax)
  k = ctx.choice('factor', FACTORS[:den])
  raised = None
  with shadow(vmoe.moe):
    try:
      cap = vmoe.moe.compute_capacity(n, E, k, ceil_or_round=mode, multiple_of=multiple)
    except ValueError:
      raised = True
  nv, kv = unwrap(n), sx.norm_num(k)
  target = sx.div(sx.mul(nv, kv), E)
  base = sx.ceil(target) if mode == 'ceil' else sx.round_half_even(target)
  if raised:
    ctx.prove('an error is raised only when no slot would result', sx.lt(base, 1))
    return
  c = unwrap(cap)
  ctx.cover('capacity above the rounded target', sx.gt(c, base) if (multiple or 0) > 1 else sx.ge(c, base))
  ctx.prove('capacity is at least one', sx.ge(c, 1))
  ctx.prove('no error is raised only when a slot results', sx.ge(base, 1))
  m = multiple if multiple else 1
  ctx.prove('capacity is a multiple of the requested number', sx.eq(sx.pymod(c, m), 0))
  ctx.prove('capacity is at least the rounded target', sx.ge(c, base))
  ctx.prove('capacity is the smallest such number', sx.lt(sx.sub(c, m), base))


def unsupported(ctx):
  n = ctx.int('num_tokens', 1, 1000)
  try:
    with shadow(vmoe.moe):
      vmoe.moe.compute_capacity(n, 4, 1.0, ceil_or_round='floor')
    ok = False
  except ValueError:
    ok = True
  ctx.prove('an unknown rounding mode is rejected', ok)


def dispatcher(ctx, which):
  """The dispatchers allocate the capacity the factor asks for."""
  S = ctx.choice('S', [1, 3, 5])
  E = ctx.choice('E', [2, 3])
  K = ctx.choice('K', [1, 2])
  num = ctx.choice('num', [2, 5])           # factor = num/4
  mode = ctx.choice('mode', ['ceil', 'round'])
  mult = ctx.choice('mult', [None, 2, 4])
  gates = ctx.arr('gates', (1, S, E), lo=0, hi=1)
  tokens = S * K if which != 'items' else S
  target = sx.Fr(tokens * num, 4 * E)
  base = sx.ceil(target) if mode == 'ceil' else sx.round_half_even(target)
  m = mult or 1
  want = -(-base // m) * m

  def f(g):
    kw = dict(capacity_factor=num / 4, capacity_ceil_or_round=mode, capacity_multiple_of=mult)
    if which == 'items':
      d, _ = jax.vmap(lambda x: vmoe.moe.get_top_items_per_expert_dispatcher(x, name='einsum', **kw))(g)
    else:
      d = jax.vmap(lambda x: vmoe.moe.get_top_experts_per_item_dispatcher(
          x, name=which, num_selected_experts=K, batch_priority=False, **kw))(g)
    return d.dispatch(jnp.ones((1, S, 1)))
  if which == 'items' and want > S:
    ctx.prove('precondition excluded', True)
    return
  try:
    d = ctx.run(f, gates, validate=False)
  except ValueError:
    ctx.prove('an error is raised only when no slot would result', base < 1)
    return
  ctx.prove('dispatcher capacity follows the capacity factor', d.shape == (E, want, 1))


def exclusive(ctx):
  """Exactly one of capacity / capacity_factor must be given."""
  both = ctx.choice('both', [False, True])
  kw = dict(capacity=2, capacity_factor=1.0) if both else {}
  for fn, extra in ((vmoe.moe.get_top_experts_per_item_dispatcher, dict(num_selected_experts=1, batch_priority=False)),
                    (vmoe.moe.get_top_items_per_expert_dispatcher, {})):
    try:
      fn(jnp.ones((2, 2)), name='einsum', **kw, **extra)
      ok = False
    except ValueError:
      ok = True
    ctx.prove('ambiguous capacity is rejected', ok)


def cases(tier):
  out = []
  es = [1, 2, 3, 4, 7, 8, 32] if tier == 'quick' else list(range(1, 65))
  tmax, den = (100000, 10) if tier == 'quick' else (1000000, 24)
  for mode in ('ceil', 'round'):
    for mult in (None, 0, 1, 2, 4, 5, 8):
      for E in (es if mult in (None, 4) or tier == 'thorough' else es[:4]):
        out.append(Case(harness, mode=mode, multiple=mult, E=E, tmax=tmax, den=den))
  out.append(Case(unsupported))
  out.append(Case(exclusive))
  for w in ('einsum', 'indices', 'items'):
    out.append(Case(dispatcher, which=w))
  return out
