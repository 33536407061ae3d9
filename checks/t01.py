"""T01: learning-rate schedules follow the configured shape at every step."""
import numpy as np
import jax.numpy as jnp
from lib import sx
from lib.runner import Case
from vmoe.train import schedule

FUNCTIONS = ['vmoe.train.schedule.create_learning_rate_schedule', 'vmoe.train.schedule.warmup_polynomial_decay_schedule',
             'vmoe.train.schedule.big_vision_rsqrt_schedule', 'optax join/polynomial/cosine/exponential schedules as called']
BOUNDS = {'quick': 'every step 0..100000 (symbolic) for each listed schedule and configuration (peak 3/4, 8; end 0, 1/4; warmup 0, 1, 7; '
                   'length 8, 20, default; power 1, 2, 1/2, 3; timescale 1, 5, 16; cooldown 0, 1, 6)',
          'thorough': 'every step 0..10000000, warmup up to 10000, length up to 300000'}
OUTSIDE = 'steps above 10 million (float32 step counts), other exponents'
ASSUMPTIONS = ['floating point read as real arithmetic; cos and exp are constrained by range, monotonicity and equal-argument axioms']


def get(ctx, tmax, **cfg):
  """LR at an arbitrary step, and the step."""
  step = ctx.arr('step', (), dtype='int32', lo=0, hi=tmax)
  s = step[()]

  def f(t):
    return jnp.asarray(schedule.create_learning_rate_schedule(**cfg)(t), jnp.float32)
  return s, step, ctx.run(f, step)[()]


def sizes(ctx, thorough):
  w = ctx.choice('warmup', [0, 1, 7] + ([10000] if thorough else []))
  d = ctx.choice('length', [8, 20, None] + ([300000] if thorough else []))
  total = 12
  t = total if d is None else d
  return w, d, total, t


def warm(s, w, peak):
  return sx.mul(sx.div(sx.norm_num(sx.Fr(peak)), w), s) if w else sx.norm_num(sx.Fr(peak))


def poly(ctx, tmax, thorough, kind):
  w, d, total, t = sizes(ctx, thorough)
  if w >= t:
    ctx.prove('warmup shorter than the schedule', True)
    return
  peak = ctx.choice('peak', [0.75, 8.0])
  end = ctx.choice('end', [0.0, 0.25])
  power = 1 if kind == 'warmup_linear_decay' else ctx.choice('power', [1, 2, 0.5, 3])
  kw = dict(peak_value=peak, end_value=end, warmup_steps=w)
  if kind != 'warmup_linear_decay':
    kw['power'] = power
  if d is not None:
    kw['decay_steps'] = d
  s, step, lr = get(ctx, tmax, schedule=kind, total_steps=total, **kw)
  ctx.cover('decaying', sx.band(sx.gt(s, w), sx.lt(s, t)))
  ctx.prove('warmup is linear from 0 to the peak', sx.implies(sx.le(s, w), ctx.close(lr, warm(s, w, peak) if w else peak)))
  ctx.prove('from the end of the schedule on, the end value', sx.implies(sx.ge(s, t), ctx.close(lr, sx.Fr(end))))
  pk, en = sx.Fr(peak), sx.Fr(end)
  frac = sx.sub(1, sx.div(sx.sub(s, w), t - w))
  inside = sx.band(sx.ge(s, w), sx.le(s, t))
  # ((lr - end) / (peak - end)) ** 1/power == 1 - (step - warmup) / (length - warmup)
  y = sx.div(sx.sub(lr, en), pk - en)
  if power == 0.5:
    ctx.prove('the decay has the configured power', sx.implies(inside, ctx.close(sx.mul(y, y), frac)))
  else:
    ctx.prove('the decay has the configured power', sx.implies(inside, ctx.close(y, sx.ipow(frac, power))))
  ctx.prove('never negative, never above the peak', sx.band(sx.ge(lr, sx.Fr(-1, 10**6)), sx.le(lr, pk * sx.Fr(1000001, 1000000))))


def cosine(ctx, tmax, thorough):
  w, d, total, t = sizes(ctx, thorough)
  if w >= t:
    ctx.prove('warmup shorter than the schedule', True)
    return
  peak = ctx.choice('peak', [0.75, 8.0])
  end = ctx.choice('end', [0.0, 0.25])
  kw = dict(peak_value=peak, end_value=end, warmup_steps=w)
  if d is not None:
    kw['decay_steps'] = d
  s, step, lr = get(ctx, tmax, schedule='warmup_cosine_decay', total_steps=total, **kw)

  def ref(x):
    c = jnp.minimum(x - w, t - w) / (t - w)
    return end + (peak - end) * 0.5 * (1 + jnp.cos(jnp.pi * c))
  r = ctx.run(ref, step, validate=False)[()]
  ctx.prove('warmup is linear from 0 to the peak', sx.implies(sx.lt(s, w), ctx.close(lr, warm(s, w, peak))))
  ctx.prove('the decay is half a cosine and then the end value', sx.implies(sx.ge(s, w), ctx.close(lr, r)))
  ctx.prove('never negative, never above the peak', sx.band(sx.ge(lr, sx.Fr(-1, 10**6)), sx.le(lr, sx.Fr(peak) * sx.Fr(1000001, 1000000))))


def rsqrt(ctx, tmax, thorough):
  w, d, total, t = sizes(ctx, thorough)
  cool = ctx.choice('cooldown', [0, 1, 6])
  ts = ctx.choice('timescale', [1, 5, 16])
  peak = ctx.choice('peak', [0.75, 8.0])
  kw = dict(peak_value=peak, warmup_steps=w, cooldown_steps=cool, timescale=ts)
  if d is not None:
    kw['decay_steps'] = d
  try:
    s, step, lr = get(ctx, tmax, schedule='big_vision_rsqrt', total_steps=total, **kw)
  except ValueError:
    ctx.prove('rejected only when the phases do not fit', w + cool > t)
    return
  ctx.prove('phases that do not fit are rejected', w + cool <= t)
  pk = sx.Fr(peak)
  tol = sx.Fr(1, 10**4)
  ctx.prove('warmup is linear from 0 to the peak', sx.implies(sx.lt(s, w), ctx.close(lr, warm(s, w, peak))))
  # (peak / lr) ** 2 == 1 + (step - warmup) / timescale, up to the cooldown
  main = sx.band(sx.ge(s, w), sx.le(s, t - cool) if cool else True)
  x = sx.mul(sx.mul(lr, lr), sx.add(1, sx.div(sx.sub(s, w), ts)))
  ctx.prove('then decays with the inverse square root', sx.implies(main, sx.band(
      sx.gt(lr, 0), sx.le(x, pk * pk * (1 + tol)), sx.ge(x, pk * pk * (1 - tol)))))
  if cool:
    base2 = pk * pk / (1 + sx.Fr(t - w - cool, ts))
    left = sx.div(sx.sub(t, s), cool)
    want = sx.mul(base2, sx.mul(left, left))
    ctx.prove('the cooldown is linear down to 0', sx.implies(sx.band(sx.ge(s, t - cool), sx.le(s, t)), sx.band(
        sx.ge(lr, sx.Fr(-1, 10**6)), sx.le(sx.mul(lr, lr), sx.add(sx.mul(want, 1 + tol), tol)),
        sx.ge(sx.mul(lr, lr), sx.sub(sx.mul(want, 1 - tol), tol)))))
  ctx.prove('never negative, never above the peak', sx.band(sx.ge(lr, sx.Fr(-1, 10**6)), sx.le(lr, pk * sx.Fr(1000001, 1000000))))


def expo(ctx, tmax):
  w = ctx.choice('warmup', [0, 1, 7])
  peak = ctx.choice('peak', [0.75, 8.0])
  tr = ctx.choice('transition', [1, 10])
  s, step, lr = get(ctx, tmax, schedule='warmup_exponential_decay', total_steps=12, peak_value=peak, warmup_steps=w,
                    transition_steps=tr, decay_rate=0.5)
  r = ctx.run(lambda x: peak * 0.5 ** ((x - w) / tr), step, validate=False)[()]
  ctx.prove('warmup is linear from 0 to the peak', sx.implies(sx.lt(s, w), ctx.close(lr, warm(s, w, peak))))
  ctx.prove('then decays exponentially', sx.implies(sx.ge(s, w), ctx.close(lr, r)))
  ctx.prove('never negative, never above the peak', sx.band(sx.ge(lr, sx.Fr(-1, 10**6)), sx.le(lr, sx.Fr(peak) * sx.Fr(1000001, 1000000))))


def const(ctx, tmax):
  v = ctx.choice('value', [0.75, 8.0])
  s, _, lr = get(ctx, tmax, schedule='constant', total_steps=12, value=v)
  ctx.prove('constant', ctx.close(lr, v))
  name = ctx.choice('name', ['linear', 'cosine', '', 'warmup'])
  try:
    schedule.create_learning_rate_schedule(schedule=name, total_steps=12)
    ok = False
  except ValueError:
    ok = True
  ctx.prove('unknown schedules are rejected', ok)


def cases(tier):
  th = tier == 'thorough'
  tmax = 10**7 if th else 10**5
  return [Case(poly, tmax=tmax, thorough=th, kind=k) for k in ('warmup_linear_decay', 'warmup_polynomial_decay')] + [
      Case(cosine, tmax=tmax, thorough=th), Case(rsqrt, tmax=tmax, thorough=th), Case(expo, tmax=tmax), Case(const, tmax=tmax)]
