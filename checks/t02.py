"""T02: the optimizer applies to every parameter exactly its own configured update."""
import contextlib
import re
import jax
import jax.numpy as jnp
import numpy as np
import optax
from lib import sx
from lib.runner import Case
from vmoe.train import optimizer
from vmoe.train.train_state import TrainState

FUNCTIONS = ['vmoe.train.optimizer.create_optimizer', 'vmoe.train.optimizer.add_decayed_weights', 'vmoe.train.optimizer.gradient_scaling',
             'vmoe.train.optimizer.gradient_clipping', 'vmoe.train.optimizer.freeze_weights', 'vmoe.train.optimizer.trace_momentum',
             'vmoe.train.train_state.TrainState.apply_gradients_and_compute_global_norms']
BOUNDS = {'quick': 'every gradient and parameter value; trees of 4 parameters (two key orders); 6 weight-decay, 4 scaling, 3 clipping and 8 freezing '
                   'configurations; 3 consecutive steps with SGD, momentum, Adam, Adafactor',
          'thorough': 'the full product of the configurations'}
OUTSIDE = 'larger trees; the second-moment formulas of Adam and Adafactor (optax), stubbed by 3 * gradient + step'
ASSUMPTIONS = ['floating point read as real arithmetic']

KEYS = ['enc/mlp/kernel', 'enc/mlp/bias', 'enc/moe/kernel', 'head/kernel']
WD = [None, 0.5, [('head/kernel', 0.25), ('kernel', 0.125)], [('kernel', 0.5), ('head/kernel', 0.25)], [('mlp', 0.25), ('.*', 2.0)], 0.0]
GS = [None, [('moe', 8.0)], [('mlp/kernel', 0.5), ('enc', 4.0)], [('bias', 0.0), ('kernel$', 2.0)]]
CLIP = [None, dict(absolute_value=0.5), dict(global_norm=2.0)]
FZ = [{}, dict(frozen_pattern='enc'), dict(frozen_pattern=['bias', 'head/.*']), dict(trainable_pattern='head'),
      dict(trainable_pattern=['moe/kernel', 'bias']), dict(frozen_pattern='nothing_matches'),
      dict(frozen_pattern=['(b)ias', r'(e)ad.*\1']), dict(trainable_pattern=('mlp/bias', '(?i)HEAD'))]


def first(rules, key, default):
  if rules is None:
    return default
  if not isinstance(rules, (list, tuple)):
    return rules
  for k, v in rules:
    if re.search(k, key):
      return v
  return default


def frozen(fz, key):
  for name, pats in fz.items():
    pats = [pats] if isinstance(pats, str) else pats
    hit = any(re.search(p, key) for p in pats)
    return hit if name == 'frozen_pattern' else not hit
  return False


def nest(flat, order):
  t = {}
  for i in order:
    *path, last = KEYS[i].split('/')
    d = t
    for p in path:
      d = d.setdefault(p, {})
    d[last] = flat[i]
  return t


def flat(t):
  def get(k):
    d = t
    for p in k.split('/'):
      d = d[p]
    return d
  return [get(k) for k in KEYS]


ORDERS = [[0, 1, 2, 3], [3, 2, 1, 0]]


def update(ctx, wd, gs, clip, fz, order):
  """One step of plain SGD: closed form."""
  g = [ctx.arr('g%d' % i, (1,) if i == 0 else ()) for i in range(4)]
  p = [ctx.arr('p%d' % i, (1,) if i == 0 else ()) for i in range(4)]
  lr = 0.25
  cfg = dict(name='sgd', total_steps=10, learning_rate=lr, weight_decay=WD[wd], gradient_scale=GS[gs], gradient_clip=CLIP[clip], **FZ[fz])

  def f(g, p):
    tx = optimizer.create_optimizer(**cfg)
    gt, pt = nest(g, [0, 1, 2, 3]), nest(p, ORDERS[order])
    u, _ = tx.update(gt, tx.init(pt), pt)
    return flat(u)

  def ref(g, p):
    g = [x * first(GS[gs], k, 1.0) for x, k in zip(g, KEYS)]
    c = CLIP[clip] or {}
    if 'absolute_value' in c:
      g = [jnp.clip(x, -c['absolute_value'], c['absolute_value']) for x in g]
    if 'global_norm' in c:
      n = jnp.sqrt(sum(jnp.sum(x * x) for x in g))
      g = [jnp.where(n < c['global_norm'], x, x / n * c['global_norm']) for x in g]
    return [(-lr) * (x + first(WD[wd], k, 0.0) * y) for x, y, k in zip(g, p, KEYS)]
  with ctx.forking():
    u = ctx.run(f, g, p)
    r = ctx.run(ref, g, p, validate=False)
  for i, k in enumerate(KEYS):
    for j in np.ndindex(*u[i].shape):
      if frozen(FZ[fz], k):
        ctx.prove('a frozen parameter gets a zero update', sx.eq(u[i][j], 0))
      else:
        ctx.prove('the update is -lr * (clip(scale * gradient) + decay * own parameter)', ctx.close(u[i][j], r[i][j]))


def clipped(ctx, kind):
  """What clipping guarantees, independently of its formula."""
  g = [ctx.arr('g%d' % i, ()) for i in range(2)]
  c = 2.0

  def f(a, b):
    tx = optimizer.gradient_clipping(**{kind: c})
    u, _ = tx.update({'a': a, 'b': b}, tx.init({'a': a, 'b': b}), None)
    return u['a'], u['b']
  with ctx.forking():
    u = [x[()] for x in ctx.run(f, *g)]
  g = [x[()] for x in g]
  if kind == 'absolute_value':
    for x, y in zip(g, u):
      ctx.prove('no entry exceeds the limit', sx.band(sx.le(y, c), sx.ge(y, -c)))
      ctx.prove('entries within the limit are unchanged', sx.implies(sx.le(sx.sabs(x), c), sx.eq(x, y)))
      ctx.prove('signs are kept', sx.ge(sx.mul(x, y), 0))
  else:
    n2 = sx.sumall([sx.mul(x, x) for x in g])
    m2 = sx.sumall([sx.mul(x, x) for x in u])
    ctx.prove('the norm does not exceed the limit', sx.le(m2, sx.Fr(4004, 1000)))
    ctx.prove('gradients within the limit are unchanged', sx.implies(sx.lt(n2, sx.Fr(3999, 1000)), sx.band(ctx.close(g[0], u[0]), ctx.close(g[1], u[1]))))
    ctx.prove('the direction is kept', ctx.close(sx.mul(g[0], u[1]), sx.mul(g[1], u[0])))


@contextlib.contextmanager
def opt_stub(seen):
  """The second-moment optimizers of optax are replaced by 3 * gradient + (number of earlier updates)."""
  def make(name):
    def scale(*args, **kw):
      seen.append((name, args, kw))
      return optax.GradientTransformation(
          lambda p: jnp.zeros((), jnp.int32),
          lambda u, st, params=None: (jax.tree_util.tree_map(lambda x: 3 * x + st, u), st + 1))
    return scale
  names = ('scale_by_adam', 'scale_by_factored_rms')
  saved = {k: getattr(optax, k) for k in names}
  for k in names:
    setattr(optax, k, make(k))
  try:
    yield
  finally:
    for k, v in saved.items():
      setattr(optax, k, v)


OPTS = {
    'sgd': ('sgd', {}, 0.0), 'momentum': ('sgd', dict(momentum=0.5), 0.5),
    'adam': ('adam', dict(b1=0.75), 0.0), 'adafactor': ('big_vision_adafactor', dict(momentum=0.25, decay_rate=2.0), 0.25),
    'adafactor0': ('big_vision_adafactor', dict(momentum=0.0), 0.0),
}


def steps(ctx, name, wd, fz, n):
  """Several consecutive steps through TrainState: momentum, schedule position, frozen parameters."""
  opt, kw, mom = OPTS[name]
  cfg = dict(name=opt, total_steps=4, learning_rate=dict(schedule='warmup_linear_decay', peak_value=2.0, end_value=0.0, warmup_steps=2),
             weight_decay=WD[wd], **FZ[fz], **kw)
  lrs = [0.0, 1.0, 2.0, 1.0]
  g = [[ctx.arr('g%d_%d' % (s, i), ()) for i in range(4)] for s in range(n)]
  p = [ctx.arr('p%d' % i, ()) for i in range(4)]
  seen = []

  def f(g, p):
    st = TrainState.create(apply_fn=None, params=nest(p, [0, 1, 2, 3]), tx=optimizer.create_optimizer(**cfg), rngs={})
    out = []
    for s in range(n):
      st, _ = st.apply_gradients_and_compute_global_norms(nest(g[s], [0, 1, 2, 3]))
      out.append(flat(st.params))
    return out, st.step

  def ref(g, p):
    out, m = [], [0.0] * 4
    for s in range(n):
      u = g[s] if opt == 'sgd' else [3 * x + s for x in g[s]]
      if opt == 'sgd':
        m = u = [x + mom * y for x, y in zip(u, m)]
      elif mom:
        m = u = [(1 - mom) * x + mom * y for x, y in zip(u, m)]
      p = [y if frozen(FZ[fz], k) else y - lrs[s] * (x + first(WD[wd], k, 0.0) * y) for x, y, k in zip(u, p, KEYS)]
      out.append(list(p))
    return out
  with opt_stub(seen):
    a, st = ctx.run(f, g, p)
    b = ctx.run(ref, g, p, validate=False)
  if opt == 'adam':
    ctx.prove('the optimizer options are passed on', seen[0][0] == 'scale_by_adam' and seen[0][2].get('b1') == 0.75)
  elif opt != 'sgd':
    ctx.prove('the optimizer options are passed on', seen[0][0] == 'scale_by_factored_rms' and seen[0][2].get('factored', True) is True
              and seen[0][2].get('min_dim_size_to_factor') == 32)
  for s in range(n):
    for i, k in enumerate(KEYS):
      if frozen(FZ[fz], k):
        ctx.prove('a frozen parameter never changes', sx.eq(a[s][i][()], p[i][()]))
      else:
        ctx.prove('each step applies the learning rate of its own position', ctx.close(a[s][i][()], b[s][i][()]))
  ctx.prove('the step counter counts updates', sx.eq(st[()], n))


def moments(ctx):
  """Decay of the factored second moments: min(maximum, 1 - (step + 1) ** -rate)."""
  rate = ctx.choice('rate', [1.0, 2.0, 0.5])
  top = ctx.choice('top', [0.75, 0.999])
  step = ctx.arr('step', (), dtype='int32', lo=0, hi=100000)
  seen = []
  with opt_stub(seen):
    optimizer.scale_by_big_vision_adafactor(decay_rate=rate, decay_rate_max=top)
  kw = seen[0][2]
  fn = kw['decay_rate_fn']
  d = ctx.run(lambda t: fn(t, kw['decay_rate']), step)[()]
  t1 = sx.add(step[()], 1)
  tol = sx.Fr(1, 10**6)
  ctx.prove('never above the maximum', sx.le(d, sx.Fr(top) + tol))
  below = sx.lt(d, sx.Fr(top) - tol)
  # 1 - d == t1 ** -rate
  q = sx.sub(1, d)
  w = sx.mul(q, t1) if rate == 1.0 else (sx.mul(q, sx.mul(t1, t1)) if rate == 2.0 else sx.mul(sx.mul(q, q), t1))
  ctx.prove('1 - (step + 1) ** -rate below the maximum', sx.implies(below, sx.band(sx.le(w, sx.Fr(1001, 1000)), sx.ge(w, sx.Fr(999, 1000)))))
  # t1 ** -rate <= 1 - maximum wherever the maximum applies
  c = 1 - sx.Fr(top) + 2 * tol
  pw = sx.mul(c, t1) if rate == 1.0 else (sx.mul(c, sx.mul(t1, t1)) if rate == 2.0 else sx.mul(c * c, t1))
  ctx.prove('the maximum applies only above it', sx.implies(sx.bnot(below), sx.ge(pw, sx.Fr(999, 1000))))


def norms(ctx):
  """Reported global norms: gradients, updates, new parameters."""
  g = [ctx.arr('g%d' % i, ()) for i in range(2)]
  p = [ctx.arr('p%d' % i, ()) for i in range(2)]
  tx = optax.scale(-0.5)

  def f(g, p):
    st = TrainState.create(apply_fn=None, params={'a': p[0], 'b': {'c': p[1]}}, tx=tx, rngs={})
    _, gn = st.apply_gradients_and_compute_global_norms({'a': g[0], 'b': {'c': g[1]}})
    return gn
  r = ctx.run(f, g, p)
  g, p = [x[()] for x in g], [x[()] for x in p]
  sq = lambda xs: sx.sumall([sx.mul(x, x) for x in xs])
  for k, xs in (('grads', g), ('updates', [sx.mul(sx.Fr(1, 2), x) for x in g]), ('params', [sx.sub(y, sx.mul(sx.Fr(1, 2), x)) for x, y in zip(g, p)])):
    ctx.prove('reported %s norm' % k, sx.band(sx.ge(r[k][()], 0), ctx.close(sx.mul(r[k][()], r[k][()]), sq(xs))))


def reject(ctx):
  which = ctx.choice('which', ['name', 'both_clip', 'both_pattern'])
  kw = dict(name='sgd', total_steps=3, learning_rate=0.1)
  kw.update({'name': dict(name='rmsprop_x'), 'both_clip': dict(gradient_clip=dict(global_norm=1.0, absolute_value=1.0)),
             'both_pattern': dict(frozen_pattern='a', trainable_pattern='b')}[which])
  try:
    optimizer.create_optimizer(**kw)
    ok = False
  except ValueError:
    ok = True
  ctx.prove('contradictory or unknown settings are rejected', ok)


def cases(tier):
  out = [Case(reject), Case(clipped, kind='absolute_value'), Case(clipped, kind='global_norm')]
  if tier == 'thorough':
    combos = [(w, g, c, z, o) for w in range(len(WD)) for g in range(len(GS)) for c in range(len(CLIP)) for z in range(len(FZ)) for o in (0, 1)]
  else:
    combos = [(w, 0, 0, 0, o) for w in range(len(WD)) for o in (0, 1)]
    combos += [(0, g, 0, 0, 0) for g in range(len(GS))] + [(2, g, 1, 0, 1) for g in range(len(GS))]
    combos += [(3, 0, 0, z, o) for z in range(len(FZ)) for o in (0, 1)] + [(4, 2, 1, z, 1) for z in range(len(FZ))]
    combos += [(0, 0, 2, 0, 0), (2, 1, 2, 0, 0), (2, 0, 2, 2, 1)]
  for w, g, c, z, o in dict.fromkeys(combos):
    out.append(Case(update, wd=w, gs=g, clip=c, fz=z, order=o))
  for name in OPTS:
    for wd, fz in ((0, 0), (2, 2), (1, 4)):
      out.append(Case(steps, name=name, wd=wd, fz=fz, n=3))
  out += [Case(moments), Case(norms)]
  return out
