"""T04: mixup mixes images and labels with the same convex weights, dominated by the example itself."""
import contextlib
import jax
import jax.numpy as jnp
import flax
import numpy as np
import optax
from lib import sx
from lib.rnd import random_stub, stub_random_p, _key
from lib.runner import Case
from vmoe.train import trainer
from vmoe.train.train_state import TrainState

FUNCTIONS = ['vmoe.train.trainer.mixup', 'vmoe.train.trainer.wrap_train_step_with_mixup']
BOUNDS = {'quick': 'every image and label value, every set of Dirichlet weights (arbitrary non-negative numbers adding to 1); 1-4 devices, up to 3 examples '
                   'per device, mixing 2 or 3 examples, the three granularities',
          'thorough': 'up to 6 examples per device, mixing up to 4'}
OUTSIDE = 'larger batches; the Dirichlet sampler (jax.random.dirichlet is a stub returning any point of the simplex)'
ASSUMPTIONS = ['floating point read as real arithmetic', 'jax.device_count() is a stub returning the number of devices']


def dirichlet(key, alpha, shape=None, dtype=None):
  shape = alpha.shape if shape is None else tuple(shape) + alpha.shape[-1:]
  return stub_random_p.bind(_key(key), shape=tuple(shape), dtype='float32', kind='dirichlet')


@contextlib.contextmanager
def devices(n):
  real = jax.device_count
  trainer.jax.device_count = lambda *a: n
  try:
    yield
  finally:
    trainer.jax.device_count = real


def desc(l):
  """Sorts terms in decreasing order (network)."""
  l = list(l)
  for i in range(len(l)):
    for j in range(len(l) - 1 - i):
      l[j], l[j + 1] = sx.smax(l[j], l[j + 1]), sx.smin(l[j], l[j + 1])
  return l


def simplex(ctx, a):
  for i in np.ndindex(*a.shape[:-1]):
    for v in a[i]:
      ctx.assume(sx.ge(v, 0))
    ctx.assume(sx.eq(sx.sumall(list(a[i])), 1))


def wrapped(ctx, ndev, per, size, gran, frozen=False):
  B = ndev * per
  x = ctx.arr('images', (B, 1), lo=-8, hi=8)
  y = ctx.arr('labels', (B,), lo=-8, hi=8)
  rngs = {'dropout': jax.random.PRNGKey(1), 'mixup': jax.random.PRNGKey(2)}
  seen, after = [], []

  def inner(state, images, labels):
    seen.append(set(state.rngs))
    # As train_step does, the keys are replaced by new ones.
    fresh = {k: v + 1 for k, v in state.rngs.items()}
    return state.replace(step=state.step + 1, rngs=flax.core.freeze(fresh) if frozen else fresh), {'images': images, 'labels': labels, 'dropout': state.rngs['dropout']}

  def f(x, y):
    r = dict(rngs)
    state = TrainState.create(apply_fn=None, params={}, tx=optax.identity(), rngs=flax.core.freeze(r) if frozen else r)
    fn = trainer.wrap_train_step_with_mixup(inner, concentration=0.5, granularity=gran, size=size)
    new, met = fn(state, x, y)
    after.append(({k: v.tolist() for k, v in state.rngs.items()}, set(new.rngs), isinstance(new.rngs, flax.core.FrozenDict)))
    return met, dict(new.rngs), new.step
  with devices(ndev), random_stub(dirichlet=dirichlet):
    met, nr, st = ctx.run(f, x, y)
  al = [(k, v) for k, v in ctx.stub_values.items() if k[2] == 'dirichlet']
  ctx.prove('one draw of weights', len(al) == 1)
  key, a = al[0]
  simplex(ctx, a)
  shape = {'batch': (1, 1), 'device': (ndev, 1), 'example': (ndev, per)}[gran] + (size,)
  ctx.prove('one weight vector per batch, device or example as configured', a.shape == shape)
  for d in range(ndev):
    for e in range(per):
      w = a[d % shape[0], e % shape[1]]
      s = desc(w)
      for name, src in (('images', x[:, 0]), ('labels', y)):
        got = met[name][d * per + e]
        got = got[0] if name == 'images' else got
        want = sx.sumall([sx.mul(s[i], src[d * per + (e + i) % per]) for i in range(size)])
        ctx.prove('%s are mixed with the sorted weights, the example itself first, within the device' % name, ctx.close(got, want))
  k = lambda v: tuple(int(t) for t in np.asarray(v).ravel())
  ctx.prove('the step sees every other key but not the mixup key', seen[-1] == {'dropout'} and k(met['dropout']) == k(rngs['dropout']))
  ctx.prove('the new state has a fresh mixup key and the other keys', set(nr) == {'dropout', 'mixup'} and k(nr['dropout']) == k(rngs['dropout'] + 1)
            and k(nr['mixup']) not in (k(rngs['mixup']), key[0]) and key[0] != k(rngs['mixup']))
  ctx.prove('the state given is left as it was', after[-1][0] == {n: v.tolist() for n, v in rngs.items()} and after[-1][2] == frozen)
  ctx.prove('the step result is passed on', sx.eq(st[()], 1))


def bounds(ctx, size):
  """Whatever the weights, every mixed value lies between the values it mixes and the own weight is at least 1/size."""
  x = ctx.arr('images', (3,), lo=-8, hi=8)

  def f(v):
    return trainer.mixup(jax.random.PRNGKey(3), {'a': v, 'b': v}, concentration=0.25, shape=(1, size))
  with random_stub(dirichlet=dirichlet):
    r = ctx.run(f, x)
  a = [v for k, v in ctx.stub_values.items() if k[2] == 'dirichlet'][0]
  simplex(ctx, a)
  for i in range(3):
    ctx.prove('same mix for every array', ctx.close(r['a'][i], r['b'][i]))
    src = [x[(i + j) % 3] for j in range(size)]
    hi, lo = src[0], src[0]
    for v in src[1:]:
      hi, lo = sx.smax(hi, v), sx.smin(lo, v)
    ctx.prove('between the smallest and the largest mixed value', sx.band(sx.le(r['a'][i], sx.add(hi, sx.Fr(1, 1000))), sx.ge(r['a'][i], sx.sub(lo, sx.Fr(1, 1000)))))


def ident(ctx):
  """No mixup configured: the step function itself."""
  c = ctx.choice('c', [None, 0.0])
  fn = lambda *a: a
  ctx.prove('without a concentration the step is unchanged', trainer.wrap_train_step_with_mixup(fn, concentration=c) is fn)


def reject(ctx):
  which = ctx.choice('which', ['shape', 'axis', 'axis_neg', 'conc', 'conc0', 'bsize', 'bcast', 'gran', 'nokey'])
  t = {'a': jnp.ones((4, 2)), 'b': jnp.ones((4,))}
  kw = dict(concentration=0.5, shape=(4, 2), roll_axis=0)
  kw.update({'shape': dict(shape=(2,)), 'axis': dict(roll_axis=1), 'axis_neg': dict(roll_axis=-1), 'conc': dict(concentration=-1.0),
             'conc0': dict(concentration=0.0), 'bcast': dict(shape=(3, 2))}.get(which, {}))
  if which == 'bsize':
    t['b'] = jnp.ones((1,))
  try:
    if which in ('gran', 'nokey'):
      st = TrainState.create(apply_fn=None, params={}, tx=optax.identity(),
                             rngs={'dropout' if which == 'nokey' else 'mixup': jax.random.PRNGKey(0)})
      trainer.wrap_train_step_with_mixup(lambda s, i, l: (s, {}), concentration=0.5, granularity='pixel' if which == 'gran' else 'batch')(st, t['a'], t['b'])
    else:
      trainer.mixup(jax.random.PRNGKey(0), t, **kw)
    ok = False
  except ValueError:
    ok = True
  ctx.prove('invalid settings are rejected', ok)


def cases(tier):
  out = [Case(ident), Case(reject), Case(bounds, size=1), Case(bounds, size=2), Case(bounds, size=3)]
  sizes = [(1, 3, 2), (2, 2, 2), (2, 3, 3), (4, 1, 2), (1, 2, 3)] + ([(2, 6, 4), (4, 4, 3), (1, 6, 2)] if tier == 'thorough' else [])
  for gran in ('batch', 'device', 'example'):
    for d, p, s in sizes:
      out.append(Case(wrapped, ndev=d, per=p, size=s, gran=gran))
    out.append(Case(wrapped, ndev=2, per=2, size=2, gran=gran, frozen=True))
  return out
