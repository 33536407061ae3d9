"""T03: one training step is one optimizer update with the gradient of the reported total loss over the whole batch."""
import contextlib
import jax
import jax.numpy as jnp
import numpy as np
import optax
from lib import sx
from lib.rnd import random_stub
from lib.runner import Case
from vmoe.train import trainer
from vmoe.train.train_state import TrainState

FUNCTIONS = ['vmoe.train.trainer.train_step', 'vmoe.train.trainer.accumulate_gradients_and_metrics', 'vmoe.utils.tree_rngs_split',
             'vmoe.train.train_state.TrainState.apply_gradients_and_compute_global_norms']
BOUNDS = {'quick': 'every image, label, parameter and noise value; batch 1-6, 1-6 microsteps (and off), two consecutive steps, '
                   'polynomial model with a scalar or per-layer auxiliary loss or none',
          'thorough': 'batch up to 12, three consecutive steps'}
OUTSIDE = 'larger batches; other models (the step treats the model as a black box); distribution over devices (XLA)'
ASSUMPTIONS = ['floating point read as real arithmetic', 'jax.random draws are arbitrary values, equal for equal keys']
LR = 0.5


def model(aux, noise):
  """logits[b] = sum_j w_j * image[b, j] + bias * image[b, 0]**2 + noise; auxiliary loss depends on params and images."""
  def apply_fn(variables, images, rngs=None):
    p = variables['params']
    logits = images @ p['w'] + p['sub']['b'] * images[:, 0] ** 2
    for n in noise:
      logits = logits + p['w'][0] * jax.random.normal(rngs[n], (1,))
    metrics = {'seen': jnp.sum(images)}
    if aux == 'scalar':
      metrics['auxiliary_loss'] = p['w'][1] ** 2 * jnp.mean(images[:, 1])
    elif aux == 'vector':
      metrics['auxiliary_loss'] = jnp.stack([p['w'][1] ** 2, jnp.mean(images[:, 1]) * p['w'][0], 0.0])
    return logits, metrics
  return apply_fn


def loss_fn(logits, labels):
  return (logits - labels) ** 2


@contextlib.contextmanager
def mesh():
  m = jax.sharding.Mesh(np.asarray(jax.devices()[:1]).reshape(1, 1), ('expert', 'replica'))
  with m:
    yield


def make_state(p, aux, noise, rngs):
  return TrainState.create(apply_fn=model(aux, noise), params={'w': p[0], 'sub': {'b': p[1]}}, tx=optax.sgd(LR), rngs=rngs)


def step(ctx, B, micro, aux, noise=(), nsteps=1, frozen=False):
  x = [ctx.arr('image%d' % s, (B, 2), lo=-4, hi=4) for s in range(nsteps)]
  y = [ctx.arr('label%d' % s, (B,), lo=-4, hi=4) for s in range(nsteps)]
  p = [ctx.arr('w', (2,), lo=-4, hi=4), ctx.arr('b', (), lo=-4, hi=4)]
  names = noise or ('dropout',)
  rngs = {n: jax.random.PRNGKey(i) for i, n in enumerate(names)}
  m = micro if micro and micro > 0 else 1
  keys = []

  def f(x, y, p):
    st = make_state(p, aux, noise, rngs)
    mets, ks = [], [st.rngs]
    for s in range(nsteps):
      st, met = trainer.train_step(st, x[s], y[s], loss_fn, microsteps=micro)
      mets.append({k: v for k, v in met.items() if not k.startswith('global_norm')})
      ks.append(st.rngs)
    return st.params, mets, st.step, ks

  with mesh(), random_stub():
    params, mets, count, ks = ctx.run(f, x, y, p)
  draws = [v[0] for k, v in ctx.stub_values.items() if k[2] == 'normal']
  dkeys = [k[0] for k in ctx.stub_values if k[2] == 'normal']
  ctx.prove('every microstep draws fresh randomness', len(set(dkeys)) == len(noise) * m * nsteps)
  allk = [tuple(int(v) for v in np.asarray(k[n]).ravel()) for k in ks for n in names]
  ctx.prove('keys kept in the state are never the ones consumed, and change every step',
            len(set(allk)) == len(allk) and not set(allk) & set(dkeys))
  ctx.prove('the rng names are kept', all(set(k) == set(names) for k in ks))
  ctx.prove('the step counter counts steps', sx.eq(count[()], nsteps))
  # Reference: total loss over the whole batch; with noise, example i belongs to microstep i mod m.
  draws = np.asarray(draws, dtype=object).reshape(nsteps * m, len(noise)) if noise else None

  def total(p, x, y, nz):
    w, b = p
    logits = x @ w + b * x[:, 0] ** 2
    if nz is not None:
      logits = logits + w[0] * nz
    main = jnp.mean((logits - y) ** 2)
    out = {'main_loss': main, 'seen': jnp.sum(x) / m}
    t = main
    if aux == 'scalar':
      a = w[1] ** 2 * jnp.mean(x[:, 1])
    elif aux == 'vector':
      a = (w[1] ** 2 + jnp.mean(x[:, 1]) * w[0]) / 3
    if aux:
      out['auxiliary_loss'] = a
      t = t + a
    out['total_loss'] = t
    return t, out

  def ref(x, y, p, nz):
    mets = []
    p = tuple(p)
    for s in range(nsteps):
      (_, met), g = jax.value_and_grad(total, has_aux=True)(p, x[s], y[s], None if nz is None else nz[s])
      p = jax.tree_util.tree_map(lambda a, b: a - LR * b, p, g)
      mets.append(met)
    return p, mets
  nz = None
  if noise:
    per = [sx.sumall(list(draws[i])) for i in range(nsteps * m)]
    nz = []
    # order of the draws: microstep by microstep
    for s in range(nsteps):
      a = np.empty((B,), dtype=object)
      for i in range(B):
        a[i] = per[s * m + i % m]
      nz.append(ctx.typed(a, 'float32'))
  with random_stub():
    rp, rm = ctx.run(ref, x, y, p, nz, validate=False)
  for j in range(2):
    ctx.prove('new parameter = parameter - lr * gradient of the total loss over the whole batch', ctx.close(params['w'][j], rp[0][j]))
  ctx.prove('new parameter = parameter - lr * gradient of the total loss over the whole batch', ctx.close(params['sub']['b'][()], rp[1][()]))
  for s in range(nsteps):
    ctx.prove('the same metrics are reported', set(mets[s]) == set(rm[s]))
    for k in rm[s]:
      ctx.prove('metric %s is the mean over the batch' % k, ctx.close(mets[s][k][()], rm[s][k][()]))


def indivisible(ctx):
  """A batch that cannot be split evenly is rejected, never truncated."""
  B = ctx.choice('B', [2, 3, 4, 5, 6])
  m = ctx.choice('m', [2, 3, 4])
  rngs = {'dropout': jax.random.PRNGKey(0)}
  st = make_state([jnp.ones((2,)), jnp.ones(())], None, (), rngs)
  try:
    with mesh():
      trainer.train_step(st, jnp.ones((B, 2)), jnp.ones((B,)), loss_fn, microsteps=m)
    ok = B % m == 0
  except Exception:  # pylint: disable=broad-except
    ok = B % m != 0
  ctx.prove('rejected exactly when the microsteps do not divide the batch', ok)


def cases(tier):
  th = tier == 'thorough'
  out = [Case(indivisible)]
  for aux in (None, 'scalar', 'vector'):
    for B, m in [(1, None), (2, 0), (2, 1), (2, 2), (4, 2), (6, 3), (6, 2), (3, 3), (6, 6), (4, 4)] + ([(12, 3), (12, 4), (8, 2)] if th else []):
      out.append(Case(step, B=B, micro=m, aux=aux))
  for B, m in [(2, None), (2, 2), (4, 2), (3, 3)]:
    for noise in (('dropout',), ('dropout', 'gating')):
      out.append(Case(step, B=B, micro=m, aux='scalar', noise=noise))
  for m in (None, 2) if not th else (None, 1, 2):
    out.append(Case(step, B=2, micro=m, aux=None, noise=('dropout',), nsteps=2))
  return out
