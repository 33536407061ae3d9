"""A01: a PGD attack climbs the loss by sign-gradient steps and stays within the pixel budget."""
import contextlib
import jax
import jax.numpy as jnp
import numpy as np
import optax
from lib import sx
from lib.rnd import random_stub
from lib.runner import Case
from vmoe.projects.adversarial_attacks import attacks, restore
from vmoe.train import trainer
from vmoe.train.train_state import TrainState

FUNCTIONS = ['vmoe.projects.adversarial_attacks.attacks.stateless_attack_pgd', 'vmoe.train.trainer.wrap_train_step_with_adversarial_attack',
             'vmoe.projects.adversarial_attacks.restore.get_loss_including_auxiliary_fn']
BOUNDS = {'quick': 'every image, label, weight, budget and noise draw; batch 1-2 of 1-2 pixels, 2 outputs, 1-3 updates; polynomial models with or without noise and auxiliary loss',
          'thorough': 'batch 3, up to 5 updates'}
OUTSIDE = 'larger images (the attack is elementwise and treats the model as a black box); float rounding; a real network'
ASSUMPTIONS = ['floating point read as real arithmetic', 'jax.random draws are arbitrary values, equal for equal keys']


def model(w, kind, noise):
  def apply_fn(x, rngs=None):
    logits = x @ w
    if kind == 'quadratic':
      logits = logits + (x ** 2) @ (w + 1)
    for n in noise:
      logits = logits + (x @ w) * jax.random.normal(rngs[n], (1,))
    return logits, {'auxiliary_loss': x[:, 0] * w[0, 0] + (x[:, 0] * w[0, 1]) ** 2}
  return apply_fn


def loss_fn(logits, labels, metrics=None):
  return jnp.sum(logits * labels, -1)


def grad_ref(x, y, w, kind, noise, aux):
  """Gradient, by hand, of the mean over the batch of the loss (first: in exact numbers)."""
  B, Pn = x.shape
  out = np.empty(x.shape, dtype=object)
  for b in range(B):
    for p in range(Pn):
      t = 0
      for c in range(w.shape[1]):
        d = w[p, c]
        if kind == 'quadratic':
          d = sx.add(d, sx.mul(2, sx.mul(x[b, p], sx.add(w[p, c], 1))))
        for z in noise:
          d = sx.add(d, sx.mul(w[p, c], z))
        t = sx.add(t, sx.mul(d, y[b, c]))
      if aux and p == 0:
        # The auxiliary term is a mean over the batch, added to every example.
        t = sx.add(t, sx.add(w[0, 0], sx.mul(2, sx.mul(x[b, 0], sx.mul(w[0, 1], w[0, 1])))))
      out[b, p] = sx.div(t, B)
  return out


def walk(ctx, x, y, w, eps, N, kind, draws, aux=False):
  delta = sx.div(eps, N)
  for i in range(N):
    g = grad_ref(x, y, w, kind, draws[i] if draws else [], aux)
    nx = np.empty(x.shape, dtype=object)
    for i_ in np.ndindex(*x.shape):
      nx[i_] = sx.add(x[i_], sx.mul(delta, sx.sign(g[i_])))
    x = nx
  return x


def pgd(ctx, B, Pn, N, kind='linear', noise=(), rngs='given'):
  x = ctx.arr('images', (B, Pn), lo=-2, hi=2)
  y = ctx.arr('labels', (B, 2), lo=-2, hi=2)
  w = ctx.arr('weights', (Pn, 2), lo=-2, hi=2)
  eps = ctx.arr('max_epsilon', (), gt=0, hi=4)
  names = list(noise) or ['dropout']
  keys = {n: jax.random.PRNGKey(7 + i) for i, n in enumerate(names)} if rngs == 'given' else None

  def f(x, y, w, eps):
    seen = []
    apply_fn = model(w, kind, noise)

    def app(x, rngs):
      seen.append(rngs)
      return apply_fn(x, rngs)
    out, new = attacks.stateless_attack_pgd(x, y, keys, max_epsilon=eps, num_updates=N, apply_fn=app, loss_fn=loss_fn)
    assert all((s is None) == (keys is None) for s in seen)
    return out, ({} if new is None else new), loss_fn(x @ w, y), loss_fn(out @ w, y)
  fork = ctx.forking if kind == 'quadratic' else contextlib.nullcontext     # sign cases as paths: nonlinear gradients
  with random_stub(), fork():
    out, new, l0, lm = ctx.run(f, x, y, w, eps)
  draws = [v[0] for k, v in ctx.stub_values.items() if k[2] == 'normal']
  used = [k[0] for k in ctx.stub_values if k[2] == 'normal']
  if noise:
    ctx.prove('every update uses fresh randomness', len(used) == N * len(names) and len(set(used)) == len(used))
    draws = [draws[i * len(names):(i + 1) * len(names)] for i in range(N)]
  else:
    draws = None
  if keys is None:
    ctx.prove('no PRNG keys in, none out', not new)
  else:
    nk = [tuple(int(v) for v in np.asarray(new[n]).ravel()) for n in new]
    ctx.prove('the PRNG names are kept', set(new) == set(names))
    ctx.prove('the returned PRNG keys are new and unused', not set(nk) & (set(used) | {tuple(int(v) for v in np.asarray(k)) for k in keys.values()})
              and len(set(nk)) == len(nk))
  e = eps[()]
  for i in np.ndindex(B, Pn):
    d = sx.sub(out[i], x[i])
    tol = 0 if ctx.sym and not ctx.tolmode else sx.Fr(1, 1000)
    ctx.prove('no pixel changes by more than max_epsilon', sx.band(sx.le(d, sx.add(e, tol)), sx.le(sx.neg(d), sx.add(e, tol))))
  if kind == 'linear' and not noise:
    for b in range(B):
      tol = 0 if ctx.sym and not ctx.tolmode else sx.Fr(1, 100)
      ctx.prove('the loss of a linear model never goes down', sx.ge(sx.add(lm[b], tol), l0[b]))
      for i in range(Pn):
        g = grad_ref(x, y, w, kind, [], False)[b, i]
        ctx.prove('the whole budget is used where the gradient is not zero', sx.bor(sx.eq(g, 0), ctx.close(sx.mul(sx.sub(out[b, i], x[b, i]), sx.sign(g)), e)))
  with fork():
    ref = walk(ctx, x, y, w, e, N, kind, draws)
  if ctx.sym or stable(ctx, x, y, w, e, N, kind, draws):
    ctx.prove('the result is num_updates sign-gradient steps of max_epsilon / num_updates', ctx.close_arr(out, ref))


def stable(ctx, x, y, w, e, N, kind, draws, aux=False):
  """Replay only: gradients far enough from 0 for float32 to know their sign."""
  for i in range(N):
    g = grad_ref(x, y, w, kind, draws[i] if draws else [], aux)
    if any(0 < abs(v) < sx.Fr(1, 1000) for v in g.ravel()):
      return False
    x = np.array([sx.add(a, sx.mul(sx.div(e, N), sx.sign(v))) for a, v in zip(x.ravel(), g.ravel())], dtype=object).reshape(x.shape)
  return True


def wrap_step(ctx, N, eps, aux):
  """Adversarial training: the wrapped step gets the attacked images, the labels and fresh PRNG keys."""
  B, Pn = 2, 1
  x = ctx.arr('images', (B, Pn), lo=-2, hi=2)
  y = ctx.arr('labels', (B, 2), lo=-2, hi=2)
  w = ctx.arr('weights', (Pn, 2), lo=-2, hi=2)
  key = jax.random.PRNGKey(3)
  active = N > 0 and eps > 0
  calls = []

  def inner(state, images, labels, extra, kw=None):
    calls.append((extra, kw, state.step, state.params is not None))
    return state, {'images': images, 'labels': labels}

  def f(x, y, w):
    st = TrainState.create(apply_fn=lambda v, x, **kw: model(v['params']['w'], 'linear', ())(x, **kw), params={'w': w}, tx=optax.sgd(1.0), rngs={'dropout': key})
    step = trainer.wrap_train_step_with_adversarial_attack(inner, loss_fn, attack_auxiliary_loss=aux, max_epsilon=eps, num_updates=N)
    if not active:
      assert step is inner
    s, m = step(st, x, y, 'extra', kw='kw')
    return s.params, s.rngs, s.step, m
  params, rngs, count, m = ctx.run(f, x, y, w)
  ctx.prove('the wrapped step is called once with the other arguments', all(c[0] == 'extra' and c[1] == 'kw' for c in calls))
  ctx.prove('parameters, step count and labels are passed on', sx.band(sx.eq(count[()], 0), ctx.close_arr(params['w'], w), ctx.close_arr(m['labels'], y)))
  same = tuple(int(v) for v in np.asarray(rngs['dropout']).ravel()) == tuple(int(v) for v in np.asarray(key))
  ctx.prove('the training step gets PRNG keys the attack has not used', same != active)
  if not active:
    ctx.prove('no attack: the images are unchanged', ctx.close_arr(m['images'], x))
    return
  if ctx.sym or stable(ctx, x, y, w, sx.norm_num(eps), N, 'linear', None, aux):
    ref = walk(ctx, x, y, w, sx.norm_num(eps), N, 'linear', None, aux)
    ctx.prove('the training step gets the attacked images', ctx.close_arr(m['images'], ref))


def objective(ctx, name, aux):
  """The attacked loss is the training loss of each example, plus the mean auxiliary loss iff asked for."""
  B, C = 2, 2
  ctx.exp_split = True
  lg = ctx.arr('logits', (B, C), lo=-4, hi=4)
  y = ctx.arr('labels', (B, C), lo=0, hi=1)
  a = ctx.arr('aux', (3,), lo=-4, hi=4)
  fn = restore.get_loss_including_auxiliary_fn(name, attack_auxiliary_loss=aux)
  out = ctx.run(lambda l, y, a: fn(l, y, {'auxiliary_loss': a}), lg, y, a)

  def ref(l, y, a):
    if name == 'softmax_xent':
      base = -jnp.sum(y * jnp.log(jnp.exp(l) / jnp.sum(jnp.exp(l), -1, keepdims=True)), -1)
    else:
      base = jnp.sum(y * jnp.log(1 + jnp.exp(-l)) + (1 - y) * jnp.log(1 + jnp.exp(l)), -1)
    return base + ((a[0] + a[1] + a[2]) / 3 if aux else 0)
  r = ctx.run(ref, lg, y, a)
  ctx.prove('one loss per example', out.shape == (B,))
  ctx.prove('loss = cross-entropy (+ mean auxiliary loss iff asked)', ctx.close_arr(out, r, 0.02))


def cases(tier):
  out = [Case(pgd, B=2, Pn=1, N=1), Case(pgd, B=1, Pn=2, N=3), Case(pgd, B=2, Pn=1, N=2, kind='quadratic'),
         Case(pgd, B=1, Pn=1, N=2, kind='quadratic', rngs='none'), Case(pgd, B=1, Pn=1, N=2, noise=('dropout',)),
         Case(pgd, B=1, Pn=1, N=2, noise=('dropout', 'gating'), kind='quadratic')]
  out += [Case(wrap_step, N=n, eps=e, aux=a) for n, e, a in [(1, 0.5, False), (2, 0.5, True), (0, 0.5, True), (-1, 0.5, False), (2, 0.0, True), (3, -1.0, False)]]
  out += [Case(objective, name=n, aux=a) for n in ('softmax_xent', 'sigmoid_xent') for a in (False, True)]
  if tier == 'thorough':
    out += [Case(pgd, B=3, Pn=2, N=5), Case(pgd, B=2, Pn=2, N=3, kind='quadratic'), Case(pgd, B=2, Pn=1, N=4, noise=('dropout',), kind='quadratic'),
            Case(wrap_step, N=4, eps=0.25, aux=True)]
  return out
