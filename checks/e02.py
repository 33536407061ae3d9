"""E02: ensemble losses and predictions average the members' probabilities, each example with its own members."""
import jax.numpy as jnp
import numpy as np
from lib import sx
from lib.runner import Case
from vmoe.train import trainer

FUNCTIONS = ['vmoe.train.trainer.get_loss_fn', 'vmoe.evaluate.ensemble.ensemble_softmax_xent_train', 'vmoe.evaluate.ensemble.ensemble_sigmoid_xent_train',
             'vmoe.evaluate.ensemble.ensemble_softmax_xent_eval', 'vmoe.evaluate.ensemble.ensemble_sigmoid_xent_eval',
             'vmoe.evaluate.ensemble.label_pred_ensemble_softmax', 'vmoe.evaluate.ensemble.label_pred_ensemble_sigmoid']
BOUNDS = {'quick': 'every logit, every label (zero labels included); 2 examples, ensembles of 1-3 members, 2 classes; predictions: ensembles of 1-2 members, 2 classes (3 for one member)',
          'thorough': '3 examples, ensembles of up to 4 members, 3 classes; predictions with 3 classes'}
OUTSIDE = 'larger sizes; logits that are not finite (except a class with zero probability and zero label); float32 rounding'
ASSUMPTIONS = ['floating point read as real arithmetic; exp and log are uninterpreted with exp(a+b)=exp(a)exp(b), log(ab)=log(a)+log(b), log(exp(a))=a and monotonicity; '
               'polynomial identities between them are decided by normal forms, the rest by the solver']


def probs(kind, row):
  """Probabilities of one member."""
  if kind == 'softmax':
    e = jnp.exp(row)
    return e / jnp.sum(e)
  return 1 / (1 + jnp.exp(-row))


def labels_of(ctx, B, C):
  """Any labels: each entry is zero or any positive number."""
  zero = ctx.choice('zeros', [(), ((0, 0),), tuple((b, C - 1) for b in range(B)), tuple(np.ndindex(B, C))])
  lab = ctx.arr('labels', (B, C), gt=0, hi=4)
  out = lab.copy()
  for i in zero:
    out[i] = 0
  return ctx.typed(out, 'float32')


def losses(ctx, name, B, E, C):
  ctx.exp_split = True
  kind = 'softmax' if 'softmax' in name else 'sigmoid'
  x = ctx.arr('logits', (B * E, C), lo=-8, hi=8)
  lab = labels_of(ctx, B, C)
  ens = name.startswith('ensemble')
  tr, ev, _ = trainer.get_loss_fn(name, **({'ensemble_size': E} if ens else {}))

  def xent(lab, p, q):
    l = -jnp.sum(lab * jnp.log(p))
    return l if kind == 'softmax' else l - jnp.sum((1 - lab) * jnp.log(q))

  def train_ref(x, lab):
    return jnp.stack([xent(lab[r // E], probs(kind, x[r]), probs(kind, -x[r])) for r in range(B * E)])

  def eval_ref(x, lab):
    mean = lambda x, b: sum(probs(kind, x[b * E + e]) for e in range(E)) / E
    return jnp.stack([xent(lab[b], mean(x, b), mean(-x, b)) for b in range(B)])
  for which, fn, ref in (('training', tr, train_ref), ('evaluation', ev, eval_ref)):
    got = ctx.run(fn, x, lab)
    want = ctx.run(ref, x, lab, validate=False)
    ctx.prove('%s loss: one value per %s' % (which, 'example' if which == 'evaluation' else 'example and member'), got.shape == want.shape)
    ctx.prove('%s loss: cross-entropy of the %s' % (which, 'averaged probabilities' if which == 'evaluation' else 'probabilities of the member'), ctx.close_arr(got, want))


def predict(ctx, name, B, E, C):
  ctx.exp_split = True
  kind = 'softmax' if 'softmax' in name else 'sigmoid'
  x = ctx.arr('logits', (B * E, C), lo=-8, hi=8)
  ens = name.startswith('ensemble')
  pred = trainer.get_loss_fn(name, **({'ensemble_size': E} if ens else {}))[2]

  def mean(x):
    return jnp.stack([sum(probs(kind, x[b * E + e]) for e in range(E)) / E for b in range(B)])
  p = ctx.run(mean, x, validate=False)
  got = ctx.run(pred, x, validate=False)
  ctx.prove('one label per example', got.shape == (B,))
  eps = 0 if ctx.sym else sx.Fr(1, 10**5)
  for b in range(B):
    for c in range(C):
      best = sx.band(*[sx.gt(p[b, c], sx.add(p[b, d], eps)) for d in range(C) if d != c])
      ctx.prove('the class with the largest averaged probability is predicted', sx.implies(best, sx.eq(got[b], c)))


def impossible_class(ctx, E):
  """A class of probability zero with a zero label does not spoil the loss."""
  x = ctx.arr('logits', (E, 1), lo=-8, hi=8)
  ev = trainer.get_loss_fn('ensemble_softmax_xent', ensemble_size=E)[1]
  lab = np.asarray([[1., 0.]], np.float32)

  def f(x):
    return ev(jnp.concatenate([x, jnp.full((E, 1), -jnp.inf)], axis=1), lab)
  got = ctx.run(f, x)
  ctx.prove('the loss is that of the possible classes', ctx.close(got[0], 0))


def unknown(ctx):
  n = ctx.choice('name', ['softmax', '', 'ensemble', 'ensemble_softmax'])
  try:
    trainer.get_loss_fn(n)
    ok = True
  except ValueError:
    ok = False
  ctx.prove('unknown losses are rejected', not ok)


def cases(tier):
  q = tier == 'quick'
  out = []
  for k in ('softmax_xent', 'sigmoid_xent'):
    out += [Case(losses, name=k, B=2 if q else 3, E=1, C=2 if q else 3), Case(losses, name='ensemble_' + k, B=2, E=1, C=2),
            Case(losses, name='ensemble_' + k, B=2 if q else 3, E=2, C=2), Case(losses, name='ensemble_' + k, B=1 if q else 2, E=3, C=2)]
    out += [Case(predict, name='ensemble_' + k, B=2, E=1, C=2), Case(predict, name='ensemble_' + k, B=2, E=2, C=2), Case(predict, name=k, B=1, E=1, C=2)]
    if not q:
      out += [Case(losses, name='ensemble_' + k, B=1, E=4, C=2), Case(predict, name='ensemble_' + k, B=1, E=1, C=3)]
  out += [Case(impossible_class, E=E) for E in (1, 2)]
  out += [Case(unknown)]
  return out
