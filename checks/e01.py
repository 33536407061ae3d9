"""E01: evaluation metrics are averages over exactly the valid examples of each dataset."""
import contextlib
import types as pytypes
import jax
import jax.numpy as jnp
import numpy as np
import z3
from lib import sx
from lib.engine import unwrap, wrap
from lib.pj_h import Pjit, Dev, to_dev
from lib.rnd import random_stub
from lib.runner import Case
from vmoe.evaluate import evaluator

FUNCTIONS = ['vmoe.evaluate.evaluator.EvaluateMultipleDatasets', 'vmoe.evaluate.evaluator.evaluate_dataset', 'vmoe.evaluate.evaluator.evaluate_step',
             'vmoe.evaluate.evaluator.make_eval_step_pjit', 'vmoe.evaluate.evaluator.EvalState.update', 'vmoe.utils.make_rngs', 'vmoe.utils.tree_rngs_split']
BOUNDS = {'quick': 'every image, label, parameter and validity mask; up to 2 datasets of up to 3 batches of 2-3 examples, 2-3 classes, two evaluations in a row, '
                   'losses per example or per class, 0-2 PRNG names',
          'thorough': 'up to 4 batches of 4 examples, 3 classes'}
OUTSIDE = 'datasets without any valid example (0/0); more batches; distribution over devices (pjit is a stub that runs the real step function symbolically and invalidates donated buffers); not finite losses'
ASSUMPTIONS = ['floating point read as real arithmetic', 'labels are arbitrary numbers (soft labels included); ties in the predicted label are broken by the model, not here']


class DS:
  """A dataset iterator over fixed batches that has to be reset to start again."""

  def __init__(self, batches, specs):
    self.batches, self.element_spec, self.i, self.resets = batches, specs, 0, 0

  def __iter__(self):
    return self

  def __next__(self):
    if self.i >= len(self.batches):
      raise StopIteration
    self.i += 1
    return {k: Dev(v) for k, v in self.batches[self.i - 1].items()}

  def reset(self):
    self.i = 0
    self.resets += 1


@contextlib.contextmanager
def env(ctx, log):
  saved = []

  def patch(o, k, v):
    saved.append((o, k, getattr(o, k)))
    setattr(o, k, v)
  patch(evaluator, 'pjit', Pjit(ctx, log))
  patch(evaluator.pjit_utils, 'prefetch_to_device', lambda it, size=None, mesh=None, **k: it)
  patch(evaluator.utils, 'get_flops_and_seconds_per_device', lambda c: (None, None))
  try:
    with jax.sharding.Mesh(np.asarray(jax.devices()[:1]), ('d',)):
      yield
  finally:
    for o, k, v in reversed(saved):
      setattr(o, k, v)


def callback(ctx, sizes, B=2, C=2, keys=('dropout',), loss='per_class', runs=2):
  """sizes: number of batches of each dataset."""
  w = ctx.arr('params', (1, C), lo=-4, hi=4)
  data, ref = {}, {}
  spec = pytypes.SimpleNamespace
  for n, nb in enumerate(sizes):
    bs = []
    for b in range(nb):
      bs.append({'image': ctx.arr('image_%d_%d' % (n, b), (B, 1), lo=-4, hi=4), 'labels': ctx.arr('labels_%d_%d' % (n, b), (B, C), lo=-4, hi=4),
                 '__valid__': ctx.arr('valid_%d_%d' % (n, b), (B,), dtype='bool')})
    data['ds%d' % n] = DS(bs, {'image': spec(shape=(B, 1), dtype=np.float32), 'labels': spec(shape=(B, C), dtype=np.float32), '__valid__': spec(shape=(B,), dtype=np.bool_)})
    ctx.assume(sx.anyof([v for b in bs for v in b['__valid__']]))
  written = []

  def apply_fn(variables, images, rngs=None):
    logits = images * variables['params']['w']
    seen.append(tuple(sorted(rngs)))
    for k in sorted(rngs):
      logits = logits + jax.random.uniform(rngs[k], logits.shape)
    return logits, {'unused': jnp.zeros(())}
  seen = []

  def loss_fn(logits, labels):
    l = logits * labels + labels
    return l if loss == 'per_class' else jnp.sum(l, axis=-1)
  log = []
  writer = pytypes.SimpleNamespace(write_scalars=lambda step, m: written.append((step, dict(m))))
  with env(ctx, log), random_stub():
    act = evaluator.EvaluateMultipleDatasets(
        apply_fn=apply_fn, loss_fn=loss_fn, label_pred_fn=lambda l: jnp.argmax(l, -1), datasets=data, metric_writer=writer, rng_keys=keys, seed=3, every_steps=1)
    params = {'w': Dev(w)}
    for r in range(runs):
      act(r + 1, params=params, extra=5.0, other=None)
  ctx.prove('the model gets exactly the PRNG names asked for', all(s == tuple(sorted(keys)) for s in seen))
  mets = [(s, m) for s, m in written if any(k.endswith('/prec@1') for k in m)]
  ctx.prove('one report per evaluation, with the step', [s for s, m in mets] == list(range(1, runs + 1)))
  ctx.prove('the iterators are reset', all(d.i == 0 for d in data.values()))
  # The noise drawn by the model, in order: evaluation, dataset, batch, PRNG name.
  draws = iter(list(ctx.stub_log))
  ctx.prove('the model runs once per batch', len(ctx.stub_log) == runs * sum(sizes) * len(keys))
  for r, (s, m) in enumerate(mets):
    ctx.prove('extra values are reported, missing ones are not', m.get('extra') == 5.0 and 'other' not in m)
    for n, (name, d) in enumerate(data.items()):
      num, loss_s, corr = 0, 0, 0
      fresh = set()
      for b, bt in enumerate(d.batches):
        def stats(im, lab, w, *noise):
          lg = im * w
          for z in noise:
            lg = lg + z
          per = loss_fn(lg, lab)
          per = per if loss != 'per_class' else jnp.sum(per, -1)
          return per, jnp.argmax(lg, -1)
        ks = [next(draws) for _ in keys]
        fresh |= {k[0] for k in ks}
        per, pred = ctx.run(stats, bt['image'], bt['labels'], w, *[ctx.stub_values[k] for k in ks], validate=False)
        for e in range(B):
          v = bt['__valid__'][e]
          num = sx.add(num, sx.ite(v, 1, 0))
          loss_s = sx.add(loss_s, sx.ite(v, per[e], 0))
          corr = sx.add(corr, sx.ite(v, sx.sumall([sx.ite(sx.eq(pred[e], c), bt['labels'][e, c], 0) for c in range(C)]), 0))
      ctx.prove('every batch and PRNG name has its own noise', len(fresh) == len(d.batches) * len(keys))
      p, l = unwrap(m[name + '/prec@1']), unwrap(m[name + '/loss'])
      ctx.prove('the precision is the average over the valid examples', ctx.close(sx.mul(p, num), corr))
      ctx.prove('the loss is the average over the valid examples', ctx.close(sx.mul(l, num), loss_s))
      ctx.cover('padding', sx.lt(num, len(d.batches) * B))


def isb(v):
  return isinstance(v, (bool, z3.BoolRef))


def step_fn(ctx, B, C, ldim):
  """One step from any state."""
  st = [ctx.arr(n, (), lo=-8, hi=8) for n in ('num', 'correct', 'loss')]
  im = ctx.arr('image', (B, C), lo=-4, hi=4)
  lab = ctx.arr('labels', (B, C), lo=-4, hi=4)
  val = ctx.arr('valid', (B,), dtype=ctx.choice('valid_dtype', ['bool', 'float32']), **({}))
  if not all(isb(v) for v in val):
    for v in val:
      ctx.assume(sx.bor(sx.eq(v, 0), sx.eq(v, 1)))
  key = jax.random.PRNGKey(4)

  def f(n, c, l, im, lab, val):
    s = evaluator.EvalState(num=n, sum_correct=c, sum_loss=l, rngs={'a': key})
    loss = lambda lg, y: jnp.reshape(lg * y, (B,) + {1: (), 2: (C,), 3: (C, 1)}[ldim]) if ldim > 1 else jnp.sum(lg * y, -1)
    r = evaluator.evaluate_step(s, {}, im, lab, val, lambda v, x, rngs: (x, {}), loss, lambda lg: jnp.argmax(lg, -1))
    return r.num, r.sum_correct, r.sum_loss, r.rngs['a'], jnp.argmax(im, -1)
  n, c, l, k, pred = ctx.run(f, st[0], st[1], st[2], im, lab, val)
  on = [v if isb(v) else sx.eq(v, 1) for v in val]
  ctx.prove('counts the valid examples', ctx.close(n[()], sx.add(st[0][()], sx.sumall([sx.ite(o, 1, 0) for o in on]))))
  ctx.prove('adds the loss of the valid examples', ctx.close(l[()], sx.add(st[2][()], sx.sumall([sx.ite(on[e], sx.mul(im[e, j], lab[e, j]), 0) for e in range(B) for j in range(C)]))))
  ctx.prove('adds the label mass of the predicted class of the valid examples', ctx.close(c[()], sx.add(st[1][()], sx.sumall(
      [sx.ite(sx.band(on[e], sx.eq(pred[e], j)), lab[e, j], 0) for e in range(B) for j in range(C)]))))
  ctx.prove('the keys move on', tuple(int(x) for x in k) != tuple(int(x) for x in np.asarray(key)))


def cases(tier):
  if tier == 'quick':
    out = [Case(callback, sizes=(2, 1)), Case(callback, sizes=(3,), loss='per_example', keys=()), Case(callback, sizes=(1,), B=3, C=3, keys=('a', 'b'))]
  else:
    out = [Case(callback, sizes=(4, 2)), Case(callback, sizes=(4,), loss='per_example', keys=()), Case(callback, sizes=(2, 1, 2), B=4, C=3, keys=('a', 'b'))]
  out += [Case(step_fn, B=3, C=2, ldim=d) for d in (1, 2, 3)]
  return out
