"""E03: few-shot evaluation trains on the right examples and reports the right accuracies."""
import contextlib
import types as pytypes
import jax
import jax.numpy as jnp
import numpy as np
from lib import sx
from lib.engine import unwrap, wrap
from lib.pj_h import Pjit, Dev
from lib.runner import Case
from vmoe.evaluate import fewshot

FUNCTIONS = ['vmoe.evaluate.fewshot.FewShotPeriodicAction', 'vmoe.evaluate.fewshot._compute_fewshot_metrics', 'vmoe.evaluate.fewshot._compute_representation',
             'vmoe.evaluate.fewshot._fewshot_step', 'vmoe.evaluate.fewshot._find_best_l2_reg', 'vmoe.evaluate.fewshot._get_datasets',
             'vmoe.evaluate.fewshot._precompute_cache', 'vmoe.evaluate.fewshot._eig_fewshot_acc_fn']
BOUNDS = {'quick': 'every label and validity mask of up to 4 training examples (2 batches) and 2 test examples, 2 classes, shots 1-2; every accuracy of 2 datasets or seeds, '
                   '2-3 regularisers; regression: every test feature and regulariser in [1/64, 64] (three values with 3 features), four training sets (more and fewer examples than features)',
          'thorough': '6 training examples, 3 classes'}
OUTSIDE = 'more examples; eigenvalue decomposition (numerical, on concrete training sets); compilation over devices (pjit stub running the real function symbolically)'
ASSUMPTIONS = ['train and test split of a dataset are different splits']


class DS:

  def __init__(self, batches):
    self.batches, self.i, self.resets = batches, 0, 0

  def __iter__(self):
    return self

  def __next__(self):
    if self.i >= len(self.batches):
      raise StopIteration
    self.i += 1
    return {k: Dev(v) for k, v in self.batches[self.i - 1].items()}

  def reset(self):
    self.i = 0
    self.resets += 1


@contextlib.contextmanager
def env(ctx, sets, classes, cache=None, acc=None, opened=None):
  saved = []

  def patch(o, k, v):
    saved.append((o, k, getattr(o, k)))
    setattr(o, k, v)

  def get_dataset(*, variant, name, split, **kw):
    opened.append((variant, name, split, kw))
    return sets[name, split]
  patch(jax.experimental.pjit, 'pjit', Pjit(ctx).pjit)
  patch(fewshot.vmoe.data.pjit_utils, 'prefetch_to_device', lambda iterator, size=None, mesh=None: iterator)
  patch(fewshot.vmoe.data.input_pipeline, 'get_dataset', get_dataset)
  patch(fewshot, 'tfds', pytypes.SimpleNamespace(builder=lambda n, **k: pytypes.SimpleNamespace(info=pytypes.SimpleNamespace(
      features={'label': pytypes.SimpleNamespace(num_classes=classes[n])}))))
  if cache:
    patch(fewshot, '_precompute_cache', cache)
    patch(fewshot, '_eig_fewshot_acc_fn', acc)
  try:
    yield
  finally:
    for o, k, v in reversed(saved):
      setattr(o, k, v)


def values(a):
  return [unwrap(v) for v in np.asarray(a, dtype=object).ravel()]


def selection(ctx, tr, te, B, classes, shots, seeds=1, fold=False):
  """Which examples the regression is trained and tested on."""
  def data(tag, nb):
    out, flat = [], []
    for b in range(nb):
      l = ctx.arr('%s_label_%d' % (tag, b), (B,), dtype='int32', lo=0, hi=classes - 1)
      v = ctx.arr('%s_valid_%d' % (tag, b), (B,), dtype='bool')
      ids = [100 * (tag == 'test') + 10 * b + e + 1 for e in range(B)]
      im = np.asarray(ids, np.float32).reshape(B, 1)
      out.append({'image': im, 'label': l, '__valid__': v})
      flat += list(zip(ids, l, v))
    return DS(out), flat
  trd, trf = data('train', tr)
  ted, tef = data('test', te)
  ctx.assume(sx.anyof([v for _, _, v in trf]))
  sets = {('d', 'a'): trd, ('d', 'b'): ted}
  calls, opened, writes = [], [], []
  apply_fn = lambda variables, im, rngs: (im * variables['s'], {})

  def cache(x, y, n):
    calls.append(dict(x=values(x), y=values(y), n=n, tests=[]))
    return calls[-1]

  def acc(c, x, y, l2):
    c['tests'].append((values(x), values(y), l2))
    return 0.5
  with env(ctx, sets, {'d': classes}, cache, acc, opened):
    act = fewshot.FewShotPeriodicAction(shots=shots, l2_regs=[1.0, 2.0], metric_writer=pytypes.SimpleNamespace(write_scalars=lambda s, m: writes.append((s, m))),
                                        datasets={'D': ('d', 'a', 'b')}, apply_fn=apply_fn, rng_keys=('r',), seed=5, seeds_per_step=seeds, seed_fold_in_step=fold,
                                        every_steps=1, batch_size=B, process='p')
    act(3, variables={'s': np.float32(2.0)})
  ctx.prove('the data sets are opened as configured', [(o[1], o[2]) for o in opened] == [('d', 'a'), ('d', 'b')] and all(
      o[0] != 'train' and o[3] == dict(batch_size=B, process='p') for o in opened))
  ctx.prove('one regression per seed and number of shots', len(calls) == seeds * len(shots))
  ctx.prove('the data sets are reset', trd.i == 0 and ted.i == 0)
  f = lambda x: [int(v) // 2 for v in x]  # features are twice the id
  lab = {i: l for i, l, v in trf}
  avail = [i for i, l, v in trf if bool(wrap(v))]
  tavail = [i for i, l, v in tef if bool(wrap(v))]
  tlab = {i: l for i, l, v in tef}
  for n, c in enumerate(calls):
    shot = shots[n % len(shots)]
    ids = f(c['x'])
    ctx.prove('trained on different valid training examples', len(set(ids)) == len(ids) and set(ids) <= set(avail))
    ctx.prove('each with its own label', sx.allof([sx.eq(y, lab[i]) for i, y in zip(ids, c['y'])]) if len(ids) == len(c['y']) else False)
    for k in range(classes):
      have = sx.sumall([sx.ite(sx.eq(lab[i], k), 1, 0) for i in avail])
      got = sx.sumall([sx.ite(sx.eq(lab[i], k), 1, 0) for i in ids])
      ctx.prove('as many examples of each class as asked for (or all there are)', sx.eq(got, sx.smin(have, shot)))
    ctx.prove('number of classes', c['n'] == classes)
    ctx.prove('every regulariser is tested', [t[2] for t in c['tests']] == [1.0, 2.0])
    for x, y, _ in c['tests']:
      ctx.prove('tested on exactly the valid test examples with their labels', f(x) == tavail and sx.allof([sx.eq(a, tlab[i]) for i, a in zip(tavail, y)]))


def report(ctx, names, shots, l2s, seeds=1):
  """From accuracies to reported metrics."""
  fs = [n if seeds == 1 else '%s-seed-%d' % (n, s) for s in range(seeds) for n in names]
  A = {}
  for f in fs:
    for s in shots:
      for l in l2s:
        A[f, s, l] = ctx.arr('acc_%s_%d_%s' % (f, s, l), (), lo=0, hi=1)[()]
  step = ctx.choice('main', [None, (names[-1], shots[-1])])
  sets = {(n, x): DS([]) for n in names for x in 'ab'}
  writes, seen, states = [], [], []

  def metrics(fn, sh, l2, num_classes, state, variables, tr, te, seed=0):
    n = [k for k, v in sets.items() if v is tr][0][0]
    i = sum(1 for x in seen if x[0] == n)
    seen.append((n, seed, te is sets[n, 'b']))
    f = n if seeds == 1 else '%s-seed-%d' % (n, i)
    return {(s, l): wrap(A[f, s, l]) if ctx.sym else float(A[f, s, l]) for s in sh for l in l2}
  real = fewshot._compute_fewshot_metrics
  fewshot._compute_fewshot_metrics = metrics
  try:
    with env(ctx, sets, {n: 2 for n in names}, opened=[]):
      act = fewshot.FewShotPeriodicAction(shots=shots, l2_regs=l2s, metric_writer=pytypes.SimpleNamespace(write_scalars=lambda s, m: writes.append((s, dict(m)))),
                                          datasets={n: (n, 'a', 'b') for n in names}, apply_fn=None, rng_keys=(), seeds_per_step=seeds, main_task=step, every_steps=1)
      act(7, variables={}, extra=1.0, none=None)
  finally:
    fewshot._compute_fewshot_metrics = real
  ctx.prove('every data set is evaluated once per seed, on its own train and test data', sorted(x[0] for x in seen) == sorted(list(names) * seeds) and all(x[2] for x in seen))
  ctx.prove('different seeds choose examples differently', all(len({x[1] for x in seen if x[0] == n}) == seeds for n in names))
  ctx.prove('the data sets are reset', all(d.resets == seeds for d in sets.values()))
  ctx.prove('one report with the step and the extra values', len(writes) == 1 and writes[0][0] == 7 and writes[0][1].get('extra') == 1.0 and 'none' not in writes[0][1])
  m = writes[0][1]
  for s in shots:
    b = m['fewshot/%dshot_best_l2' % s]
    ctx.prove('the best regulariser is one of those given', b in l2s)
    for f in fs:
      ctx.prove('the accuracy reported is that of the best regulariser', ctx.close(m['fewshot/%s/%dshot' % (f, s)], A[f, s, b]))

    def ranks(l, strict):
      cmp = sx.lt if strict else sx.le
      return sx.sumall([sx.ite(cmp(A[f, s, o], A[f, s, l]), 1, 0) for f in fs for o in l2s if o != l])
    for l in l2s:
      if l != b:
        ctx.prove('no regulariser ranks better over all data sets', sx.le(ranks(l, True), ranks(b, False)))
        ctx.prove('a regulariser that is best everywhere is chosen', sx.bnot(sx.allof([sx.gt(A[f, s, l], A[f, s, b]) for f in fs])))
  if step:
    key = '0/%s/%dshot' % step
    b = m['fewshot/%dshot_best_l2' % step[1]]
    own = [f for f in fs if f == step[0] or f.startswith(step[0] + '-seed-')]
    ctx.prove('the main task is reported, averaged over the seeds', key in m and ctx.close(sx.mul(unwrap(m[key]), seeds), sx.sumall([A[f, step[1], b] for f in own])))
  else:
    ctx.prove('no main task unless asked for', not any(k.startswith('0/') for k in m))


def regression(ctx, data, classes, fixed=False):
  """The accuracy is that of ridge regression on whitened features plus a bias feature of 100."""
  x = np.asarray(data[0], np.float32)
  y = np.asarray(data[1])
  t = ctx.arr('test', (2, x.shape[1]), lo=-8, hi=8)
  lab = ctx.arr('labels', (2,), dtype='int32', lo=0, hi=classes - 1)
  if fixed:
    l2 = ctx.typed(np.asarray(ctx.choice('l2', [sx.Fr(1, 64), 1, 64]), dtype=object), 'float32')
  else:
    l2 = ctx.arr('l2', (), gt=0, hi=64)
    ctx.assume(sx.ge(l2[()], sx.Fr(1, 64)))

  def f(t, lab, l2):
    cache = fewshot._precompute_cache(jnp.asarray(x), jnp.asarray(y), classes)
    return fewshot._eig_fewshot_acc_fn(cache, t, lab, l2)
  got = ctx.run(f, t, lab, l2)[()]
  # Reference: exact solution of the normal equations (X'X + l2 I) w = X'y over the rationals (in l2).
  F = sx.Fr
  mean = x.astype(np.float64).mean(0)
  std = x.astype(np.float64).std(0) + 1e-5
  X = np.concatenate([(x - mean) / std, np.full((len(x), 1), 100.)], axis=1)
  Y = 2. * np.eye(classes)[y] - 1
  # Solve in the eigenbasis of X'X (independent of the code: always the D x D system).
  e, q = np.linalg.eigh(X.T @ X)
  e = np.maximum(e, 0)
  R = q.T @ X.T @ Y
  ok = []
  for i in range(2):
    z = [sx.mul(sx.sub(t[i, j], F(float(mean[j]))), F(1 / float(std[j]))) for j in range(x.shape[1])] + [100]
    coef = [sx.sumall([sx.mul(F(float(q[j, k])), z[j]) for j in range(len(z))]) for k in range(len(e))]
    prod = [sx.add(F(float(v)), l2[()]) for v in e]

    def score(c):
      # times the product of (e_k + l2), which is positive
      tot = []
      for k in range(len(e)):
        o = 1
        for m in range(len(e)):
          if m != k:
            o = sx.mul(o, prod[m])
        tot.append(sx.mul(sx.mul(F(float(R[k, c])), coef[k]), o))
      return sx.sumall(tot)
    whole = 1
    for p in prod:
      whole = sx.mul(whole, p)
    sc = [score(c) for c in range(classes)]
    mg = sx.mul(whole, F(1, 20))
    clear = [sx.allof([sx.ge(sc[c], sx.add(sc[d], mg)) for d in range(classes) if d != c]) for c in range(classes)]
    ok.append((clear, lab[i]))
  allclear = sx.allof([sx.anyof(cl) for cl, _ in ok])
  right = sx.sumall([sx.ite(sx.anyof([sx.band(cl[c], sx.eq(l, c)) for c in range(classes)]), F(1, 2), 0) for cl, l in ok])
  ctx.prove('the accuracy is the fraction of test examples that ridge regression predicts', sx.implies(allclear, sx.eq(sx.mul(got, 2), sx.mul(right, 2))))
  ctx.cover('clear', allclear)


SETS = [([[0.], [1.], [2.], [4.]], [0, 0, 1, 1]), ([[0., 1.], [1., 3.], [5., 2.], [4., 4.], [2., 2.]], [0, 1, 1, 0, 1]),
        ([[1., 2., 0.], [3., 0., 1.], [0., 1., 5.]], [1, 0, 1]), ([[0., 1.], [2., 1.]], [0, 1])]


def cases(tier):
  q = tier == 'quick'
  out = [Case(selection, tr=2, te=1, B=2, classes=2, shots=(1, 2)), Case(selection, tr=1, te=2, B=2, classes=2, shots=(1,), seeds=2, fold=True)]
  if not q:
    out += [Case(selection, tr=3, te=1, B=2, classes=2, shots=(1, 2, 3)), Case(selection, tr=2, te=1, B=2, classes=3, shots=(1, 2))]
  out += [Case(report, names=('u', 'v'), shots=(1, 5), l2s=(1.0, 2.0)), Case(report, names=('u',), shots=(1,), l2s=(1.0, 2.0, 4.0)),
          Case(report, names=('u',), shots=(1,), l2s=(1.0, 2.0), seeds=2)]
  if not q:
    out += [Case(report, names=('u', 'v'), shots=(1,), l2s=(1.0, 2.0, 4.0))]
  out += [Case(regression, data=d, classes=2, fixed=len(d[0][0]) > 2) for d in SETS]
  return out
