"""A02: attack statistics count every valid example exactly once, and report the experts whose output a token receives."""
import contextlib
import io
import itertools
import types as pytypes
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
import z3
import vmoe.moe
from lib import sx
from lib.engine import unwrap
from lib.moe_h import observe
from lib.pj_h import Pjit, Dev
from lib.rnd import random_stub
from lib.runner import Case
from vmoe.projects.adversarial_attacks import attacks, restore
from vmoe.projects.adversarial_attacks import lib as attack_lib

FUNCTIONS = ['vmoe.projects.adversarial_attacks.attacks.stateful_attack', 'vmoe.projects.adversarial_attacks.attacks.AttackState.create/update',
             'vmoe.projects.adversarial_attacks.attacks.sum_intersection_over_union', 'vmoe.projects.adversarial_attacks.restore.get_combine_weights',
             'vmoe.projects.adversarial_attacks.restore.compute_loss_predict_cw_fn', 'vmoe.projects.adversarial_attacks.lib.run_pgd_attack',
             'vmoe.projects.adversarial_attacks.lib.ExampleStorage', 'vmoe.projects.adversarial_attacks.lib.savez_compressed']
BOUNDS = {'quick': 'every loss, prediction, correctness, combine weight, image, label, parameter and validity mask; up to 3 batches of 2-3 examples, 1-2 tokens, 2 experts; '
                   'every gate value for routers of 3-4 tokens, 2-3 experts, capacity 1-2, both dispatchers',
          'thorough': 'up to 4 batches, 2 MoE layers, 5 tokens'}
OUTSIDE = 'larger batches; restoring the model from a checkpoint (K01-K05); the distribution over devices (pjit is a stub that runs the real function symbolically); not finite losses'
ASSUMPTIONS = ['floating point read as real arithmetic', 'the restored model, the data iterator and the file system are stand-ins']


def isb(v):
  return isinstance(v, (bool, z3.BoolRef))


def on_(v):
  return v if isb(v) else sx.eq(v, 1)


def iou(ctx, a, b):
  """Mean over the tokens of |selected in both| / |selected in either| (0 when none is), for one example."""
  T, E = a.shape
  tot = 0
  for t in range(T):
    both = [sx.band(sx.gt(a[t, e], 0), sx.gt(b[t, e], 0)) for e in range(E)]
    either = [sx.bor(sx.gt(a[t, e], 0), sx.gt(b[t, e], 0)) for e in range(E)]
    # As a sum over the possible sizes, to stay linear.
    for n in range(1, E + 1):
      for m in range(1, n + 1):
        c = sx.band(exactly(both, m), exactly(either, n))
        tot = sx.add(tot, sx.ite(c, sx.Fr(m, n), 0))
  return sx.div(tot, T)


def exactly(conds, n):
  return sx.anyof([sx.band(*[c if i in s else sx.bnot(c) for i, c in enumerate(conds)]) for s in itertools.combinations(range(len(conds)), n)])


def totals(ctx, rows, layers):
  """rows: (valid, l0, lm, y0, ym, c0, cm, {layer: (cw0, cwm)}) for each example."""
  r = dict(num=0, changes=0, loss=[0, 0], correct=[0, 0], iou={k: 0 for k in layers})
  for v, l0, lm, y0, ym, c0, cm, cw in rows:
    r['num'] = sx.add(r['num'], sx.ite(v, 1, 0))
    r['changes'] = sx.add(r['changes'], sx.ite(sx.band(v, sx.ne(y0, ym)), 1, 0))
    r['loss'] = [sx.add(a, sx.ite(v, b, 0)) for a, b in zip(r['loss'], (l0, lm))]
    r['correct'] = [sx.add(a, sx.ite(v, b, 0)) for a, b in zip(r['correct'], (c0, cm))]
    for k in layers:
      r['iou'][k] = sx.add(r['iou'][k], sx.ite(v, iou(ctx, *cw[k]), 0))
  return r


def stateful(ctx, batches, B, T, E, layers, valid):
  """Any outcome of the attack and of the model, over several batches."""
  x = [ctx.arr('image%d' % i, (B, 1), lo=-2, hi=2) for i in range(batches)]
  xm = [ctx.arr('attacked%d' % i, (B, 1), lo=-2, hi=2) for i in range(batches)]
  y = [ctx.arr('label%d' % i, (B,), lo=-2, hi=2) for i in range(batches)]
  val = [None if valid == 'none' else ctx.arr('valid%d' % i, (B,), dtype=valid) for i in range(batches)]
  for v in val:
    for q in (v if v is not None else []):
      if not isb(q):
        ctx.assume(sx.bor(sx.eq(q, 0), sx.eq(q, 1)))
  outs = []
  for i in range(2 * batches):
    outs.append((ctx.arr('loss%d' % i, (B,), lo=-4, hi=4), ctx.arr('pred%d' % i, (B,), dtype='int32', lo=0, hi=2), ctx.arr('correct%d' % i, (B,), dtype='int32', lo=0, hi=1),
                 {k: ctx.arr('cw_%s_%d' % (k, i), (B, T, E), lo=-1, hi=1) for k in layers}))
  key = jax.random.PRNGKey(5)

  def f(x, xm, y, val, outs):
    st = attacks.AttackState.create(max_updates=3, router_keys=layers, rngs={'dropout': key})
    ok, res, seen = [], [], []
    for i in range(batches):
      calls = []

      def attack(images, labels, rngs):
        calls.append(images is x[i] and labels is y[i])
        seen.append(rngs['dropout'])
        return xm[i], {'dropout': rngs['dropout'] + 1}

      def compute(images, labels, rngs):
        # The outcome before / after the attack, whatever the order of evaluation.
        which = 0 if images is x[i] else 1
        calls.append((images is x[i] or images is xm[i]) and labels is y[i])
        return outs[2 * i + which]
      st, *r = attacks.stateful_attack(st, x[i], y[i], val[i], stateless_attack_fn=attack, compute_loss_predict_correct_cw_fn=compute)
      ok.append(len(calls) == 3 and all(calls))
      res.append(r)
    ctx.ok = all(ok)
    return st, res, st.rngs['dropout'], seen
  st, res, k, seen = ctx.run(f, x, xm, y, val, outs)
  ctx.prove('the attack and the model see the images and labels of the batch', ctx.ok)
  ctx.prove('the PRNG keys move from batch to batch', len({tuple(int(v) for v in np.asarray(s).ravel()) for s in seen}) == batches)
  rows = []
  for i in range(batches):
    on = [True if val[i] is None else on_(val[i][b]) for b in range(B)]
    (l0, y0, c0, w0), (lm, ym, cm, wm) = outs[2 * i], outs[2 * i + 1]
    rows += [(on[b], l0[b], lm[b], y0[b], ym[b], c0[b], cm[b], {n: (w0[n][b], wm[n][b]) for n in layers}) for b in range(B)]
    rx, r_l0, r_lm, r_y0, r_ym, r_w0, r_wm = res[i]
    ctx.prove('the attacked images are returned', ctx.close_arr(rx, xm[i]))
    ctx.prove('per-example outcomes of valid examples are returned unchanged', sx.band(*[
        sx.implies(on[b], sx.band(ctx.close(r_l0[b], l0[b]), ctx.close(r_lm[b], lm[b]), sx.eq(r_y0[b], y0[b]), sx.eq(r_ym[b], ym[b]),
                                  *[ctx.close_arr(r_w0[n][b], w0[n][b]) for n in layers], *[ctx.close_arr(r_wm[n][b], wm[n][b]) for n in layers])) for b in range(B)]))
  t = totals(ctx, rows, layers)
  ctx.prove('the number of images counts valid examples', ctx.close(st.num_images[()], t['num']))
  ctx.prove('changes count valid examples whose prediction differs', ctx.close(st.num_changes[()], t['changes']))
  for j in range(2):
    ctx.prove('losses before and after are summed over valid examples', ctx.close(st.sum_loss[j], t['loss'][j]))
    ctx.prove('correct predictions before and after are summed over valid examples', ctx.close(st.num_correct[j], t['correct'][j]))
  ctx.prove('there is a statistic for every MoE layer', set(st.sum_iou_experts) == set(layers))
  for n in layers:
    ctx.prove('expert overlap is summed over valid examples', ctx.close(st.sum_iou_experts[n][()], t['iou'][n]))
  ctx.prove('the shape of the state does not change', st.num_images.shape == () and st.sum_loss.shape == (2,) and st.num_correct.shape == (2,) and st.max_updates == 3)


def experts(ctx, G, S, E, K, C, name, bf16=False, kind='per_item'):
  """What is reported for a token is what the token receives from each expert."""
  gates = ctx.arr('gates', (G, S, E), lo=0, hi=1)

  def f(g):
    def one(g):
      if kind == 'per_item':
        return vmoe.moe.get_top_experts_per_item_dispatcher(g, name=name, num_selected_experts=K, batch_priority=False, capacity=C)
      return vmoe.moe.get_top_items_per_expert_dispatcher(g, name=name, capacity=C)[0]
    d = jax.vmap(one)(g)
    w = [observe(jax.tree_util.tree_map(lambda v: v[i:i + 1], d), S, E)[1] for i in range(G)]
    if bf16:
      d = vmoe.moe.Bfloat16Dispatcher(d)
    inter = {'intermediates': {'Encoder': {'block': {'Router': {'__call__': ((d, {'aux': 0.}),)}}}}}
    return restore.get_combine_weights(inter), jnp.stack(w)
  cw, W = ctx.run(f, gates)
  ctx.prove('one entry per MoE layer, named by its path', set(cw) == {'Encoder/block/Router/__call__'})
  cw = cw['Encoder/block/Router/__call__']
  ctx.prove('one row per token, one column per expert', cw.shape == (G * S, E))
  for g in range(G):
    for s in range(S):
      for e in range(E):
        ctx.prove('the reported weight is the weight of the output of the expert the token receives', ctx.close(cw[g * S + s, e], sx.sumall(W[g, s, e])))
  ctx.cover('a token is dropped', sx.band(sx.gt(gates[0, S - 1, 0], 0), *[sx.eq(W[0, S - 1, e, c], 0) for e in range(E) for c in range(W.shape[3])]))


def predict(ctx, B, T, C, aux):
  """Loss, prediction, correctness and combine weights of each example."""
  E = 2
  x = ctx.arr('images', (B, C), lo=-2, hi=2)
  y = ctx.arr('labels', (B, C), lo=0, hi=1)
  w = ctx.arr('combine', (1, B * T, E, 1), lo=0, hi=1)
  key = jax.random.PRNGKey(2)

  def f(x, y, w):
    def apply_fn(images, rngs=None, capture_intermediates=None):
      assert capture_intermediates(vmoe.nn.routing.NoisyTopExpertsPerItemRouter(num_experts=2), '__call__') and not capture_intermediates(object(), '__call__')
      assert images is x and rngs['a'] is key
      d = vmoe.moe.EinsumDispatcher(w, w > 0)
      return (2 * images, {'auxiliary_loss': jnp.sum(images)}), {'intermediates': {'R': {'__call__': ((d, {}),)}} if T else {}} if T else {}
    loss = lambda lg, lab, m: jnp.sum(lg * lab, -1) + (m['auxiliary_loss'] if aux else 0)
    return restore.compute_loss_predict_cw_fn(x, y, {'a': key}, apply_fn=apply_fn, loss_fn=loss)
  loss, pred, corr, cw = ctx.run(f, x, y, w)
  s = sx.sumall(x.ravel())
  for b in range(B):
    ctx.prove('the loss of each example', ctx.close(loss[b], sx.add(sx.sumall(sx.mul(sx.mul(2, x[b, c]), y[b, c]) for c in range(C)), s if aux else 0)))
    for c in range(C):
      ctx.prove('the prediction has the largest logit', sx.implies(sx.eq(pred[b], c), sx.band(*[sx.ge(x[b, c], x[b, d]) for d in range(C)])))
      ctx.prove('an example is as correct as the label of its predicted class', sx.implies(sx.eq(pred[b], c), ctx.close(corr[b], y[b, c])))
    ctx.prove('the prediction is a class', sx.anyof([sx.eq(pred[b], c) for c in range(C)]))
  if not T:
    ctx.prove('no MoE layer, no combine weights', not cw)
    return
  (k, v), = cw.items()
  ctx.prove('the tokens of each example are kept together', v.shape == (B, T, E) and ctx.close_arr(v, w.reshape(B, T, E)))


class DS:

  def __init__(self, batches, B, P, C):
    self.batches = batches
    self.element_spec = {'image': pytypes.SimpleNamespace(shape=(B, P)), 'labels': pytypes.SimpleNamespace(shape=(B, C))}

  def __iter__(self):
    return iter([{k: Dev(v) for k, v in b.items()} for b in self.batches])


def run(ctx, batches, B, store, num_updates=1, T=1, eps=0.5, proc=(0, 1)):
  """The whole attack of a dataset: what is reported and what is stored."""
  E = C = 2
  P = T * E
  w = ctx.arr('w', (P, C), lo=-2, hi=2) if B * batches < 4 else ctx.typed(np.array([[sx.Fr(p + 1, 2) * (-1) ** (c + p) for c in range(C)] for p in range(P)], dtype=object), 'float32')
  data = [{'image': ctx.arr('image%d' % i, (B, P), lo=-2, hi=2), 'labels': ctx.arr('labels%d' % i, (B, C), lo=0, hi=1), '__valid__': np.zeros((B,), bool)}
          for i in range(batches)]
  # The mask is decided path by path (it is a divisor in every metric).
  masks = list(itertools.product((True, False), repeat=B * batches))[:-1]
  mask = ctx.choice('valid', [''.join('01'[v] for v in m) for m in masks])
  for i, d in enumerate(data):
    d['__valid__'] = np.array([c == '1' for c in mask[i * B:(i + 1) * B]])

  class Module:

    def apply(self, variables, images, rngs=None, capture_intermediates=None):
      out = (images @ variables['w'], {'auxiliary_loss': jnp.zeros(())})
      if capture_intermediates is None:
        return out
      d = vmoe.moe.EinsumDispatcher(images.reshape(1, -1, E, 1), images.reshape(1, -1, E, 1) > 0)
      return out, {'intermediates': {'R': {'__call__': ((d, {}),)}}}
  loss_fn = lambda lg, lab, m: jnp.sum(lg * lab, -1)
  written, files, dirs = [], {}, set()

  class GFile(io.BytesIO):

    def __init__(self, path, mode):
      super().__init__()
      assert mode == 'wb' and path.rsplit('/', 1)[0] in dirs, 'the directory must exist'
      self.path = path

    def __exit__(self, *a):
      files[self.path] = saved_arrays[int(self.getvalue())]

  saved_arrays = []

  def savez(fp, **kw):
    fp.write(b'%d' % len(saved_arrays))
    saved_arrays.append(kw)
  patches = []

  def patch(o, k, v):
    patches.append((o, k, getattr(o, k)))
    setattr(o, k, v)
  L = attack_lib
  patch(L, 'pjit', Pjit(ctx))
  patch(L, 'get_dataset', lambda c: DS(data, B, P, C))
  patch(L.input_pipeline, 'get_data_num_examples', lambda c: B * batches)
  patch(L.pjit_utils, 'prefetch_to_device', lambda iterator, size=None, mesh=None: iterator)
  patch(L.restore, 'restore_from_config', lambda config, prefix, shape, mesh: (Module(), {'w': Dev(w)}, None, loss_fn, {'R/__call__'}, ('dropout',)))
  patch(L, 'gfile', pytypes.SimpleNamespace(exists=lambda d: d in dirs, makedirs=dirs.add, GFile=GFile))
  patch(np, 'savez_compressed', savez)
  patch(jax, 'process_index', lambda: proc[0])
  patch(jax, 'process_count', lambda: proc[1])
  cfg = ml_collections.ConfigDict(dict(dataset=dict(batch_size=B), restore={'from': 'checkpoint', 'prefix': 'p'}, num_updates=num_updates, max_epsilon=eps))
  if store is not None:
    cfg.store_examples = ml_collections.ConfigDict(dict(transfer_every_steps=store, **({'prefix': '/out/ex'} if store > 2 else {})))
  try:
    L.run_pgd_attack(cfg, '/wd', None, pytypes.SimpleNamespace(write_scalars=lambda step, m: written.append((step, m))))
  finally:
    for o, k, v in reversed(patches):
      setattr(o, k, v)
  rows, refs = [], []
  for d in data:
    def ref(x, y, w):
      g = y @ w.T
      xm = x
      for _ in range(num_updates):
        xm = xm + eps / num_updates * jnp.sign(g)
      r = []
      for z in (x, xm):
        lg = z @ w
        p = jnp.argmax(lg, -1)
        r.append((jnp.sum(lg * y, -1), p, jnp.sum(jax.nn.one_hot(p, C) * y, -1), z.reshape(B, T, E)))
      return xm, r
    xm, ((l0, p0, c0, w0), (lm, pm, cm, wm)) = ctx.run(ref, d['image'], d['labels'], w, validate=False)
    refs.append((xm, l0, p0, lm, pm, w0, wm))
    rows += [(bool(d['__valid__'][b]), l0[b], lm[b], p0[b], pm[b], c0[b], cm[b], {'R/__call__': (w0[b], wm[b])}) for b in range(B)]
  t = totals(ctx, rows, ['R/__call__'])
  n = t['num']
  by = {s: m for s, m in written}
  ctx.prove('one report before the attack (step 0), one after it (step num_updates)', [s for s, _ in written] == [0, num_updates])
  ctx.prove('reported metrics', set(by[0]) == {'error', 'loss'} and set(by[num_updates]) == {'error', 'loss', 'prediction_changes', 'routing_changes/R/__call__'})
  for j, s in enumerate((0, num_updates)):
    ctx.prove('error rate over valid examples', ctx.close(sx.mul(unwrap(by[s]['error']), n), sx.sub(n, t['correct'][j])))
    ctx.prove('average loss over valid examples', ctx.close(sx.mul(unwrap(by[s]['loss']), n), t['loss'][j]))
  ctx.prove('fraction of changed predictions', ctx.close(sx.mul(unwrap(by[num_updates]['prediction_changes']), n), t['changes']))
  ctx.prove('fraction of changed routing', ctx.close(sx.mul(unwrap(by[num_updates]['routing_changes/R/__call__']), n), sx.sub(n, t['iou']['R/__call__'])))
  # Files.
  names = {'/wd/pgd_state.npz'} if proc[0] == 0 else set()
  ex = None
  if store is not None:
    ex = '%s-%03d-of-%03d' % ('/out/ex' if store > 2 else '/wd/examples', proc[0], proc[1])
    names.add(ex)
  ctx.prove('the state is saved once, the examples by every process', set(files) == names)
  if proc[0] == 0:
    s = files['/wd/pgd_state.npz']
    ctx.prove('the saved statistics are the totals', sx.band(
        ctx.close(unwrap(s['num_images'][()]), n), ctx.close(unwrap(s['num_changes'][()]), t['changes']),
        *[ctx.close(unwrap(s[k][j]), t[q][j]) for k, q in (('num_correct', 'correct'), ('sum_loss', 'loss')) for j in range(2)],
        ctx.close(unwrap(s['sum_iou_experts/R/__call__'][()]), t['iou']['R/__call__'])))
  if ex:
    s = files[ex]
    ctx.prove('stored arrays', set(s) == {'x_0', 'y_0', 'l_0', 'x_m', 'y_m', 'l_m', 'y', 'valid', 'cw_0/R/__call__', 'cw_m/R/__call__'})
    ctx.prove('every example is stored once', all(v.shape[0] == B * batches for v in s.values()))
    for i, d in enumerate(data):
      for b in range(B):
        q = i * B + b
        v = bool(d['__valid__'][b])
        xm, l0, p0, lm, pm, w0, wm = refs[i]
        same = lambda k, a: sx.band(*[(sx.iff(unwrap(u), z) if isb(z) else ctx.close(unwrap(u), z)) for u, z in zip(np.ravel(s[k][q]), np.ravel(a))])
        ctx.prove('stored in the order of the dataset', sx.band(same('x_0', d['image'][b]), same('y', d['labels'][b]), bool(unwrap(np.asarray(s['valid'])[q])) == v, same('x_m', xm[b])))
        ctx.prove('with the outcome of that example', sx.implies(v, sx.band(
            same('l_0', l0[b]), same('l_m', lm[b]), same('y_0', p0[b]), same('y_m', pm[b]), same('cw_0/R/__call__', w0[b]), same('cw_m/R/__call__', wm[b]))))


def cases(tier):
  out = [Case(stateful, batches=2, B=2, T=1, E=2, layers=('r',), valid='bool'), Case(stateful, batches=1, B=2, T=2, E=2, layers=('r', 'q'), valid='none'),
         Case(stateful, batches=3, B=1, T=1, E=2, layers=(), valid='int32'), Case(stateful, batches=1, B=3, T=1, E=3, layers=('r',), valid='float32')]
  out += [Case(experts, G=1, S=3, E=2, K=1, C=1, name='einsum'), Case(experts, G=1, S=3, E=2, K=1, C=1, name='indices'), Case(experts, G=2, S=2, E=2, K=2, C=1, name='indices'),
          Case(experts, G=1, S=3, E=3, K=2, C=1, name='indices', bf16=True), Case(experts, G=1, S=3, E=3, K=2, C=2, name='einsum', bf16=True),
          Case(experts, G=2, S=3, E=2, K=0, C=1, name='einsum', kind='per_expert')]
  out += [Case(predict, B=2, T=2, C=2, aux=True), Case(predict, B=2, T=0, C=3, aux=False)]
  out += [Case(run, batches=2, B=2, store=None), Case(run, batches=3, B=1, store=2), Case(run, batches=3, B=1, store=3, proc=(1, 2)), Case(run, batches=2, B=1, store=1, num_updates=2)]
  if tier == 'thorough':
    out += [Case(stateful, batches=4, B=2, T=2, E=2, layers=('r', 'q'), valid='bool'), Case(experts, G=1, S=5, E=3, K=2, C=2, name='indices'),
            Case(run, batches=3, B=2, store=2), Case(run, batches=2, B=2, store=1, T=2, num_updates=2)]
  return out
