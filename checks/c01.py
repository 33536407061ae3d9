"""C01: contrastive training: the sigmoid loss of all image-text pairs, two towers compared by scaled cosine, one update from every pair."""
import functools
import itertools
import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
import optax
from lib import sx
from lib.rnd import random_stub
from lib.runner import Case
from checks.t03 import mesh
from vmoe.projects.contrastive import models, trainer
from vmoe.train import trainer as base_trainer
from vmoe.train.train_state import TrainState

FUNCTIONS = ['vmoe.projects.contrastive.trainer.sigmoid_loss', 'vmoe.projects.contrastive.trainer.train_step', 'vmoe.projects.contrastive.models.TwoTower.__call__',
             'vmoe.projects.contrastive.models.TextTransformer.__call__', 'vmoe.train.trainer.accumulate_gradients_and_metrics', 'vmoe.nn.vit_moe.EncoderMoe.__call__']
BOUNDS = {'quick': 'every logit (1-3 pairs, leading dimensions), every image, text, parameter and noise value (2-4 pairs, 1-2 microsteps, two-dimensional features); '
                   'every token sequence of length 1-3 over a vocabulary of 3; every pooling',
          'thorough': '4 pairs in the loss, 6 pairs and 3 microsteps, more text sizes'}
OUTSIDE = 'more pairs; the encoder blocks of the towers (M11, M12); the retrieval and zero-shot evaluators of Big Vision (not installed); float rounding'
ASSUMPTIONS = ['floating point read as real arithmetic; exp, log and sqrt as in E02', 'jax.random draws are arbitrary values, equal for equal keys']
LR = 0.5
TIMEOUT = {'quick': 20, 'thorough': 300}


# ------------------------------------------------------------------ the loss
def loss(ctx, n, lead=()):
  ctx.exp_split = True
  x = ctx.arr('logits', lead + (n, n), lo=-8, hi=8)
  got = ctx.run(trainer.sigmoid_loss, x)

  def ref(x):
    pos = jnp.log(1 / (1 + jnp.exp(-x)))
    neg = jnp.log(1 / (1 + jnp.exp(x)))
    rows = [sum((pos if i == j else neg)[..., i, j] for j in range(n)) for i in range(n)]
    return -jnp.stack(rows, axis=-1)
  want = ctx.run(ref, x, validate=False)
  ctx.prove('one loss per image', got.shape == lead + (n,))
  ctx.prove('minus the log-likelihood of the pairs: an image belongs to its own text and to no other', ctx.close_arr(got, want))


def not_square(ctx):
  a, b = ctx.choice('rows', [1, 2, 3]), ctx.choice('cols', [1, 2, 3])
  for shape in [(a, b), (b, b, a), (a,)]:
    ok = len(shape) > 1 and shape[-1] == shape[-2]
    try:
      trainer.sigmoid_loss(jnp.zeros(shape))
      r = True
    except ValueError:
      r = False
    ctx.prove('only square matrices of pairs are accepted', r == ok)


# ------------------------------------------------------------ a training step
def pair_loss(logits):
  return jnp.sum((logits - jnp.eye(logits.shape[-1])) ** 2 + logits, axis=-1)


def apply_fn(aux, noise):
  def f(variables, images, texts, rngs=None):
    p = variables['params']
    logits = jnp.outer(images @ p['w'], texts @ p['sub']['v']) + images[:, :1] * texts[:, 1]
    for k in noise:
      logits = logits + p['w'][0] * jax.random.normal(rngs[k], ())
    metrics = {'seen': jnp.sum(images) + 3 * jnp.sum(texts), 'img': {'load': jnp.max(images[:, 0] * 0 + 2)}}
    if aux:
      metrics['auxiliary_loss'] = jnp.stack([p['w'][1] ** 2, jnp.mean(images[:, 1] * texts[:, 0]) * p['w'][0]])
    return logits, metrics
  return f


def step(ctx, B, micro, aux, noise=(), nsteps=1, loss_fn='polynomial'):
  L = pair_loss
  if loss_fn == 'sigmoid':
    ctx.exp_split = True
    L = trainer.sigmoid_loss
  x = [ctx.arr('image%d' % s, (B, 2), lo=-4, hi=4) for s in range(nsteps)]
  y = [ctx.arr('text%d' % s, (B, 2), lo=-4, hi=4) for s in range(nsteps)]
  w, v = ctx.arr('w', (2,), lo=-4, hi=4), ctx.arr('v', (2,), lo=-4, hi=4)
  names = noise or ('dropout',)
  rngs = {n: jax.random.PRNGKey(i) for i, n in enumerate(names)}
  m = micro if micro and micro > 0 else 1

  def f(x, y, w, v):
    st = TrainState.create(apply_fn=apply_fn(aux, noise), params={'w': w, 'sub': {'v': v}}, tx=optax.sgd(LR), rngs=rngs)
    mets, ks = [], [st.rngs]
    for s in range(nsteps):
      st, met = trainer.train_step(st, x[s], y[s], L, microsteps=micro)
      mets.append({k: a for k, a in met.items() if not k.startswith('global_norm')})
      ks.append(st.rngs)
    return st.params, mets, st.step, ks
  with mesh(), random_stub():
    params, mets, count, ks = ctx.run(f, x, y, w, v)
  draws = [a[()] if isinstance(a, np.ndarray) else a for k, a in ctx.stub_values.items() if k[2] == 'normal']
  dkeys = [k[0] for k in ctx.stub_values if k[2] == 'normal']
  ctx.prove('every microstep draws fresh randomness', len(set(dkeys)) == len(noise) * m * nsteps)
  allk = [tuple(int(a) for a in np.asarray(k[n]).ravel()) for k in ks for n in names]
  ctx.prove('keys kept in the state are never the ones consumed, and change every step', len(set(allk)) == len(allk) and not set(allk) & set(dkeys))
  ctx.prove('the step counter counts steps', sx.eq(count[()], nsteps))

  def total(p, x, y, nz, parts):
    w, v = p
    mets = []
    for q, part in enumerate(parts):
      xs, ys = x[np.asarray(part)], y[np.asarray(part)]
      logits = jnp.outer(xs @ w, ys @ v) + xs[:, :1] * ys[:, 1]
      if nz is not None:
        logits = logits + w[0] * nz[q]
      if loss_fn == 'sigmoid':
        main = 0.
        for i in range(len(part)):
          for j in range(len(part)):
            main += jnp.log(1 + jnp.exp(-logits[i, j] if i == j else logits[i, j]))
      else:
        main = jnp.sum((logits - np.eye(len(part))) ** 2) + jnp.sum(logits)
      out = {'main_loss': main / len(part), 'seen': jnp.sum(xs) + 3 * jnp.sum(ys), 'load': jnp.float32(2)}
      out['total_loss'] = out['main_loss']
      if aux:
        out['auxiliary_loss'] = (w[1] ** 2 + jnp.mean(xs[:, 1] * ys[:, 0]) * w[0]) / 2
        out['total_loss'] = out['total_loss'] + out['auxiliary_loss']
      mets.append(out)
    out = {k: sum(o[k] for o in mets) / len(mets) for k in mets[0]}
    return out['total_loss'], out

  def ref(x, y, w, v, nz, parts):
    p, mets = (w, v), []
    for s in range(nsteps):
      (_, met), g = jax.value_and_grad(total, has_aux=True)(p, x[s], y[s], None if nz is None else nz[s], parts)
      p = jax.tree_util.tree_map(lambda a, b: a - LR * b, p, g)
      mets.append(met)
    return p, mets
  nz = None
  if noise:
    per = np.asarray([sx.sumall(draws[i * len(noise):(i + 1) * len(noise)]) for i in range(nsteps * m)], dtype=object)
    nz = [ctx.typed(per[s * m:(s + 1) * m].copy(), 'float32') for s in range(nsteps)]
  # The pairs may be grouped into microsteps in any way, as long as image i stays with text i.
  options = []
  for parts in groupings(B, m, ordered=bool(noise)):
    with random_stub():
      rp, rm = ctx.run(lambda x, y, w, v, nz: ref(x, y, w, v, nz, parts), x, y, w, v, nz, validate=False)
    same = [ctx.close(params['w'][j], rp[0][j]) for j in range(2)] + [ctx.close(params['sub']['v'][j], rp[1][j]) for j in range(2)]
    for s in range(nsteps):
      got = dict(mets[s])
      img = got.pop('img', {})
      ctx.prove('the same metrics are reported', set(got) | {'load'} == set(rm[s]) and set(img) == {'load'})
      for k in rm[s]:
        g = img['load'] if k == 'load' else got[k]
        same.append(np.shape(g) == () and ctx.close(g[()], rm[s][k][()]))
    options.append(sx.band(*same))
    if options[-1] is True:
      break
  ctx.prove('new parameter = parameter - lr * gradient of the mean loss of the groups of pairs plus auxiliary loss, metrics are means', sx.bor(*options))


def groupings(B, m, ordered):
  """Partitions of the pairs into m equal groups; the grouping of the code first."""
  first = [list(range(q, B, m)) for q in range(m)]
  yield first
  if m == 1:
    return

  def rec(left):
    if not left:
      yield []
      return
    for g in itertools.combinations(left[1:], B // m - 1):
      g = [left[0]] + list(g)
      for r in rec([i for i in left if i not in g]):
        yield [g] + r
  for p in rec(list(range(B))):
    for q in (itertools.permutations(p) if ordered else [p]):
      q = [list(g) for g in q]
      if q != first:
        yield q


# ------------------------------------------------------------- the two towers
class Tower(nn.Module):
  """A tower for the tests: linear features."""
  size: int
  offset: float = 0.0
  deterministic: bool = False

  @nn.compact
  def __call__(self, x):
    w = self.param('w', nn.initializers.ones, (x.shape[-1], self.size))
    return x @ w + self.offset, {'auxiliary_loss': jnp.sum(w), 'det': self.deterministic}


def towers(ctx, bi, bt, D, bias, scale=None, args=False):
  ctx.exp_split = True
  xi, xt = ctx.arr('images', (bi, 1), lo=-4, hi=4), ctx.arr('texts', (bt, 1), lo=-4, hi=4)
  wi, wt = ctx.arr('wi', (1, D), lo=-4, hi=4), ctx.arr('wt', (1, D), lo=-4, hi=4)
  s, b = ctx.arr('s', (), lo=-2, hi=2), ctx.arr('b', (), lo=-9, hi=9)
  name = 'checks.c01.Tower'
  image = dict(name=name + '(offset=0.5)', size=D) if args else dict(name=name, size=D, offset=0.5)
  det = ctx.choice('deterministic', [False, True])
  model = models.TwoTower(image=image, text=dict(name=name, size=D), bias_init=-7.0 if bias else None, scale_init=scale or 1.0, deterministic=det)

  def f(xi, xt, wi, wt, s, b):
    params = {'img': {'w': wi}, 'txt': {'w': wt}, 's': s}
    if bias:
      params['b'] = b
    ap = lambda i, t: model.apply({'params': params}, i, t)
    both, m = ap(xi, xt)
    zi, mi = ap(xi, None)
    zt, mt = ap(None, xt)
    keep = lambda m: {k: dict(v) if hasattr(v, 'items') else v for k, v in m.items()}
    return both, zi, zt, keep(m), keep(mi), keep(mt)
  both, zi, zt, m, mi, mt = ctx.run(f, xi, xt, wi, wt, s, b)

  def ref(xi, xt, wi, wt, s, b):
    zi, zt = xi @ wi + 0.5, xt @ wt
    unit = lambda z: z / (jnp.sqrt(jnp.sum(z ** 2, -1, keepdims=True)) + 1e-8)
    zi, zt = unit(zi), unit(zt)
    out = jnp.stack([jnp.stack([jnp.sum(zi[i] * zt[j]) for j in range(bt)]) for i in range(bi)]) * jnp.exp(s)
    return (out + b if bias else out), zi, zt, jnp.exp(s), jnp.sum(wi), jnp.sum(wt)
  r = ctx.run(ref, xi, xt, wi, wt, s, b, validate=False)
  ctx.prove('logit of (image, text) = scale * cosine of their embeddings + bias', both.shape == (bi, bt) and ctx.close_arr(both, r[0]))
  ctx.prove('images alone give their unit embeddings', zi.shape == (bi, D) and ctx.close_arr(zi, r[1]))
  ctx.prove('texts alone give their unit embeddings', zt.shape == (bt, D) and ctx.close_arr(zt, r[2]))
  ctx.prove('metrics of both towers', set(m) == {'img', 'txt', 'scale'} and set(mi) == {'img'} and set(mt) == {'txt'})
  ctx.prove('the scale is reported', ctx.close(m['scale'][()], r[3][()]))
  for mm in (m, mi):
    ctx.prove('metrics of the image tower', ctx.close(mm['img']['auxiliary_loss'][()], r[4][()]))
  for mm in (m, mt):
    ctx.prove('metrics of the text tower', ctx.close(mm['txt']['auxiliary_loss'][()], r[5][()]))
  ctx.prove('both towers are (not) deterministic as the model is', all(bool(np.asarray(mm[k]['det']).ravel()[0]) == det for mm, k in ((m, 'img'), (m, 'txt'), (mi, 'img'), (mt, 'txt'))))
  try:
    model.apply({'params': {}}, None, None)
    ok = False
  except ValueError:
    ok = True
  ctx.prove('one of the two must be given', ok)
  p = model.init(jax.random.PRNGKey(0), jnp.ones((2, 1)), jnp.ones((2, 1)))['params']
  ctx.prove('initial scale and bias', abs(float(jnp.exp(p['s'])) - (scale or 1.0)) < 1e-5 and ('b' in p) == bias and (not bias or float(p['b']) == -7.0))


# ------------------------------------------------------------------ the text
def text(ctx, T, pool, classes, pos='learned', B=2):
  V, H = 3, 2
  tok = ctx.arr('tokens', (B, T), dtype='int32', lo=0, hi=V - 1)
  emb, p = ctx.arr('emb', (V, H), lo=-4, hi=4), ctx.arr('pos', (1, T, H), lo=-4, hi=4)
  sc, bs = ctx.arr('scale', (H,), lo=-2, hi=2), ctx.arr('bias', (H,), lo=-2, hi=2)
  k, kb = ctx.arr('kernel', (H, classes or 1), lo=-2, hi=2), ctx.arr('head_bias', (classes or 1,), lo=-2, hi=2)
  model = models.TextTransformer(vocab_size=V, num_classes=classes, hidden_size=H, pool_type=pool, deterministic=True,
                                 encoder=dict(num_layers=0, mlp_dim=2, num_heads=1, position_emb=dict(name=pos)))

  class Norm(nn.Module):

    @nn.compact
    def __call__(self, x):
      s, b = self.param('scale', nn.initializers.ones, (x.shape[-1],)), self.param('bias', nn.initializers.zeros, (x.shape[-1],))
      return x * s + b + 1
  Norm.__name__ = 'LayerNorm'
  real, nn.LayerNorm = nn.LayerNorm, lambda **kw: Norm(name=kw.get('name'))

  def f(tok, emb, p, sc, bs, k, kb):
    params = {'Embed_0': {'embedding': emb}, 'Encoder': {'encoder_norm': {'scale': sc, 'bias': bs}}}
    if pos == 'learned':
      params['Encoder']['posembed_input'] = {'pos_embedding': p}
    if classes:
      params['head'] = {'kernel': k, 'bias': kb}
    return model.apply({'params': params}, tok)[0]
  try:
    got = ctx.run(f, tok, emb, p, sc, bs, k, kb)
  finally:
    nn.LayerNorm = real
  for b in range(B):
    rows = []
    for t in range(T):
      e = [emb[V - 1, h] for h in range(H)]
      for vv in range(V - 1):
        e = [sx.ite(sx.eq(tok[b, t], vv), emb[vv, h], e[h]) for h in range(H)]
      if pos == 'learned':
        e = [sx.add(e[h], p[0, t, h]) for h in range(H)]
      rows.append([sx.add(sx.add(sx.mul(e[h], sc[h]), bs[h]), 1) for h in range(H)])
    mean = lambda h: sx.div(sx.sumall([r[h] for r in rows]), T)
    z = {'last': lambda h: rows[-1][h], 'first': lambda h: rows[0][h], 'gap': mean, 'gmp': lambda h: functools.reduce(sx.smax, [r[h] for r in rows])}[pool]
    z = [z(h) for h in range(H)]
    want = [sx.add(sx.sumall([sx.mul(z[h], k[h, c]) for h in range(H)]), kb[c]) for c in range(classes)] if classes else z
    for c in range(len(want)):
      ctx.prove('the representation is the pooled sequence of normalized token embeddings, followed by the head', ctx.close(got[b, c], want[c]))
  ctx.prove('one row per text', got.shape == (B, classes or H))


def cases(tier):
  th = tier == 'thorough'
  out = [Case(loss, n=n) for n in (1, 2, 3) + ((4,) if th else ())] + [Case(loss, n=2, lead=(2,)), Case(not_square)]
  for aux in (False, True):
    for B, m in [(2, None), (2, 0), (3, 1), (4, 2), (2, 2)] + ([(6, 3), (6, 2)] if th else []):
      out.append(Case(step, B=B, micro=m, aux=aux))
  out += [Case(step, B=2, micro=None, aux=True, noise=('dropout',)), Case(step, B=4, micro=2, aux=True, noise=('dropout', 'gating')),
          Case(step, B=2, micro=None, aux=False, nsteps=2, noise=('dropout',)), Case(step, B=2, micro=None, aux=False, loss_fn='sigmoid')]
  out += [Case(towers, bi=2, bt=2, D=2, bias=True, scale=10.0), Case(towers, bi=1, bt=3, D=1, bias=False), Case(towers, bi=2, bt=1, D=2, bias=True, args=True)]
  for pool in ('last', 'first', 'gap', 'gmp'):
    out.append(Case(text, T=2, pool=pool, classes=None))
    out.append(Case(text, T=3, pool=pool, classes=2 if pool != 'gmp' else None, pos='learned' if pool != 'last' else 'none'))
  return out
