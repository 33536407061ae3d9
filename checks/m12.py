"""M12: the vision transformers assemble their layers as documented: patches, positions, residual blocks, experts exactly where asked, pooling, head."""
import contextlib
import math
import flax.linen as nn
import flax.traverse_util
import jax
import jax.numpy as jnp
import numpy as np
import vmoe.moe
from vit_jax import models_vit
from lib import sx
from lib.rnd import random_stub
from lib.runner import Case
from vmoe.nn import ensemble_routing, vit_moe, vit_moe_ensemble
from vmoe.nn import routing as routing_mod

FUNCTIONS = ['vmoe.nn.vit_moe.VisionTransformerMoe.__call__', 'vmoe.nn.vit_moe.EncoderMoe.__call__/add_position_emb', 'vmoe.nn.vit_moe.EncoderBlock.__call__',
             'vmoe.nn.vit_moe.MlpMoeBlock.__call__/create_router/create_split_rngs', 'vmoe.nn.vit_moe.MapHead.__call__',
             'vmoe.nn.vit_moe_ensemble.EncoderMoeEnsemble.__call__', 'vmoe.utils.partialclass', 'vmoe.utils.parse_call']
BOUNDS = {'quick': 'every image of up to 2x4 pixels (2 images, one set of generic parameters); up to 3 blocks, every set of expert layers, patch shapes, class token or not, 5 poolings, '
                   '3 position embeddings, ensembles of 1-3 members; deterministic or not',
          'thorough': '4 blocks, more combinations'}
OUTSIDE = 'larger models; the insides of layer normalisation, attention and convolution (flax) and of the expert layer (M11); other parameter values'
ASSUMPTIONS = ['floating point read as real arithmetic; tanh uninterpreted', 'stand-ins for layer normalisation, attention, dropout (affine maps with parameters) and routers',
               'vit_jax (absent here) replaced by a stand-in with the published MlpBlock']
H, MLP = 2, 1
TIMEOUT = {'quick': 8, 'thorough': 30}
SEEN = []


class LayerNorm(nn.Module):
  """An affine map in place of the normalization."""
  epsilon: float = 1e-6
  dtype: object = None

  @nn.compact
  def __call__(self, x):
    s, b = self.param('scale', nn.initializers.ones, (x.shape[-1],)), self.param('bias', nn.initializers.zeros, (x.shape[-1],))
    return x * s + b


class MultiHeadDotProductAttention(nn.Module):
  """Every token plus the mean of the others: mixes the tokens of one example."""
  num_heads: int
  dtype: object = None
  kernel_init: object = None
  broadcast_dropout: bool = True
  deterministic: object = None
  dropout_rate: float = 0.0
  normalize_qk: bool = False
  qkv_features: object = None
  out_features: object = None

  @nn.compact
  def __call__(self, inputs_q, inputs_k=None, inputs_v=None, *, inputs_kv=None, mask=None, deterministic=None):
    kv = inputs_kv if inputs_kv is not None else (inputs_k if inputs_k is not None else inputs_q)
    det = self.deterministic if deterministic is None else deterministic
    SEEN.append(('attention', '/'.join(self.path), self.num_heads, self.dropout_rate, bool(det), self.normalize_qk))
    q = self.param('q', nn.initializers.ones, (inputs_q.shape[-1], kv.shape[-1]))
    k = self.param('k', nn.initializers.ones, (kv.shape[-1], kv.shape[-1]))
    if self.dropout_rate and not det:
      inputs_q = inputs_q + jax.random.normal(self.make_rng('dropout'), ())
    return inputs_q @ q + jnp.mean(kv @ k, axis=-2, keepdims=True)


class Dropout(nn.Module):
  rate: float
  broadcast_dims: object = ()
  deterministic: object = None
  rng_collection: str = 'dropout'

  @nn.compact
  def __call__(self, x, deterministic=None, rng=None):
    det = self.deterministic if deterministic is None else deterministic
    SEEN.append(('dropout', '/'.join(self.path), self.rate, bool(det)))
    if det or not self.rate:
      return x
    return x + jax.random.normal(self.make_rng('dropout'), ())


class Router(nn.Module):
  """Token s of a group goes to expert s mod E with weight 1 + s / 4."""
  num_experts: int
  deterministic: bool = False
  dtype: object = None
  noise_std: float = 1.0
  dispatcher: object = None
  num_selected_experts: int = 1
  ensemble_size: int = 1

  @nn.compact
  def __call__(self, x):
    SEEN.append(('router', '/'.join(self.path), self.num_experts, bool(self.deterministic), self.noise_std, self.num_selected_experts, self.ensemble_size))
    G, S, _ = x.shape
    E = self.num_experts
    w = np.zeros((G, S, E, -(-S // E)), np.float32)
    for s in range(S):
      w[:, s, s % E, s // E] = 1 + s / 4
    r = self.param('r', nn.initializers.ones, ())
    return vmoe.moe.EinsumDispatcher(jnp.asarray(w), jnp.asarray(w > 0, jnp.float32)), {'auxiliary_loss': r * x[:, 0, 0], 'seen': x[:, -1, -1]}


@contextlib.contextmanager
def env(rng=True, act=jnp.tanh):
  saved = []

  def patch(o, k, v):
    saved.append((o, k, getattr(o, k)))
    setattr(o, k, v)
  for k, c in (('LayerNorm', LayerNorm), ('MultiHeadDotProductAttention', MultiHeadDotProductAttention), ('Dropout', Dropout)):
    patch(nn, k, c)
    if hasattr(vit_moe, k):
      patch(vit_moe, k, c)
  patch(models_vit, 'ACT', act)
  patch(ensemble_routing, 'NoisyTopExpertsPerItemEnsembleRouter', Router)
  patch(vit_moe_ensemble, 'NoisyTopExpertsPerItemEnsembleRouter', Router)
  SEEN.clear()
  try:
    with random_stub() if rng else contextlib.nullcontext():
      yield
  finally:
    for o, k, v in reversed(saved):
      setattr(o, k, v)


def generic(shapes):
  """Fixed parameters without coincidences."""
  flat = flax.traverse_util.flatten_dict(shapes)
  out = {}
  n = 1
  for k in sorted(flat):
    a = np.empty(flat[k].shape, np.float32)
    for i in np.ndindex(*a.shape):
      n = n * 37 % 509
      a[i] = (n % 29 - 14.5) / 16
    out[k] = a
  return flax.traverse_util.unflatten_dict(out)


# ------------------------------------------------------------ hand-written model
def ln(p, x):
  return x * p['scale'] + p['bias']


def attn(p, q, kv):
  return q @ p['q'] + sum(kv[..., t:t + 1, :] @ p['k'] for t in range(kv.shape[-2])) / kv.shape[-2]


def mlp(p, x):
  return jnp.tanh(x @ p['Dense_0']['kernel'] + p['Dense_0']['bias']) @ p['Dense_1']['kernel'] + p['Dense_1']['bias']


def moe(p, x, S, E, M):
  """x: (B * M, T, H)."""
  B, T = x.shape[0] // M, x.shape[1]
  where = [(b, t, m) for b in range(B) for t in range(T) for m in range(M)]
  rows, heads = {}, []
  for n, (b, t, m) in enumerate(where):
    s = n % S
    e = s % E
    pe = jax.tree_util.tree_map(lambda a: a[e], p['Mlp'])
    rows[b * M + m, t] = (1 + s / 4) * mlp(pe, x[b * M + m, t])
    if s == 0:
      heads.append(p['Router']['r'] * x[b * M + m, t, 0])
  return jnp.stack([jnp.stack([rows[b, t] for t in range(T)]) for b in range(B * M)]), jnp.stack(heads)


def encoder(p, x, layers, depth, S, E, M, ensemble):
  met = {}
  repeated = False
  for i in range(depth):
    q = p['encoderblock_%d' % i]
    if i in layers and ensemble and not repeated:
      x = jnp.stack([x[b] for b in range(x.shape[0]) for _ in range(M)])
      repeated = True
    h = ln(q['LayerNorm_0'], x)
    x = x + attn(q['SelfAttention'], h, h)
    h = ln(q['LayerNorm_1'], x)
    if i in layers:
      y, aux = moe(q['Moe'], h, S, E, M if ensemble else 1)
      met['encoderblock_%d' % i] = aux
    else:
      y = mlp(q['Mlp'], h)
    x = x + y
  return ln(p['encoder_norm'], x), met


def positions(name, p, x, h, w):
  if name == 'learned':
    return x + p['posembed_input']['pos_embedding']
  if name == 'none':
    return x
  c = x.shape[-1]
  pe = np.zeros((h * w, c))
  for i in range(h):
    for j in range(w):
      for d in range(c // 4):
        om = 1 / (name[1] ** (d / (c // 4 - 1)))
        for q, (f, v) in enumerate(((math.sin, j), (math.cos, j), (math.sin, i), (math.cos, i))):
          pe[i * w + j, q * (c // 4) + d] = f(v * om)
  if x.shape[1] == h * w + 1:
    pe = np.concatenate([np.zeros((1, c)), pe])
  return x + pe.astype(np.float32)


def map_head(p, x):
  q = jnp.concatenate([p['probe']] * x.shape[0])
  y = attn(p['MultiHeadDotProductAttention'], q, x)
  return (y + mlp(p['Mlp'], ln(p['LayerNorm'], y)))[:, 0]


def build(size, patch, depth, layers, cls, pos, classes, rep, S, E, M, ensemble, det, drop=0.0, adrop=0.0, hidden=H, qk=False, router_det=None, split=False):
  moe_kw = dict(num_experts=E, group_size=S, layers=layers, split_rngs=split)
  if ensemble:
    moe_kw['ensemble_size'] = M
    moe_kw['router'] = dict(noise_std=0.25)
  else:
    moe_kw['router'] = dict(name='checks.m12.Router(num_selected_experts=2)', noise_std=0.25)
  if router_det is not None:
    moe_kw['router']['deterministic'] = router_det
  enc = dict(num_layers=depth, mlp_dim=MLP, num_heads=2, moe=moe_kw, dropout_rate=drop, attention_dropout_rate=adrop, attention_qk_norm=qk)
  if pos != 'learned':
    enc['position_emb'] = dict(name='none') if pos == 'none' else dict(name='sincos2d', temperature=pos[1])
  if not layers:
    enc.pop('moe') if not ensemble else None
  c = vit_moe_ensemble.VisionTransformerMoeEnsemble if ensemble else vit_moe.VisionTransformerMoe
  return c(num_classes=classes, patch_size=patch, hidden_size=hidden, encoder=enc, classifier=cls, representation_size=rep, deterministic=det, head_bias_init=-3.0)


def vit(ctx, size=(2, 2), patch=(1, 1), depth=2, layers=(1,), cls='token', pos='learned', classes=3, rep=None, S=2, E=2, M=1, ensemble=False, hidden=H, B=2):
  model = build(size, patch, depth, layers, cls, pos, classes, rep, S, E, M, ensemble, True, hidden=hidden)
  x = ctx.arr('images', (B,) + size + (1,), lo=-4, hi=4)
  gh, gw = size[0] // patch[0], size[1] // patch[1]
  with env():
    shapes = jax.eval_shape(lambda: model.init({'params': jax.random.PRNGKey(0)}, jnp.zeros(x.shape)))['params']
    names = {'/'.join(k): tuple(v.shape) for k, v in flax.traverse_util.flatten_dict(shapes).items()}
    ctx.prove('the parameters have the documented names and shapes', names == expected_names(patch, depth, layers, cls, pos, classes, rep, E, ensemble, hidden, gh * gw))
    params = generic(shapes)
    SEEN.clear()
    got, met = ctx.run(lambda x: model.apply({'params': params}, x, rngs={'dropout': jax.random.PRNGKey(1)}), x)
  ctx.prove('a deterministic model draws nothing', not ctx.stub_values)

  def ref(x):
    k, b = params['embedding']['kernel'], params['embedding']['bias']
    t = []
    for i in range(gh):
      for j in range(gw):
        t.append(sum(x[:, i * patch[0] + u, j * patch[1] + v, 0, None] * k[u, v, 0] for u in range(patch[0]) for v in range(patch[1])) + b)
    if cls == 'token':
      t = [jnp.broadcast_to(params['cls'][0], (B, hidden))] + t
    z = jnp.stack(t, 1)
    p = params['Encoder']
    z = positions(pos, p, z, gh, gw)
    z, m = encoder(p, z, layers, depth, S, E, M, ensemble)
    if cls in ('token', '0'):
      z = z[:, 0]
    elif cls == 'gap':
      z = sum(z[:, t] for t in range(z.shape[1])) / z.shape[1]
    else:
      z = map_head(params['MapHead'], z)
    if rep:
      z = jnp.tanh(z @ params['pre_logits']['kernel'] + params['pre_logits']['bias'])
    if classes:
      z = z @ params['head']['kernel'] + params['head']['bias']
    return z, m
  with env():
    want, wm = ctx.run(ref, x, validate=False)
  ctx.prove('one row per example (and member)', got.shape == want.shape)
  ctx.prove('the output is that of the documented transformer', ctx.close_arr(got, want))
  ctx.prove('metrics of exactly the expert layers', set(met) == set(wm) | {'auxiliary_loss'})
  for k in wm:
    ctx.prove('metrics of exactly the expert layers', met[k]['auxiliary_loss'].shape == wm[k].shape and ctx.close_arr(met[k]['auxiliary_loss'], wm[k]))
  aux = np.asarray(met['auxiliary_loss'], dtype=object)
  tot = np.zeros(next(iter(wm.values())).shape, dtype=object) if wm else np.zeros((), dtype=object)
  for k in wm:
    for i in np.ndindex(*tot.shape):
      tot[i] = sx.add(tot[i], wm[k][i])
  ctx.prove('the auxiliary loss is the sum over the expert layers', aux.shape == tot.shape and ctx.close_arr(aux, tot))


def expected_names(patch, depth, layers, cls, pos, classes, rep, E, ensemble, h, n):
  out = {'embedding/kernel': patch + (1, h), 'embedding/bias': (h,)}
  if cls == 'token':
    out['cls'] = (1, 1, h)
    n += 1
  if pos == 'learned':
    out['Encoder/posembed_input/pos_embedding'] = (1, n, h)
  norm = lambda k: {k + '/scale': (h,), k + '/bias': (h,)}
  dense = lambda k, e: {k + '/Dense_0/kernel': e + (h, MLP), k + '/Dense_0/bias': e + (MLP,), k + '/Dense_1/kernel': e + (MLP, h), k + '/Dense_1/bias': e + (h,)}
  for i in range(depth):
    b = 'Encoder/encoderblock_%d' % i
    out.update({b + '/SelfAttention/q': (h, h), b + '/SelfAttention/k': (h, h), **norm(b + '/LayerNorm_0'), **norm(b + '/LayerNorm_1')})
    if i in layers:
      out.update({b + '/Moe/Router/r': (), **dense(b + '/Moe/Mlp', (E,))})
    else:
      out.update(dense(b + '/Mlp', ()))
  out.update(norm('Encoder/encoder_norm'))
  if cls == 'map':
    m = 'MapHead'
    out.update({m + '/probe': (1, 1, h), m + '/MultiHeadDotProductAttention/q': (h, h), m + '/MultiHeadDotProductAttention/k': (h, h), **norm(m + '/LayerNorm'), **dense(m + '/Mlp', ())})
  if rep:
    out.update({'pre_logits/kernel': (h, rep), 'pre_logits/bias': (rep,)})
    h = rep
  if classes:
    out.update({'head/kernel': (h, classes), 'head/bias': (classes,)})
  return out


def settings(ctx, ensemble, qk=False):
  """Rates, heads, noise and determinism reach every layer; every draw has its own key."""
  det = ctx.choice('deterministic', [False, True])
  rdet = ctx.choice('router deterministic', [None, False, True])
  drop, adrop = ctx.choice('dropout', [0.0, 0.25]), ctx.choice('attention dropout', [0.0, 0.5])
  M = 2 if ensemble else 1
  depth, layers = 3, (1, 2)
  model = build((1, 2), (1, 1), depth, layers, 'token', 'learned', 2, None, 3, 2, M, ensemble, det, drop, adrop, qk=qk, router_det=rdet)
  with env(act=lambda x: x):
    x = jnp.ones((2, 1, 2, 1))
    params = generic(jax.eval_shape(lambda: build((1, 2), (1, 1), depth, layers, 'token', 'learned', 2, None, 3, 2, M, ensemble, True, qk=qk).init({'params': jax.random.PRNGKey(0)}, x))['params'])
    SEEN.clear()
    ctx.run(lambda x: model.apply({'params': params}, x, rngs={'dropout': jax.random.PRNGKey(1)})[0], ctx.arr('x', x.shape), validate=False)
    seen = list(dict.fromkeys(SEEN))
  a = [s for s in seen if s[0] == 'attention']
  ctx.prove('attention layers get heads, dropout, normalisation and determinism as asked', len(a) == depth and all(s[2:] == (2, adrop, det, qk) for s in a))
  r = [s for s in seen if s[0] == 'router']
  ctx.prove('routers get the number of experts, their own settings, and the determinism of the model unless overridden', len(r) == len(layers) and all(
      s[2:] == (2, det if rdet is None else rdet, 0.25, 1 if ensemble else 2, M) for s in r))
  d = [s for s in seen if s[0] == 'dropout']
  ctx.prove('dropout layers: rate and determinism', all(s[2:] == (drop, det) for s in d))
  keys = [k for k in ctx.stub_values if k[2] == 'normal']
  # After the embedding, after each attention, and twice in each (expert) perceptron.
  n = (1 + depth + 2 * depth if drop and not det else 0) + (depth if adrop and not det else 0)
  ctx.prove('dropout is drawn independently at every place, only when asked for', len(keys) == n)


def experts_init(ctx):
  """split_rngs: whether experts start with different parameters and draw different dropout."""
  split = ctx.choice('split', [False, True, ('params',), ('dropout',), ('params', 'dropout'), ()])
  p = split is True or (not isinstance(split, bool) and 'params' in split)
  d = split is True or (not isinstance(split, bool) and 'dropout' in split)
  b = vit_moe.MlpMoeBlock(mlp_dim=3, num_experts=2, group_size=2, split_rngs=split, dropout_rate=0.5, router=dict(name='checks.m12.Router'))
  with env(rng=False):
    var = b.init({'params': jax.random.PRNGKey(0), 'dropout': jax.random.PRNGKey(1)}, jnp.ones((1, 2, 2)))
  k = var['params']['Mlp']['Dense_0']['kernel']
  ctx.prove('one set of parameters per expert', k.shape == (2, 2, 3))
  ctx.prove('experts start with different parameters iff asked', bool(np.any(np.asarray(k[0]) != np.asarray(k[1]))) == p)
  with env(act=lambda x: x):
    ctx.stub_values.clear()
    ctx.run(lambda x: b.apply(var, x, rngs={'dropout': jax.random.PRNGKey(2)})[0], ctx.arr('x', (1, 2, 2)), validate=False)
  ctx.prove('experts draw different dropout iff asked', len([q for q in ctx.stub_values if q[2] == 'normal']) == 2 * (2 if d else 1))


def heads(ctx):
  """Initial head."""
  for zero in (True, False):
    m = vit_moe.VisionTransformerMoe(num_classes=2, patch_size=(1, 1), hidden_size=2, encoder=dict(num_layers=0, mlp_dim=1, num_heads=1), head_bias_init=-3.0, head_kernel_zero_init=zero)
    with env(rng=False):
      p = m.init({'params': jax.random.PRNGKey(0)}, jnp.ones((1, 1, 1, 1)))['params']['head']
    ctx.prove('initial head', np.all(np.asarray(p['bias']) == -3.0) and bool(np.any(np.asarray(p['kernel']) != 0)) == (not zero))
  for cls, pos in (('tokens', None), ('token', dict(name='sincos'))):
    try:
      with env(rng=False):
        vit_moe.VisionTransformerMoe(num_classes=2, patch_size=(1, 1), hidden_size=2, classifier=cls,
                                     encoder=dict(num_layers=0, mlp_dim=1, num_heads=1, **({'position_emb': pos} if pos else {}))).init({'params': jax.random.PRNGKey(0)}, jnp.ones((1, 1, 1, 1)))
      ok = False
    except ValueError:
      ok = True
    ctx.prove('unknown poolings and position embeddings are refused', ok)


def cases(tier):
  out = [Case(vit, depth=0, layers=(), classes=None, S=1), Case(vit, depth=2, layers=(), S=1), Case(vit, layers=(0,), S=5), Case(vit, layers=(0, 1), cls='0', S=4, E=3),
         Case(vit, depth=3, layers=(1,), cls='gap', S=2, size=(2, 2)), Case(vit, depth=1, layers=(0,), cls='map', S=4, classes=2), Case(vit, size=(2, 4), patch=(1, 2), depth=1, layers=(0,), S=5, rep=2),
         Case(vit, size=(2, 4), patch=(2, 1), depth=1, layers=(), cls='gap', pos='none', S=1), Case(vit, size=(2, 3), depth=0, layers=(), cls='gap', pos=('s', 100.), S=1, classes=None, hidden=8), Case(vit, size=(4, 2), patch=(1, 2), depth=0, layers=(), cls='gap', pos=('s', 100.), S=1, classes=None, hidden=8), Case(vit, size=(3, 2), depth=1, layers=(), cls='token', pos=('s', 100.), S=1, classes=None, hidden=8, B=1),
         Case(vit, size=(2, 2), depth=0, layers=(), cls='token', pos=('s', 10000.), S=1, classes=2, hidden=8), Case(vit, size=(2, 2), depth=1, layers=(), cls='gap', pos=('s', 50.), S=1, classes=None, hidden=8)]
  out += [Case(vit, size=(1, 2), ensemble=True, M=M, depth=3, layers=l, S=s, E=2 * M, classes=2) for M, l, s in ((2, (1,), 6), (2, (0, 2), 4), (3, (1,), 9), (1, (1, 2), 3))]
  out += [Case(vit, size=(1, 2), ensemble=True, M=2, depth=0, layers=(), S=1, pos=p, classes=2, hidden=8, cls=c) for p, c in (('none', 'gap'), (('s', 100.), 'token'))]
  out += [Case(settings, ensemble=False), Case(settings, ensemble=True), Case(settings, ensemble=False, qk=True), Case(settings, ensemble=True, qk=True), Case(experts_init), Case(heads)]
  if tier == 'thorough':
    import itertools
    for l in itertools.chain.from_iterable(itertools.combinations(range(3), k) for k in range(4)):
      out.append(Case(vit, depth=3, layers=l, S=5, E=3))
      if l:
        out.append(Case(vit, size=(1, 2), ensemble=True, M=2, depth=3, layers=l, S=6, E=4))
    for c in ('token', '0', 'gap', 'map'):
      for p in ((1, 1), (2, 1), (1, 2), (2, 2)):
        out.append(Case(vit, size=(2, 4), patch=p, depth=4 if c != 'map' else 1, layers=(0,), cls=c, S=1))
  return out
