"""I02: a training run starts from the latest checkpoint, else from pre-trained arrays where rules map them and fresh ones elsewhere."""
import contextlib
import io
import json
import types as pytypes
import flax.linen as nn
import flax.serialization
import flax.traverse_util
import jax
import jax.numpy as jnp
import numpy as np
from jax.sharding import NamedSharding, PartitionSpec
from lib import sx
from lib.ckpt_h import SyncPool
from lib.pj_h import Pjit, Dev
from lib.rnd import random_stub
from lib.runner import Case
from vmoe.initialization import initialization, mapping
from vmoe.train import trainer

FUNCTIONS = ['vmoe.train.trainer.restore_or_create_train_state', 'vmoe.train.trainer.create_or_reuse_train_state', 'vmoe.train.trainer.make_create_train_state_fn',
             'vmoe.train.trainer.initialize_train_state_from_checkpoint', 'vmoe.initialization.initialization.initialize_from_vmoe',
             'vmoe.initialization.initialization.initialize_from_vit', 'vmoe.initialization.initialization.initialize_from_orbax', 'vmoe.initialization.mapping.map_state_dict',
             'vmoe.partitioning.tree_axis_resources_from_regexes', 'vmoe.utils.make_rngs']
BOUNDS = {'quick': 'every value of the pre-trained, restored and freshly drawn arrays; a model of 3 parameters with momentum and two extra PRNG names; three checkpoint formats '
                   '(V-MoE with and without structure, ViT, Orbax), 5 rule sets, with and without an existing checkpoint, flags',
          'thorough': 'the full product'}
OUTSIDE = 'larger models; reading the files of the checkpoints (K01-K05 for V-MoE; Orbax and ViT readers are third party); more than one device'
ASSUMPTIONS = ['the checkpoint readers return the stored arrays with the sharding asked for', 'jax.random draws are arbitrary values, equal for equal keys',
               'pjit is a stub that runs the real function symbolically']
MESH = jax.sharding.Mesh(np.asarray(jax.devices()[:1]).reshape(1, 1), ('expert', 'replica'))
REGEX = [('enc/w', ('expert',)), ('head', (None, 'replica'))]
SRC_REGEX = [('old/w', ('replica',))]
SRC = {'old/w': (2, 2), 'old/b': (2,), 'cls/w': (2, 3), 'opt/count': ()}


class SDev(Dev):

  def __init__(self, a, sharding, dt='float32'):
    super().__init__(a)
    self.sharding, self.dt = sharding, dt

  dtype = property(lambda s: np.dtype(s.dt))


class Net(nn.Module):

  @nn.compact
  def __call__(self, x):
    init = lambda k, s: jax.random.normal(k, s)
    class Sub(nn.Module):

      @nn.compact
      def __call__(self, x, names, shapes):
        return [self.param(n, init, s) for n, s in zip(names, shapes)]
    w, b = Sub(name='enc')(x, ('w', 'b'), ((2, 2), (2,)))
    h, = Sub(name='head')(x, ('w',), ((2, 3),))
    return (x @ w + b) @ h, {}


def spec_of(key, regexes):
  import re
  for r, s in regexes:
    if re.search(r, key):
      return PartitionSpec(*s)
  return PartitionSpec()


RULES = {
    'all': [('^old/(.*)', 'params/enc/\\1'), ('cls', 'params/head'), ('opt', None)],
    'encoder': [('^old/(.*)', 'params/enc/\\1'), ('.', None)],
    'weight': [('^old/w', 'params/enc/w'), ('.', None)],
    'cross': [('^old/w', 'params/enc/w'), ('old/b', 'params/enc/b'), ('opt/count', 'step'), ('cls', '')],
    'none': [('.', None)],
}


def flat(t):
  return flax.traverse_util.flatten_dict(flax.serialization.to_state_dict(t), sep='/', keep_empty_nodes=True)


def nest(d):
  return flax.traverse_util.unflatten_dict(d, sep='/')


@contextlib.contextmanager
def env(ctx, src, log, empty=None):
  """src: name -> array of the pre-trained checkpoint; empty: nodes of a checkpoint without structure."""
  saved = []

  def patch(o, k, v):
    saved.append((o, k, getattr(o, k)))
    setattr(o, k, v)
  pj = Pjit(ctx)
  for m in (trainer, mapping, initialization):
    patch(m, 'pjit', pj)
  patch(trainer.parameter_overview, 'log_parameter_overview', lambda *a, **k: None)
  C = initialization.vmoe_checkpoint

  def index(path, *a, **k):
    log.append(('index', path))
    d = {'index': nest({**{k: flax.traverse_util.empty_node for k in empty or ()}, **{k: pytypes.SimpleNamespace(global_shape=jax.core.ShapedArray(v.shape, np.dtype('int32' if k == 'opt/count' else 'float32'))) for k, v in src.items()}})}
    if empty is None:
      d['version'] = C.Version.V1
    return d

  def partitioned(prefix, tree, thread_pool=None, **kw):
    f = flat(tree)
    log.append(('read', prefix, {k: (tuple(v.shape), v.sharding) for k, v in f.items() if hasattr(v, 'shape')}))
    return flax.serialization.from_state_dict(tree, nest({k: SDev(src[k], v.sharding) if hasattr(v, 'shape') else v for k, v in f.items()}))
  patch(C, 'restore_checkpoint', index)
  patch(C, 'restore_checkpoint_partitioned', partitioned)

  def load(path):
    log.append(('load', path))
    return nest({k: Dev(v) for k, v in src.items()})
  patch(initialization.vit_jax_checkpoint, 'load', load)

  class Ckptr:

    def __init__(self, *a):
      pass

    def structure(self, directory):
      log.append(('structure', directory))
      return nest({**{k: 'PLACEHOLDER://' + k.replace('/', '.') for k in src}, 'meta': 7})

    def restore(self, directory, restore_args=None):
      f = flax.traverse_util.flatten_dict(restore_args, sep='/')
      log.append(('read', directory, {k: (tuple(v.global_shape), v.sharding) for k, v in f.items() if hasattr(v, 'global_shape')}))
      return nest({**{k: SDev(src[k], f[k].sharding) for k in src}, 'meta': 7})

  class GFile(io.StringIO):

    def __init__(self, path, mode):
      name = path.split('/')[-2].replace('.', '/')
      assert path == '/pre/%s/.zarray' % name.replace('/', '.')
      super().__init__(json.dumps(dict(shape=list(src[name].shape), dtype='<i4' if name == 'opt/count' else '<f4')))
  patch(initialization, 'AsyncCheckpointerWithStructure', Ckptr)
  patch(initialization, 'ThreadPool', lambda n: SyncPool())
  patch(initialization, 'tf', pytypes.SimpleNamespace(io=pytypes.SimpleNamespace(gfile=pytypes.SimpleNamespace(GFile=GFile))))
  try:
    with random_stub(), MESH:
      yield
  finally:
    for o, k, v in reversed(saved):
      setattr(o, k, v)


def start(ctx, fmt, rules, resume=False, seed=0, rng_keys=('dropout', 'gating'), momentum=0.5):
  src = {k: ctx.arr(k.replace('/', '_'), s, **(dict(lo=-8, hi=8) if k != 'opt/count' else dict(dtype='int32', lo=0, hi=9))) for k, s in SRC.items()}
  if fmt == 'vmoe_old':
    src = None
  log = []
  make = lambda seed: trainer.make_create_train_state_fn(
      model=Net(), optimizer_config=dict(name='sgd', learning_rate=0.5, momentum=momentum, accumulator_dtype=None), train_steps=4,
      input_shape_dtypes=(jax.ShapeDtypeStruct((1, 2), jnp.float32, sharding=NamedSharding(MESH, PartitionSpec())),), seed=seed, extra_rng_keys=rng_keys)
  init = make(seed)
  restored, asked = [], []
  latest = ctx.int('latest', 0, 100000) if resume else None

  class Manager:

    def latest_step(self):
      return latest

    def restore(self, step, args=None, **kw):
      restored.append(step)
      a = args['state'] if hasattr(args, '__getitem__') else args.state
      asked.append(a.restore_args)
      return {'state': 'the saved state', 'dataset_iterator': {'last_seen_index': 48}}
  kw = None
  if fmt == 'vmoe_old':
    # A checkpoint without structure: the pre-trained tree has the structure of the target.
    kw = dict(name='initialize_from_vmoe', prefix='/pre', rules=RULES_OLD[rules])
  elif fmt == 'vmoe':
    kw = dict(name='initialize_from_vmoe', prefix='/pre', rules=RULES[rules], axis_resources_regexes=SRC_REGEX)
  elif fmt == 'vit':
    kw = dict(name='initialize_from_vit', filepath='/pre', rules=RULES[rules])
  elif fmt == 'orbax':
    kw = dict(name='initialize_from_orbax', directory='/pre', rules=[('meta', None)] + RULES[rules], axis_resources_regexes=SRC_REGEX)
  if kw:
    kw['raise_if_target_unmatched'] = False
  with random_stub(), MESH:
    shapes = flat(jax.eval_shape(init))
  if fmt == 'vmoe_old':
    src = {}
    for k, v in shapes.items():
      if hasattr(v, 'shape'):
        src[k] = ctx.arr('pre_' + k.replace('/', '_'), tuple(v.shape), **(dict(dtype='int32', lo=0, hi=9) if v.dtype.kind in 'iu' else dict(lo=-8, hi=8)))
  src0 = {k: v.copy() for k, v in src.items()}
  with env(ctx, src, log, [k for k, v in shapes.items() if not hasattr(v, 'shape')] if fmt == 'vmoe_old' else None):
    if resume:
      state, last = trainer.restore_or_create_train_state(ckpt_manager=Manager(), initialize_fn=init, axis_resources_regexes=REGEX, mesh=MESH, initialization_kwargs=kw)
      ctx.prove('an existing checkpoint is resumed, at its position in the data', len(restored) == 1 and restored[0] is latest and state == 'the saved state' and last == 48)
      ctx.prove('nothing is read from the pre-trained checkpoint', not log)
      f = {k: v for k, v in flat(asked[0]).items() if hasattr(v, 'global_shape')}
      ctx.prove('every array is restored with its shape and sharding', set(f) == {k for k, v in shapes.items() if hasattr(v, 'shape')} and all(
          tuple(v.global_shape) == tuple(shapes[k].shape) and v.dtype == shapes[k].dtype and v.sharding == NamedSharding(MESH, spec_of(k, REGEX)) for k, v in f.items()))
      return
    state, last = trainer.restore_or_create_train_state(ckpt_manager=Manager(), initialize_fn=init, axis_resources_regexes=REGEX, mesh=MESH, initialization_kwargs=kw)
    fresh = flat(ctx.run(init))
  ctx.prove('no checkpoint: nothing restored, data from the beginning', last is None and not restored)
  got = flat(state)
  ctx.prove('every array of the state is there', set(got) == set(fresh))
  import re
  src_of = {}
  for s in (src0 if kw else {}):
    r = next(r for r in (kw['rules']) if re.search(r[0], s))
    if r[1]:
      src_of[re.sub(r[0], r[1], s)] = s
  for k, v in got.items():
    if not hasattr(fresh[k], 'shape'):
      continue
    if not hasattr(v, 'shape'):
      ctx.prove('every array of the state is there', False)
      continue
    v_ = v.a if isinstance(v, Dev) else np.asarray(v)
    ref = src0[src_of[k]] if k in src_of else np.asarray(fresh[k])
    what = 'an array some rule maps to comes from the pre-trained checkpoint' if k in src_of else 'every other array is freshly initialized'
    ctx.prove(what, v_.shape == ref.shape and ctx.close_arr(v_, ref))
    ctx.prove('with the sharding asked for', getattr(v, 'sharding', None) == NamedSharding(MESH, spec_of(k, REGEX)))
  reads = [l for l in log if l[0] == 'read']
  if fmt in ('vmoe', 'orbax'):
    ctx.prove('the pre-trained checkpoint is read once, each array whole with the sharding asked for', len(reads) == 1 and reads[0][1] == '/pre' and reads[0][2] == {
        k: (s, NamedSharding(MESH, spec_of(k, SRC_REGEX))) for k, s in SRC.items()})
  # Fresh states: parameters depend on the seed only; the PRNG names of the model are there, the one of the parameters is not.
  ctx.prove('the PRNG names', {k[5:] for k in got if k.startswith('rngs/') and k != 'rngs/'} - {''} == set(rng_keys))
  ks = {tuple(int(x) for x in np.asarray(fresh[k]).ravel()) for k in fresh if k.startswith('rngs/') and hasattr(fresh[k], 'shape')}
  drawn = {k[0] for k in ctx.stub_values}
  ctx.prove('all PRNG keys are different, and not used yet', len(ks) == len(rng_keys) and not ks & drawn)
  ctx.prove('every parameter has its own draw', len(ctx.stub_values) == 3 and len(drawn) == 3)
  if not kw:
    with random_stub(), MESH:
      other = flat(ctx.run(lambda: make(seed + 1)()))
    ctx.prove('another seed gives other keys and other draws', len({k[0] for k in ctx.stub_values}) == 2 * len(drawn) and not any(
        np.array_equal(np.asarray(other[k]), np.asarray(fresh[k])) for k in fresh if k.startswith('rngs/') and hasattr(fresh[k], 'shape')))


RULES_OLD = {'params': [('^params/', 'params/'), ('.', None)], 'weight': [('params/enc/w', 'params/enc/w'), ('.', None)], 'all': [('^(.*)$', '\\1')]}


def unknown(ctx):
  """A checkpoint without structure needs the same structure as the target; unknown methods are refused."""
  with MESH:
    t = {'a': jax.ShapeDtypeStruct((2,), jnp.float32, sharding=NamedSharding(MESH, PartitionSpec()))}
    src = {'a': ctx.arr('a', (2,)), 'b': ctx.arr('b', (2,))}
    with env(ctx, src, [], ()):
      try:
        initialization.initialize_from_vmoe(target=t, prefix='/pre', rules=[('a', 'a'), ('b', None)], mesh=MESH)
        ok = False
      except ValueError:
        ok = True
      ctx.prove('another structure is refused', ok)
      try:
        trainer.initialize_train_state_from_checkpoint(train_state=t, name='initialize_from_nowhere', mesh=MESH)
        ok = False
      except ValueError:
        ok = True
      ctx.prove('unknown methods are refused', ok)


def cases(tier):
  out = [Case(start, fmt='vmoe', rules=r) for r in RULES]
  out += [Case(start, fmt='vit', rules='encoder'), Case(start, fmt='vit', rules='all', momentum=0.0), Case(start, fmt='orbax', rules='encoder'), Case(start, fmt='orbax', rules='cross'),
          Case(start, fmt=None, rules=None, seed=3), Case(start, fmt=None, rules=None, rng_keys=()), Case(start, fmt='vmoe_old', rules='params'), Case(start, fmt='vmoe_old', rules='weight'),
          Case(start, fmt='vmoe_old', rules='all')]
  out += [Case(start, fmt=f, rules='encoder' if f else None, resume=True) for f in (None, 'vmoe', 'vit')]
  out += [Case(unknown)]
  if tier == 'thorough':
    out += [Case(start, fmt=f, rules=r, momentum=m, rng_keys=k) for f in ('vit', 'orbax', 'vmoe') for r in RULES for m in (0.0, 0.9) for k in ((), ('dropout',))]
  return out
