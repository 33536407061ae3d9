"""K05: serialization round trip of checkpoint metadata and chunk data."""
import contextlib
import numpy as np
import jax
import msgpack as real_msgpack
from lib.runner import Case
from lib import ckpt_h as H, msgpack_h, sx
from lib.engine import unwrap, wrap, SNum
from lib.shadow import shadow
from vmoe.checkpoints import serialization, types

PROPERTY = 'K05'
FUNCTIONS = ['vmoe.checkpoints.serialization.msgpack_serialize', 'vmoe.checkpoints.serialization.msgpack_restore',
             'vmoe.checkpoints.serialization.to_bytes', 'vmoe.checkpoints.serialization.from_bytes',
             'vmoe.checkpoints.serialization._lazy_array_chunks_encode', 'vmoe.checkpoints.serialization._array_chunks_decode',
             'vmoe.checkpoints.serialization._msgpack_ext_pack/_msgpack_ext_unpack']
BOUNDS = {'quick': 'slice bounds: every integer or None; rank 0-3; up to 3 chunks over 2 leaves with symbolic sizes (up to 10 elements per axis); '
                   'sub-chunk limit symbolic 1..40 bytes; item sizes 1, 2, 4, 8',
          'thorough': 'chunk sizes up to 24 per axis, sub-chunk limit up to 100 bytes'}
OUTSIDE = 'the msgpack byte format and flax ndarray encoding themselves (libraries)'
ASSUMPTIONS = ['msgpack keeps structure as modelled in lib/msgpack_h.py (lists, maps, strings, ints, ext types)']


class Flat:
  """Flattened window: segments [start, length) of the row-major order."""

  def __init__(self, view, segs):
    self.view, self.segs, self.dtype = view, segs, view.dtype

  @property
  def size(self):
    n = 0
    for _, l in self.segs:
      n = l + n
    return n

  @property
  def nbytes(self):
    return self.size * self.dtype.itemsize

  @property
  def shape(self):
    return (self.size,)

  ndim = 1

  def __len__(self):
    return self.size.__index__()

  def __getitem__(self, s):
    if len(self.segs) != 1:
      raise sx.Unsupported('slice of a concatenation')
    a, n = H.norm_slice(s, self.segs[0][1])
    return Flat(self.view, [(self.segs[0][0] + a, n)])

  def reshape(self, *shape):
    shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
    return Shaped(self, tuple(shape))


class Shaped:

  def __init__(self, flat, shape):
    self.flat, self.shape, self.dtype = flat, shape, flat.dtype


class V(H.View):
  """View with the ndarray methods the encoder uses."""

  def __getitem__(self, idx):
    v = super().__getitem__(idx)
    return V(v.leaf, v.off, v.shape, v.dtype)

  @property
  def size(self):
    n = 1
    for m in self.shape:
      n = m * n
    return n

  def flatten(self):
    return Flat(self, [(0, self.size)])
  ravel = flatten

  def reshape(self, *a):
    if a in ((-1,), ((-1,),)):
      return self.flatten()
    raise sx.Unsupported('reshape')


class NP(H.NpProxy):

  def concatenate(self, xs, axis=0):
    if isinstance(xs, (list, tuple)) and any(isinstance(x, Flat) for x in xs):
      return Flat(xs[0].view, [s for x in xs for s in x.segs])
    return np.concatenate(xs, axis=axis)
  hstack = concatenate


class Recorder:
  """The real msgpack, noting the size of the arrays it is given."""
  sizes = []

  def __getattr__(self, k):
    return getattr(real_msgpack, k)

  def packb(self, o, default=None, **kw):
    def d(x):
      if isinstance(x, np.ndarray):
        Recorder.sizes.append((x.nbytes, x.size))
      return default(x)
    return real_msgpack.packb(o, default=d if default else None, **kw)


@contextlib.contextmanager
def env(ctx, max_chunk=None):
  saved = {}

  def patch(o, k, v):
    saved[(o, k)] = o.__dict__.get(k, saved)
    setattr(o, k, v)
  if max_chunk is not None:
    patch(serialization, '_MAX_CHUNK_SIZE', max_chunk)
  with contextlib.ExitStack() as st:
    if not ctx.sym:
      patch(serialization, 'msgpack', Recorder())
    if ctx.sym:
      patch(serialization, 'msgpack', msgpack_h.Msgpack(atoms=(Flat,)))
      patch(serialization, 'np', NP(ctx))
      patch(serialization, 'range', H.srange)
      patch(jax.core, 'ShapedArray', H.ShapedArr)
      st.enter_context(shadow(serialization))
    try:
      yield
    finally:
      for (o, k), v in reversed(list(saved.items())):
        delattr(o, k) if v is saved else setattr(o, k, v)


def opt_int(ctx, name):
  """None or any integer."""
  if ctx.bool(name + '_none'):
    return None
  return ctx.int(name, -2**40, 2**40)


def same(a, b):
  if a is None or b is None:
    return a is b
  return sx.eq(unwrap(a), unwrap(b))


def same_slice(a, b):
  return sx.band(isinstance(b, types.Slice), same(a.start, b.start), same(a.stop, b.stop), same(a.step, b.step))


def same_nd(a, b):
  return sx.band(isinstance(b, types.SliceNd), len(a) == len(b), *[same_slice(x, y) for x, y in zip(a, b)])


def rt(tree):
  return serialization.msgpack_restore(serialization.msgpack_serialize(tree))


def slices(ctx, rank):
  ss = [types.Slice(opt_int(ctx, 'a%d' % i), opt_int(ctx, 'b%d' % i), opt_int(ctx, 'c%d' % i) if i == 0 else None)
        for i in range(max(rank, 1))]
  nd = types.SliceNd(ss[:rank])
  with env(ctx):
    out = rt({'s': ss[0], 'n': nd, 'l': [ss[-1], nd], 'k': {'m': 3, 'name': 'x', 'none': None}})
  ctx.prove('Slice round trip', same_slice(ss[0], out['s']))
  ctx.prove('SliceNd round trip', same_nd(nd, out['n']))
  ctx.prove('nested in a list', sx.band(len(out['l']) == 2, same_slice(ss[-1], out['l'][0]), same_nd(nd, out['l'][1])))
  ctx.prove('other entries unchanged', out['k'] == {'m': 3, 'name': 'x', 'none': None})
  ctx.cover('reached')


def nd_array(ctx, shape):
  n = int(np.prod(shape))
  els = [types.SliceNd([types.Slice(ctx.int('s%d' % i, 0, 2**31), ctx.int('e%d' % i, 0, 2**31)), types.Slice()]) for i in range(n)]
  arr = types.SliceNdArray.create(els, shape)
  with env(ctx):
    out = rt({'x': arr})['x']
  ctx.prove('SliceNdArray shape', isinstance(out, types.SliceNdArray) and out.shape == tuple(shape))
  for a, b in zip(els, np.asarray(out).flat):
    ctx.prove('SliceNdArray round trip', same_nd(a, b))
  ctx.cover('reached')


def index_info(ctx, rank, chunks, dtype):
  shape = tuple(ctx.int('n%d' % i, 0, 2**40) for i in range(rank))
  gs = [types.SliceNd([types.Slice(ctx.int('s%d_%d' % (j, i), 0, 2**40), ctx.int('e%d_%d' % (j, i), 0, 2**40)) for i in range(rank)])
        for j in range(chunks)]
  shards = [ctx.int('shard%d' % j, 0, 2**31) for j in range(chunks)]
  weak = bool(ctx.bool('weak'))
  with env(ctx):
    info = types.IndexInfo(global_shape=jax.core.ShapedArray(shape=shape, dtype=jax.numpy.dtype(dtype), weak_type=weak), global_slices=gs, shards=shards)
    out = serialization.msgpack_restore(serialization.to_bytes({'shard_count': 3, 'index': {'p': info}}))
  o = out['index']['p']
  ctx.prove('IndexInfo type', isinstance(o, types.IndexInfo) and out['shard_count'] == 3)
  ctx.prove('global shape and dtype', sx.band(len(o.global_shape.shape) == rank, jax.numpy.dtype(o.global_shape.dtype) == jax.numpy.dtype(dtype),
                                             bool(o.global_shape.weak_type) == weak,
                                             *[same(a, b) for a, b in zip(shape, o.global_shape.shape)]))
  ctx.prove('slices', sx.band(len(o.global_slices) == chunks, *[same_nd(a, b) for a, b in zip(gs, o.global_slices)]))
  ctx.prove('shards', sx.band(len(o.shards) == chunks, *[same(a, b) for a, b in zip(shards, o.shards)]))
  ctx.cover('reached')


def chunks(ctx, spec, dtype, hi, limit):
  """spec: list of (leaf, rank); data of every chunk comes back in order and in full."""
  limit = ctx.int('limit', 1, limit)
  lac = types.LazyArrayChunks()
  want = {}
  n = 0
  for leaf, rank in spec:
    off = [ctx.int('o%d_%d' % (n, i), 0, 3) for i in range(rank)]
    shape = [ctx.int('n%d_%d' % (n, i), 0, hi) for i in range(rank)]
    base = [2, 1, 0][:rank]
    if ctx.sym:
      arr = V(n, [0] * rank, [o + s + 2 for o, s in zip(off, shape)], dtype)
    else:
      arr = H.content(n, tuple(o + s + 2 for o, s in zip(off, shape)), dtype)
    ls = types.SliceNd([types.Slice(o, o + s) for o, s in zip(off, shape)])
    gs = types.SliceNd([types.Slice(b + o, b + o + s) for b, o, s in zip(base, off, shape)])
    lac.add(leaf, arr, ls, gs)
    want.setdefault(leaf, []).append((n, off, shape, gs, arr))
    n += 1
  Recorder.sizes = []
  with env(ctx, max_chunk=limit):
    enc = serialization.msgpack_serialize(lac) if False else serialization.to_bytes(lac)
    out = serialization.from_bytes(types.ArrayChunks(), enc)
  if not ctx.sym:
    ctx.prove('sub-chunks respect the msgpack limit', all(b <= limit or n <= 1 for b, n in Recorder.sizes))
  ctx.prove('every leaf is present', isinstance(out, types.ArrayChunks) and set(out.chunks) == set(want))
  for leaf, ws in want.items():
    got = list(out.iter_chunks(leaf))
    ctx.prove('every chunk is present', len(got) == len(ws))
    for (k, off, shape, gs, arr), (c, g2) in zip(ws, got):
      ctx.prove('global slice', same_nd(gs, g2))
      if not ctx.sym:
        ref = arr[tuple(slice(o, o + s) for o, s in zip(off, shape))]
        ctx.prove('chunk data', bool(np.asarray(c).shape == ref.shape and np.asarray(c).dtype == ref.dtype and np.array_equal(np.asarray(c), ref)))
        continue
      ctx.prove('chunk data', isinstance(c, Shaped) and c.flat.view.leaf == k)
      v = c.flat.view
      ctx.prove('chunk window', sx.band(*[sx.band(same(a, b), same(m, s)) for a, b, m, s in zip(v.off, off, v.shape, shape)]))
      ctx.prove('chunk shape', sx.band(len(c.shape) == len(shape), *[same(a, b) for a, b in zip(c.shape, shape)]))
      pos = 0
      for st, ln in c.flat.segs:
        ctx.prove('sub-chunks follow each other', same(st, pos))
        ctx.prove('sub-chunks respect the msgpack limit', sx.bor(sx.le(unwrap(ln * v.dtype.itemsize), unwrap(limit)), sx.le(unwrap(ln), 1)))
        pos = pos + ln
      ctx.prove('sub-chunks cover the chunk', same(pos, v.size))
  ctx.cover('reached')


def cases(tier):
  t = tier == 'thorough'
  h, l = (24, 100) if t else (10, 40)
  return [Case(slices, rank=r) for r in (0, 1, 2)] + [
      Case(nd_array, shape=(3,)), Case(nd_array, shape=(2, 2)),
      Case(index_info, rank=0, chunks=1, dtype='float32'), Case(index_info, rank=2, chunks=2, dtype='bfloat16'),
      Case(index_info, rank=3, chunks=1, dtype='bool'), Case(index_info, rank=1, chunks=3, dtype='int8'),
      Case(chunks, spec=[(0, 1)], dtype='float32', hi=h, limit=l),
      Case(chunks, spec=[(0, 1)], dtype='float64', hi=h, limit=2 * l),
      Case(chunks, spec=[(2, 0), (0, 0)], dtype='float64', hi=h, limit=l),
      Case(chunks, spec=[(1, 2)], dtype='int16', hi=6 if t else 4, limit=l),
      Case(chunks, spec=[(0, 1), (3, 1), (0, 1)], dtype='int8', hi=4, limit=6)]
