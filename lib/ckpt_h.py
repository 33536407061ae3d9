"""Environment for executing the sharded checkpoint code symbolically.

jax arrays, shardings, devices, processes and files are replaced by models; the
code of vmoe.checkpoints.partitioned/types runs for real.  An array leaf is an
uninterpreted function of its global index: a `View` is a rectangular window of
it (symbolic offsets and sizes), a `Buf` is a buffer remembering the rectangles
written to it.  In replay, windows and buffers are real numpy arrays and files
are written through the real serialization into a scratch directory.
"""
import contextlib
import itertools
import os
import shutil
import tempfile
import types as pytypes
import numpy as np
import jax
from . import sx
from .engine import SNum, unwrap, wrap, VERIF
from .shadow import shadow, smax, smin
from vmoe.checkpoints import base, partitioned, types, serialization
from vmoe import multihost_utils


class SyncPool:

  def map(self, fn, it, chunksize=None):
    return [fn(x) for x in it]

  imap = map
  imap_unordered = map

  def starmap(self, fn, it, chunksize=None):
    return [fn(*x) for x in it]

  def map_async(self, fn, it, chunksize=None, **kw):
    return Done([fn(x) for x in it])

  def apply_async(self, fn, args=(), kwds=None, **kw):
    return Done(fn(*args, **(kwds or {})))

  def apply(self, fn, args=(), kwds=None):
    return fn(*args, **(kwds or {}))

  def close(self):
    pass

  def join(self):
    pass

  def terminate(self):
    pass

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False


class Done:

  def __init__(self, v):
    self.v = v

  def get(self, timeout=None):
    return self.v

  def wait(self, timeout=None):
    return None

  def ready(self):
    return True

  def successful(self):
    return True


def srange(*a):
  if not any(isinstance(x, SNum) for x in a):
    return range(*a)
  start, stop, step = (0, a[0], 1) if len(a) == 1 else (a if len(a) == 3 else (a[0], a[1], 1))
  return _srange(start, stop, step)


def _srange(start, stop, step):
  j = start
  if not step > 0:
    raise ValueError('range() step')
  while j < stop:
    yield j
    j = j + step


def norm_slice(s, n):
  """numpy semantics of one slice on an axis of length n: (offset, length)."""
  if isinstance(s, types.Slice):
    s = s.slice
  if not isinstance(s, slice) or s.step not in (None, 1):
    raise sx.Unsupported('index %r' % (s,))
  a = 0 if s.start is None else s.start
  b = n if s.stop is None else s.stop
  if a < 0:
    a = smax(a + n, 0)
  if b < 0:
    b = smax(b + n, 0)
  a, b = smin(a, n), smin(b, n)
  return a, smax(b - a, 0)


def norm_index(idx, shape):
  if not isinstance(idx, tuple):
    idx = (idx,)
  if any(i is Ellipsis for i in idx):
    k = idx.index(Ellipsis)
    idx = idx[:k] + (slice(None),) * (len(shape) - len(idx) + 1) + idx[k + 1:]
  idx = idx + (slice(None),) * (len(shape) - len(idx))
  if len(idx) > len(shape):
    raise IndexError('too many indices for array')
  return [norm_slice(s, n) for s, n in zip(idx, shape)]


class View:
  """Window of leaf `leaf` starting at global index `off`."""

  def __init__(self, leaf, off, shape, dtype, owner=None):
    self.leaf, self.off, self.shape, self.dtype = leaf, tuple(off), tuple(shape), np.dtype(dtype)
    self.owner = owner

  @property
  def ndim(self):
    return len(self.shape)

  def __getitem__(self, idx):
    r = norm_index(idx, self.shape)
    return View(self.leaf, [o + a for o, (a, _) in zip(self.off, r)], [n for _, n in r], self.dtype, self.owner)

  def copy_to_host_async(self):
    pass

  def astype(self, dtype):
    if np.dtype(dtype) != self.dtype:
      raise sx.Unsupported('cast')
    return self

  def copy(self):
    return self


class Buf:
  """A symbolic-size buffer: the rectangles written, in order."""

  def __init__(self, shape, dtype):
    self.shape, self.dtype, self.writes = tuple(shape), np.dtype(dtype), []

  @property
  def ndim(self):
    return len(self.shape)

  def __setitem__(self, idx, val):
    r = norm_index(idx, self.shape)
    if not isinstance(val, View):
      raise sx.Unsupported('write of %r' % (val,))
    if len(val.shape) != len(r):
      raise ValueError('could not broadcast')
    for (_, n), m in zip(r, val.shape):
      if n != m:
        if m == 1:
          raise sx.Unsupported('broadcast write')
        raise ValueError('could not broadcast input array')
    self.writes.append((r, val))


class Dev:

  def __init__(self, i, process_index):
    self.id, self.process_index = i, process_index


class Shardn:
  """parts[i] equal pieces of axis i, copied `replicas` times over the devices.

  The j-th piece (row major) lives on devices assign[j] (list of device ids).
  """

  def __init__(self, parts, assign, devices):
    self.parts, self.assign, self.devices = tuple(parts), assign, devices
    self.memory_kind = None

  def pieces(self, shape):
    out = []
    steps = [n if p == 1 else _exact_div(n, p) for n, p in zip(shape, self.parts)]
    for j, pos in enumerate(itertools.product(*[range(p) for p in self.parts])):
      idx = tuple(slice(None) if p == 1 else slice(k * st, (k + 1) * st)
                  for k, p, st in zip(pos, self.parts, steps))
      out.append((idx, [self.devices[d] for d in self.assign[j]]))
    return out

  def shard_shape(self, shape):
    return tuple(n if p == 1 else _exact_div(n, p) for n, p in zip(shape, self.parts))

  def devices_indices_map(self, shape):
    return {d: idx for idx, ds in self.pieces(shape) for d in ds}

  def addressable_devices_indices_map(self, shape):
    p = jax.process_index()
    return {d: idx for idx, ds in self.pieces(shape) for d in ds if d.process_index == p}

  @property
  def addressable_devices(self):
    p = jax.process_index()
    return {d for ds in self.assign for d in [self.devices[i] for i in ds] if d.process_index == p}

  @property
  def device_set(self):
    return {self.devices[i] for ds in self.assign for i in ds}

  def __hash__(self):
    return id(self)

  def __eq__(self, o):
    return self is o


_DIV = {}


def _exact_div(n, p):
  if isinstance(n, SNum):
    return _DIV[(id(n), p)]
  assert n % p == 0
  return n // p


class Shard:

  def __init__(self, arr, index, device, replica_id):
    self.arr, self.index, self.device, self.replica_id = arr, index, device, replica_id

  @property
  def data(self):
    if self.device.process_index != jax.process_index():
      return None
    return self.arr.window(self.index)


class _ArrMeta(type(jax.Array)):
  pass


class Arr(jax.Array):
  """Model of a (possibly multi-process) jax.Array."""

  def __init__(self, leaf, shape, dtype, sharding, content=None):
    self._leaf, self._shape, self._dtype, self._sharding = leaf, tuple(shape), np.dtype(dtype), sharding
    self.content = content

  def window(self, index):
    if self.content is not None:
      return self.content[tuple(index)].copy()
    return View(self._leaf, (0,) * len(self._shape), self._shape, self._dtype)[tuple(index)]

  shape = property(lambda s: s._shape)
  dtype = property(lambda s: s._dtype)
  sharding = property(lambda s: s._sharding)
  ndim = property(lambda s: len(s._shape))
  weak_type = property(lambda s: False)
  is_fully_addressable = property(lambda s: False)
  is_fully_replicated = property(lambda s: False)

  @property
  def size(self):
    r = 1
    for n in self._shape:
      r = r * n
    return r

  @property
  def nbytes(self):
    return self.size * self._dtype.itemsize

  itemsize = property(lambda s: s._dtype.itemsize)

  @property
  def global_shards(self):
    out = []
    for idx, ds in self._sharding.pieces(self._shape):
      for r, d in enumerate(ds):
        out.append(Shard(self, idx, d, r))
    # Device order, as jax does.
    return sorted(out, key=lambda s: s.device.id)

  @property
  def addressable_shards(self):
    return [s for s in self.global_shards if s.device.process_index == jax.process_index()]

  def copy_to_host_async(self):
    pass

  def block_until_ready(self):
    return self

  def __hash__(self):
    return id(self)

  def __eq__(self, o):
    return self is o

  def __repr__(self):
    return 'Arr'


try:
  Arr.__abstractmethods__ = frozenset()
except Exception:  # pylint: disable=broad-except
  pass


class ShapedArr:

  def __init__(self, shape, dtype, weak_type=False, **kw):
    self.shape, self.dtype, self.weak_type = tuple(shape), np.dtype(dtype), weak_type


class NpProxy:

  def __init__(self, ctx):
    self.ctx = ctx

  def __getattr__(self, k):
    return getattr(np, k)

  def asarray(self, x, *a, **k):
    return x if isinstance(x, (View, Buf)) else np.asarray(x, *a, **k)

  array = asarray
  ascontiguousarray = asarray

  def _alloc(self, f):
    def g(shape, dtype=float, **k):
      shape = (shape,) if isinstance(shape, (int, SNum)) else tuple(shape)
      if self.ctx.sym and np.dtype(dtype) != np.dtype(object):
        return Buf(shape, dtype)
      return getattr(np, f)(shape, dtype=dtype, **k)
    return g

  zeros = property(lambda s: s._alloc('zeros'))
  empty = property(lambda s: s._alloc('empty'))

  def full(self, shape, fill_value, dtype=None, **k):
    return self._alloc('zeros')(shape, dtype) if self.ctx.sym else np.full(shape, fill_value, dtype, **k)

  def prod(self, xs, *a, **k):
    xs = list(xs)
    if any(isinstance(x, SNum) for x in xs):
      r = 1
      for x in xs:
        r = x * r
      return r
    return np.prod(xs, *a, **k)


class World:
  """P processes sharing a file store."""

  def __init__(self, ctx, processes):
    self.ctx, self.p, self.n = ctx, 0, processes
    self.files = {}
    self.collected = None
    self.dir = None

  # ----- environment
  @contextlib.contextmanager
  def env(self):
    patches = []

    def patch(obj, k, v):
      patches.append((obj, k, obj.__dict__.get(k, patches)))
      setattr(obj, k, v)

    patch(jax, 'process_count', lambda *a: self.n)
    patch(jax, 'process_index', lambda *a: self.p)
    patch(jax, 'make_array_from_callback', self.make_array)
    patch(multihost_utils, 'sync_devices', lambda *a, **k: None)
    if self.ctx.sym:
      patch(jax.core, 'ShapedArray', ShapedArr)
      patch(partitioned, 'np', NpProxy(self.ctx))
      patch(partitioned, 'range', srange)
      patch(types.Slice, '__hash__', lambda s: 7)
      patch(base, 'save_multiple_checkpoints_async', self.save_many)
      patch(base, 'restore_checkpoint', self.restore_one)
      patch(base, 'gfile', FakeGfile(self))
    else:
      self.dir = tempfile.mkdtemp(prefix='verif_ckpt')
    with contextlib.ExitStack() as st:
      if self.ctx.sym:
        st.enter_context(shadow(partitioned))
      try:
        yield self
      finally:
        for o, k, v in reversed(patches):
          if v is patches:
            delattr(o, k)
          else:
            setattr(o, k, v)
        if self.dir:
          shutil.rmtree(self.dir, ignore_errors=True)

  @property
  def prefix(self):
    return os.path.join(self.dir or '/mem', 'ckpt_1')

  def save_many(self, filepath_tree_map, **kw):
    for k, v in filepath_tree_map.items():
      if k in self.files and not kw.get('overwrite', True):
        raise ValueError('exists')
      if k in self.files:
        self.ctx.prove('two processes write the same checkpoint file', False)
      self.files[k] = (self.p, v)
    return Done(None)

  def restore_one(self, filepath, tree=None):
    if filepath not in self.files:
      raise FileNotFoundError(filepath)
    _, v = self.files[filepath]
    if isinstance(v, types.LazyArrayChunks):
      out = types.ArrayChunks()
      for i in v.chunks:
        for chunk, gs in v.iter_chunks(i):
          # The decoder reshapes the data to the extent of the global slice.
          for n, s in zip(chunk.shape, gs):
            self.ctx.prove('chunk data has the extent of its slice', wrap(sx.eq(unwrap(n), unwrap(s.stop - s.start))))
          out.add(i, chunk, gs)
      return out
    return dict(v)

  def make_array(self, shape, sharding, cb, *a, **k):
    out = {}
    for d, idx in sharding.addressable_devices_indices_map(shape).items():
      out[d] = (idx, cb(idx))
    self.collected.append((shape, sharding, out))
    return ('array', len(self.collected) - 1)

  # ----- operations
  def save(self, tree, **kw):
    for p in range(self.n):
      self.p = p
      partitioned.save_checkpoint(self.prefix, tree, thread_pool=SyncPool(), makedirs=False, **kw).get()

  def restore(self, tree, p, **kw):
    self.p = p
    self.collected = []
    out = partitioned.restore_checkpoint(self.prefix, tree, thread_pool=SyncPool(), **kw)
    return jax.tree_util.tree_map(lambda x: self.collected[x[1]], out,
                                  is_leaf=lambda x: isinstance(x, tuple) and len(x) == 2 and x[0] == 'array')


class FakeGfile:

  def __init__(self, w):
    self.w = w

  def stat(self, path):
    if path not in self.w.files:
      raise FileNotFoundError(path)
    return pytypes.SimpleNamespace(length=1)

  def exists(self, path):
    return path in self.w.files

  def makedirs(self, path):
    pass

  def glob(self, pat):
    import fnmatch
    return [k for k in self.w.files if fnmatch.fnmatch(k, pat)]


def sym_dim(ctx, name, lo, hi, parts):
  """Symbolic dimension divisible by every number in parts."""
  import math
  l = 1
  for p in parts:
    l = l * p // math.gcd(l, p)
  k = ctx.int(name, lo, hi)
  n = k * l if l > 1 else k
  if ctx.sym and isinstance(n, SNum):
    for p in set(parts):
      if p > 1:
        _DIV[(id(n), p)] = k * (l // p) if l // p > 1 else k
    ctx.keep.append(n)
  return n


def content(leaf, shape, dtype):
  n = int(np.prod(shape)) if shape else 1
  v = (np.arange(n) + 1 + 7 * leaf)
  if np.dtype(dtype) == np.int8:
    v = v % 120 + 1
  return v.reshape(shape).astype(dtype)


def check_buffers(ctx, leaf, shape, dtype, collected, what):
  """Every element of every addressable piece equals the saved one."""
  shp, sharding, bufs = collected
  bz = lambda c: sx.to_bool(unwrap(c))
  if ctx.sym:
    for n, m in zip(shp, shape):
      ctx.prove('%s: global shape' % what, wrap(sx.eq(unwrap(n), unwrap(m))))
  else:
    ctx.prove('%s: global shape' % what, tuple(shp) == tuple(shape))
  for d, (idx, buf) in bufs.items():
    reg = norm_index(idx, shape)
    if not ctx.sym:
      want = content(leaf, shape, dtype)[tuple(idx)]
      ctx.prove('%s: dtype' % what, np.asarray(buf).dtype == np.dtype(dtype))
      ctx.prove('%s: piece shape' % what, np.asarray(buf).shape == want.shape)
      ctx.prove('%s: every element is the saved one' % what,
                bool(np.asarray(buf).shape == want.shape and np.array_equal(np.asarray(buf), want)))
      continue
    ctx.prove('%s: dtype' % what, buf.dtype == np.dtype(dtype))
    for (_, n), m in zip(reg, buf.shape):
      ctx.prove('%s: piece shape' % what, wrap(sx.eq(unwrap(n), unwrap(m))))
    import z3
    q = [z3.Int(ctx._fresh_name('q')) for _ in buf.shape]
    inside = sx.band(*[sx.band(sx.le(0, x), sx.lt(x, unwrap(n))) for x, n in zip(q, buf.shape)])
    ok = False  # value right at q, from the last write covering it
    for r, val in buf.writes:
      cov = sx.band(*[sx.band(sx.le(unwrap(a), x), sx.lt(x, sx.add(unwrap(a), unwrap(n))))
                      for x, (a, n) in zip(q, r)])
      right = val.leaf == leaf and sx.band(*[
          sx.eq(sx.add(sx.sub(x, unwrap(a)), unwrap(o)), sx.add(unwrap(g), x))
          for x, (a, _), o, (g, _) in zip(q, r, val.off, reg)])
      ok = sx.bor(sx.band(cov, right), sx.band(sx.bnot(cov), ok))
    ctx.prove('%s: every element is the saved one' % what, sx.bor(sx.bnot(inside), ok))
