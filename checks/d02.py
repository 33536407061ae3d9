"""D02: prefetching delivers every batch once, in order, each row on the device the sharding assigns to it."""
import os
if 'xla_force_host_platform_device_count' not in os.environ.get('XLA_FLAGS', ''):
  os.environ['XLA_FLAGS'] = os.environ.get('XLA_FLAGS', '') + ' --xla_force_host_platform_device_count=4'
import contextlib
import types as pytypes
import jax
import numpy as np
import tensorflow as tf
from lib import sx
from lib.engine import unwrap
from lib.runner import Case
from lib.shadow import shadow
from vmoe.data import pjit_utils

FUNCTIONS = ['vmoe.data.pjit_utils.prefetch_to_device', 'vmoe.data.pjit_utils.put_to_devices', 'vmoe.data.pjit_utils.get_dataset_shape_dtype_struct']
BOUNDS = {'quick': 'number of batches (0..4), buffer size (None, -1..5), rows per device (1..3) and rows in all symbolic, where the consumer stops symbolic; meshes 1x1, 2x2, 4x1 with every order of the devices; '
                   '1-3 processes with contiguous or interleaved devices',
          'thorough': 'up to 6 batches, buffer up to 7'}
OUTSIDE = 'longer streams; the transfer itself (jax.device_put is real on CPU devices, a recorder for several processes)'
ASSUMPTIONS = ['several processes: device_put / make_array_from_single_device_arrays record their arguments; the global array is assembled by the documented rule']


class Source:
  """An iterator which counts what was taken from it."""

  def __init__(self, items, as_iterable=False):
    self.items = items
    self.taken = 0

  def __iter__(self):
    return self

  def __next__(self):
    if self.taken >= len(self.items):
      raise StopIteration
    self.taken += 1
    return self.items[self.taken - 1]


def batches(n, rows):
  return [{'image': np.arange(rows * 2, dtype=np.float32).reshape(rows, 2) + 100 * i, 'labels': np.arange(rows, dtype=np.int32) + 100 * i,
           'ok': np.arange(rows) % 2 == 0, 'name': np.asarray([b'%d' % (i * 100 + j) for j in range(rows)])} for i in range(n)]


def stream(ctx, mesh_shape, hi, bufs, order=False):
  """One process, real devices and real arrays."""
  n = ctx.int('batches', 0, hi).__index__()
  size = ctx.choice('size', bufs)
  per = ctx.int('rows_per_device', 1, 2).__index__()
  stop = ctx.int('consumed', 0, hi).__index__()
  tensor = ctx.choice('tensors', [False, True])
  ndev = int(np.prod(mesh_shape))
  devs = jax.devices()[:ndev]
  if order:
    # The devices stand in the mesh in any order.
    at = [ctx.int('device[%d]' % i, 0, ndev - 1) for i in range(ndev)]
    for i in range(ndev):
      for j in range(i):
        ctx.assume(at[i] != at[j])
    devs = [devs[i.__index__()] for i in at]
  mesh = jax.sharding.Mesh(np.asarray(devs).reshape(mesh_shape), ('expert', 'replica'))
  ctx.assume(stop <= n)
  data = batches(n, per * ndev)
  src = Source([{k: (tf.constant(v) if tensor and k != 'name' else v) for k, v in d.items()} for d in data])
  explicit = ctx.choice('mesh', ['argument', 'context'])
  with contextlib.ExitStack() as st:
    if explicit == 'context':
      st.enter_context(mesh)
    # The batch source may be restarted: iter() over it must not lose items.
    it = pjit_utils.prefetch_to_device(src, size, mesh if explicit == 'argument' else None)
    got = []
    for i in range(stop):
      got.append(next(it))
      ctx.prove('at most the buffer size is read ahead', src.taken <= i + 1 + max(size or 0, 0))
    if stop == n:
      ctx.prove('the stream ends when the source ends', next(it, None) is None)
  for g, d in zip(got, data):
    ctx.prove('batches keep their structure', set(g) == set(d))
    for k in d:
      ctx.prove('batches are delivered in order, each once, with unchanged contents', np.array_equal(np.asarray(g[k]), d[k]))
      if k != 'name':
        ctx.prove('numeric arrays become arrays sharded over all devices on the first axis', isinstance(g[k], jax.Array) and g[k].dtype == d[k].dtype and
                  g[k].sharding.is_equivalent_to(jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec(('expert', 'replica'))), d[k].ndim))
        for sh in g[k].addressable_shards:
          pos = [x.id for x in mesh.devices.flat].index(sh.device.id)
          ctx.prove('the i-th device of the mesh holds the i-th group of rows', np.array_equal(np.asarray(sh.data), d[k][pos * per:(pos + 1) * per]))
  if n > 2 and (size or 0) > 1:
    ctx.cover('read ahead')


class Dev:

  def __init__(self, i, p):
    self.id, self.process_index = i, p


class FakeMesh:
  """A mesh over several processes."""
  axis_names = ('expert', 'replica')
  empty = False

  def __init__(self, devices, me):
    self.devices = devices
    self.me = me
    self.shape = dict(zip(self.axis_names, devices.shape))
    self.size = devices.size

  @property
  def local_devices(self):
    return [d for d in self.devices.flat if d.process_index == self.me]


def multi(ctx, P, per_proc, layout):
  """Several processes: the global arrays are consistent."""
  rows = ctx.int('rows', 0, 7).__index__()
  size = ctx.choice('size', [None, 2])
  ndev = P * per_proc
  if layout == 'block':
    devs = np.asarray([Dev(i, i // per_proc) for i in range(ndev)], dtype=object).reshape(P, per_proc)
  elif layout == 'shuffled':
    # Contiguous processes, whose devices are in any order.
    devs = np.asarray([Dev(i, i // per_proc) for i in range(ndev)], dtype=object).reshape(P, per_proc)
    devs = np.stack([d[::-1] if ctx.bool('reversed[%d]' % i) else d for i, d in enumerate(devs)])
    if ctx.bool('processes reversed'):
      devs = devs[::-1]
  else:
    devs = np.asarray([Dev(i, i % P) for i in range(ndev)], dtype=object).reshape(P, per_proc)
  out = {}
  fake = pytypes.SimpleNamespace(sharding=pytypes.SimpleNamespace(PartitionSpec=jax.sharding.PartitionSpec, NamedSharding=lambda m, s: ('sharding', m, s), Mesh=jax.sharding.Mesh),
                                 tree_util=jax.tree_util, tree=jax.tree, process_count=lambda: P, device_put=lambda x, d: (np.array(x), d), Array=jax.Array,
                                 make_array_from_single_device_arrays=lambda shape, sh, arrs: (tuple(shape), sh, list(arrs)), ShapeDtypeStruct=jax.ShapeDtypeStruct)
  real = pjit_utils.jax
  ok = True
  for p in range(P):
    mesh = FakeMesh(devs, p)
    data = {'x': np.arange(rows, dtype=np.int32) + 1000 * p, 'y': np.arange(rows * 3, dtype=np.float32).reshape(rows, 3) + 3000 * p}
    fake.process_index = lambda: p
    fake.local_devices = lambda *a, **k: mesh.local_devices
    pjit_utils.jax = fake
    try:
      res = list(pjit_utils.prefetch_to_device(iter([data]), size, mesh))
    except ValueError:
      ok = False
      break
    finally:
      pjit_utils.jax = real
    ctx.prove('one batch', len(res) == 1)
    for k, v in data.items():
      shape, (_, m, spec), arrs = res[0][k]
      ctx.prove('the global shape has the rows of all processes', shape == (rows * P,) + v.shape[1:])
      ctx.prove('all mesh axes shard the first dimension', m is mesh and tuple(spec) == (('expert', 'replica'),))
      ctx.prove('each local device gets one shard of equal size', sorted(d.id for _, d in arrs) == sorted(d.id for d in mesh.local_devices) and
                all(a.shape[0] * per_proc == rows for a, _ in arrs))
      for a, d in arrs:
        out[k, d.id] = a
  ctx.prove('rows that do not split evenly over the devices of a process are rejected', ok == (rows % per_proc == 0))
  if not ok:
    return
  for p in range(P):
    mine = [d.id for d in devs.flat if d.process_index == p]
    ctx.prove('the rows of a process keep their order along the mesh', np.array_equal(np.concatenate([out['x', i] for i in mine]), np.arange(rows) + 1000 * p))
  # Device at flat position i of the mesh holds the i-th group of rows of the global array.
  glob = {k: np.concatenate([out[k, d.id] for d in devs.flat]) for k in ('x', 'y')}
  ctx.prove('every example of every process appears exactly once', sorted(glob['x'].tolist()) == sorted(i + 1000 * p for p in range(P) for i in range(rows)))
  ctx.prove('the rows of different arrays stay together', np.array_equal(glob['y'][:, 0], glob['x'] * 3))
  if layout == 'block':
    ctx.prove('with contiguous processes the global order is process by process', np.array_equal(glob['x'], np.sort(glob['x'])))


def shapes(ctx, P):
  """The compiled shapes are those of the arrays delivered."""
  b = ctx.int('batch', 1, 1000)
  mesh = jax.sharding.Mesh(np.asarray(jax.devices()[:1]).reshape(1, 1), ('expert', 'replica'))
  real = pjit_utils.jax
  fake = pytypes.SimpleNamespace(sharding=jax.sharding, tree_util=jax.tree_util, tree=jax.tree, process_count=lambda: P,
                                 ShapeDtypeStruct=lambda shape, dtype, sharding=None: pytypes.SimpleNamespace(shape=shape, dtype=dtype, sharding=sharding))
  it = pytypes.SimpleNamespace(element_spec={'image': pytypes.SimpleNamespace(shape=(b, 3, 2), dtype=tf.float32), 'ok': pytypes.SimpleNamespace(shape=(b,), dtype=np.dtype(bool))})
  pjit_utils.jax = fake
  try:
    out = pjit_utils.get_dataset_shape_dtype_struct(it, mesh)
  finally:
    pjit_utils.jax = real
  for k, tail, dt in (('image', (3, 2), np.float32), ('ok', (), np.bool_)):
    ctx.prove('declared shapes are the global ones', sx.band(sx.eq(unwrap(out[k].shape[0]), sx.mul(unwrap(b), P)), tuple(out[k].shape[1:]) == tail, np.dtype(out[k].dtype) == np.dtype(dt)))
    ctx.prove('declared sharding is that of the delivered arrays', tuple(out[k].sharding.spec) == (('expert', 'replica'),) and out[k].sharding.mesh is mesh)


def cases(tier):
  hi = 4 if tier == 'quick' else 6
  bufs = [None, -1, 0, 1, 2, 5] if tier == 'quick' else [None, -1, 0, 1, 2, 3, 5, 7]
  out = [Case(stream, mesh_shape=m, hi=hi, bufs=bufs) for m in ((1, 1), (2, 2), (4, 1))]
  out += [Case(multi, P=P, per_proc=q, layout=l) for P, q in ((1, 2), (2, 2), (3, 2)) for l in ('block', 'interleaved', 'shuffled')]
  out += [Case(stream, mesh_shape=m, hi=1 if tier == 'quick' else 2, bufs=[None, 1], order=True) for m in ((2, 2), (4, 1))]
  out += [Case(shapes, P=P) for P in (1, 3)]
  return out
