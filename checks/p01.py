"""P01: the logical mesh holds every device once, in (partitions, replicas) shape, each process in one contiguous block, the same on every process."""
import contextlib
import itertools
import types as pytypes
import numpy as np
from lib import sx
from lib.engine import unwrap
from lib.runner import Case
from lib.shadow import shadow
from vmoe import partitioning

FUNCTIONS = ['vmoe.partitioning.get_auto_logical_mesh', 'get_auto_logical_mesh_other', 'get_auto_logical_mesh_tpu', 'get_hardware_mesh_other', 'get_hardware_mesh_tpu',
             'get_hardware_mesh_local_shape', 'get_device_coords*', 'get_logical_mesh', 'get_logical_mesh_default', 'get_logical_mesh_tile_by_process',
             'processes_have_contiguous_device_slices', 'process_has_contiguous_device_slice']
BOUNDS = {'quick': 'num_partitions symbolic (1 .. devices + 3), symbolic process block (every block of up to 2x4x4x2 that tiles the hardware), the running process symbolic, '
                   'the device list in several orders; CPU/GPU: up to 4 processes of up to 6 devices; TPU (cores, x, y, z): 2x4x4x1, 2x2x4x1, 2x3x4x1, 1x4x4x2, 1x2x4x4',
          'thorough': 'TPU up to 2x8x8x1 and 1x4x8x8, CPU/GPU up to 8 processes of 8 devices'}
OUTSIDE = 'hardware that is not a full box, or whose processes do not own equal aligned blocks'
ASSUMPTIONS = ['devices are stand-ins with the attributes of jax.Device that the code reads; jax.local_devices/local_device_count return those of the running process']


class Dev:

  def __init__(self, **kw):
    self.__dict__.update(kw)
    self.local_hardware_id = kw.get('id', 0)
    self.device_kind = self.platform

  def __repr__(self):
    return 'Dev(%d)' % self.id


@contextlib.contextmanager
def env(devs, me):
  local = [d for d in devs if d.process_index == me]
  real = partitioning.jax
  fake = pytypes.SimpleNamespace(**{k: getattr(real, k) for k in ('sharding', 'Array', 'Device', 'tree_util', 'tree')})
  fake.devices = lambda *a: list(devs)
  fake.local_devices = lambda *a, **k: list(local)
  fake.device_count = lambda *a: len(devs)
  fake.local_device_count = lambda *a: len(local)
  fake.process_index = lambda *a: me
  fake.process_count = lambda *a: len({d.process_index for d in devs})
  partitioning.jax = fake
  try:
    with shadow(partitioning):
      yield
  finally:
    partitioning.jax = real


def contiguous(arr, proc):
  """The devices of every process fill one box (own code, independent of the tested one)."""
  own = {}
  for idx in np.ndindex(*arr.shape):
    own.setdefault(proc[arr[idx].id], []).append(idx)
  for cells in own.values():
    size = 1
    for ax in range(arr.ndim):
      c = [i[ax] for i in cells]
      size *= max(c) - min(c) + 1
    if size != len(cells):
      return False
  return True


def order(ctx, devs):
  return ctx.choice('order', [lambda: list(devs), lambda: list(devs)[::-1], lambda: list(devs)[1::2] + list(devs)[::2]])()


def common(ctx, n, devs, mesh_of):
  """Returns the mesh (devices array) or None if it was rejected."""
  N = len(devs)
  try:
    mesh = mesh_of()
  except ValueError:
    return None
  arr = mesh.devices
  ctx.prove('the axes are (expert, replica)', tuple(mesh.axis_names) == ('expert', 'replica'))
  p = sx.smin(unwrap(n), N)
  ctx.prove('shape is (num_partitions, devices / num_partitions), num_partitions limited to the number of devices', sx.band(
      arr.ndim == 2, sx.eq(p, int(arr.shape[0])), int(arr.shape[0]) * int(arr.shape[1]) == N))
  ctx.prove('every device appears exactly once', sorted(d.id for d in arr.flatten()) == sorted(d.id for d in devs))
  ctx.prove('the devices of each process form a contiguous block', contiguous(arr, {d.id: d.process_index for d in devs}))
  return arr


def other(ctx, P, per):
  start = ctx.choice('first_id', [0, 1, 4])
  devs = [Dev(id=start * per + p * per + i, process_index=p, platform='gpu') for p in range(P) for i in range(per)]
  n = ctx.int('num_partitions', 1, P * per + 3)
  me = ctx.int('process', 0, P - 1).__index__()
  devs = order(ctx, devs)
  with env(devs, me):
    arr = common(ctx, n, devs, lambda: partitioning.get_auto_logical_mesh(n, devs))
  p = sx.smin(unwrap(n), P * per)
  fits = sx.bor(sx.band(sx.le(p, per), sx.eq(sx.pymod(per, p), 0)),
                sx.band(sx.eq(sx.pymod(p, per), 0), sx.eq(sx.pymod(P * per, p), 0)))
  if arr is None:
    ctx.cover('rejected')
    ctx.prove('rejected only if the partitions cannot be laid out', sx.bnot(fits))
    return
  ctx.cover('accepted')
  ctx.prove('accepted only if the partitions can be laid out', fits)
  for q in range(P):
    rows = {i[0] for i in np.ndindex(*arr.shape) if arr[i].process_index == q}
    ctx.prove('as many partitions as possible within each process', len(rows) == min(arr.shape[0], per))


def tpu(ctx, dims, pow2=True):
  c, x, y, z = dims
  N = c * x * y * z
  blk = ctx.choice('block', [b for b in itertools.product((1, 2), (1, 2, 4), (1, 2, 4), (1, 2)) if all(d % e == 0 for d, e in zip(dims, b)) and
                             1 < np.prod(b) <= 16])
  grid = [d // e for d, e in zip(dims, blk)]
  coords = list(np.ndindex(*dims))
  devs = []
  # Device ids follow z, y, x, core; processes own aligned blocks.
  for i, (zz, yy, xx, cc) in enumerate(np.ndindex(z, y, x, c)):
    p = np.ravel_multi_index([zz // blk[3], yy // blk[2], xx // blk[1], cc // blk[0]], [grid[3], grid[2], grid[1], grid[0]])
    devs.append(Dev(id=i, process_index=int(p), platform='tpu', core_on_chip=cc, coords=(xx, yy, zz)))
  n = ctx.int('num_partitions', 1, N + 3)
  me, devs = ctx.choice('process_and_order', [lambda: (0, devs[1::2] + devs[::2]), lambda: (N // int(np.prod(blk)) - 1, devs[::-1])])()
  with env(devs, me):
    arr = common(ctx, n, devs, lambda: partitioning.get_auto_logical_mesh(n, devs))
  p = sx.smin(unwrap(n), N)
  if arr is None:
    ctx.cover('rejected')
    if all(d & (d - 1) == 0 for d in dims) and max(blk) <= 2:
      ctx.prove('powers of two are accepted', sx.band(*[sx.ne(p, 2**k) for k in range(10)]))
    ctx.prove('one partition and one device per partition are accepted (unless processes cannot be contiguous)',
              sx.bor(sx.band(sx.ne(p, 1), sx.ne(p, N)), max(blk) > 2))
    return
  ctx.cover('accepted')
  ext = {1: len({i[0] for i in np.ndindex(*arr.shape) if arr[i].coords[1:] == (0, 0) and arr[i].core_on_chip == 0}),
         3: len({i[0] for i in np.ndindex(*arr.shape) if arr[i].coords[:2] == (0, 0) and arr[i].core_on_chip == 0}),
         2: len({i[0] for i in np.ndindex(*arr.shape) if (arr[i].coords[0], arr[i].coords[2]) == (0, 0) and arr[i].core_on_chip == 0}),
         0: len({i[0] for i in np.ndindex(*arr.shape) if arr[i].coords == (0, 0, 0)})}
  left = arr.shape[0]
  for ax in ((1, 2, 0) if z == 1 else (3, 2, 1, 0)):
    ctx.prove('experts are spread over x, y, cores (z, y, x, cores when there is a z axis), as many as possible along each in turn', ext[ax] == min(left, dims[ax]))
    left //= min(left, dims[ax])


def same_everywhere(ctx, dims):
  """Every process computes the same mesh whatever the order of its device list."""
  c, x, y, z = dims
  N = c * x * y * z
  blk = ctx.choice('block', [b for b in itertools.product((1, 2), (1, 2), (1, 2), (1, 2)) if all(d % e == 0 for d, e in zip(dims, b)) and np.prod(b) > 1])
  grid = [d // e for d, e in zip(dims, blk)]
  devs = []
  for i, (zz, yy, xx, cc) in enumerate(np.ndindex(z, y, x, c)):
    p = np.ravel_multi_index([zz // blk[3], yy // blk[2], xx // blk[1], cc // blk[0]], [grid[3], grid[2], grid[1], grid[0]])
    devs.append(Dev(id=i, process_index=int(p), platform='tpu', core_on_chip=cc, coords=(xx, yy, zz)))
  n = ctx.int('num_partitions', 1, N)
  P = len({d.process_index for d in devs})
  a, b = ctx.choice('processes', [(0, P - 1), (1, 0)])
  res = []
  for me, ds in ((a, devs), (b, order(ctx, devs))):
    with env(ds, me):
      try:
        res.append([[d.id for d in r] for r in partitioning.get_auto_logical_mesh(n, ds).devices])
      except ValueError:
        res.append(None)
  ctx.prove('every process computes the same mesh', res[0] == res[1])


def cases(tier):
  out = [Case(other, P=P, per=per) for P, per in ((1, 4), (2, 3), (3, 4), (4, 6), (2, 1))]
  out += [Case(tpu, dims=d) for d in ((2, 4, 4, 1), (2, 2, 4, 1), (2, 3, 4, 1), (1, 4, 4, 2), (1, 2, 4, 4))]
  out += [Case(same_everywhere, dims=(2, 2, 2, 1))]
  if tier == 'thorough':
    out += [Case(tpu, dims=d) for d in ((1, 4, 4, 4), (2, 2, 4, 2), (1, 4, 6, 2))]
    out += [Case(same_everywhere, dims=(1, 2, 2, 2)), Case(other, P=8, per=8), Case(tpu, dims=(2, 8, 8, 1)), Case(tpu, dims=(1, 4, 8, 8)), Case(same_everywhere, dims=(1, 2, 4, 2))]
  return out
