"""K01: sharded checkpoint save -> restore gives back every element, for any sizes, sharding, chunking, shard count."""
from lib.runner import Case
from lib import ckpt_h as H
from vmoe.checkpoints import partitioned, types

PROPERTY = 'K01'
FUNCTIONS = ['vmoe.checkpoints.partitioned.save_checkpoint', 'vmoe.checkpoints.partitioned.restore_checkpoint',
             'vmoe.checkpoints.partitioned._create_map_slicend_to_array_shards', 'vmoe.checkpoints.partitioned._split_slicend',
             'vmoe.checkpoints.partitioned._create_map_slicend_to_checkpoint_shard',
             'vmoe.checkpoints.partitioned._update_lazy_array_chunks_with_leaf',
             'vmoe.checkpoints.partitioned._find_ckpt_shards_to_restore', 'vmoe.checkpoints.partitioned._restore_local_buffers',
             'vmoe.checkpoints.partitioned._intersect_slicend', 'vmoe.checkpoints.types.Slice/SliceNd/LazyArrayChunks']
BOUNDS = {
    'quick': 'rank 0-2; dimension sizes symbolic (up to 12 elements per axis); 1-3 processes, 1-4 devices; 8 save/restore sharding layouts '
             '(replication, different axis, different split counts); chunk limit symbolic up to 16 items or none; shard counts from below the process count to above it',
    'thorough': 'same layouts, dimensions up to 24 per axis, chunk limit up to 40 items',
}
OUTSIDE = 'larger arrays/meshes, uneven shardings (jax does not make them), the bytes on disk (K05) and the file system (K03)'
ASSUMPTIONS = ['jax.Array/Sharding/process models of lib/ckpt_h.py', 'shard sizes divide the dimension evenly',
               'the thread pool runs every task', 'dict ordering by equality (constant hash while symbolic)']

# name: (process of each device, [(save parts, save assign, restore parts, restore assign), per leaf])
L = {
    'scalar1': ([0], [((), [[0]], (), [[0]])]),
    'scalar3': ([0, 1, 2], [((), [[0, 1, 2]], (), [[0, 1, 2]])]),
    'vec1': ([0], [((1,), [[0]], (1,), [[0]])]),
    'vec2to4': ([0, 0, 1, 1], [((2,), [[0, 2], [1, 3]], (4,), [[0], [1], [2], [3]])]),
    'vec3to2': ([0, 1, 2], [((3,), [[2], [0], [1]], (2,), [[0, 1], [2]])]),
    'mat1': ([0], [((1, 1), [[0]], (1, 1), [[0]])]),
    'rows_to_cols': ([0, 1], [((2, 1), [[0], [1]], (1, 2), [[1], [0]])]),
    'replicated_to_grid': ([0, 0, 1, 1], [((1, 1), [[0, 1, 2, 3]], (2, 2), [[0], [2], [1], [3]])]),
    'grid_to_replicated': ([0, 1, 0, 1], [((2, 2), [[0], [1], [2], [3]], (1, 1), [[0, 1, 2, 3]])]),
    'two_leaves': ([0, 1], [((2,), [[0], [1]], (1,), [[0, 1]]), ((1,), [[1]], (2,), [[0], [1]])]),
    'three_leaves': ([0, 1], [((), [[0, 1]], (), [[0, 1]]), ((1,), [[0, 1]], (2,), [[0], [1]]), ((2,), [[0], [1]], (1,), [[1]])]),
}


def build(ctx, layout, lo, hi, dtypes):
  procs, leaves = L[layout]
  devices = [H.Dev(i, p) for i, p in enumerate(procs)]
  save, rest, meta = {}, {}, []
  for i, (sp, sa, rp, ra) in enumerate(leaves):
    shape = tuple(H.sym_dim(ctx, 'n%d_%d' % (i, a), lo, hi, (sp[a], rp[a])) for a in range(len(sp)))
    dtype = dtypes[i % len(dtypes)]
    c = None if ctx.sym else H.content(i, shape, dtype)
    name = 'abc'[i]
    save[name] = H.Arr(i, shape, dtype, H.Shardn(sp, sa, devices), c)
    rest[name] = H.Arr(i, shape, dtype, H.Shardn(rp, ra, devices), c)
    meta.append((name, i, shape, dtype))
  return max(procs) + 1, save, rest, meta


def harness(ctx, layout, lo, hi, chunk, shards, dtypes=('float32',), limit=None):
  P, save, rest, meta = build(ctx, layout, lo, hi, dtypes)
  kw = {}
  if chunk is None:
    kw['max_chunk_bytes'] = None
  elif chunk != 'default':
    kw['max_chunk_bytes'] = ctx.int('max_chunk_bytes', 0, chunk)
  num = shards
  if isinstance(shards, (tuple, list)):
    num = ctx.choice('num_shards', shards)
  with H.World(ctx, P).env() as w:
    w.save(save, num_shards=num, **kw)
    for p in range(P):
      got = w.restore(rest, p, **({} if limit is None else {'max_concurrent_bytes': limit}))
      for name, i, shape, dtype in meta:
        H.check_buffers(ctx, i, shape, dtype, got[name], 'restore')
  ctx.cover('reached')


def cases(tier):
  t = tier == 'thorough'
  n1, n2 = (12, 5) if t else (6, 3)
  cb = 4 * (24 if t else 8)
  out = [Case(harness, layout='scalar1', lo=1, hi=1, chunk=8, shards=(None, 2)),
         Case(harness, layout='scalar3', lo=1, hi=1, chunk=8, shards=(None, 1, 4)),
         Case(harness, layout='vec1', lo=0, hi=12 if not t else 24, chunk=cb, shards=(None, 3)),
         Case(harness, layout='vec1', lo=0, hi=12, chunk='default', shards=2, limit=0),
         Case(harness, layout='vec2to4', lo=0, hi=n2, chunk=cb, shards=(None, 3)),
         Case(harness, layout='vec3to2', lo=1, hi=n2, chunk=cb, shards=(2, 4)),
         Case(harness, layout='mat1', lo=0, hi=n1, chunk=cb, shards=2),
         Case(harness, layout='rows_to_cols', lo=1, hi=n2, chunk=cb, shards=(None, 3)),
         Case(harness, layout='replicated_to_grid', lo=1, hi=n2 - 1, chunk=cb, shards=3),
         Case(harness, layout='grid_to_replicated', lo=1, hi=n2 - 1, chunk=cb, shards=None),
         Case(harness, layout='grid_to_replicated', lo=0, hi=n2, chunk=None, shards=None),
         Case(harness, layout='two_leaves', lo=0, hi=n2 - 1, chunk=cb, shards=(None, 4), dtypes=('float32', 'int8')),
         Case(harness, layout='three_leaves', lo=1, hi=n2 - 1, chunk=cb, shards=3, dtypes=('float32', 'int8', 'int8'))]
  return out
