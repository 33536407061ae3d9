"""K02: the save plan: chunks partition each array, respect the size limit, sit in the shard the index names, written by a holder."""
import itertools
import z3
from lib.runner import Case
from lib import ckpt_h as H, sx
from lib.engine import unwrap, wrap
from checks import k01
from vmoe.checkpoints import partitioned, types

PROPERTY = 'K02'
FUNCTIONS = k01.FUNCTIONS[:6]
BOUNDS = {
    'quick': 'same layouts as K01; dimension sizes symbolic (up to 8 elements per axis), chunk limit symbolic up to 16 items, shard counts 1-5',
    'thorough': 'dimensions up to 24, chunk limit up to 40 items',
}
OUTSIDE = 'larger arrays/meshes; byte encoding (K05)'
ASSUMPTIONS = k01.ASSUMPTIONS


def sz(slicend):
  n = 1
  for s in slicend:
    n = (s.stop - s.start) * n
  return n


def harness(ctx, layout, lo, hi, chunk, shards, dtypes=('float32',), balance=False):
  import numpy as np
  P, save, rest, meta = k01.build(ctx, layout, lo, hi, dtypes)
  limit = ctx.int('max_chunk_bytes', 0, chunk) if chunk is not None else None
  num = ctx.choice('num_shards', shards)
  with H.World(ctx, P).env() as w:
    if not ctx.sym:
      w.save_many_real = None
      files = {}
      from vmoe.checkpoints import base
      orig = base.save_multiple_checkpoints_async
      base.save_multiple_checkpoints_async = lambda m, **k: (files.update({f: (w.p, v) for f, v in m.items()}), H.Done(None))[1]
      try:
        w.save(save, num_shards=num, max_chunk_bytes=limit)
      finally:
        base.save_multiple_checkpoints_async = orig
      w.files = files
    else:
      w.save(save, num_shards=num, max_chunk_bytes=limit)
    n = max(num or P, P)
    want = {w.prefix + '.index'} | {w.prefix + '.data-%05d-of-%05d' % (i, n) for i in range(n)}
    ctx.prove('one index and all data shards are written', set(w.files) == want)
    ctx.prove('process 0 writes the index', w.files[w.prefix + '.index'][0] == 0)
    idx = w.files[w.prefix + '.index'][1]
    ctx.prove('the index records the shard count', idx['shard_count'] == n)
    load = [0] * n
    biggest = []
    for name, leaf, shape, dtype in meta:
      info = idx['index'][name]
      item = np.dtype(dtype).itemsize
      ctx.prove('the index records shape and dtype', sx.band(
          len(info.global_shape.shape) == len(shape),
          *[sx.eq(unwrap(a), unwrap(b)) for a, b in zip(info.global_shape.shape, shape)]))
      ctx.prove('the index records shape and dtype', np.dtype(info.global_shape.dtype) == np.dtype(dtype))
      stored = []
      for s in range(n):
        p, lac = w.files[w.prefix + '.data-%05d-of-%05d' % (s, n)]
        if leaf not in lac.chunks:
          continue
        for arr, ls, gs in lac.chunks[leaf]:
          stored.append((s, gs))
          data = ls.chunk(arr)
          if ctx.sym:
            ok = sx.band(data.leaf == leaf, *[
                sx.band(sx.eq(unwrap(o), unwrap(g.start)), sx.eq(unwrap(m), unwrap(g.stop - g.start)))
                for o, m, g in zip(data.off, data.shape, gs)])
          else:
            ref = H.content(leaf, shape, dtype)[tuple(g.slice for g in gs)]
            ok = bool(np.array_equal(np.asarray(data), ref))
          ctx.prove('the data stored for a slice is that slice of the array', ok)
          load[s] = load[s] + sz(gs) * item
          biggest.append(sz(gs) * item)
          if limit is not None:
            b = sz(gs) * item
            ctx.prove('chunks respect max_chunk_bytes', sx.bor(
                sx.eq(unwrap(limit), 0), sx.le(unwrap(b), unwrap(limit)), sx.le(unwrap(sz(gs)), 1)))
      ctx.prove('index and data shards list the same chunks',
                sx.band(len(stored) == len(info.global_slices), len(info.shards) == len(info.global_slices)))
      for gs, s in zip(info.global_slices, info.shards):
        ctx.prove('index and data shards list the same chunks', sx.bor(*[
            sx.band(s == s2, *[sx.band(sx.eq(unwrap(a.start), unwrap(b.start)), sx.eq(unwrap(a.stop), unwrap(b.stop)))
                               for a, b in zip(gs, g2)]) for s2, g2 in stored]))
      # Each element is stored exactly once.
      if ctx.sym:
        q = [z3.Int(ctx._fresh_name('q')) for _ in shape]
        inside = sx.band(*[sx.band(sx.le(0, x), sx.lt(x, unwrap(m))) for x, m in zip(q, shape)])
        covs = [sx.band(*[sx.band(sx.le(unwrap(a.start), x), sx.lt(x, unwrap(a.stop))) for a, x in zip(gs, q)])
                for _, gs in stored]
        once = z3.PbEq([(sx.zb(c), 1) for c in covs], 1) if covs else False
        ctx.prove('each element is stored exactly once', sx.bor(sx.bnot(inside), once))
      else:
        cnt = np.zeros(shape, int)
        for _, gs in stored:
          cnt[tuple(g.slice for g in gs)] += 1
        ctx.prove('each element is stored exactly once', bool((cnt == 1).all()))
    if balance:
      mx = biggest[0]
      for b in biggest[1:]:
        mx = H.smax(mx, b)
      for i, j in itertools.permutations(range(n), 2):
        ctx.prove('shard sizes differ by at most one chunk', sx.le(unwrap(load[i] - load[j]), unwrap(mx)))
  ctx.cover('reached')


def cases(tier):
  t = tier == 'thorough'
  n1, n2 = (12, 5) if t else (6, 3)
  cb = 4 * (24 if t else 8)
  return [Case(harness, layout='scalar3', lo=1, hi=1, chunk=8, shards=(None, 1, 4), balance=True),
          Case(harness, layout='vec1', lo=0, hi=24 if t else 12, chunk=cb, shards=(None, 3), balance=True),
          Case(harness, layout='vec2to4', lo=1, hi=n2, chunk=cb, shards=(1, 3)),
          Case(harness, layout='vec3to2', lo=1, hi=n2, chunk=cb, shards=(2, 4)),
          Case(harness, layout='mat1', lo=0, hi=n1, chunk=cb, shards=(2,), balance=True),
          Case(harness, layout='rows_to_cols', lo=1, hi=n2, chunk=cb, shards=(None, 3)),
          Case(harness, layout='replicated_to_grid', lo=1, hi=n2 - 1, chunk=cb, shards=(3,), balance=True),
          Case(harness, layout='grid_to_replicated', lo=1, hi=n2 - 1, chunk=cb, shards=(None, 5)),
          Case(harness, layout='three_leaves', lo=1, hi=n2 - 1, chunk=cb, shards=(3,), dtypes=('float32', 'int8', 'int8'))]
