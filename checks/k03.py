"""K03: a crash while saving never leaves a partial file under a checkpoint's final name."""
import numpy as np
from lib.runner import Case
from lib import ckpt_h as H, fs_h, sx
from lib.engine import unwrap
from vmoe.checkpoints import base, serialization

PROPERTY = 'K03'
FUNCTIONS = ['vmoe.checkpoints.base.save_checkpoint', 'vmoe.checkpoints.base.save_checkpoint_async',
             'vmoe.checkpoints.base.save_multiple_checkpoints_async', 'vmoe.checkpoints.base.find_latest_complete_checkpoint_for_prefix',
             'vmoe.checkpoints.base.restore_checkpoint']
BOUNDS = {'quick': 'every crash point of one save (each file operation, including half-written data), with/without an older file, directory, overwrite, makedirs; '
                   'three files of a sharded save with independent crash points (each thread stops anywhere)',
          'thorough': 'same, four files'}
OUTSIDE = 'more files than stated; durability of a rename (the file system is trusted to rename atomically)'
ASSUMPTIONS = ['rename is atomic, a crash keeps a prefix of the data written (lib/fs_h.py)', 'threads of the pool interact only through the file system']
OLD = b'old-content'


def crash_at(fs, k):
  """Dies before the k-th file operation (k may be symbolic)."""
  n = [0]

  def tick(what):
    n[0] += 1
    if k == n[0]:
      raise fs_h.Crash(what)
  fs.tick = tick
  return n


def single(ctx, api):
  fs = fs_h.FS()
  had_dir = bool(ctx.bool('dir_exists'))
  had_old = bool(ctx.bool('old_exists')) if had_dir else False
  overwrite = bool(ctx.bool('overwrite'))
  makedirs = bool(ctx.bool('makedirs'))
  k = ctx.int('crash', 1, 9)
  f = '/w/ckpt_2'
  if had_dir:
    fs.dirs.add('/w')
    fs.files['/w/ckpt_1'] = b'bystander'
    fs.files['/w/.tmp.ckpt_1'] = b'bystander2'
  if had_old:
    fs.files[f] = OLD
  before = dict(fs.files)
  tree = {'a': np.arange(3), 'b': {'c': np.ones((2,), np.float32)}}
  new = serialization.to_bytes({'a': np.arange(3), 'b': {'c': np.ones((2,), np.float32)}})
  crashed = raised = False
  ret = None
  with fs_h.use(fs, base):
    n = crash_at(fs, k)
    try:
      if api == 'sync':
        ret = base.save_checkpoint(f, tree, overwrite=overwrite, makedirs=makedirs)
      elif api == 'async':
        ret = base.save_checkpoint_async(f, tree, overwrite=overwrite, makedirs=makedirs, thread_pool=H.SyncPool()).get()
      else:
        base.save_multiple_checkpoints_async({f: tree}, overwrite=overwrite, makedirs=makedirs, thread_pool=H.SyncPool()).get()
        ret = f
    except fs_h.Crash:
      crashed = True
    except Exception as e:  # pylint: disable=broad-except
      raised = True
    fs.tick = lambda w: None
    old = before.get(f)
    ctx.prove('the final name holds the old or the complete new content', fs.files.get(f) in (old, new))
    for p in set(before) | set(fs.files):
      if p != f:
        own_tmp = p.startswith('/w/.tmp.') and p not in before
        ctx.prove('no other file is changed', own_tmp or fs.files.get(p) == before.get(p))
    must_raise = (had_old and not overwrite) or (not had_dir and not makedirs)
    if must_raise:
      ctx.prove('refuses instead of overwriting', (crashed or raised) and fs.files.get(f) == old)
    elif not crashed:
      ctx.prove('a save that returns is complete', not raised and ret == f and fs.files.get(f) == new)
      ctx.prove('no temporary file is left', set(fs.files) == set(before) | {f})
      got = base.restore_checkpoint(f)
      ctx.prove('restores the saved tree', bool(np.array_equal(got['a'], tree['a']) and np.array_equal(got['b']['c'], np.ones(2))))
    if crashed and not must_raise:
      base.save_checkpoint(f, {'a': np.arange(3), 'b': {'c': np.ones((2,), np.float32)}}, overwrite=True)
      ctx.prove('a retry after the crash succeeds', fs.files.get(f) == new)
  ctx.cover('crashed', crashed)
  ctx.cover('finished', not crashed and not raised)


class CrashPool(H.SyncPool):
  """Each task dies at its own symbolic point."""

  def __init__(self, fs, ks):
    self.fs, self.ks, self.done = fs, ks, 0

  def map_async(self, fn, it, chunksize=None, **kw):
    for i, x in enumerate(it):
      crash_at(self.fs, self.ks[i])
      try:
        fn(x)
        self.done += 1
      except fs_h.Crash:
        pass
    self.fs.tick = lambda w: None
    return H.Done(None)

  map = map_async
  imap = map_async


def sharded(ctx, nshards):
  fs = fs_h.FS()
  fs.dirs.add('/w')
  def names(step):
    return ['/w/ckpt_%d.index' % step] + [
        base.add_shard_suffix('/w/ckpt_%d.data' % step, i, nshards) for i in range(nshards)]
  for n in names(9):
    fs.files[n] = OLD
  old_step = bool(ctx.bool('same_step_saved_before'))
  if old_step:
    # A complete save of the same step is being overwritten.
    for n in names(10):
      fs.files[n] = OLD
  ks = [ctx.int('crash_%d' % i, 1, 6) for i in range(nshards + 1)]
  pool = CrashPool(fs, ks)
  with fs_h.use(fs, base):
    base.save_multiple_checkpoints_async({n: {'x': np.arange(2)} for n in names(10)}, thread_pool=pool)
    got = base.find_latest_complete_checkpoint_for_prefix('/w/ckpt', suffixes=('.index', '.data'))
    done = pool.done == nshards + 1
    if done:
      ctx.prove('a finished save is the latest checkpoint', got == '/w/ckpt_10')
    elif not old_step:
      ctx.prove('an interrupted save is never offered for restoring', got == '/w/ckpt_9')
  ctx.cover('all finished', done)
  ctx.cover('interrupted', not done)


def cases(tier):
  return [Case(single, api=a) for a in ('sync', 'async', 'multiple')] + [
      Case(sharded, nshards=n) for n in ((1, 2, 3) if tier == 'thorough' else (1, 2))]
