"""K04: checkpoint discovery, shard names, removal: exactly the complete steps, exactly the matching files."""
import re
from lib.runner import Case
from lib import ckpt_h as H, fs_h
from vmoe.checkpoints import base

PROPERTY = 'K04'
FUNCTIONS = ['vmoe.checkpoints.base.iterate_complete_steps_for_prefix', 'vmoe.checkpoints.base.find_latest_complete_checkpoint_for_prefix',
             'vmoe.checkpoints.base.remove_checkpoints', 'vmoe.checkpoints.base.add_shard_suffix', 'vmoe.checkpoints.base.remove_shard_suffix',
             'vmoe.checkpoints.base.restore_multiple_checkpoints']
BOUNDS = {'quick': 'every subset of a universe of up to 10 file names (final, temporary and foreign files, steps of different digit counts, two shards per suffix), '
                   'both orders; shard numbers of 1 to 6 digits; removal predicates: every subset of 6 files',
          'thorough': 'universes of up to 13 file names'}
OUTSIDE = 'other file names; directories with several shard counts for one step'
ASSUMPTIONS = ['gfile.glob lists the matching files (lib/fs_h.py)']

U = {
    'sharded': (('.index', '.data'), [
        'ckpt_9.index', 'ckpt_9.data-00000-of-00002', 'ckpt_9.data-00001-of-00002',
        'ckpt_10.index', 'ckpt_10.data-00000-of-00002', 'ckpt_10.data-00001-of-00002',
        '.tmp.ckpt_10.data-00001-of-00002', '.tmp.ckpt_9.index']),
    'plain': (None, ['ckpt_2', 'ckpt_10', 'ckpt_100', '.tmp.ckpt_2', '.tmp.ckpt_100', 'ckpt_2-00000-of-00001']),
    'othersuffix': (('.index',), ['ckpt_1.index', 'ckpt_1', 'ckpt_1.bar', 'ckpt_2.index', '.tmp.ckpt_1.bar', '.tmp.ckpt_2.data-00000-of-00002', '.tmp.ckpt_3.index']),
    'foreign': (('.index',), ['ckpt_1.index', 'ckpt_3.index', 'ckpt_old_7.index', 'ckptx_8.index', '.tmp.ckpt_old_3.index', 'other_9.index']),
    'big': (('.index', '.data'), [
        'ckpt_9.index', 'ckpt_9.data-00000-of-00002', 'ckpt_9.data-00001-of-00002',
        'ckpt_10.index', 'ckpt_10.data-00000-of-00002', 'ckpt_10.data-00001-of-00002',
        'ckpt_11.index', 'ckpt_11.data-00000-of-00001',
        '.tmp.ckpt_10.data-00001-of-00002', '.tmp.ckpt_9.index', '.tmp.ckpt_11.data-00000-of-00001', 'ckpt_11']),
}
NAME = re.compile(r'^(\.tmp\.)?(.+)_(\d+)(\.[a-zA-Z]+)?(-(\d+)-of-(\d+))?$')


def spec(names, suffixes):
  have, bad, shards = {}, set(), {}
  for n in names:
    m = NAME.match(n)
    tmp, pre, step, suf, _, sh, cnt = m.groups()
    if pre != 'ckpt':
      continue
    step = int(step)
    if tmp:
      bad.add(step)
      continue
    have.setdefault(step, set()).add(suf)
    if cnt:
      shards.setdefault((step, suf, int(cnt)), set()).add(int(sh))
  for (step, suf, cnt), s in shards.items():
    if len(s) < cnt:
      bad.add(step)
  return sorted(s for s, x in have.items() if s not in bad and set(suffixes or (None,)) <= x)


def discover(ctx, universe, step=None):
  suffixes, files = U[universe]
  fs = fs_h.FS()
  fs.dirs.add('/w')
  names = [n for i, n in enumerate(files) if bool(ctx.bool('f%d' % i))]
  for n in names:
    fs.files['/w/' + n] = b'x'
  dec = bool(ctx.bool('decreasing'))
  with fs_h.use(fs, base):
    got = list(base.iterate_complete_steps_for_prefix('/w/ckpt', suffixes=suffixes, decreasing=dec))
    latest = base.find_latest_complete_checkpoint_for_prefix('/w/ckpt', suffixes=suffixes)
  want = spec(names, suffixes)
  ctx.prove('exactly the complete steps, in order', got == (want[::-1] if dec else want), detail='%s: %s vs %s' % (names, got, want))
  ctx.prove('latest is the largest complete step', latest == ('/w/ckpt_%d' % want[-1] if want else None))
  ctx.prove('discovery does not change the directory', sorted(fs.files) == sorted('/w/' + n for n in names))
  ctx.cover('found', latest is not None)
  ctx.cover('nothing', latest is None)


def suffix(ctx, name):
  total = ctx.choice('total', [1, 2, 10, 100, 99999, 200000])
  shard = ctx.choice('shard', [0, 1, 2, 9, 10, 11, 99, 100, 12345, 99998, 99999, 100000])
  ctx.assume(shard < total)
  s = int(shard)
  f = base.add_shard_suffix(name, s, total)
  ctx.prove('remove undoes add', base.remove_shard_suffix(f) == name)
  m = re.match(r'^(.*)-(\d+)-of-(\d+)$', f)
  ctx.prove('the name carries shard and count', m is not None and (m.group(1), int(m.group(2)), int(m.group(3))) == (name, s, total))
  ctx.prove('a name without shard suffix is unchanged', base.remove_shard_suffix(name) == name or re.search(r'-\d+-of-\d+$', name) is not None)
  ctx.cover('reached')


def remove(ctx):
  fs = fs_h.FS()
  fs.dirs.add('/w')
  files = ['/w/f%d' % i for i in range(5)]
  for f in files + ['/w/unlisted']:
    fs.files[f] = f.encode()
  match = {f: ctx.bool('match%d' % i) for i, f in enumerate(files)}
  with fs_h.use(fs, base):
    base.remove_checkpoints(iter(files), lambda f: match[f], thread_pool=H.SyncPool())
  for f in files:
    ctx.prove('removes exactly the matching files', (f in fs.files) == (not bool(match[f])))
  ctx.prove('touches nothing else', '/w/unlisted' in fs.files)
  ctx.cover('reached')


def multi(ctx):
  import numpy as np
  fs = fs_h.FS()
  fs.dirs.add('/w')
  n = int(ctx.int('n', 1, 4))
  order = ctx.choice('order', [1, -1])
  trees = {'/w/c%d' % i: {'v': np.full((i + 1,), i)} for i in range(n)}
  with fs_h.use(fs, base):
    base.save_multiple_checkpoints_async(dict(list(trees.items())[::order]), thread_pool=H.SyncPool()).get()
    ask = {k: (None if i % 2 else {'v': 0}) for i, k in enumerate(trees)}
    got = base.restore_multiple_checkpoints(ask, thread_pool=H.SyncPool())
  ctx.prove('every path gets its own tree', list(got) == list(ask) and all(np.array_equal(got[k]['v'], trees[k]['v']) for k in trees))
  ctx.cover('reached')


def cases(tier):
  u = ['sharded', 'plain', 'othersuffix', 'foreign'] + (['big'] if tier == 'thorough' else [])
  return [Case(discover, universe=x) for x in u] + [
      Case(suffix, name=n) for n in ('/w/ckpt', '/w/ckpt_1', '/w/ckpt_1.data', '/w/x-00000-of-00001', '/w/a.b_2.index')] + [Case(remove), Case(multi)]
