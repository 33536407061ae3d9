"""D01: evaluation data reaches the model exactly once, in full batches, the same number on every process; training data repeats forever."""
import contextlib
import itertools
import types as pytypes
import ml_collections
import numpy as np
import tensorflow as real_tf
from lib import sx, tfd_h
from lib.engine import unwrap, wrap
from lib.ckpt_h import srange
from lib.runner import Case
from lib.shadow import shadow
from vmoe.data import builder, input_pipeline

FUNCTIONS = ['vmoe.data.input_pipeline.get_dataset', 'vmoe.data.input_pipeline.get_datasets', 'vmoe.data.input_pipeline.get_data_num_examples',
             'vmoe.data.input_pipeline.get_data_process_fn', 'vmoe.data.builder.TfdsBuilder.as_dataset', 'vmoe.data.builder.TfdsBuilder.get_num_fake_examples',
             'vmoe.data.builder._get_num_fake_examples']
BOUNDS = {'quick': 'number of examples symbolic (0..7), 1-3 processes of 1-2 devices, batch size symbolic (up to 4 per device), any subset of examples removed by the '
                   'filter (up to 4 examples) or failing to load; the padding arithmetic for every number of examples up to 100000 and twelve batch sizes',
          'thorough': 'up to 12 examples, 4 processes; filters over 6 examples'}
OUTSIDE = 'more examples; TFDS itself (stub: even_splits and split_for_jax_process as documented); the order in which tf.data delivers elements'
ASSUMPTIONS = ['tf.data is modelled element by element (lib/tfd_h.py); counterexamples and samples are replayed with the real tf.data']
VALID = '__valid__'


class Sub:
  """tfds.even_splits(split, n)[i]."""

  def __init__(self, split, i, n, drop=False):
    self.split, self.i, self.n, self.drop = split, i, n, drop

  def bounds(self, total):
    q, r = total // self.n, total % self.n
    if self.drop:
      return q * self.i, q * (self.i + 1)
    lo = q * self.i + wrap(sx.smin(self.i, unwrap(r)))
    return lo, lo + q + wrap(sx.ite(sx.lt(self.i, unwrap(r)), 1, 0))


class World:

  def __init__(self, ctx, total, P, dev, real=False):
    self.ctx, self.total, self.P, self.dev, self.me = ctx, total, P, dev, 0
    self.fails = {}
    self.real = real
    w = self
    self.jax = pytypes.SimpleNamespace(process_count=lambda: P, process_index=lambda: w.me, device_count=lambda *a: P * dev, local_device_count=lambda *a: dev)

    class Splits:

      def __getitem__(self, s):
        if isinstance(s, Sub):
          lo, hi = s.bounds(w.total)
          return pytypes.SimpleNamespace(num_examples=hi - lo)
        return pytypes.SimpleNamespace(num_examples=w.total)

    class B:
      info = pytypes.SimpleNamespace(splits=Splits())

      def as_dataset(self, split=None, **k):
        lo, hi = split.bounds(w.total) if isinstance(split, Sub) else (0, w.total)
        w.reads.append((split, k))
        ids = [i.__index__() + 1 for i in srange(lo, hi)]
        if w.real:
          d = real_tf.data.Dataset.from_tensor_slices({'x': np.asarray(ids, np.int64)})
          bad = np.asarray([bool(w.fails.get(i, False)) for i in range(64)])
          if bad.any():
            def check(e):
              with real_tf.control_dependencies([real_tf.debugging.assert_equal(real_tf.gather(bad, e['x']), False)]):
                return {'x': real_tf.identity(e['x'])}
            d = d.map(check)
          return d
        return tfd_h.Dataset.of([tfd_h.Failing() if w.fails.get(i, False) else {'x': i} for i in ids], {'x': tfd_h.Spec((), 'int64')})
    self.reads = []
    self.builder = B()
    self.tfds = pytypes.SimpleNamespace(
        even_splits=lambda split, n, drop_remainder=False: [Sub(split, i, n, drop_remainder) for i in range(n)],
        split_for_jax_process=lambda split, process_index=None, process_count=None, drop_remainder=False: Sub(
            split, w.me if process_index is None else process_index, P if process_count is None else process_count, drop_remainder),
        ReadConfig=lambda **k: pytypes.SimpleNamespace(**k), decode=pytypes.SimpleNamespace(SkipDecoding=lambda: 'skip'), core=builder.tfds.core)

  @contextlib.contextmanager
  def env(self):
    saved = []

    def patch(o, k, v):
      saved.append((o, k, getattr(o, k)))
      setattr(o, k, v)
    patch(builder, '_get_tfds_builder', lambda *a: self.builder)
    patch(builder, 'tfds', self.tfds)
    patch(builder, 'jax', self.jax)
    patch(input_pipeline, 'jax', self.jax)
    if not self.real:
      patch(input_pipeline, 'tf', tfd_h.TF(real_tf))
      patch(input_pipeline, 'TfDatasetIterator', lambda d, **k: d)
    try:
      with shadow(builder, range=srange), shadow(input_pipeline):
        yield self
    finally:
      for o, k, v in reversed(saved):
        setattr(o, k, v)


def tolist(b):
  return {k: np.asarray(v).tolist() for k, v in b.items()}


def evaluation(ctx, P, dev, n, mode=None, per=2, cache=None, via_config=False):
  """mode: None, 'filter' or 'errors'."""
  total = ctx.int('examples', 0, n)
  m = ctx.int('batch_per_device', 1, per)
  w = World(ctx, total, P, dev, real=not ctx.sym)
  keep = {}
  if mode:
    for i in range(1, n + 1):
      keep[i] = ctx.bool('keep_%d' % i)
  pre = None
  if mode == 'filter':
    if ctx.sym:
      pre = lambda d: keep[d['x']]
    else:
      tab = np.asarray([False] + [bool(keep[i]) for i in range(1, n + 1)])
      pre = lambda d: real_tf.gather(tab, d['x'])
  if mode == 'errors':
    w.fails = {i: ~k if ctx.sym else not bool(k) for i, k in keep.items()}
  # A listed finding covers evaluation data with records that fail to load.
  failing = mode == 'errors' and bool(wrap(sx.anyof([sx.bnot(unwrap(k)) for k in keep.values()])))
  tag = 'records fail: ' if failing else ''
  seen, counts = [], []
  for p in range(P):
    w.me = p
    with w.env():
      kw = dict(name='d', split='s', batch_size=m * (P * dev), process='copy("x", "y")', cache=cache, num_parallel_calls=2)
      if mode == 'filter':
        kw['pre_filter_fn'] = pre
      if mode == 'errors':
        kw['ignore_errors'] = True
      if via_config:
        ds = input_pipeline.get_datasets(ml_collections.ConfigDict({'val': {k: v for k, v in kw.items() if k != 'batch_size'} | {
            'batch_size': int(kw['batch_size'].__index__()), 'prefetch_device': 2, 'prefetch': 'autotune'}}))['val']
      else:
        ds = input_pipeline.get_dataset(variant='val', **kw)
      out = [tolist(b) for b in itertools.islice(iter(ds), 40)]
    b = m.__index__() * dev
    ctx.prove('every batch is full', all(len(v) == b for x in out for v in x.values()))
    ctx.prove('every example says whether it is valid', all(set(x) == {'x', 'y', VALID} for x in out))
    for x in out:
      for i, y, v in zip(x['x'], x['y'], x[VALID]):
        ctx.prove('padding is marked as not valid and all zeros, real examples are valid and processed', (i > 0 and y == i and v is True) or (i == 0 and y == 0 and v is False))
        if v:
          seen.append(i)
    counts.append(len(out))
  N = total.__index__()
  ctx.prove(tag + 'every process runs the same number of batches', len(set(counts)) == 1)
  ctx.prove('no more batches than needed', counts[0] * b <= -(-N // P) + b - 1)
  if counts[0] > 1:
    ctx.cover('several batches')
  if len(seen) < counts[0] * b * P:
    ctx.cover('padding')
  ctx.prove('no example is delivered twice', len(set(seen)) == len(seen))
  for i in range(1, N + 1):
    k = keep.get(i, True)
    want = unwrap(k) if not isinstance(k, bool) else k
    ctx.prove(tag + 'each example is delivered exactly once (not at all if filtered out)', sx.eq(sx.ite(want, 1, 0), seen.count(i)))


def training(ctx, P, dev, n, filt=False):
  total = ctx.int('examples', P, n)
  m = ctx.int('batch_per_device', 1, 2)
  w = World(ctx, total, P, dev, real=not ctx.sym)
  seed = ctx.choice('seed', [None, 3])
  epochs = 2
  seen = []
  for p in range(P):
    w.me = p
    with w.env():
      ds = input_pipeline.get_dataset(variant='train', name='d', split='s', batch_size=m * (P * dev), process='copy("x", "y")|keep("y")', shuffle_buffer=1 if w.real else 50000,
                                      shuffle_seed=seed)
      b = m.__index__() * dev
      N = total.__index__()
      lo, hi = [v.__index__() for v in Sub('s', p, P).bounds(total)]
      out = [tolist(x) for x in itertools.islice(iter(ds), (hi - lo) * epochs)]
    ctx.prove('training data never ends', len(out) == (hi - lo) * epochs)
    ctx.prove('every batch is full, only processed real examples', all(set(x) == {'y'} and len(x['y']) == b and min(x['y']) > 0 for x in out))
    flat = [y for x in out for y in x['y']]
    ctx.prove('every pass over the data delivers each example of the process once', all(
        flat.count(i + 1) == b * epochs for i in range(lo, hi)) and set(flat) == set(range(lo + 1, hi + 1)))
    seen += sorted(set(flat))
  ctx.prove('together the processes cover all examples', sorted(seen) == list(range(1, N + 1)))


def rejects(ctx, P, dev):
  """Batch sizes that do not split evenly are rejected."""
  total = ctx.int('examples', 1, 100000)
  batch = ctx.int('batch', 1, 100000)
  w = World(ctx, total, P, dev, real=False)
  # Only the decision matters here.
  w.builder.as_dataset = lambda **k: tfd_h.Dataset.of([{'x': 1}], {'x': tfd_h.Spec((), 'int64')})
  variant = ctx.choice('variant', ['train', 'val'])
  sizes = []
  real = tfd_h.Dataset.batch

  def rec(self, n, drop_remainder=False, **k):
    sizes.append((n, drop_remainder))
    return self
  with w.env():
    tfd_h.Dataset.batch = rec
    tfd_h.Dataset.repeat, old = (lambda self, *a: self), tfd_h.Dataset.repeat
    try:
      input_pipeline.get_dataset(variant=variant, name='d', split='s', batch_size=batch, process='copy("x", "y")')
      ok = True
    except ValueError:
      ok = False
    finally:
      tfd_h.Dataset.batch = real
      tfd_h.Dataset.repeat = old
  good = sx.eq(sx.pymod(unwrap(batch), P * dev), 0)
  ctx.prove('a batch size is accepted exactly if it splits evenly over processes and devices', sx.iff(ok, good))
  if ok:
    ctx.prove('each process takes its share of the batch', sx.band(len(sizes) == 1, sx.eq(unwrap(sizes[0][0]) * P, unwrap(batch)), sizes[0][1] is True))


def padding(ctx, P):
  """The padding arithmetic for any number of examples."""
  total = ctx.int('examples', 0, 100000)
  b = ctx.choice('batch', [1, 2, 3, 5, 7, 16, 96, 100, 1000, 4096, 50000, 99999])
  w = World(ctx, total, P, 1)
  tot = []
  with w.env():
    for p in range(P):
      w.me = p
      fake = builder.TfdsBuilder(name='d', split='s').get_num_fake_examples(b)
      lo, hi = Sub('s', p, P).bounds(total)
      ctx.prove('the padding is not negative and less than a batch beyond the largest share', sx.band(
          sx.ge(unwrap(fake), 0), sx.le(unwrap(hi - lo + fake), sx.sub(sx.add(unwrap(-(-total // P)), unwrap(b)), 1))))
      ctx.prove('padded shares are whole batches', sx.eq(sx.pymod(unwrap(hi - lo + fake), unwrap(b)), 0))
      tot.append(unwrap(hi - lo + fake))
    ctx.prove('every process gets the same number of padded examples', sx.allof([sx.eq(t, tot[0]) for t in tot]))
    cfg = ml_collections.ConfigDict(dict(name='d', split='s', batch_size=4, process='x', cache=None, num_parallel_calls=1, prefetch=2, prefetch_device=1, shuffle_buffer=3))
    ctx.prove('the number of examples is that of the whole split', sx.eq(unwrap(input_pipeline.get_data_num_examples(cfg)), unwrap(total)))


def cases(tier):
  n = 7 if tier == 'quick' else 12
  out = [Case(evaluation, P=P, dev=d, n=n, per=4 if d == 1 else 2) for P, d in ((1, 1), (2, 1), (3, 1), (2, 2)) + (((4, 1),) if tier != 'quick' else ())]
  out += [Case(evaluation, P=P, dev=1, n=4 if tier == 'quick' else 6, mode='filter', per=2, cache=c) for P, c in ((1, 'loaded'), (2, None))]
  out += [Case(evaluation, P=P, dev=1, n=4, mode='errors', per=2, cache='batched') for P in (1, 2)]
  out += [Case(evaluation, P=2, dev=1, n=4, per=2, cache='batched', via_config=True)]
  out += [Case(training, P=P, dev=1, n=5) for P in (1, 2)]
  out += [Case(rejects, P=P, dev=d) for P, d in ((1, 1), (2, 2), (3, 1))]
  out += [Case(padding, P=P) for P in (1, 2, 3)]
  return out
