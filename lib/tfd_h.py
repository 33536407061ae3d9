"""A small executable model of tf.data (element level), for the input pipeline.

Elements are dicts of Python values. In replay mode the harnesses use the real
tf.data instead, so every counterexample is confirmed with TensorFlow itself.
"""
import itertools
import types as pytypes


class Spec:

  def __init__(self, shape, dtype):
    self.shape = shape
    self.dtype = dtype


def spec_of(v):
  return Spec((), 'bool' if isinstance(v, bool) else 'int64')


class Failing:
  """An element whose reading fails."""


INFINITE, UNKNOWN = -1, -2


class Card(int):

  def numpy(self):
    return int(self)


class Dataset:

  def __init__(self, gen, spec, card):
    self.gen = gen
    self.element_spec = spec
    self.card = card

  def __iter__(self):
    return iter(self.gen())

  def as_numpy_iterator(self):
    return iter(self)

  def cardinality(self):
    return Card(self.card)

  def __len__(self):
    if self.card < 0:
      raise TypeError('unknown or infinite')
    return self.card

  @staticmethod
  def from_tensors(x):
    return Dataset(lambda: iter([dict(x)]), {k: spec_of(v) for k, v in x.items()}, 1)

  @staticmethod
  def of(elems, spec):
    return Dataset(lambda: iter([e if isinstance(e, Failing) else dict(e) for e in elems]), spec, len(elems))

  def ignore_errors(self, log_warning=False):
    return Dataset(lambda: (e for e in self.gen() if not isinstance(e, Failing)), self.element_spec, UNKNOWN)

  def apply(self, f):
    return f(self)

  def cache(self, filename=''):
    return self

  def prefetch(self, n):
    return self

  def with_options(self, o):
    return self

  def shuffle(self, n, seed=None, **k):
    # Any order may come out; the checks on shuffled data only look at counts.
    return self

  def filter(self, fn):
    return Dataset(lambda: (e for e in self.gen() if fn(dict(e))), self.element_spec, UNKNOWN)

  def repeat(self, count=None):
    if count is None or (isinstance(count, int) and count == -1):
      def forever():
        while True:
          some = False
          for e in self.gen():
            some = True
            yield e
          if not some:
            return
      return Dataset(forever, self.element_spec, INFINITE)
    count = count.__index__()
    return Dataset(lambda: (e for _ in range(count) for e in self.gen()), self.element_spec, self.card if self.card < 0 else self.card * count)

  def take(self, n):
    n = n.__index__()
    if n == -1:
      return self
    c = n if self.card == INFINITE else self.card if self.card < 0 else min(n, self.card)
    return Dataset(lambda: itertools.islice(self.gen(), n), self.element_spec, c)

  def skip(self, n):
    n = n.__index__()
    return Dataset(lambda: itertools.islice(self.gen(), n, None), self.element_spec, self.card if self.card < 0 else max(self.card - n, 0))

  def shard(self, num, index):
    return Dataset(lambda: (e for i, e in enumerate(self.gen()) if i % num == index), self.element_spec, UNKNOWN)

  def map(self, map_func, num_parallel_calls=None, deterministic=None, **k):
    def one(e):
      if isinstance(e, Failing):
        raise RuntimeError('error reading the data')
      return map_func(dict(e))
    spec = {k: spec_of(v) for k, v in map_func({k: (False if s.dtype == 'bool' else 0) for k, s in self.element_spec.items()}).items()}
    return Dataset(lambda: (one(e) for e in self.gen()), spec, self.card)

  def concatenate(self, other):
    if set(other.element_spec) != set(self.element_spec):
      raise TypeError('Incompatible element specs %s %s' % (set(self.element_spec), set(other.element_spec)))
    c = INFINITE if INFINITE in (self.card, other.card) else UNKNOWN if UNKNOWN in (self.card, other.card) else self.card + other.card
    return Dataset(lambda: itertools.chain(self.gen(), other.gen()), self.element_spec, c)

  def batch(self, n, drop_remainder=False, **k):
    n = n.__index__()
    if n <= 0:
      raise ValueError('batch_size must be positive')
    def gen():
      it = self.gen()
      while True:
        b = list(itertools.islice(it, n))
        if not b or (drop_remainder and len(b) < n):
          return
        yield {key: [e[key] for e in b] for key in b[0]}
    c = self.card if self.card < 0 else self.card // n if drop_remainder else -(-self.card // n)
    return Dataset(gen, self.element_spec, c)


class TF:
  """The part of the tensorflow module the input pipeline touches; the rest is the real module."""

  def __init__(self, real):
    self._real = real
    self.data = pytypes.SimpleNamespace(Dataset=Dataset, AUTOTUNE=-1, UNKNOWN_CARDINALITY=UNKNOWN, INFINITE_CARDINALITY=INFINITE,
                                        experimental=pytypes.SimpleNamespace(AUTOTUNE=-1, UNKNOWN_CARDINALITY=UNKNOWN, INFINITE_CARDINALITY=INFINITE,
                                                                             cardinality=lambda d: d.cardinality(), ignore_errors=lambda **k: (lambda d: d.ignore_errors())))
    self.nest = pytypes.SimpleNamespace(map_structure=lambda f, *t: {k: f(*[x[k] for x in t]) for k in t[0]})
    self.bool, self.int64, self.float32 = 'bool', 'int64', 'float32'

  def zeros(self, shape=(), dtype='float32', **k):
    return False if dtype == 'bool' else 0

  def zeros_like(self, x, dtype=None):
    return False if (dtype or getattr(x, 'dtype', None)) == 'bool' else 0

  def __getattr__(self, k):
    return getattr(self._real, k)
