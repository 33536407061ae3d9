"""Environment stub for pjit: the compiled step is the real function, executed symbolically; donated buffers cannot be used again."""
import types as pytypes
import numpy as np
import jax
from . import sx
from .engine import SNum, SBool, unwrap, wrap


class DonatedBufferUsed(Exception):
  """A buffer that was donated to a computation is used again."""
  code_fault = True


class Dev:
  """An array on the devices (jax.Array): terms or concrete values."""

  def __init__(self, a):
    self.a = a
    self.gone = False

  def _alive(self):
    if self.gone:
      raise DonatedBufferUsed('array has been deleted')
    return self.a

  shape = property(lambda s: s.a.shape)
  ndim = property(lambda s: s.a.ndim)
  dtype = property(lambda s: s.a.dtype)
  size = property(lambda s: s.a.size)

  def block_until_ready(self):
    self._alive()
    return self

  def item(self):
    return wrap(self._alive()[()])

  def __float__(self):
    return float(self.item())

  def __array__(self, dtype=None, copy=None):
    a = np.asarray(self._alive())
    if a.dtype != object:
      return a
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
      out[i] = wrap(a[i])
    return out

  def _op(self, o, f):
    o = o.item() if isinstance(o, Dev) else o
    return f(self.item(), o)

  def __truediv__(self, o):
    def f(a, b):
      try:
        return a / b
      except ZeroDivisionError:  # as jax.Array
        return float('nan')
    return self._op(o, f)

  def __mul__(self, o):
    return self._op(o, lambda a, b: a * b)

  def __add__(self, o):
    return self._op(o, lambda a, b: a + b)

  def __sub__(self, o):
    return self._op(o, lambda a, b: a - b)


def native(ctx, x):
  """Concrete integers (PRNG keys) as a native array."""
  d = ctx.dtypes.get(id(x), '')
  if isinstance(x, np.ndarray) and x.dtype == object and 'int' in d and all(isinstance(v, (int, np.integer)) for v in x.ravel()):
    return x.astype(d)
  return x


def to_dev(t):
  return jax.tree_util.tree_map(lambda x: x if isinstance(x, Dev) else Dev(x), t, is_leaf=lambda x: isinstance(x, (Dev, np.ndarray)))


def from_dev(t):
  return jax.tree_util.tree_map(lambda x: x._alive() if isinstance(x, Dev) else x, t, is_leaf=lambda x: isinstance(x, (Dev, np.ndarray)))


def _tuple(x):
  return () if x is None else ((x,) if isinstance(x, int) else tuple(x))


def annotate(out_shardings, out):
  """The outputs are laid out as asked for."""
  if out_shardings is None:
    return
  isl = lambda x: x is None or isinstance(x, (jax.sharding.Sharding, jax.sharding.PartitionSpec))

  def put(s, sub):
    for x in jax.tree_util.tree_leaves(sub, is_leaf=lambda v: isinstance(v, Dev)):
      if isinstance(x, Dev) and s is not None:
        x.sharding = s
  try:
    jax.tree_util.tree_map(put, out_shardings, out, is_leaf=isl)
  except (ValueError, KeyError, TypeError) as e:
    # pjit refuses shardings that are not a prefix of the outputs.
    e.code_fault = True
    raise


class Pjit:
  """jax.experimental.pjit.pjit for one process."""

  def __init__(self, ctx, log=None):
    self.ctx, self.log = ctx, log if log is not None else []

  def pjit(self, fun=None, in_shardings=None, out_shardings=None, static_argnums=None, static_argnames=None, donate_argnums=None, **k):
    if fun is None:
      import functools
      return functools.partial(self.pjit, in_shardings=in_shardings, out_shardings=out_shardings, static_argnums=static_argnums, static_argnames=static_argnames,
                               donate_argnums=donate_argnums, **k)
    ctx, log = self.ctx, self.log
    static, donate = _tuple(static_argnums), _tuple(donate_argnums)

    class Compiled:

      def __call__(self, *args, **kw):
        dyn = {i: from_dev(a) for i, a in enumerate(args) if i not in static}
        kwd = {n: from_dev(a) for n, a in kw.items()}

        def f(dyn, kwd):
          return fun(*[args[i] if i in static else dyn[i] for i in range(len(args))], **kwd)
        out = ctx.run(f, dyn, kwd, validate=False)
        for i in donate:
          if i < len(args):
            for x in jax.tree_util.tree_leaves(args[i], is_leaf=lambda v: isinstance(v, Dev)):
              if isinstance(x, Dev):
                x.gone = True
        log.append(fun)
        out = to_dev(jax.tree_util.tree_map(lambda x: native(ctx, x), out, is_leaf=lambda x: isinstance(x, np.ndarray)))
        annotate(out_shardings, out)
        return out

      def lower(self, *a, **k):
        log.append(('lower', a, k))
        return pytypes.SimpleNamespace(compile=lambda *a: self, cost_analysis=lambda: None)

      def compile(self):
        return self

      def cost_analysis(self):
        return None
    return Compiled()
