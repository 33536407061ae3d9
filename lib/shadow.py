"""Module-level shadows of builtins so that proxies survive int(), max(), ...

They are installed as globals of the module under test only while it runs
symbolically; on concrete arguments they are the builtins.
"""
import builtins
import contextlib
import math
import numpy as np
from . import sx
from .engine import SNum, SBool, unwrap, wrap


def _symbolic(x):
  return isinstance(x, (SNum, SBool))


class _IntMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, builtins.int) or (
        isinstance(x, SNum) and (isinstance(x.v, (builtins.int, sx.FD)) or (
            hasattr(x.v, 'is_int') and x.v.is_int())))

  def __subclasscheck__(cls, c):
    return issubclass(c, builtins.int)

  def __call__(cls, x=0, *a):
    if _symbolic(x):
      return wrap(sx.trunc(unwrap(x)) if not isinstance(x, SBool) else sx.as_fd(x.v))
    return builtins.int(x, *a)

  def __eq__(cls, o):
    return o is builtins.int or type.__eq__(cls, o)

  def __hash__(cls):
    return hash(builtins.int)


class sint(metaclass=_IntMeta):
  pass


class _FloatMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, builtins.float) or (isinstance(x, SNum) and hasattr(x.v, 'is_real') and x.v.is_real())

  def __call__(cls, x=0.0):
    return x if _symbolic(x) else builtins.float(x)


class sfloat(metaclass=_FloatMeta):
  pass


def _mm(f, bf):
  def g(*args, **kw):
    xs = list(args[0]) if len(args) == 1 else list(args)
    if kw or not any(_symbolic(x) for x in xs):
      return bf(*args, **kw) if len(args) != 1 else bf(xs, **kw)
    r = unwrap(xs[0])
    for x in xs[1:]:
      r = f(r, unwrap(x))
    return wrap(r)
  return g


smax = _mm(sx.smax, builtins.max)
smin = _mm(sx.smin, builtins.min)


class FakeMath:
  """math with symbolic ceil/floor/prod."""

  def __getattr__(self, k):
    return getattr(math, k)

  @staticmethod
  def ceil(x):
    return x.__ceil__() if _symbolic(x) else math.ceil(x)

  @staticmethod
  def floor(x):
    return x.__floor__() if _symbolic(x) else math.floor(x)

  @staticmethod
  def prod(xs, start=1):
    r = start
    for x in xs:
      r = r * x
    return r


@contextlib.contextmanager
def shadow(*modules, **extra):
  """Installs the shadows in the modules' globals."""
  names = dict(int=sint, float=sfloat, max=smax, min=smin)
  names.update(extra)
  saved = []
  try:
    for m in modules:
      for k, v in names.items():
        saved.append((m, k, m.__dict__.get(k, saved)))
        setattr(m, k, v)
    yield
  finally:
    for m, k, v in reversed(saved):
      if v is saved:
        delattr(m, k)
      else:
        setattr(m, k, v)
