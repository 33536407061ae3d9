"""Structural model of msgpack (values stay symbolic): what packb keeps and what unpackb gives back."""
import msgpack as real
from .engine import SNum, SBool


class Packed:
  """Stand-in for the bytes."""

  def __init__(self, v):
    self.v = v


class Ext:
  """ExtType whose payload may be Packed."""

  def __init__(self, code, data):
    if not isinstance(code, int) or not 0 <= code <= 127:
      raise ValueError('code must be 0~127')
    if not isinstance(data, (bytes, Packed)):
      raise TypeError('data must be bytes')
    self.code, self.data = int(code), data


class Msgpack:
  ExtType = Ext

  def __init__(self, atoms=()):
    self.extra = tuple(atoms)

  def __getattr__(self, k):
    return getattr(real, k)

  def packb(self, o, default=None, strict_types=False, use_bin_type=True, **kw):
    def is_(x, t):
      return type(x) is t if strict_types else isinstance(x, t)

    def go(x, hooked=False):
      if x is None or isinstance(x, (SNum, SBool)) or is_(x, bool) or is_(x, int) or is_(x, float):
        return ('a', x)
      if isinstance(x, self.extra):
        return ('x', x)
      if isinstance(x, Packed) or is_(x, bytes):
        return ('bin', x)
      if is_(x, str):
        return ('str', x)
      if is_(x, dict):
        return ('map', [(go(k), go(v)) for k, v in x.items()])
      if isinstance(x, Ext):
        return ('ext', x.code, x.data)
      if (type(x) is list if strict_types else isinstance(x, (list, tuple))):
        return ('arr', [go(y) for y in x])
      if default is not None and not hooked:
        return go(default(x), hooked=True)
      raise TypeError('can not serialize %r object' % type(x).__name__)

    return Packed(go(o))

  def unpackb(self, b, raw=False, ext_hook=None, object_hook=None, strict_map_key=True, **kw):
    def go(x):
      k = x[0]
      if k in ('a', 'x', 'bin'):
        return x[1]
      if k == 'str':
        return x[1].encode() if raw else x[1]
      if k == 'arr':
        return [go(y) for y in x[1]]
      if k == 'map':
        d = {go(a): go(c) for a, c in x[1]}
        return object_hook(d) if object_hook else d
      return (ext_hook or Ext)(x[1], x[2])
    return go(b.v)
