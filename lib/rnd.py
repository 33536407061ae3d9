"""Environment stub for randomness: jax.random.* returns arbitrary values.

The values are solver variables keyed by the (concrete) PRNG key and shape, so
equal keys give equal draws and different keys give unrelated draws.
"""
import contextlib
import math
import numpy as np
import jax
import jax.numpy as jnp
from jax.interpreters import batching, mlir
from jax.extend.core import Primitive
from jax.core import ShapedArray
from . import sx, jx

stub_random_p = Primitive('stub_random')


def _abs(key, *, shape, dtype, kind):
  return ShapedArray(key.shape[:-1] + shape, np.dtype(dtype))


stub_random_p.def_abstract_eval(_abs)


def _batch(args, dims, *, shape, dtype, kind):
  (key,), (d,) = args, dims
  key = jnp.moveaxis(key, d, 0)
  return stub_random_p.bind(key, shape=shape, dtype=dtype, kind=kind), 0


batching.primitive_batchers[stub_random_p] = _batch


def _lookup(key, shape, dtype, kind):
  ctx = sx.CTX
  table = ctx.stub_values
  k = (tuple(int(x) for x in key), shape, kind)
  if ctx.mode == 'validate':
    if k not in ctx.val_stub:
      o = np.empty(shape, dtype=object)
      for i in np.ndindex(*shape):
        o[i] = sx.Fr(ctx.rng.randint(1, 63), 64)
      ctx.val_stub[k] = o
    return ctx.val_stub[k]
  ctx.stub_log.append(k)
  if k not in table:
    name = 'rnd_%s_%s_%s' % (kind, '_'.join('%x' % v for v in k[0]), 'x'.join(map(str, shape)))
    if ctx.mode == 'replay' and name not in ctx.values:
      # A draw whose value nothing depended on in the symbolic run.
      table[k] = np.empty(shape, dtype=object)
      table[k][...] = sx.Fr(1, 2)
    elif kind == 'unit':
      table[k] = ctx.arr(name, shape, dtype='float32', lo=0, lt=1)
    elif kind == 'closedunit':
      table[k] = ctx.arr(name, shape, dtype='float32', lo=0, hi=1)
    else:
      table[k] = ctx.arr(name, shape, dtype='float32')
  return table[k]


def _gather_vals(key, shape, dtype, kind):
  key = np.asarray(key)
  bshape = key.shape[:-1]
  out = np.empty(bshape + shape, dtype=object)
  for b in np.ndindex(*bshape):
    out[b] = _lookup(key[b], shape, dtype, kind) if shape else _lookup(key[b], shape, dtype, kind)[()]
  return out


def _hook(vals, p):
  if jx.is_sym(vals[0]):
    raise sx.Unsupported('symbolic PRNG key')
  return _gather_vals(vals[0], p['shape'], p['dtype'], p['kind'])


jx.RANDOM_HOOK = _hook


def _impl(key, *, shape, dtype, kind):
  o = _gather_vals(np.asarray(key), shape, dtype, kind)
  a = np.empty(o.shape, dtype=np.float64)
  for i in np.ndindex(*o.shape):
    a[i] = float(o[i])
  return jnp.asarray(a, dtype=dtype)


stub_random_p.def_impl(_impl)


def _lowered(key, *, shape, dtype, kind):
  # Inside compiled loops the stub is a host callback.
  aval = _abs(key, shape=shape, dtype=dtype, kind=kind)
  return jax.pure_callback(
      lambda k: np.asarray([float(v) for v in _gather_vals(np.asarray(k), shape, dtype, kind).ravel()], aval.dtype).reshape(aval.shape),
      jax.ShapeDtypeStruct(aval.shape, aval.dtype), key)


mlir.register_lowering(stub_random_p, mlir.lower_fun(_lowered, multiple_results=False))


def _key(key):
  if jnp.issubdtype(key.dtype, jax.dtypes.prng_key):
    return jax.random.key_data(key)
  return key


def normal(key, shape=(), dtype=None, **kw):
  return stub_random_p.bind(_key(key), shape=tuple(shape), dtype=str(np.dtype(dtype or 'float32')) if str(dtype) != 'bfloat16' else 'float32', kind='normal')


def uniform(key, shape=(), dtype=None, minval=0., maxval=1., **kw):
  u = stub_random_p.bind(_key(key), shape=tuple(shape), dtype='float32', kind='unit')
  return u * (jnp.asarray(maxval) - minval) + minval


def beta(key, a, b, shape=(), dtype=None, **kw):
  return stub_random_p.bind(_key(key), shape=tuple(shape or ()), dtype='float32', kind='closedunit')


@contextlib.contextmanager
def random_stub(**extra):
  names = dict(normal=normal, uniform=uniform, beta=beta)
  names.update(extra)
  saved = {k: getattr(jax.random, k) for k in names}
  try:
    for k, v in names.items():
      setattr(jax.random, k, v)
    yield
  finally:
    for k, v in saved.items():
      setattr(jax.random, k, v)
