"""jaxpr -> SMT: interprets the jaxpr traced from the real function.

Concrete operands stay native numpy arrays and are evaluated by the real JAX
primitive; as soon as an operand is symbolic (object array of sx elements) the
rules below build terms.
"""
import functools
import itertools
import math
import numpy as np
import jax
import jax.numpy as jnp
from jax.extend import core as jcore
import z3
from . import sx
from .sx import Fr, Unsupported

MAX_WHILE = 64


def is_sym(x):
  return isinstance(x, np.ndarray) and x.dtype == object


def simple_rational(v, eps):
  """Nearest simple rational to a float constant (its real-number reading)."""
  f = Fr(v)
  if f == 0 or f.denominator <= 4096:
    return f.numerator if f.denominator == 1 else f
  for den in (12, 100, 1000, 10**4, 10**6):
    g = f.limit_denominator(den)
    if g != 0 and abs(g - f) <= abs(f) * eps:
      return g.numerator if g.denominator == 1 else g
  return f


_EPS = {'float32': Fr(1, 2**22), 'float64': Fr(1, 2**50), 'bfloat16': Fr(1, 2**8),
        'float16': Fr(1, 2**10)}


def lift(x):
  """Native array -> object array of sx numbers."""
  if is_sym(x):
    return x
  x = np.asarray(x)
  name = x.dtype.name
  out = np.empty(x.shape, dtype=object)
  for i in np.ndindex(*x.shape):
    v = x[i]
    if name == 'bool':
      out[i] = bool(v)
    elif name.startswith(('int', 'uint')):
      out[i] = int(v)
    else:
      v = float(v)
      out[i] = v if (math.isinf(v) or math.isnan(v)) else simple_rational(
          v, _EPS.get(name, Fr(1, 2**22)))
  return out


def vmap1(f, *arrs):
  arrs = [lift(a) for a in arrs]
  shape = np.broadcast_shapes(*[a.shape for a in arrs])
  arrs = [np.broadcast_to(a, shape) for a in arrs]
  out = np.empty(shape, dtype=object)
  for i in np.ndindex(*shape):
    out[i] = f(*[a[i] for a in arrs])
  return out


def kind(dt):
  dt = np.dtype(dt) if not str(dt) == 'bfloat16' else dt
  s = str(dt)
  if s == 'bool':
    return 'b'
  if s.startswith(('int', 'uint')):
    return 'i'
  if s.startswith(('float', 'bfloat')):
    return 'f'
  return 'o'


# ------------------------------------------------------------------ interpreter
def trace(fn, *args, **kw):
  """args: pytrees whose leaves are arrays (object or native) with dtype info."""
  closed, out_shape = jax.make_jaxpr(fn, return_shape=True)(*args, **kw)
  from jax.interpreters import partial_eval as pe
  jaxpr, _ = pe.dce_jaxpr(closed.jaxpr, [True] * len(closed.jaxpr.outvars), instantiate=True)
  return closed.replace(jaxpr=jaxpr), out_shape


def all_concrete(vals):
  return not any(is_sym(v) for v in vals)


def bind_concrete(eqn, vals):
  subfuns, params = eqn.primitive.get_bind_params(eqn.params)
  outs = eqn.primitive.bind(*subfuns, *[_tojax(v) for v in vals], **params)
  if not eqn.primitive.multiple_results:
    outs = [outs]
  return [_fromjax(o) for o in outs]


def _tojax(v):
  if isinstance(v, np.ndarray):
    return jnp.asarray(v)
  return v


def _fromjax(o):
  if isinstance(o, jax.Array) and not jnp.issubdtype(o.dtype, jax.dtypes.extended):
    return np.asarray(o)
  return o


class Interp:

  def __init__(self, force_symbolic=False):
    self.prims = set()
    self.n_eqns = 0

  def eval_closed(self, closed, args):
    return self.eval(closed.jaxpr, closed.consts, args)

  def eval(self, jaxpr, consts, args):
    env = {}

    def read(v):
      if isinstance(v, jcore.Literal):
        return np.asarray(v.val) if not isinstance(v.val, jax.Array) else np.asarray(v.val)
      return env[v]

    def write(v, val):
      env[v] = val

    for v, c in zip(jaxpr.constvars, consts):
      write(v, _fromjax(c) if isinstance(c, jax.Array) else c)
    for v, a in zip(jaxpr.invars, args):
      write(v, a)
    for eqn in jaxpr.eqns:
      vals = [read(v) for v in eqn.invars]
      outs = self.eqn(eqn, vals)
      for v, o in zip(eqn.outvars, outs):
        if isinstance(o, np.ndarray) and hasattr(v.aval, 'shape') and (
            o.shape != tuple(v.aval.shape)):
          raise Unsupported('shape mismatch in %s: %s vs %s' % (
              eqn.primitive.name, o.shape, v.aval.shape))
        write(v, o)
    return [read(v) for v in jaxpr.outvars]

  def eqn(self, eqn, vals):
    name = eqn.primitive.name
    self.prims.add(name)
    self.n_eqns += 1
    p = eqn.params
    # Higher-order primitives.
    if name in ('pjit', 'jit', 'closed_call', 'core_call', 'remat', 'remat2',
                'checkpoint', 'custom_jvp_call', 'custom_vjp_call',
                'custom_vjp_call_jaxpr', 'core_closed_call', 'custom_lin') or (name == 'shard_map' and p['mesh'].size == 1):
      if name == 'custom_jvp_call' and sx.CTX.exp_split and 'logaddexp at ' in str(p['call_jaxpr'].jaxpr.debug_info.func_src_info) and sx.CTX.mode == 'sym' and not all_concrete(vals):
        # jnp.logaddexp, without its numerical safeguards.
        return [vmap1(lambda a, b: _trans('log', sx.add(_trans('exp', a), _trans('exp', b))), *vals)]
      sub = p.get('jaxpr') or p.get('call_jaxpr') or p.get('fun_jaxpr')
      if hasattr(sub, 'consts'):
        return self.eval(sub.jaxpr, sub.consts, vals)
      return self.eval(sub, (), vals)
    if name == 'stub_random':
      return [RANDOM_HOOK(vals, p)]
    exact = sx.CTX is not None and sx.CTX.exp_split and sx.CTX.mode == 'sym' and name in ('log', 'log1p')
    if all_concrete(vals) and name not in ('while', 'scan', 'cond', 'iota') and not exact:
      return bind_concrete(eqn, vals)
    if name == 'while':
      return self.while_(p, vals)
    if name == 'scan':
      return self.scan_(p, vals)
    if name == 'cond':
      return self.cond_(p, vals)
    if name == 'iota':
      return bind_concrete(eqn, vals)
    rule = RULES.get(name)
    if rule is None:
      raise Unsupported('primitive %s' % name)
    out = rule(eqn, *vals, **p)
    if isinstance(out, (list, tuple)):
      return list(out)
    return [out]

  def while_(self, p, vals):
    cn, bn = p['cond_nconsts'], p['body_nconsts']
    cc, bc, carry = vals[:cn], vals[cn:cn + bn], list(vals[cn + bn:])
    cond, body = p['cond_jaxpr'], p['body_jaxpr']
    done = False
    limit = getattr(sx.CTX, 'max_while', MAX_WHILE)
    for it in range(limit + 1):
      (c,) = self.eval_closed(cond, cc + carry)
      c = lift(c)
      if c.shape != ():
        raise Unsupported('batched while predicate')
      c = c[()]
      if isinstance(c, bool) and not c:
        return carry
      if not isinstance(c, bool):
        # Symbolic trip count: stop when infeasible.
        if not sx.CTX.feasible(c):
          return carry
        if it == limit:
          raise Unsupported('unwinding bound of while loop reached')
        new = self.eval_closed(body, bc + carry)
        carry = [vmap1(lambda a, b: sx.ite(c, a, b), n, o)
                 for n, o in zip(new, carry)]
      else:
        if it == limit and limit < 4096:
          limit_ok = it < 4096
          if not limit_ok:
            raise Unsupported('while bound')
        carry = self.eval_closed(body, bc + carry)
    # Concrete trip count beyond the limit: continue up to 4096.
    for it in range(4096):
      (c,) = self.eval_closed(cond, cc + carry)
      c = lift(c)[()]
      if not isinstance(c, bool):
        raise Unsupported('unwinding bound of while loop reached')
      if not c:
        return carry
      carry = self.eval_closed(body, bc + carry)
    raise Unsupported('unwinding bound of while loop reached')

  def scan_(self, p, vals):
    nc, nk = p['num_consts'], p['num_carry']
    consts, carry, xs = vals[:nc], list(vals[nc:nc + nk]), vals[nc + nk:]
    length, rev, body = p['length'], p['reverse'], p['jaxpr']
    ys = []
    order = range(length - 1, -1, -1) if rev else range(length)
    for i in order:
      out = self.eval_closed(body, consts + carry + [x[i] if isinstance(x, np.ndarray) and x.dtype != object else _idx(x, i) for x in xs])
      carry, y = out[:nk], out[nk:]
      ys.append(y)
    if rev:
      ys = ys[::-1]
    n_ys = len(body.jaxpr.outvars) - nk
    stacked = []
    for j in range(n_ys):
      col = [y[j] for y in ys]
      if any(is_sym(c) for c in col):
        col = [lift(c) for c in col]
      if col:
        stacked.append(np.stack(col, 0))
      else:
        av = body.jaxpr.outvars[nk + j].aval
        stacked.append(np.zeros((0,) + tuple(av.shape), av.dtype))
    return carry + stacked

  def cond_(self, p, vals):
    idx, ops = vals[0], vals[1:]
    branches = p['branches']
    idx = lift(idx)[()]
    if isinstance(idx, (bool, int)):
      i = min(max(int(idx), 0), len(branches) - 1)
      return self.eval_closed(branches[i], list(ops))
    outs = [self.eval_closed(b, list(ops)) for b in branches]
    res = outs[-1]
    for i in range(len(branches) - 2, -1, -1):
      c = sx.eq(idx, i) if i > 0 else sx.le(idx, 0)
      if isinstance(idx, z3.BoolRef):
        c = sx.bnot(idx) if i == 0 else idx
      res = [vmap1(lambda a, b: sx.ite(c, a, b), x, y)
             for x, y in zip(outs[i], res)]
    return res


def _idx(x, i):
  y = x[i]
  if not isinstance(y, np.ndarray):
    z = np.empty((), dtype=object)
    z[()] = y
    return z
  return y


# -------------------------------------------------------------------- the rules
RULES = {}
RANDOM_HOOK = None


def rule(*names):
  def deco(f):
    for n in names:
      RULES[n] = f
    return f
  return deco


def _ew(name, f):
  RULES[name] = lambda eqn, *xs, **p: vmap1(f, *xs)


def _out_kind(eqn):
  return kind(eqn.outvars[0].aval.dtype)


_ew('add', sx.add)
_ew('add_any', sx.add)
_ew('sub', sx.sub)
_ew('mul', sx.mul)
_ew('neg', sx.neg)
_ew('max', sx.smax)
_ew('min', sx.smin)
_ew('abs', sx.sabs)
_ew('sign', sx.sign)
_ew('floor', sx.floor)
_ew('ceil', sx.ceil)
_ew('square', lambda a: sx.mul(a, a))
_ew('lt', sx.lt)
_ew('le', sx.le)
_ew('gt', sx.gt)
_ew('ge', sx.ge)
_ew('eq', sx.eq)
_ew('ne', sx.ne)
_ew('lt_to', sx.lt)
_ew('le_to', sx.le)
_ew('is_finite', lambda a: not (isinstance(a, float) and (math.isinf(a) or math.isnan(a))))
_ew('stop_gradient', lambda a: a)
_ew('copy', lambda a: a)
_ew('copy_p', lambda a: a)
_ew('real', lambda a: a)
_ew('optimization_barrier', lambda a: a)
for _n in ('exp', 'log', 'log1p', 'expm1', 'tanh', 'logistic', 'erf', 'erfc',
           'erf_inv', 'sqrt', 'rsqrt', 'sin', 'cos', 'exp2', 'cbrt', 'tan', 'lgamma', 'digamma'):
  RULES[_n] = functools.partial(
      lambda eqn, x, _nm=None, **p: vmap1(lambda a: _trans(_nm, a), x), _nm=_n)


def _trans(name, a):
  if name == 'rsqrt' and isinstance(a, sx.FD) and all(not isinstance(v, float) and v > 0 for v in a.m):
    return sx.fd_map1(lambda v: Fr(1 / math.sqrt(v)), a)
  if name == 'rsqrt':
    return sx.div(1, _trans('sqrt', a))
  if name == 'expm1':
    return sx.sub(_trans('exp', a), 1)
  if name == 'log1p':
    return _trans('log', sx.add(1, a))
  if name == 'erfc':
    return sx.sub(1, _trans('erf', a))
  if name == 'logistic':
    return sx.uf('logistic', a)
  return sx.uf(name, a)


@rule('optimization_barrier')
def _ob(eqn, *xs, **p):
  return list(xs)


@rule('sharding_constraint', 'reduce_precision', 'device_put', 'mesh_cast', 'pvary', 'copy_start', 'name')
def _ident(eqn, *xs, **p):
  return list(xs)


@rule('div')
def _div(eqn, a, b, **p):
  if _out_kind(eqn) == 'i':
    return vmap1(sx.idiv_trunc, a, b)
  return vmap1(sx.div, a, b)


@rule('rem')
def _rem(eqn, a, b, **p):
  return vmap1(sx.irem, a, b)


@rule('round')
def _round(eqn, a, rounding_method=None, **p):
  if int(rounding_method) == 1:
    return vmap1(sx.round_half_even, a)
  return vmap1(sx.round_half_away, a)


@rule('integer_pow')
def _ipow(eqn, a, y, **p):
  return vmap1(lambda v: sx.ipow(v, y), a)


@rule('pow')
def _pow(eqn, a, b, **p):
  def f(x, y):
    if isinstance(y, sx.NUM) and Fr(y).denominator == 1 and abs(y) <= 16:
      return sx.ipow(x, int(y))
    if isinstance(y, sx.NUM) and Fr(y).denominator == 2 and abs(y) <= 8:
      return sx.ipow(_trans('sqrt', x), int(2 * Fr(y)))
    if isinstance(x, sx.NUM) and isinstance(y, sx.NUM):
      return sx.norm_num(float(x) ** float(y))
    if isinstance(y, sx.FD) and all(Fr(v).denominator == 1 for v in y.m) and len(y.m) <= 64:
      r = None
      for v, g in y.m.items():
        t = sx.ipow(x, int(v))
        r = t if r is None else sx.ite(g, t, r)
      return r
    if isinstance(x, sx.NUM) and x > 0 and not isinstance(y, sx.NUM):
      return _trans('exp', sx.mul(sx.norm_num(Fr(math.log(x))), y))
    raise Unsupported('pow with symbolic exponent')
  return vmap1(f, a, b)


@rule('clamp')
def _clamp(eqn, lo, x, hi, **p):
  return vmap1(lambda l, v, h: sx.smin(sx.smax(v, l), h), lo, x, hi)


@rule('and')
def _and(eqn, a, b, **p):
  if _out_kind(eqn) != 'b':
    raise Unsupported('bitwise and')
  return vmap1(sx.band, a, b)


@rule('or')
def _or(eqn, a, b, **p):
  if _out_kind(eqn) != 'b':
    raise Unsupported('bitwise or')
  return vmap1(sx.bor, a, b)


@rule('xor')
def _xor(eqn, a, b, **p):
  if _out_kind(eqn) != 'b':
    raise Unsupported('bitwise xor')
  return vmap1(sx.bxor, a, b)


@rule('not')
def _not(eqn, a, **p):
  if _out_kind(eqn) != 'b':
    return vmap1(lambda v: sx.sub(-1, v), a)
  return vmap1(lambda v: sx.bnot(sx.to_bool(v)), a)


@rule('select_n')
def _select_n(eqn, which, *cases, **p):
  cases = [lift(c) for c in cases]
  which = lift(which)

  def f(w, *cs):
    if len(cs) == 2:
      if isinstance(w, (bool, z3.BoolRef)):
        return sx.ite(w, cs[1], cs[0])
    r = cs[-1]
    for i in range(len(cs) - 2, -1, -1):
      r = sx.ite(sx.eq(w, i), cs[i], r)
    return r
  return vmap1(f, which, *cases)


@rule('convert_element_type')
def _convert(eqn, x, new_dtype=None, **p):
  src, dst = kind(eqn.invars[0].aval.dtype), kind(new_dtype)
  x = lift(x)
  if dst == 'b':
    return vmap1(sx.to_bool, x)
  if src == 'b':
    return vmap1(lambda v: (int(v) if isinstance(v, bool) else sx.as_fd(v)), x)
  if src == 'f' and dst == 'i':
    return vmap1(sx.trunc, x)
  if src == 'i' and dst == 'f':
    return vmap1(lambda v: (z3.ToReal(v) if isinstance(v, z3.ArithRef) and v.is_int() else v), x)
  return x


@rule('broadcast_in_dim')
def _bcast(eqn, x, *dyn, shape, broadcast_dimensions, **p):
  x = lift(x)
  tmp = [1] * len(shape)
  for i, d in enumerate(broadcast_dimensions):
    tmp[d] = x.shape[i]
  return np.broadcast_to(x.reshape(tmp), shape)


@rule('reshape')
def _reshape(eqn, x, *dyn, new_sizes, dimensions=None, **p):
  x = lift(x)
  if dimensions is not None:
    x = x.transpose(dimensions)
  return x.reshape(new_sizes)


@rule('squeeze')
def _squeeze(eqn, x, dimensions, **p):
  return lift(x).reshape(eqn.outvars[0].aval.shape)


@rule('expand_dims')
def _expand(eqn, x, **p):
  return lift(x).reshape(eqn.outvars[0].aval.shape)


@rule('transpose')
def _transpose(eqn, x, permutation, **p):
  return lift(x).transpose(permutation)


@rule('concatenate')
def _concat(eqn, *xs, dimension, **p):
  return np.concatenate([lift(x) for x in xs], axis=dimension)


@rule('split')
def _split(eqn, x, sizes, axis, **p):
  return np.split(lift(x), np.cumsum(sizes)[:-1], axis=axis)


@rule('rev')
def _rev(eqn, x, dimensions, **p):
  return np.flip(lift(x), dimensions)


@rule('slice')
def _slice(eqn, x, start_indices, limit_indices, strides=None, **p):
  strides = strides or (1,) * len(start_indices)
  return lift(x)[tuple(slice(a, b, s) for a, b, s in
                       zip(start_indices, limit_indices, strides))]


@rule('pad')
def _pad(eqn, x, val, padding_config, **p):
  x, val = lift(x), lift(val)[()]
  out = np.empty(eqn.outvars[0].aval.shape, dtype=object)
  out.fill(val)
  for i in np.ndindex(*x.shape):
    j = tuple(lo + k * (inner + 1) for k, (lo, hi, inner) in zip(i, padding_config))
    if all(0 <= a < n for a, n in zip(j, out.shape)):
      out[j] = x[i]
  return out


def _cands(idx, lo, hi):
  """[(value, guard)] of idx clamped into [lo, hi]."""
  if isinstance(idx, sx.NUM):
    return [(min(max(int(idx), lo), hi), True)]
  f = sx.as_fd(idx)
  out = {}
  if f is not None:
    for v, g in f.m.items():
      out.setdefault(min(max(int(v), lo), hi), []).append(g)
    return [(v, sx.bor(*gs)) for v, gs in out.items()]
  res = []
  for v in range(lo, hi + 1):
    if v == lo and v == hi:
      g = True
    elif v == lo:
      g = sx.le(idx, v)
    elif v == hi:
      g = sx.ge(idx, v)
    else:
      g = sx.eq(idx, v)
    res.append((v, g))
  return res


def _cands_drop(idx, lo, hi):
  """[(value, guard)] of idx restricted to [lo, hi] (out of range dropped)."""
  if isinstance(idx, sx.NUM):
    return [(int(idx), True)] if lo <= idx <= hi else []
  f = sx.as_fd(idx)
  if f is not None:
    return [(int(v), g) for v, g in f.m.items() if lo <= v <= hi]
  return [(v, sx.eq(idx, v)) for v in range(lo, hi + 1)]


@rule('dynamic_slice')
def _dynslice(eqn, x, *starts, slice_sizes, **p):
  x = lift(x)
  cs = [_cands(lift(s)[()], 0, x.shape[i] - slice_sizes[i])
        for i, s in enumerate(starts)]
  res = None
  for combo in itertools.product(*cs):
    sl = x[tuple(slice(v, v + n) for (v, _), n in zip(combo, slice_sizes))]
    g = sx.band(*[g for _, g in combo])
    res = sl if res is None else vmap1(lambda a, b: sx.ite(g, a, b), sl, res)
  return res


@rule('dynamic_update_slice')
def _dynupd(eqn, x, upd, *starts, **p):
  x, upd = lift(x), lift(upd)
  cs = [_cands(lift(s)[()], 0, x.shape[i] - upd.shape[i])
        for i, s in enumerate(starts)]
  out = x.copy()
  for combo in itertools.product(*cs):
    g = sx.band(*[g for _, g in combo])
    base = [v for v, _ in combo]
    for i in np.ndindex(*upd.shape):
      j = tuple(a + b for a, b in zip(base, i))
      out[j] = sx.ite(g, upd[i], out[j])
  return out


@rule('gather')
def _gather(eqn, operand, indices, dimension_numbers, slice_sizes, mode=None,
            fill_value=None, **p):
  operand, indices = lift(operand), lift(indices)
  dn = dimension_numbers
  out_shape = eqn.outvars[0].aval.shape
  offset = list(dn.offset_dims)
  batch_out = [d for d in range(len(out_shape)) if d not in offset]
  obd = list(getattr(dn, 'operand_batching_dims', ()))
  sbd = list(getattr(dn, 'start_indices_batching_dims', ()))
  window_dims = [d for d in range(operand.ndim)
                 if d not in dn.collapsed_slice_dims and d not in obd]
  fill = 'FILL' in str(mode).upper()
  out = np.empty(out_shape, dtype=object)
  cache = {}
  for o in np.ndindex(*out_shape):
    b = tuple(o[d] for d in batch_out)
    if b not in cache:
      vec = indices[b]
      vec = [vec] if not isinstance(vec, np.ndarray) else list(vec)
      cs = []
      for k, d in enumerate(dn.start_index_map):
        hi = operand.shape[d] - slice_sizes[d]
        cs.append(_cands_drop(vec[k], 0, hi) if fill else _cands(vec[k], 0, hi))
      combos = [(tuple(v for v, _ in c), sx.band(*[g for _, g in c]))
                for c in itertools.product(*cs)]
      oob = False
      if fill:
        inb = sx.band(*[sx.band(sx.ge(vec[k], 0), sx.le(
            vec[k], operand.shape[d] - slice_sizes[d]))
                        for k, d in enumerate(dn.start_index_map)])
        oob = sx.bnot(inb)
      cache[b] = (combos, oob)
    combos, oob = cache[b]
    win = [o[d] for d in offset]
    base = [0] * operand.ndim
    for d, w in zip(window_dims, win):
      base[d] = w
    for d, s in zip(obd, sbd):
      base[d] = b[s]
    r = None
    for vs, g in combos:
      j = list(base)
      for d, v in zip(dn.start_index_map, vs):
        j[d] += v
      e = operand[tuple(j)]
      r = e if r is None else sx.ite(g, e, r)
    if oob is not False:
      if oob is True or r is None:
        r = _fill_value(eqn, fill_value)
      elif sx.CTX.feasible(oob):
        r = sx.ite(oob, _fill_value(eqn, fill_value), r)
    out[o] = r
  return out


def _fill_value(eqn, fill_value):
  k = _out_kind(eqn)
  if fill_value is not None:
    return sx.norm_num(fill_value)
  if k == 'f':
    return sx.CTX.fresh_real('oob_fill')   # NaN in reality: arbitrary value.
  if k == 'b':
    return True
  return -2**31


def _scatter(combine):
  def f(eqn, operand, indices, updates, dimension_numbers, mode=None, **p):
    operand, indices, updates = lift(operand), lift(indices), lift(updates)
    dn = dimension_numbers
    uwd = list(dn.update_window_dims)
    obd = list(getattr(dn, 'operand_batching_dims', ()))
    sbd = list(getattr(dn, 'scatter_indices_batching_dims', ()))
    window_dims = [d for d in range(operand.ndim)
                   if d not in dn.inserted_window_dims and d not in obd]
    scatter_u = [d for d in range(updates.ndim) if d not in uwd]
    clip = 'CLIP' in str(mode).upper()
    win_size = {d: updates.shape[u] for d, u in zip(window_dims, uwd)}
    out = operand.copy()
    for u in np.ndindex(*updates.shape):
      b = tuple(u[d] for d in scatter_u)
      vec = indices[b]
      vec = [vec] if not isinstance(vec, np.ndarray) else list(vec)
      cs = []
      for k, d in enumerate(dn.scatter_dims_to_operand_dims):
        hi = operand.shape[d] - win_size.get(d, 1)
        cs.append(_cands(vec[k], 0, hi) if clip else _cands_drop(vec[k], 0, hi))
      base = [0] * operand.ndim
      for d, w in zip(window_dims, [u[d] for d in uwd]):
        base[d] = w
      for d, s in zip(obd, sbd):
        base[d] = b[s]
      for c in itertools.product(*cs):
        g = sx.band(*[g for _, g in c])
        j = list(base)
        for d, (v, _) in zip(dn.scatter_dims_to_operand_dims, c):
          j[d] += v
        j = tuple(j)
        out[j] = combine(g, out[j], updates[u])
    return out
  return f


RULES['scatter-add'] = RULES['scatter_add'] = _scatter(
    lambda g, o, u: sx.add(o, sx.ite(g, u, 0)))
RULES['scatter'] = _scatter(lambda g, o, u: sx.ite(g, u, o))
RULES['scatter-mul'] = RULES['scatter_mul'] = _scatter(
    lambda g, o, u: sx.ite(g, sx.mul(o, u), o))
RULES['scatter-max'] = RULES['scatter_max'] = _scatter(
    lambda g, o, u: sx.ite(g, sx.smax(o, u), o))
RULES['scatter-min'] = RULES['scatter_min'] = _scatter(
    lambda g, o, u: sx.ite(g, sx.smin(o, u), o))


def _reduce(x, axes, f):
  x = lift(x)
  axes = tuple(sorted(axes))
  rest = [d for d in range(x.ndim) if d not in axes]
  y = x.transpose(rest + list(axes)).reshape([x.shape[d] for d in rest] + [-1])
  out = np.empty(y.shape[:-1], dtype=object)
  for i in np.ndindex(*out.shape):
    out[i] = f(list(y[i]))
  return out


RULES['reduce_sum'] = lambda eqn, x, axes, **p: _reduce(x, axes, sx.sumall)


def _rmax(l):
  r = functools.reduce(sx.smax, l)
  if sx.CTX is not None:
    sx.CTX.note_shift(r)
  return r


RULES['reduce_max'] = lambda eqn, x, axes, **p: _reduce(x, axes, _rmax)
RULES['reduce_min'] = lambda eqn, x, axes, **p: _reduce(
    x, axes, lambda l: functools.reduce(sx.smin, l))
RULES['reduce_prod'] = lambda eqn, x, axes, **p: _reduce(
    x, axes, lambda l: functools.reduce(sx.mul, l, 1))
RULES['reduce_and'] = lambda eqn, x, axes, **p: _reduce(
    x, axes, lambda l: sx.band(*l))
RULES['reduce_or'] = lambda eqn, x, axes, **p: _reduce(
    x, axes, lambda l: sx.bor(*l))
RULES['reduce_xor'] = lambda eqn, x, axes, **p: _reduce(
    x, axes, lambda l: functools.reduce(sx.bxor, l))


def _arg(better):
  def f(eqn, x, axes, **p):
    def g(l):
      fd = {}
      for i, v in enumerate(l):
        conds = [better(v, w, j < i) for j, w in enumerate(l) if j != i]
        c = sx.band(*conds)
        if c is True:
          return i
        if c is not False:
          fd[i] = sx.zb(c)
      return sx.mk_fd(fd)
    return _reduce(x, axes, g)
  return f


RULES['argmax'] = _arg(lambda v, w, earlier: sx.gt(v, w) if earlier else sx.ge(v, w))
RULES['argmin'] = _arg(lambda v, w, earlier: sx.lt(v, w) if earlier else sx.le(v, w))


def _cum(f):
  def g(eqn, x, axis, reverse=False, **p):
    x = lift(x)
    if reverse:
      x = np.flip(x, axis)
    y = np.moveaxis(x, axis, 0)
    out = np.empty(y.shape, dtype=object)
    for r in np.ndindex(*y.shape[1:]):
      acc = None
      for i in range(y.shape[0]):
        acc = y[(i,) + r] if acc is None else f(acc, y[(i,) + r])
        out[(i,) + r] = acc
    out = np.moveaxis(out, 0, axis)
    return np.flip(out, axis) if reverse else out
  return g


RULES['cumsum'] = _cum(sx.add)
RULES['cumprod'] = _cum(sx.mul)
RULES['cummax'] = _cum(sx.smax)
RULES['cummin'] = _cum(sx.smin)


def _name(b):
  """Names a non-trivial guard so that shared DAGs stay shallow."""
  return b


def rank_guards(before, n):
  """before(j, i) -> element j strictly precedes i. Returns R[k][i] guards."""
  # rank_i = number of elements before i, as an FD.
  ranks = []
  for i in range(n):
    r = 0
    for j in range(n):
      if j == i:
        continue
      c = before(j, i)
      r = sx.add(r, int(c) if isinstance(c, bool) else sx.as_fd(c))
    ranks.append(r)
  out = []
  for k in range(n):
    out.append([sx.eq(ranks[i], k) for i in range(n)])
  return out


def _pick(guards, vals):
  r = None
  for g, v in zip(guards, vals):
    if g is False:
      continue
    if g is True:
      return v
    r = v if r is None else sx.ite(g, v, r)
  return r


@rule('top_k')
def _top_k(eqn, x, k, axis=-1, **p):
  x = lift(x)
  x = np.moveaxis(x, axis, -1)
  n = x.shape[-1]
  vals = np.empty(x.shape[:-1] + (k,), dtype=object)
  idxs = np.empty(x.shape[:-1] + (k,), dtype=object)
  for b in np.ndindex(*x.shape[:-1]):
    row = list(x[b])
    memo = {}

    def gt(j, i):  # x_j > x_i or equal and j < i
      if (j, i) not in memo:
        if j < i:
          c = sx.ge(row[j], row[i])
          memo[(j, i)] = c
          memo[(i, j)] = sx.bnot(c)
        else:
          gt(i, j)
      return memo[(j, i)]
    R = rank_guards(gt, n)
    for q in range(k):
      vals[b + (q,)] = _pick(R[q], row)
      m = {i: sx.zb(g) for i, g in enumerate(R[q]) if g is not False}
      idxs[b + (q,)] = (next(i for i, g in enumerate(R[q]) if g is True)
                        if any(g is True for g in R[q]) else sx.mk_fd(m))
  return [np.moveaxis(vals, -1, axis), np.moveaxis(idxs, -1, axis)]


@rule('sort')
def _sort(eqn, *xs, dimension, is_stable=True, num_keys=1, **p):
  xs = [np.moveaxis(lift(x), dimension, -1) for x in xs]
  n = xs[0].shape[-1]
  outs = [np.empty(x.shape, dtype=object) for x in xs]
  for b in np.ndindex(*xs[0].shape[:-1]):
    rows = [list(x[b]) for x in xs]
    memo = {}

    def before(j, i):
      if (j, i) not in memo:
        if j < i:
          # j before i iff key_j <= key_i lexicographically.
          c = True
          for r in reversed(rows[:num_keys]):
            c = sx.bor(sx.lt(r[j], r[i]), sx.band(sx.eq(r[j], r[i]), c))
          if num_keys == 1:
            c = sx.le(rows[0][j], rows[0][i])
          memo[(j, i)] = c
          memo[(i, j)] = sx.bnot(c)
        else:
          before(i, j)
      return memo[(j, i)]
    R = rank_guards(before, n)
    for q in range(n):
      for o, r in zip(outs, rows):
        o[b + (q,)] = _pick(R[q], r)
  return [np.moveaxis(o, -1, dimension) for o in outs]


@rule('dot_general')
def _dot(eqn, a, b, dimension_numbers, **p):
  a, b = lift(a), lift(b)
  (ca, cb), (ba, bb) = dimension_numbers
  fa = [d for d in range(a.ndim) if d not in ca and d not in ba]
  fb = [d for d in range(b.ndim) if d not in cb and d not in bb]
  A = a.transpose(list(ba) + fa + list(ca))
  B = b.transpose(list(bb) + fb + list(cb))
  bs = [a.shape[d] for d in ba]
  fas = [a.shape[d] for d in fa]
  fbs = [b.shape[d] for d in fb]
  n = int(np.prod([a.shape[d] for d in ca])) if ca else 1
  A = A.reshape(bs + [int(np.prod(fas)), n])
  B = B.reshape(bs + [int(np.prod(fbs)), n])
  out = np.empty(bs + [A.shape[-2], B.shape[-2]], dtype=object)
  for i in np.ndindex(*bs):
    for x in range(A.shape[-2]):
      for y in range(B.shape[-2]):
        out[i + (x, y)] = sx.sumall(
            sx.mul(_num(A[i + (x, k)]), _num(B[i + (y, k)])) for k in range(n))
  return out.reshape(bs + fas + fbs)


def _num(v):
  if isinstance(v, bool):
    return int(v)
  if isinstance(v, z3.BoolRef):
    return sx.as_fd(v)
  return v


@rule('conv_general_dilated')
def _conv(eqn, lhs, rhs, window_strides, padding, lhs_dilation, rhs_dilation,
          dimension_numbers, feature_group_count=1, batch_group_count=1, **p):
  if any(d != 1 for d in tuple(lhs_dilation) + tuple(rhs_dilation)) or (
      feature_group_count != 1 or batch_group_count != 1):
    raise Unsupported('dilated or grouped convolution')
  ls, rs, os_ = dimension_numbers
  a = np.transpose(lift(lhs), ls)      # N, C, spatial
  b = np.transpose(lift(rhs), rs)      # O, I, spatial
  shape = eqn.outvars[0].aval.shape
  oshape = tuple(shape[d] for d in os_)
  out = np.empty(oshape, dtype=object)
  for i in np.ndindex(*oshape):
    terms = []
    for c in range(a.shape[1]):
      for k in np.ndindex(*b.shape[2:]):
        at = tuple(o * s + kk - pd[0] for o, s, kk, pd in zip(i[2:], window_strides, k, padding))
        if all(0 <= v < n for v, n in zip(at, a.shape[2:])):
          terms.append(sx.mul(a[(i[0], c) + at], b[(i[1], c) + k]))
    out[i] = sx.sumall(terms)
  inv = np.argsort(os_)
  return np.transpose(out, inv)


@rule('split_axis')
def _na(eqn, *a, **p):
  raise Unsupported('split_axis')


@rule('pure_callback')
def _callback(eqn, *xs, callback, result_avals, **p):
  """A host callback that is a linear map of one array (e.g. linear-spline zoom): its exact matrix is read off the real
  callback on the unit vectors; linearity is checked on further vectors."""
  if len(xs) != 1 or len(result_avals) != 1:
    raise Unsupported('pure_callback with several operands')
  x = lift(xs[0])
  dt = eqn.invars[0].aval.dtype
  shape = tuple(result_avals[0].shape)
  call = lambda v: np.asarray(callback(np.asarray(v, dt))[0], np.float64)
  n = x.size
  eye = np.eye(n).reshape((n,) + x.shape)
  cols = [call(e) for e in eye]
  rng = np.random.RandomState(0)
  for _ in range(3):
    v = rng.randint(-8, 9, size=x.shape)
    got = call(v)
    if got.shape != shape or not np.allclose(got, sum(c * w for c, w in zip(cols, v.ravel())), atol=1e-3):
      raise Unsupported('pure_callback is not linear')
  if call(np.zeros(x.shape)).any():
    raise Unsupported('pure_callback is not linear')
  out = np.empty(shape, dtype=object)
  flat = x.ravel()
  for i in np.ndindex(*shape):
    out[i] = sx.sumall(sx.mul(simple_rational(float(c[i]), Fr(1, 2**18)), v) for c, v in zip(cols, flat) if abs(c[i]) > 1e-6)
  return out
