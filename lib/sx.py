"""Symbolic scalars used by the jaxpr interpreter and by the harnesses.

An element of a symbolic array is one of
  * a Python bool / int / Fraction / float (float only for +-inf, nan, or for the
    concrete evaluation mode used in translator validation),
  * a z3 BoolRef / ArithRef,
  * FD: a finite-domain number, i.e. a map {value: guard} whose guards are
    mutually exclusive and exhaustive z3 Booleans (keeps one-hot / index
    arithmetic purely Boolean and multiplication by it linear),
  * Q: a quotient n/d of reals with d > 0.
All operations constant fold.
"""
import math
import fractions
import z3

Fr = fractions.Fraction
NUM = (bool, int, Fr, float)
FD_LIMIT = 400


class Unsupported(Exception):
  """Raised when something is outside what the encoder models."""


class FD:
  __slots__ = ('m',)

  def __init__(self, m):
    self.m = m

  def __repr__(self):
    return 'FD(%s)' % ','.join(str(k) for k in self.m)


class Q:
  __slots__ = ('n', 'd')

  def __init__(self, n, d):
    self.n, self.d = n, d

  def __repr__(self):
    return 'Q(%s / %s)' % (self.n, self.d)


# The active context (set by the engine); provides fresh variables, side
# constraints and entailment queries.
CTX = None


def set_ctx(c):
  global CTX
  CTX = c


def is_num(x):
  return isinstance(x, NUM)


def is_concrete(x):
  return isinstance(x, NUM)


def norm_num(x):
  """Normalises Python / numpy numbers into int, Fraction, bool or +-inf/nan."""
  import numpy as np
  if isinstance(x, (bool, np.bool_)):
    return bool(x)
  if isinstance(x, (int, np.integer)):
    return int(x)
  if isinstance(x, Fr):
    return x.numerator if x.denominator == 1 else x
  if isinstance(x, (float, np.floating)) or hasattr(x, 'dtype'):
    x = float(x)
    if math.isinf(x) or math.isnan(x):
      return x
    f = Fr(x)
    return f.numerator if f.denominator == 1 else f
  raise Unsupported('number %r' % (x,))


def zb(x):
  """To z3 Bool."""
  if isinstance(x, bool):
    return z3.BoolVal(x)
  if isinstance(x, z3.BoolRef):
    return x
  return zb(to_bool(x))


def to_bool(x):
  if isinstance(x, (bool, z3.BoolRef)):
    return x
  if isinstance(x, NUM):
    return x != 0
  return bnot(eq(x, 0))


def zr(x):
  """To a z3 arithmetic term (Real or Int)."""
  if isinstance(x, bool):
    return z3.IntVal(int(x))
  if isinstance(x, int):
    return z3.IntVal(x)
  if isinstance(x, Fr):
    return z3.RealVal(x)
  if isinstance(x, float):
    if math.isinf(x) or math.isnan(x):
      raise Unsupported('inf/nan in an arithmetic term')
    return z3.RealVal(Fr(x))
  if isinstance(x, z3.BoolRef):
    return z3.If(x, z3.IntVal(1), z3.IntVal(0))
  if isinstance(x, z3.ArithRef):
    return x
  if isinstance(x, FD):
    items = list(x.m.items())
    t = zr(items[-1][0])
    for v, g in items[:-1]:
      t = z3.If(g, *_same(zr(v), t))
    return t
  if isinstance(x, Q):
    return CTX.quotient(x.n, x.d)
  raise Unsupported('zr(%r)' % (x,))


def _same(a, b):
  if a.is_int() and b.is_real():
    a = z3.ToReal(a)
  elif b.is_int() and a.is_real():
    b = z3.ToReal(b)
  return a, b


def zreal(x):
  t = zr(x)
  return z3.ToReal(t) if t.is_int() else t


# ---------------------------------------------------------------- booleans
def bnot(a):
  if isinstance(a, bool):
    return not a
  if z3.is_not(a):
    return a.arg(0)
  return z3.Not(a)


def band(*xs):
  out = []
  for x in xs:
    x = to_bool(x)
    if isinstance(x, bool):
      if not x:
        return False
      continue
    out.append(x)
  if not out:
    return True
  return out[0] if len(out) == 1 else z3.And(*out)


def bor(*xs):
  out = []
  for x in xs:
    x = to_bool(x)
    if isinstance(x, bool):
      if x:
        return True
      continue
    out.append(x)
  if not out:
    return False
  return out[0] if len(out) == 1 else z3.Or(*out)


def bxor(a, b):
  a, b = to_bool(a), to_bool(b)
  if isinstance(a, bool):
    return bnot(b) if a else b
  if isinstance(b, bool):
    return bnot(a) if b else a
  return z3.Xor(a, b)


def implies(a, b):
  return bor(bnot(to_bool(a)), b)


def iff(a, b):
  return bnot(bxor(a, b))


def as_fd(x):
  """FD view of x or None."""
  if isinstance(x, FD):
    return x
  if isinstance(x, z3.BoolRef):
    return FD({1: x, 0: bnot(x)})
  if isinstance(x, bool):
    return FD({int(x): z3.BoolVal(True)})
  if isinstance(x, NUM) and not (isinstance(x, float) and math.isnan(x)):
    return FD({x: z3.BoolVal(True)})
  return None


def mk_fd(m):
  m = {k: g for k, g in m.items() if not z3.is_false(g)}
  if len(m) == 1:
    return next(iter(m))
  return FD(m)


def fd_map2(f, a, b):
  """Applies f over two FDs; returns FD/number, or None when too large."""
  if len(a.m) * len(b.m) > FD_LIMIT:
    return None
  out = {}
  for va, ga in a.m.items():
    for vb, gb in b.m.items():
      v = norm_num(f(va, vb))
      g = band(True if z3.is_true(ga) else ga, True if z3.is_true(gb) else gb)
      if g is False:
        continue
      out.setdefault(v, []).append(zb(g))
  if len(out) == 1:
    return next(iter(out))
  return mk_fd({k: (gs[0] if len(gs) == 1 else z3.Or(*gs))
                for k, gs in out.items()})


def fd_map1(f, a):
  out = {}
  for v, g in a.m.items():
    out.setdefault(norm_num(f(v)), []).append(g)
  if len(out) == 1:
    return next(iter(out))
  return mk_fd({k: (gs[0] if len(gs) == 1 else z3.Or(*gs))
                for k, gs in out.items()})


def _both_fd(a, b):
  """Both FD-able and at least one is FD/Bool."""
  if isinstance(a, NUM) and isinstance(b, NUM):
    return None
  fa, fb = as_fd(a), as_fd(b)
  if fa is None or fb is None:
    return None
  return fa, fb


def _inf(x):
  return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


# --------------------------------------------------------------- arithmetic
def add(a, b):
  if isinstance(a, NUM) and isinstance(b, NUM):
    return norm_num(a + b)
  if isinstance(a, NUM) and a == 0 and not isinstance(b, z3.BoolRef):
    return b
  if isinstance(b, NUM) and b == 0 and not isinstance(a, z3.BoolRef):
    return a
  if _inf(a) or _inf(b):
    return a if _inf(a) else b
  p = _both_fd(a, b)
  if p:
    r = fd_map2(lambda x, y: x + y, *p)
    if r is not None:
      return r
  if isinstance(a, Q) or isinstance(b, Q):
    an, ad = qparts(a)
    bn, bd = qparts(b)
    if _ast_eq(ad, bd):
      return mkq(add(an, bn), ad)
    return mkq(add(mul(an, bd), mul(bn, ad)), mul(ad, bd))
  return zr(a) + zr(b)


def neg(a):
  if isinstance(a, NUM):
    return norm_num(-a)
  if isinstance(a, FD):
    return fd_map1(lambda x: -x, a)
  if isinstance(a, Q):
    return mkq(neg(a.n), a.d)
  return -zr(a)


def sub(a, b):
  if isinstance(b, NUM) and isinstance(a, NUM):
    return norm_num(a - b)
  if isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef) and a.eq(b):
    return 0
  return add(a, neg(b))


def mul(a, b):
  if isinstance(a, NUM) and isinstance(b, NUM):
    return norm_num(a * b)
  for x, y in ((a, b), (b, a)):
    if isinstance(x, NUM):
      if x == 0:
        return 0
      if x == 1 and not isinstance(y, z3.BoolRef):
        return y
  if _inf(a) or _inf(b):
    raise Unsupported('inf * symbolic')
  if a is b and isinstance(a, FD):
    return fd_map1(lambda x: x * x, a)
  p = _both_fd(a, b)
  if p:
    r = fd_map2(lambda x, y: x * y, *p)
    if r is not None:
      return r
  # FD times a general term: a guarded linear combination.
  for x, y in ((a, b), (b, a)):
    fx = as_fd(x) if isinstance(x, (FD, z3.BoolRef)) else None
    if fx is not None and len(fx.m) <= 16:
      if isinstance(y, Q):
        return mkq(mul(fx, y.n), y.d)
      items = sorted(fx.m.items(), key=lambda kv: abs(kv[0]))
      t = mul(items[0][0], y)
      for v, g in items[1:]:
        t = ite(g, mul(v, y), t)
      return t
  if isinstance(a, Q) or isinstance(b, Q):
    an, ad = qparts(a)
    bn, bd = qparts(b)
    if isinstance(bn, z3.AstRef) and _ast_eq(ad, bn):
      return mkq(an, bd)
    if isinstance(an, z3.AstRef) and _ast_eq(bd, an):
      return mkq(bn, ad)
    return mkq(mul(an, bn), mul(ad, bd))
  if isinstance(a, z3.ArithRef) and isinstance(b, z3.ArithRef) and a.eq(b):
    r = CTX.sqrt_arg.get(a.get_id()) if CTX is not None else None
    if r is not None:
      return r
  # Scalar-constant pushes and guarded terms keep products linear.
  for x, y in ((a, b), (b, a)):
    if isinstance(x, z3.ArithRef) and z3.is_app_of(x, z3.Z3_OP_ITE):
      c, t, e = x.children()
      if is_zconst(t) and is_zconst(e):
        return ite(c, mul(zconst(t), y), mul(zconst(e), y))
      if is_zconst(e) and zconst(e) == 0:
        return ite(c, mul(t, y), 0)
  return zr(a) * zr(b)


def is_zconst(t):
  return z3.is_rational_value(t) or z3.is_int_value(t)


def zconst(t):
  if z3.is_int_value(t):
    return t.as_long()
  return norm_num(Fr(t.numerator_as_long(), t.denominator_as_long()))


def _ast_eq(a, b):
  if isinstance(a, NUM) and isinstance(b, NUM):
    return a == b
  if isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef):
    return a.eq(b)
  return a is b


def qparts(a):
  if isinstance(a, Q):
    return a.n, a.d
  return a, 1


def mkq(n, d):
  if isinstance(d, NUM):
    if d == 1:
      return n
    return mul(n, Fr(1) / Fr(d))
  if isinstance(n, NUM) and n == 0:
    return 0
  if isinstance(n, z3.AstRef) and isinstance(d, z3.AstRef) and n.eq(d):
    return 1
  return Q(n, d)


def div(a, b):
  """Real division."""
  if isinstance(b, NUM):
    if isinstance(a, NUM):
      if b == 0:
        if a == 0 or a != a:
          return float('nan')
        return math.inf if a > 0 else -math.inf
      if _inf(a) or _inf(b):
        return norm_num(float(a) / float(b))
      return norm_num(Fr(a) / Fr(b))
    if b == 0:
      raise Unsupported('division by concrete zero')
    if _inf(b):
      return 0
    return mul(a, norm_num(Fr(1) / Fr(b)))
  if isinstance(a, NUM) and a == 0:
    # 0 / b, b != 0 assumed via quotient below if needed.
    if CTX.entails(gt(b, 0)) or CTX.entails(lt(b, 0)):
      return 0
  fb = as_fd(b)
  if fb is not None and all(v != 0 for v in fb.m) and len(fb.m) <= 32:
    return mul(a, fd_map1(lambda v: Fr(1) / Fr(v), fb))
  if fb is not None and len(fb.m) <= 32 and not isinstance(a, Q):
    # Some guard value is zero: result is unconstrained there.
    z = CTX.fresh_real('div0')
    t = z
    for v, g in fb.m.items():
      if v != 0:
        t = ite(g, div(a, v), t)
    return t
  an, ad = qparts(a)
  bn, bd = qparts(b)
  if _ast_eq(ad, bd):
    n, d = an, bn
  else:
    n, d = mul(an, bd), mul(ad, bn)
  if isinstance(d, NUM):
    return mul(n, norm_num(Fr(1) / Fr(d)))
  if CTX.entails(gt(d, 0)):
    return mkq(n, d)
  if CTX.entails(lt(d, 0)):
    return mkq(neg(n), neg(d))
  return CTX.quotient(n, d)


def ite(c, a, b):
  c = to_bool(c)
  if isinstance(c, bool):
    return a if c else b
  if z3.is_true(c):
    return a
  if z3.is_false(c):
    return b
  if isinstance(a, NUM) and isinstance(b, NUM):
    if type(a) is bool and type(b) is bool:
      return a if a == b else (c if a else bnot(c))
    if a == b:
      return a
  if isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef) and a.eq(b):
    return a
  if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
    if a is True:
      return bor(c, b)
    if a is False:
      return band(bnot(c), b)
    if b is True:
      return bor(bnot(c), a)
    if b is False:
      return band(c, a)
    return z3.If(c, a, b)
  fa, fb = as_fd(a), as_fd(b)
  if fa is not None and fb is not None and len(fa.m) + len(fb.m) <= FD_LIMIT:
    out = {}
    for v, g in fa.m.items():
      out.setdefault(v, []).append(zb(band(c, g if not z3.is_true(g) else True)))
    nc = bnot(c)
    for v, g in fb.m.items():
      out.setdefault(v, []).append(zb(band(nc, g if not z3.is_true(g) else True)))
    if len(out) == 1:
      return next(iter(out))
    return mk_fd({k: (gs[0] if len(gs) == 1 else z3.Or(*gs))
                  for k, gs in out.items()})
  if _inf(a) or _inf(b):
    raise Unsupported('ite over inf and symbolic value')
  if isinstance(a, Q) or isinstance(b, Q):
    an, ad = qparts(a)
    bn, bd = qparts(b)
    if _ast_eq(ad, bd):
      return mkq(ite(c, an, bn), ad)
    return Q(ite(c, an, bn), ite(c, ad, bd))
  return z3.If(c, *_same(zr(a), zr(b)))


# -------------------------------------------------------------- comparisons
def _cmp(a, b, op, zop):
  if isinstance(a, NUM) and isinstance(b, NUM):
    return bool(op(a, b))
  if _inf(a) or _inf(b):
    # symbolic reals are finite.
    x = 0 if not _inf(a) else a
    y = 0 if not _inf(b) else b
    return bool(op(x, y))
  p = _both_fd(a, b)
  if p:
    fa, fb = p
    if len(fa.m) * len(fb.m) <= FD_LIMIT * 4:
      gs = []
      n = 0
      for va, ga in fa.m.items():
        for vb, gb in fb.m.items():
          n += 1
          if op(va, vb):
            gs.append(band(True if z3.is_true(ga) else ga,
                           True if z3.is_true(gb) else gb))
      if len(gs) == n:
        return True
      return bor(*gs)
  if isinstance(a, Q) or isinstance(b, Q):
    an, ad = qparts(a)
    bn, bd = qparts(b)
    if _ast_eq(ad, bd):
      return _cmp(an, bn, op, zop)
    return _cmp(mul(an, bd), mul(bn, ad), op, zop)
  if isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef) and a.eq(b):
    return bool(op(0, 0))
  ea = getattr(CTX, 'exp_arg', None)
  if ea:
    # exp is strictly increasing: compare the arguments.
    x = ea.get(a.get_id()) if isinstance(a, z3.AstRef) else (0 if a == 1 else None)
    y = ea.get(b.get_id()) if isinstance(b, z3.AstRef) else (0 if b == 1 else None)
    if x is not None and y is not None:
      return _cmp(x, y, op, zop)
  c = zop(zr(a), zr(b))
  if CTX is not None and CTX.fork_mode:
    return CTX.branch(c)
  return c


def _exped(a, b):
  """exp of both sides of a comparison between logarithms (exp is monotone)."""
  def has(t):
    return isinstance(t, z3.ArithRef) and any(u.get_id() in CTX.log_arg for _, u in CTX._linear(t))
  if CTX is None or not CTX.exp_split or CTX.mode != 'sym' or isinstance(a, (Q, FD, bool)) or isinstance(b, (Q, FD, bool)) or not (has(a) or has(b)):
    return a, b
  x, y = uf('exp', a), uf('exp', b)
  return x, y


def lt(a, b):
  a, b = _exped(a, b)
  return _cmp(a, b, lambda x, y: x < y, lambda x, y: x < y)


def le(a, b):
  a, b = _exped(a, b)
  return _cmp(a, b, lambda x, y: x <= y, lambda x, y: x <= y)


def gt(a, b):
  return lt(b, a)


def ge(a, b):
  return le(b, a)


def eq(a, b):
  if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
    return iff(a, b)
  if CTX is not None and isinstance(b, NUM) and b == 0 and isinstance(a, z3.ArithRef) and a.get_id() in CTX.posvars:
    return False
  return _cmp(a, b, lambda x, y: x == y, lambda x, y: x == y)


def ne(a, b):
  return bnot(eq(a, b))


def smax(a, b):
  if isinstance(a, NUM) and isinstance(b, NUM):
    return a if (a >= b or a != a) else b
  if _inf(a):
    return b if a < 0 else a
  if _inf(b):
    return a if b < 0 else b
  p = _both_fd(a, b)
  if p and not (isinstance(a, (bool, z3.BoolRef)) and
                isinstance(b, (bool, z3.BoolRef))):
    r = fd_map2(max, *p)
    if r is not None:
      return r
  if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
    return bor(a, b)
  return ite(ge(a, b), a, b)


def smin(a, b):
  if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
    return band(a, b)
  return neg(smax(neg(a), neg(b))) if not (_inf(a) or _inf(b)) else (
      (b if a > 0 else a) if _inf(a) else (a if b > 0 else b))


def sabs(a):
  if isinstance(a, NUM):
    return abs(a)
  if isinstance(a, FD):
    return fd_map1(abs, a)
  if CTX is not None and CTX.exp_split:
    n, d = qparts(a)
    if (isinstance(n, NUM) and n > 0 or not isinstance(n, NUM) and CTX._pos(zr(n))) and (isinstance(d, NUM) or CTX._pos(zr(d))):
      return a
  return ite(ge(a, 0), a, neg(a))


def sign(a):
  if isinstance(a, NUM):
    return 0 if a == 0 else (1 if a > 0 else -1)
  if isinstance(a, FD):
    return fd_map1(lambda v: (v > 0) - (v < 0), a)
  return ite(gt(a, 0), 1, ite(lt(a, 0), -1, 0))


def _lin(t, c, acc):
  """Accumulates t*c as {int term: coef}; False when not linear over ints."""
  if is_zconst(t):
    acc[None] = acc.get(None, 0) + c * Fr(zconst(t))
    return True
  k = t.decl().kind()
  if k == z3.Z3_OP_TO_REAL:
    return _lin(t.arg(0), c, acc)
  if k == z3.Z3_OP_ADD:
    return all(_lin(x, c, acc) for x in t.children())
  if k == z3.Z3_OP_SUB:
    ch = t.children()
    return _lin(ch[0], c, acc) and all(_lin(x, -c, acc) for x in ch[1:])
  if k == z3.Z3_OP_UMINUS:
    return _lin(t.arg(0), -c, acc)
  if k == z3.Z3_OP_MUL:
    rest = []
    for x in t.children():
      if is_zconst(x):
        c = c * Fr(zconst(x))
      elif z3.is_app_of(x, z3.Z3_OP_TO_REAL) and is_zconst(x.arg(0)):
        c = c * Fr(zconst(x.arg(0)))
      else:
        rest.append(x)
    if len(rest) == 1:
      return _lin(rest[0], c, acc)
    if not rest:
      acc[None] = acc.get(None, 0) + c
      return True
    rest = [x.arg(0) if z3.is_app_of(x, z3.Z3_OP_TO_REAL) else x for x in rest]
    if all(x.is_int() for x in rest):
      u = rest[0]
      for x in rest[1:]:
        u = u * x
      acc[u] = acc.get(u, 0) + c
      return True
    return False
  if t.is_int():
    acc[t] = acc.get(t, 0) + c
    return True
  return False


def int_frac(t):
  """(N, q) with t == N/q, N an integer term and q a positive int, or None."""
  acc = {}
  if not isinstance(t, z3.ArithRef) or not _lin(t, Fr(1), acc):
    return None
  q = 1
  for c in acc.values():
    q = q * Fr(c).denominator // math.gcd(q, Fr(c).denominator)
  n = z3.IntVal(int(acc.pop(None, 0) * q))
  for u, c in acc.items():
    n = n + int(c * q) * u
  return n, q


def floor(a):
  if isinstance(a, NUM):
    return a if _inf(a) else math.floor(a)
  if isinstance(a, FD):
    return fd_map1(math.floor, a)
  t = zr(a)
  if t.is_int():
    return t
  p = int_frac(t)
  if p:
    return p[0] if p[1] == 1 else p[0] / p[1]
  return z3.ToInt(t)


def ceil(a):
  return neg(floor(neg(a)))


def trunc(a):
  if isinstance(a, NUM):
    return int(a)
  if isinstance(a, FD):
    return fd_map1(int, a)
  t = zr(a)
  if t.is_int():
    return t
  return ite(ge(t, 0), z3.ToInt(t), neg(z3.ToInt(-t)))


def floordiv(a, b):
  """Python floor division on integers."""
  if isinstance(a, NUM) and isinstance(b, NUM):
    return a // b
  p = _both_fd(a, b)
  if p and all(v != 0 for v in p[1].m):
    r = fd_map2(lambda x, y: x // y, *p)
    if r is not None:
      return r
  za, zb_ = zr(a), zr(b)
  if za.is_int() and zb_.is_int():
    if isinstance(b, NUM):
      # z3 div: floor for positive divisor, ceil for negative.
      return za / zb_ if b > 0 else (-za) / z3.IntVal(-b)
    # z3: a = b*q + r, 0 <= r < |b|; Python floors.
    q = za / zb_
    return z3.If(zb_ > 0, q, (-za) / (-zb_))
  return floor(div(a, b))


def pymod(a, b):
  if isinstance(a, NUM) and isinstance(b, NUM):
    return norm_num(a % b)
  p = _both_fd(a, b)
  if p and all(v != 0 for v in p[1].m):
    r = fd_map2(lambda x, y: x % y, *p)
    if r is not None:
      return r
  za, zb_ = zr(a), zr(b)
  if za.is_int() and zb_.is_int():
    if isinstance(b, NUM) and b > 0:
      return za % zb_
    return z3.If(zb_ > 0, za % zb_, -((-za) % (-zb_)))
  return sub(a, mul(b, floordiv(a, b)))


def idiv_trunc(a, b):
  """lax integer division (truncating)."""
  f = lambda x, y: (abs(x) // abs(y)) * (1 if (x >= 0) == (y > 0) else -1)
  if isinstance(a, NUM) and isinstance(b, NUM):
    return f(a, b) if b != 0 else -1
  p = _both_fd(a, b)
  if p and all(v != 0 for v in p[1].m):
    r = fd_map2(f, *p)
    if r is not None:
      return r
  q = floordiv(sabs(a), sabs(b))
  return ite(iff(ge(a, 0), gt(b, 0)), q, neg(q))


def irem(a, b):
  f = lambda x, y: int(math.fmod(x, y))
  if isinstance(a, NUM) and isinstance(b, NUM):
    if isinstance(a, int) and isinstance(b, int):
      return f(a, b)
    return norm_num(math.fmod(a, b))
  p = _both_fd(a, b)
  if p and all(v != 0 for v in p[1].m):
    r = fd_map2(f, *p)
    if r is not None:
      return r
  return sub(a, mul(b, idiv_trunc(a, b)))


def round_half_even(a):
  if isinstance(a, NUM):
    return a if _inf(a) else round(a)
  if isinstance(a, FD):
    return fd_map1(round, a)
  p = int_frac(a) if isinstance(a, z3.ArithRef) else None
  if p:
    n, q = p
    if q == 1:
      return n
    f, r = n / q, 2 * (n % q)
    return z3.If(r < q, f, z3.If(r > q, f + 1, z3.If(f % 2 == 0, f, f + 1)))
  f = floor(a)
  r = sub(a, f)
  h = Fr(1, 2)
  even = eq(pymod(f, 2), 0)
  return ite(lt(r, h), f, ite(gt(r, h), add(f, 1), ite(even, f, add(f, 1))))


def round_half_away(a):
  if isinstance(a, NUM):
    return a if _inf(a) else (math.floor(a + Fr(1, 2)) if a >= 0 else -math.floor(-a + Fr(1, 2)))
  return ite(ge(a, 0), floor(add(a, Fr(1, 2))),
             neg(floor(add(neg(a), Fr(1, 2)))))


def ipow(a, n):
  if n < 0:
    return div(1, ipow(a, -n))
  if isinstance(a, NUM):
    return norm_num(Fr(a) ** n) if not _inf(a) else a ** n
  if isinstance(a, FD):
    return fd_map1(lambda v: v ** n, a)
  r = 1
  for _ in range(n):
    r = mul(r, a)
  return r


def sumall(xs):
  xs = list(xs)
  r = 0
  zs = []
  for x in xs:
    if isinstance(x, z3.ArithRef):
      zs.append(x)
    else:
      r = add(r, x)
  if zs:
    any_real = any(z.is_real() for z in zs)
    if any_real:
      zs = [z3.ToReal(z) if z.is_int() else z for z in zs]
    s = zs[0] if len(zs) == 1 else z3.Sum(*zs)
    r = add(r, s)
  return r


def allof(xs):
  return band(*list(xs))


def anyof(xs):
  return bor(*list(xs))


# ---------------------------------------------------- transcendental functions
def uf(name, a):
  """Unary transcendental: concrete -> float; symbolic -> context atom."""
  if isinstance(a, NUM):
    if name == 'log' and CTX.exp_split and CTX.mode == 'sym':
      return CTX._log(a)
    return CTX.concrete_fn(name, a)
  if isinstance(a, FD) and name == 'sqrt' and all(isinstance(v, NUM) and not isinstance(v, float) and v >= 0 for v in a.m):
    return fd_map1(lambda v: Fr(math.sqrt(v)), a)  # as the machine computes it
  return CTX.atom(name, a)


def sqrt(a):
  if isinstance(a, NUM):
    return CTX.concrete_fn('sqrt', a)
  return CTX.atom('sqrt', a)


# ------------------------------------------------- polynomial identity pre-check
class _TooBig(Exception):
  pass


def _poly(t, memo, limit):
  """{sorted tuple of (leaf id): power pairs -> coefficient}."""
  if isinstance(t, NUM):
    if isinstance(t, float):
      raise _TooBig
    return {(): Fr(t)} if t else {}
  if isinstance(t, FD):
    t = zr(t)
  k = t.get_id()
  if k in memo:
    return memo[k][0]
  if is_zconst(t):
    c = Fr(zconst(t))
    r = {(): c} if c else {}
  elif z3.is_app_of(t, z3.Z3_OP_ADD):
    r = {}
    for c in t.children():
      for m, v in _poly(c, memo, limit).items():
        r[m] = r.get(m, 0) + v
  elif z3.is_app_of(t, z3.Z3_OP_SUB):
    ch = t.children()
    r = dict(_poly(ch[0], memo, limit))
    for c in ch[1:]:
      for m, v in _poly(c, memo, limit).items():
        r[m] = r.get(m, 0) - v
  elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
    r = {m: -v for m, v in _poly(t.arg(0), memo, limit).items()}
  elif z3.is_app_of(t, z3.Z3_OP_MUL):
    r = {(): Fr(1)}
    for c in t.children():
      r = _pmul(r, _poly(c, memo, limit), memo, limit)
  elif z3.is_app_of(t, z3.Z3_OP_POWER) and is_zconst(t.arg(1)) and 0 <= zconst(t.arg(1)) <= 8:
    r = {(): Fr(1)}
    for _ in range(int(zconst(t.arg(1)))):
      r = _pmul(r, _poly(t.arg(0), memo, limit), memo, limit)
  elif z3.is_app_of(t, z3.Z3_OP_TO_REAL):
    r = _poly(t.arg(0), memo, limit)
  else:
    r = {((k, 1),): Fr(1)}
  r = {m: v for m, v in r.items() if v}
  if len(r) > limit:
    raise _TooBig
  memo[k] = (r, t)
  return r


def _pmul(a, b, memo, limit):
  if len(a) * len(b) > limit * 20:
    raise _TooBig
  sq = CTX.sqrt_arg if CTX is not None else {}
  r = {}
  extra = []
  for m1, v1 in a.items():
    for m2, v2 in b.items():
      d = dict(m1)
      for k, p in m2:
        d[k] = d.get(k, 0) + p
      red = [k for k, p in d.items() if p >= 2 and k in sq]
      if red:
        k = red[0]
        d[k] -= 2
        m = tuple(sorted((x, p) for x, p in d.items() if p))
        extra.append(_pmul({m: v1 * v2}, _poly(zr(sq[k]), memo, limit), memo, limit))
        continue
      m = tuple(sorted(d.items()))
      r[m] = r.get(m, 0) + v1 * v2
  for e in extra:
    for m, v in e.items():
      r[m] = r.get(m, 0) + v
  return r


def poly_same(a, b, limit=4000):
  """True only if a and b are identical rational functions of their leaves.

  (sqrt leaves are reduced with sqrt(x)^2 = x, so the caller's sqrt arguments
  must be non-negative: they are variances or sums of squares here.)
  """
  try:
    an, ad = qparts(a)
    bn, bd = qparts(b)
    memo = {}
    l = _pmul(_poly(an, memo, limit), _poly(bd, memo, limit), memo, limit)
    r = _pmul(_poly(bn, memo, limit), _poly(ad, memo, limit), memo, limit)
    for m, v in r.items():
      l[m] = l.get(m, 0) - v
    return not any(l.values())
  except (_TooBig, Unsupported, RecursionError, z3.Z3Exception):
    return False


def factors(t, limit=400):
  """(content, [(irreducible factor, multiplicity)]) of a polynomial term, or None."""
  from . import load_sympy
  try:
    memo = {}
    p = _poly(zr(t), memo, limit)
  except (_TooBig, Unsupported, RecursionError, z3.Z3Exception):
    return None
  ids = sorted({k for m in p for k, _ in m})
  if not ids or len(ids) > 16:
    return None
  leaf = {k: memo[k][1] for k in ids}
  if len(p) == 1:
    (m, c), = p.items()
    return c, [(leaf[k], n) for k, n in m]
  sp = load_sympy()
  syms = [sp.Symbol('v%d' % i) for i in range(len(ids))]
  pos = {k: i for i, k in enumerate(ids)}
  d = {}
  for m, c in p.items():
    e = [0] * len(ids)
    for k, n in m:
      e[pos[k]] = n
    d[tuple(e)] = sp.Rational(c.numerator, c.denominator)
  cont, fl = sp.Poly(d, *syms).factor_list()
  out = []
  for f, mult in fl:
    terms = []
    for e, c in sorted(f.as_dict().items()):
      x = Fr(int(c.p), int(c.q))
      mon = [leaf[ids[i]] for i, n in enumerate(e) for _ in range(n)]
      z = z3.RealVal(x) if x != 1 or not mon else None
      prod = mon if z is None else [z] + mon
      terms.append(prod[0] if len(prod) == 1 else z3.Product(*prod))
    r = terms[0] if len(terms) == 1 else z3.Sum(*terms)
    CTX.keep.append(r)
    out.append((r, int(mult)))
  return Fr(int(cont.p), int(cont.q)), out
