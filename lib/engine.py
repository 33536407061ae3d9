"""Symbolic execution context: symbolic inputs, path forking, obligations, replay."""
import collections
import contextlib
import json
import math
import os
import random
import sys
import time
import traceback
import numpy as np
import z3
from . import sx
from .sx import Fr, Unsupported

REPO = '/repo'


class Infeasible(BaseException):
  """Path assumption unsatisfiable (or false in replay)."""


class NeedTol(BaseException):
  """Exact reading refuted: redo the case with a numeric margin."""


class ViolationFound(BaseException):

  def __init__(self, obligation, inputs, detail='', unknown=False):
    self.obligation, self.inputs, self.detail, self.unknown = obligation, inputs, detail, unknown


class Inconclusive(Exception):
  pass


class Stats:

  def __init__(self):
    self.queries = 0
    self.solver_s = 0.0
    self.unsat = 0
    self.sat = 0
    self.paths = 0
    self.obligations = 0
    self.trivial = 0
    self.identities = 0
    self.covers = {}
    self.eqns = 0
    self.prims = set()
    self.functions = set()
    self.validated = 0
    self.samples = []
    self.known = set()


class Ctx:
  """One path of one harness case (mode 'sym'), or one concrete replay."""

  def __init__(self, mode='sym', prefix=(), stats=None, timeout_s=60, values=None,
               tol=False, known=(), seed=1, max_while=64):
    self.mode = mode
    self.prefix = list(prefix)
    self.decisions = []
    self.pending = []
    self.stats = stats or Stats()
    self.timeout_ms = int(timeout_s * 1000)
    self.values = values or {}
    self.inputs = collections.OrderedDict()
    self.dtypes = {}
    self.keep = []
    self.atoms = {}
    self.by_name = collections.defaultdict(list)
    self.shifts = {}
    self.posvars = set()
    self.exp_arg = {}
    self.sqrt_arg = {}
    self.fork_mode = False
    self.nfresh = 0
    self.tolmode = tol
    self.used_close = False
    self.failed = []
    self.known = known
    self.known_hits = []
    self.max_while = max_while
    self.rng = random.Random(seed)
    self.max_paths = 4000
    self.stub_values = {}
    self.stub_log = []
    self.gens = {}
    self.exp_split = False  # exp of a sum as a product, log of a product as a sum (canonical forms)
    self.log_arg = {}
    self.val_stub = {}
    if mode == 'sym':
      self.solver = z3.Solver()
      self.solver.set('timeout', self.timeout_ms)
      self.solver.set('random_seed', seed)
    sx.set_ctx(self)

  @property
  def sym(self):
    return self.mode == 'sym'

  @property
  def replaying(self):
    return self.mode == 'replay'

  # -------------------------------------------------------------- solver
  def _check(self, *assumps, timeout_ms=None):
    self.stats.queries += 1
    t = time.time()
    if timeout_ms:
      self.solver.set('timeout', timeout_ms)
    self.solver.push()
    for a in assumps:
      self.solver.add(a)
    r = self.solver.check()
    m = self.solver.model() if r == z3.sat else None
    self.solver.pop()
    if timeout_ms:
      self.solver.set('timeout', self.timeout_ms)
    self.stats.solver_s += time.time() - t
    if r == z3.sat:
      self.stats.sat += 1
    elif r == z3.unsat:
      self.stats.unsat += 1
    return r, m

  def feasible(self, c):
    c = sx.to_bool(c)
    if isinstance(c, bool):
      return c
    r, _ = self._check(c, timeout_ms=20000)
    if r == z3.unknown:
      return True
    return r == z3.sat

  def entails(self, c):
    c = sx.to_bool(c)
    if isinstance(c, bool):
      return c
    if self._syn_pos(c):
      return True
    r, _ = self._check(sx.bnot(c), timeout_ms=3000)
    return r == z3.unsat

  def _syn_pos(self, c):
    """c is t > 0 (written 0 < t) with t syntactically positive."""
    if z3.is_app_of(c, z3.Z3_OP_LT) or z3.is_app_of(c, z3.Z3_OP_GT):
      a, b = c.children()
      if z3.is_app_of(c, z3.Z3_OP_GT):
        a, b = b, a
      if sx.is_zconst(a) and sx.zconst(a) == 0:
        return self._pos(b)
    return False

  def _pos(self, t):
    if sx.is_zconst(t):
      return sx.zconst(t) > 0
    if t.get_id() in self.posvars:
      return True
    if z3.is_app_of(t, z3.Z3_OP_ADD) or z3.is_app_of(t, z3.Z3_OP_MUL):
      return all(self._pos(x) for x in t.children())
    if z3.is_app_of(t, z3.Z3_OP_ITE):
      return self._pos(t.arg(1)) and self._pos(t.arg(2))
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
      return self._pos(t.arg(0))
    return False

  def assume(self, c):
    """Precondition on inputs (documented; part of the claim)."""
    c = sx.to_bool(unwrap(c))
    if isinstance(c, bool):
      if not c:
        raise Infeasible('assumption is false')
      return
    self.solver.add(c)

  def axiom(self, c):
    c = sx.to_bool(c)
    if isinstance(c, bool):
      return
    self.solver.add(c)

  # ---------------------------------------------------------------- inputs
  def _fresh_name(self, base):
    self.nfresh += 1
    return '%s!%d' % (base, self.nfresh)

  def fresh_real(self, base='f'):
    if not self.sym:
      return float('nan')
    return z3.Real(self._fresh_name(base))

  def arr(self, name, shape, dtype='float32', lo=None, hi=None, gt=None, lt=None,
          choices=None):
    """Named symbolic input array (object array of terms)."""
    shape = tuple(shape)
    assert name not in self.inputs, name
    out = np.empty(shape, dtype=object)
    k = 'b' if dtype == 'bool' else ('i' if 'int' in dtype else 'f')
    self.gens[name] = lambda rng, e: _guess(rng, k, lo, hi, gt, lt, choices)
    if self.sym:
      for i in np.ndindex(*shape):
        nm = name + ''.join('_%d' % a for a in i)
        if k == 'b':
          v = z3.Bool(nm)
        elif choices is not None:
          bs = [z3.Bool('%s=%s' % (nm, c)) for c in choices]
          self.solver.add(z3.PbEq([(b, 1) for b in bs], 1))
          v = sx.mk_fd(dict(zip(choices, bs))) if len(choices) > 1 else choices[0]
        elif k == 'i':
          if lo is not None and hi is not None and hi - lo <= 64:
            dom = list(range(lo, hi + 1))
            bs = [z3.Bool('%s=%d' % (nm, c)) for c in dom]
            self.solver.add(z3.PbEq([(b, 1) for b in bs], 1))
            v = sx.mk_fd(dict(zip(dom, bs))) if len(dom) > 1 else dom[0]
          else:
            v = z3.Int(nm)
        else:
          v = z3.Real(nm)
        if isinstance(v, z3.ArithRef):
          if lo is not None:
            self.solver.add(v >= zc(lo))
          if hi is not None:
            self.solver.add(v <= zc(hi))
          if gt is not None:
            self.solver.add(v > zc(gt))
            if gt >= 0:
              self.posvars.add(v.get_id())
          if lt is not None:
            self.solver.add(v < zc(lt))
        out[i] = v
    else:
      if name not in self.values:
        raise Unsupported('replay has no value for %s' % name)
      vals = self.values[name]
      for i in np.ndindex(*shape):
        v = vals
        for a in i:
          v = v[a]
        v = parse_val(v)
        # The value the real code will see (rounded to the input's precision).
        if dtype in ('float32', 'bfloat16') and isinstance(v, (Fr, float)) and v == v and abs(v) != math.inf:
          v = sx.norm_num(Fr(float(np.float32(float(v)))))
        out[i] = v
    self.inputs[name] = (out, dtype)
    self.typed(out, dtype)
    return out

  def typed(self, a, dtype):
    a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
    self.dtypes[id(a)] = dtype
    self.keep.append(a)
    return a

  def int(self, name, lo, hi):
    """Symbolic Python integer (a proxy the real Python code computes with)."""
    a = np.empty((), dtype=object)
    if self.sym:
      v = z3.Int(name)
      self.solver.add(v >= lo, v <= hi)
      a[()] = v
    else:
      a[()] = parse_val(self.values[name])
    self.inputs[name] = (a, 'int')
    return SNum(a[()]) if self.sym else int(a[()])

  def real(self, name, lo=None, hi=None):
    a = np.empty((), dtype=object)
    self.gens[name] = lambda rng, e: _guess(rng, 'f', lo, hi, None, None, None)
    if self.sym:
      v = z3.Real(name)
      if lo is not None:
        self.solver.add(v >= zc(lo))
      if hi is not None:
        self.solver.add(v <= zc(hi))
      a[()] = v
    else:
      a[()] = parse_val(self.values[name])
    self.inputs[name] = (a, 'real')
    return SNum(a[()]) if self.sym else float(a[()])

  def dyadic(self, name, lo, hi, den):
    """Symbolic k/den with lo <= k <= hi (exact in binary floating point)."""
    a = np.empty((), dtype=object)
    if self.sym:
      v = z3.Int(name)
      self.solver.add(v >= lo, v <= hi)
      a[()] = v
      self.inputs[name] = (a, 'int')
      return SNum(sx.div(z3.ToReal(v), den))
    a[()] = parse_val(self.values[name])
    self.inputs[name] = (a, 'int')
    return int(a[()]) / den

  def bool(self, name):
    a = np.empty((), dtype=object)
    if self.sym:
      a[()] = z3.Bool(name)
    else:
      a[()] = bool(self.values[name])
    self.inputs[name] = (a, 'bool')
    return SBool(a[()]) if self.sym else bool(a[()])

  def choice(self, name, options):
    """Forks over a finite list of concrete options (index is the input)."""
    i = self.int(name, 0, len(options) - 1)
    return options[i.__index__()]

  # --------------------------------------------------------------- forking
  def branch(self, c):
    c = sx.to_bool(c)
    if isinstance(c, bool):
      return c
    c = z3.simplify(c)
    if z3.is_true(c):
      return True
    if z3.is_false(c):
      return False
    k = len(self.decisions)
    if k < len(self.prefix):
      d = self.prefix[k]
    else:
      ft = self.feasible(c)
      ff = self.feasible(sx.bnot(c)) if ft else True
      if ft and ff:
        self.pending.append(self.decisions + [False])
        d = True
      else:
        d = ft
    self.decisions.append(d)
    self.solver.add(c if d else z3.Not(c))
    return d

  def concretize(self, x):
    """Forks on the value of an integer term."""
    if isinstance(x, sx.NUM):
      return int(x)
    for _ in range(5000):
      if isinstance(x, sx.FD):
        for v, g in sorted(x.m.items())[:-1]:
          if self.branch(g):
            return int(v)
        return int(sorted(x.m)[-1])
      k = len(self.decisions)
      # The candidate must be a deterministic function of the path.
      lo = self._min_value(x)
      if self.branch(sx.eq(x, lo)):
        return lo
    raise Unsupported('concretize')

  def _min_value(self, x):
    # The same point of the same path prefix gives the same candidate.
    self.nmin = getattr(self, 'nmin', 0) + 1
    key = (self.nmin, tuple(self.decisions))
    cache = self.stats.__dict__.setdefault('min_cache', {})
    if key not in cache:
      cache[key] = self._min_value_query(x)
    return cache[key]

  def _min_value_query(self, x):
    t = sx.zr(x)
    r, m = self._check()
    if r != z3.sat:
      raise Infeasible('path')
    v = m.eval(t, model_completion=True).as_long()
    # Descend to the minimum so that exploration order is canonical.
    step = 1
    while True:
      r, m = self._check(t < v)
      if r != z3.sat:
        return v
      v2 = m.eval(t, model_completion=True).as_long()
      # exponential descent
      lo = v2 - step
      r, m2 = self._check(t <= lo)
      if r == z3.sat:
        v = m2.eval(t, model_completion=True).as_long()
        step *= 2
      else:
        v = v2

  # ------------------------------------------------------- transcendental
  def note_shift(self, t):
    if isinstance(t, z3.ArithRef) and (not self.exp_split or z3.is_app_of(t, z3.Z3_OP_ITE)):
      self.shifts[t.get_id()] = t
      self.keep.append(t)

  def concrete_fn(self, name, a):
    f = {'exp': math.exp, 'log': lambda v: math.log(v) if v > 0 else (-math.inf if v == 0 else math.nan),
         'tanh': math.tanh,
         'logistic': lambda v: 1 / (1 + math.exp(-v)), 'erf': math.erf,
         'sqrt': lambda v: math.sqrt(v) if v >= 0 else math.nan,
         'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
         'exp2': lambda v: 2.0 ** v,
         'cbrt': lambda v: math.copysign(abs(v) ** (1 / 3), v),
         'erf_inv': _erf_inv, 'lgamma': math.lgamma}[name]
    if isinstance(a, float) and (math.isinf(a) or math.isnan(a)):
      if name in ('exp', 'exp2') and a == -math.inf:
        return 0
      try:
        return sx.norm_num(f(a))
      except OverflowError:
        return math.inf
    exact = {('exp', 0): 1, ('log', 1): 0, ('tanh', 0): 0, ('logistic', 0): Fr(1, 2),
             ('erf', 0): 0, ('sqrt', 0): 0, ('sin', 0): 0, ('cos', 0): 1, ('exp2', 0): 1}
    if (name, a) in exact:
      return exact[(name, a)]
    fa = Fr(a)
    if name == 'sqrt' and fa >= 0:
      n, d = math.isqrt(fa.numerator), math.isqrt(fa.denominator)
      if n * n == fa.numerator and d * d == fa.denominator:
        return sx.norm_num(Fr(n, d))
    try:
      v = f(float(a))
    except OverflowError:
      return math.inf
    if not self.sym or math.isinf(v) or math.isnan(v):
      return sx.norm_num(v)
    t = self.atom(name, z3.RealVal(fa))
    if isinstance(t, z3.ArithRef):
      r = Fr(v)
      e = abs(r) * Fr(1, 10**12) + Fr(1, 10**15)
      self.axiom(z3.And(t >= z3.RealVal(r - e), t <= z3.RealVal(r + e)))
    return t

  def _linear(self, t, c=1):
    """[(coef, term)] decomposition of a sum (shift terms stay whole)."""
    if t.get_id() in self.shifts:
      return [(c, t)]
    if z3.is_app_of(t, z3.Z3_OP_ADD):
      return [x for a in t.children() for x in self._linear(a, c)]
    if z3.is_app_of(t, z3.Z3_OP_SUB):
      ch = t.children()
      return self._linear(ch[0], c) + [x for a in ch[1:] for x in self._linear(a, -c)]
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
      return self._linear(t.arg(0), -c)
    if z3.is_app_of(t, z3.Z3_OP_MUL) and t.num_args() == 2:
      a, b = (u.arg(0) if z3.is_app_of(u, z3.Z3_OP_TO_REAL) and sx.is_zconst(u.arg(0)) else u for u in t.children())
      if sx.is_zconst(a):
        return self._linear(b, c * sx.zconst(a))
      if sx.is_zconst(b):
        return self._linear(a, c * sx.zconst(b))
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
      return [(c, t)]
    return [(c, t)]

  def atom(self, name, a):
    if not self.sym:
      raise Unsupported('symbolic atom in concrete mode')
    if name == 'log':
      return self._log(a)
    if isinstance(a, sx.Q):
      if name == 'sqrt':
        return sx.mkq(self.atom('sqrt', a.n) if not isinstance(a.n, sx.NUM) else self.concrete_fn('sqrt', a.n),
                      self.atom('sqrt', a.d))
    t = sx.zreal(a)
    if name == 'exp':
      terms = self._linear(t)
      if self.exp_split:
        comb = {}
        for c, u in terms:
          comb[u.get_id()] = (comb.get(u.get_id(), (0, u))[0] + c, u)
        terms = [(c, u) for c, u in comb.values() if c]
      split = lambda u: self.exp_split and not sx.is_zconst(u) or u.get_id() in self.shifts or u.get_id() in self.log_arg
      sh = [(c, u) for c, u in terms if split(u)]
      if sh and any(Fr(c).denominator == 1 for c, _ in sh):
        n, d = 1, 1
        rest = []
        for c, u in terms:
          if split(u) and Fr(c).denominator == 1:
            e = self.log_arg[u.get_id()] if u.get_id() in self.log_arg else self._atom('exp', u)
            if c > 0:
              n = sx.mul(n, sx.ipow(e, int(c)))
            else:
              d = sx.mul(d, sx.ipow(e, int(-c)))
          else:
            rest.append(sx.mul(sx.norm_num(c), u))
        r = sx.sumall(rest)
        if isinstance(r, sx.NUM):
          n = sx.mul(n, 1 if r == 0 else self.concrete_fn('exp', r))
        else:
          n = sx.mul(n, self._atom('exp', sx.zreal(r)))
        return sx.mkq(n, d)
    return self._atom(name, t)

  def _log(self, a):
    if isinstance(a, sx.NUM):
      if self.exp_split and not isinstance(a, float) and 0 < a and a != 1 and max(Fr(a).numerator, Fr(a).denominator) < 10000:
        # Canonical: a sum of logarithms of primes.
        out = []
        for n, c in ((Fr(a).numerator, 1), (Fr(a).denominator, -1)):
          k = 2
          while n > 1:
            while n % k == 0:
              out.append(sx.mul(c, self.concrete_fn('log', k)))
              n //= k
            k += 1
        return sx.sumall(out)
      return self.concrete_fn('log', a)
    if isinstance(a, sx.Q):
      return sx.sub(self._log(a.n), self._log(a.d))
    t = sx.zreal(a)
    if t.get_id() in self.exp_arg:
      return self.exp_arg[t.get_id()]
    if z3.is_app_of(t, z3.Z3_OP_MUL):
      return sx.sumall(self._log(zc_unwrap(x)) for x in t.children())
    if self.exp_split:
      fs = sx.factors(t)
      if fs is not None and all(self._pos(f) for f, _ in fs[1]) and fs[0] > 0 and (len(fs[1]) != 1 or fs[1][0][1] != 1 or fs[0] != 1):
        return sx.sumall([self._log(sx.norm_num(fs[0]))] + [sx.mul(m, self._log(f)) for f, m in fs[1]])
      if fs is not None and len(fs[1]) == 1 and fs[0] == 1 and fs[1][0][1] == 1:
        t = fs[1][0][0]
        if t.get_id() in self.exp_arg:
          return self.exp_arg[t.get_id()]
    v = self._atom('log', t)
    if self._pos(t) and isinstance(v, z3.ArithRef):
      self.log_arg[v.get_id()] = t
    return v

  def _atom(self, name, t):
    ts = z3.simplify(t, som=True)
    if sx.is_zconst(ts) and not sx.is_zconst(t):
      return self.concrete_fn(name, sx.zconst(ts))
    key = (name, ts.get_id())
    if key in self.atoms:
      return self.atoms[key][0]
    v = z3.Real(self._fresh_name(name))
    self.keep.append(ts)
    self.atoms[key] = (v, ts)
    ax = []
    if name in ('exp', 'exp2'):
      self.posvars.add(v.get_id())
      if name == 'exp':
        self.exp_arg[v.get_id()] = t
      ax += [v > 0, z3.Implies(ts > 0, v > 1), z3.Implies(ts < 0, v < 1),
             z3.Implies(ts == 0, v == 1), v >= ts + 1]
    elif name == 'log':
      ax += [z3.Implies(ts > 1, v > 0), z3.Implies(z3.And(ts < 1, ts > 0), v < 0),
             z3.Implies(ts == 1, v == 0), z3.Implies(ts > 0, v <= ts - 1)]
    elif name == 'sqrt':
      ax += [z3.Implies(ts >= 0, z3.And(v >= 0, v * v == ts)),
             z3.Implies(ts > 0, v > 0)]
      self.sqrt_arg[v.get_id()] = t
      if self._pos(ts):
        self.posvars.add(v.get_id())
    elif name in ('tanh', 'erf'):
      ax += [v > -1, v < 1, z3.Implies(ts > 0, v > 0), z3.Implies(ts < 0, v < 0),
             z3.Implies(ts == 0, v == 0)]
    elif name == 'logistic':
      self.posvars.add(v.get_id())
      ax += [v > 0, v < 1, z3.Implies(ts > 0, v > z3.Q(1, 2)),
             z3.Implies(ts < 0, v < z3.Q(1, 2)), z3.Implies(ts == 0, v == z3.Q(1, 2))]
    elif name in ('sin', 'cos'):
      ax += [v >= -1, v <= 1]
    elif name in ('erf_inv', 'cbrt', 'lgamma', 'tan', 'digamma'):
      pass
    else:
      raise Unsupported('function %s' % name)
    for a in ax:
      self.solver.add(a)
    if name in ('exp', 'exp2', 'tanh', 'erf', 'logistic', 'sqrt', 'log', 'erf_inv', 'cbrt'):
      for w, us in self.by_name[name]:
        dom = True
        if name in ('sqrt', 'log'):
          dom = z3.And(ts >= 0, us >= 0) if name == 'sqrt' else z3.And(ts > 0, us > 0)
          self.solver.add(z3.Implies(dom, z3.And((ts < us) == (v < w), (ts == us) == (v == w))))
        else:
          self.solver.add((ts < us) == (v < w), (ts == us) == (v == w))
        if name in ('tanh', 'erf'):
          self.solver.add(z3.Implies(ts == -us, v == -w))
        if name == 'logistic':
          self.solver.add(z3.Implies(ts == -us, v == 1 - w))
    elif name in ('sin', 'cos', 'lgamma', 'tan', 'digamma'):
      for w, us in self.by_name[name]:
        self.solver.add(z3.Implies(ts == us, v == w))
        if name in ('sin', 'cos'):  # Lipschitz
          self.solver.add(z3.Or(z3.And(ts >= us, v - w <= ts - us, w - v <= ts - us),
                                z3.And(ts < us, v - w <= us - ts, w - v <= us - ts)))
    self.by_name[name].append((v, ts))
    return v

  def quotient(self, n, d):
    n, d = sx.zreal(n), sx.zreal(d)
    key = ('quot', n.get_id(), d.get_id())
    if key in self.atoms:
      return self.atoms[key][0]
    self.keep += [n, d]
    q = z3.Real(self._fresh_name('q'))
    self.atoms[key] = (q, None)
    self.solver.add(z3.Implies(d != 0, q * d == n))
    return q

  # ------------------------------------------------------------ running code
  def run(self, fn, *args, validate=True, name=None):
    """Runs the real function: traced+interpreted (sym) or executed (replay)."""
    from . import jx
    import jax
    leaves, tree = jax.tree_util.tree_flatten(args, is_leaf=lambda x: isinstance(x, np.ndarray))
    if not self.sym:
      conc = [self._to_native(x) for x in leaves]
      out = fn(*jax.tree_util.tree_unflatten(tree, conc))
      return jax.tree_util.tree_map(lambda o: self._from_native(o), out)
    avals = []
    for x in leaves:
      if isinstance(x, np.ndarray) and x.dtype == object:
        avals.append(jax.ShapeDtypeStruct(x.shape, self._dt(x)))
      else:
        avals.append(jax.ShapeDtypeStruct(np.shape(x), jax.numpy.asarray(x).dtype))
    closed, out_shape = jx.trace(fn, *jax.tree_util.tree_unflatten(tree, avals))
    it = jx.Interp()
    # Only inputs used are needed; concrete ones are passed natively.
    vals = [x if jx.is_sym(x) else np.asarray(x) for x in leaves]
    flat_out = it.eval(closed.jaxpr, closed.consts, vals)
    self.stats.eqns += it.n_eqns
    self.stats.prims |= it.prims
    self.stats.functions.add(name) if name else None
    if validate and not self.prefix:
      self._validate(fn, closed, leaves, tree, avals)
    out_leaves, out_tree = jax.tree_util.tree_flatten(out_shape)
    res = []
    for o, s in zip(flat_out, out_leaves):
      o = jx.lift(o)
      o = np.array(o, dtype=object, copy=True) if o.base is not None else o
      res.append(self.typed(o, str(s.dtype)))
    return jax.tree_util.tree_unflatten(out_tree, res)

  def _dt(self, x):
    d = self.dtypes.get(id(x))
    if d is None:
      raise Unsupported('untyped symbolic array')
    return 'int32' if d == 'int' else d

  def _to_native(self, x):
    import jax.numpy as jnp
    if isinstance(x, np.ndarray) and x.dtype == object:
      d = self._dt(x)
      a = np.empty(x.shape, dtype=np.float64 if 'float' in d else (bool if d == 'bool' else np.int64))
      for i in np.ndindex(*x.shape):
        a[i] = float(x[i]) if 'float' in d else x[i]
      return jnp.asarray(a, dtype=d)
    return x

  def _from_native(self, o):
    import jax.numpy as jnp
    a = np.asarray(o)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
      out[i] = sx.norm_num(a[i].item() if a.dtype.name != 'bfloat16' else float(a[i]))
    return self.typed(out, a.dtype.name)

  def _validate(self, fn, closed, leaves, tree, avals):
    """Translator validation: interpret vs. really execute on random inputs."""
    from . import jx
    import jax
    import jax.numpy as jnp
    conc, symb = [], []
    for x, a in zip(leaves, avals):
      if jx.is_sym(x):
        d = str(a.dtype)
        o = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
          e = x[i]
          if isinstance(e, sx.NUM):
            o[i] = e
          elif isinstance(e, sx.FD):
            o[i] = self.rng.choice(sorted(e.m))
          elif d == 'bool':
            o[i] = bool(self.rng.getrandbits(1))
          elif 'int' in d:
            o[i] = self.rng.randint(0, 3)
          else:
            o[i] = Fr(self.rng.randint(1, 63), 64)
        symb.append(o)
        n = np.empty(x.shape, dtype=np.float64 if 'float' in d else (bool if d == 'bool' else np.int64))
        for i in np.ndindex(*x.shape):
          n[i] = float(o[i]) if 'float' in d else o[i]
        conc.append(jnp.asarray(n, dtype=d))
      else:
        symb.append(np.asarray(x))
        conc.append(x)
    saved = self.mode
    self.mode = 'validate'
    try:
      real = fn(*jax.tree_util.tree_unflatten(tree, conc))
      got = jx.Interp().eval(closed.jaxpr, closed.consts, symb)
    finally:
      self.mode = saved
    for r, g in zip(jax.tree_util.tree_leaves(real), got):
      r = np.asarray(r).astype(np.float64)
      g = jx.lift(g)
      gf = np.empty(g.shape, dtype=np.float64)
      for i in np.ndindex(*g.shape):
        gf[i] = float(g[i])
      if r.shape != gf.shape or not np.allclose(r, gf, rtol=2e-2, atol=2e-2, equal_nan=True):
        raise Inconclusive('translator validation mismatch: real %s vs encoded %s' % (r.tolist(), gf.tolist()))
    self.stats.validated += 1

  # -------------------------------------------------------------- obligations
  def close(self, a, b, tol=1e-3):
    """Equality of reals (exact); with a margin in tolerance / replay mode."""
    a, b = unwrap(a), unwrap(b)
    if self.sym and not isinstance(a, sx.NUM) and sx.poly_same(a, b):
      self.stats.identities += 1
      return True
    if self.sym and not self.tolmode:
      self.used_close = True
      return sx.eq(a, b)
    if not self.sym:
      if isinstance(a, float) or isinstance(b, float):
        if a != a or b != b:
          return False
        if math.isinf(a) or math.isinf(b):
          return a == b
      return abs(a - b) <= Fr(tol) * (1 + abs(b))
    m = Fr(tol) * 4
    d = sx.sub(a, b)
    bound = sx.mul(m, sx.add(1, sx.sabs(b)))
    return sx.band(sx.le(d, bound), sx.le(sx.neg(d), bound))

  @contextlib.contextmanager
  def forking(self):
    """Inside, comparisons split paths instead of building if-then-else terms."""
    self.fork_mode = self.sym
    try:
      yield
    finally:
      self.fork_mode = False

  def close_arr(self, a, b, tol=1e-3):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    assert a.shape == b.shape, (a.shape, b.shape)
    return sx.band(*[self.close(a[i], b[i], tol) for i in np.ndindex(*a.shape)])

  def cover(self, name, c=True):
    """Reachability witness: must be satisfiable on some path of the case."""
    if not self.sym:
      return
    c = sx.to_bool(unwrap(c))
    if self.stats.covers.get(name):
      return
    if isinstance(c, bool):
      ok = c and self._check()[0] == z3.sat
    else:
      r, _ = self._check(c, timeout_ms=30000)
      ok = r == z3.sat
    self.stats.covers[name] = self.stats.covers.get(name, False) or ok

  def prove(self, name, c, detail=''):
    c = sx.to_bool(unwrap(c))
    if not self.sym:
      assert isinstance(c, bool), c
      if not c:
        self.failed.append((name, detail))
      return
    self.stats.obligations += 1
    if isinstance(c, bool) and c:
      self.stats.trivial += 1
      return
    neg = z3.BoolVal(True) if isinstance(c, bool) else sx.bnot(c)
    r, m = self._check(neg)
    if r == z3.unknown:
      r, m = self._fallback(neg)
    if r == z3.unsat:
      return
    if r == z3.unknown:
      raise ViolationFound(name, self.guesses(), unknown=True)
    if self.used_close and not self.tolmode:
      raise NeedTol()
    if name in self.known:
      self.stats.known.add(name)
      return
    self._report(name, neg, m)

  def _fallback(self, neg):
    """Second opinions on unknown: nlsat, then simplified conjunct splitting."""
    g = z3.Goal()
    for a in self.solver.assertions():
      g.add(a)
    g.add(neg)
    for tac in ('qfnra-nlsat', 'smt'):
      try:
        s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', tac).solver()
        s.set('timeout', self.timeout_ms)
        self.stats.queries += 1
        t = time.time()
        for a in g:
          s.add(a)
        r = s.check()
        self.stats.solver_s += time.time() - t
        if r != z3.unknown:
          return r, (s.model() if r == z3.sat else None)
      except z3.Z3Exception:
        pass
    return z3.unknown, None

  def prove_all(self, name, conds):
    """Conjunction, split into separate queries (smaller, parallel-friendly)."""
    for i, c in enumerate(conds):
      self.prove('%s' % name, c, detail='#%d' % i)

  def _report(self, name, neg, m):
    cands = []
    # Prefer "nice" models: dyadic reals of small magnitude.
    nice = []
    for nm, (a, d) in self.inputs.items():
      for i in np.ndindex(*a.shape):
        v = a[i]
        if isinstance(v, z3.ArithRef) and v.is_real() and z3.is_const(v):
          k = z3.Int('nice!' + v.decl().name())
          nice += [v == z3.ToReal(k) / 16, k >= -4096, k <= 4096]
    if nice:
      r, m2 = self._check(neg, *nice, timeout_ms=15000)
      if r == z3.sat:
        cands.append(m2)
    if m is not None:
      cands.append(m)
    raise ViolationFound(name, [self.extract(x) for x in cands] + self.guesses())

  def guesses(self, n=6):
    """Candidate counterexamples when the solver has none that reproduces (replayed like any other)."""
    rng = random.Random(7)
    try:
      r, m = self._check(timeout_ms=5000)
    except Inconclusive:
      m = None
    out = []
    for _ in range(n):
      g = {}
      for nm, (a, d) in self.inputs.items():
        def one(e, nm=nm):
          real = isinstance(e, z3.ArithRef) and e.is_real()
          if nm in self.gens and (real or m is None):
            return self.gens[nm](rng, e)
          return _mval(m, e) if m is not None else 0
        g[nm] = _nest(a, one)
      out.append(g)
    return out

  def extract(self, m):
    out = {}
    for nm, (a, d) in self.inputs.items():
      out[nm] = _nest(a, lambda e: _mval(m, e))
    return out

  def model_inputs(self, timeout_ms=20000):
    r, m = self._check(timeout_ms=min(timeout_ms, 10000) if self.exp_split else timeout_ms)
    return self.extract(m) if r == z3.sat else None


def _guess(rng, k, lo, hi, gt, lt, choices):
  if k == 'b':
    return rng.random() < 0.5
  if choices is not None:
    v = rng.choice(list(choices))
    return str(v) if isinstance(v, Fr) else v
  a = lo if lo is not None else (gt if gt is not None else -3)
  b = hi if hi is not None else (lt if lt is not None else max(a, 0) + 3)
  if k == 'i':
    return rng.randint(int(a), int(b))
  a, b = max(Fr(a), min(Fr(b), -3)), min(Fr(b), max(Fr(a), 3))
  return str(a + (b - a) * Fr(rng.randint(1, 31), 32))


def _nest(a, f):
  if a.shape == ():
    return f(a[()])
  return [_nest(np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x, f)
          if a.ndim > 1 else f(x) for x in a]


def _mval(m, e):
  if isinstance(e, bool):
    return e
  if isinstance(e, sx.NUM):
    return str(e) if isinstance(e, Fr) else e
  if isinstance(e, sx.FD):
    for v, g in e.m.items():
      if z3.is_true(m.eval(g, model_completion=True)):
        return str(v) if isinstance(v, Fr) else v
    return list(e.m)[0]
  if isinstance(e, z3.BoolRef):
    return z3.is_true(m.eval(e, model_completion=True))
  v = m.eval(sx.zr(e), model_completion=True)
  if z3.is_int_value(v):
    return v.as_long()
  if z3.is_rational_value(v):
    return str(Fr(v.numerator_as_long(), v.denominator_as_long()))
  if z3.is_algebraic_value(v):
    v = v.approx(20)
    return str(Fr(v.numerator_as_long(), v.denominator_as_long()))
  raise Unsupported('model value %s' % v)


def parse_val(v):
  if isinstance(v, str):
    return sx.norm_num(Fr(v))
  return v


def zc(v):
  return z3.RealVal(Fr(v)) if isinstance(v, (float, Fr)) else z3.IntVal(v)


def zc_unwrap(t):
  return sx.zconst(t) if sx.is_zconst(t) else t


def _erf_inv(x):
  import scipy.special
  return float(scipy.special.erfinv(x))


# ------------------------------------------------------------------- proxies
def unwrap(x):
  if isinstance(x, (SNum, SBool)):
    return x.v
  if isinstance(x, np.generic):
    return x.item()
  if isinstance(x, float):
    return sx.norm_num(x)
  return x


def wrap(x):
  if isinstance(x, (bool, z3.BoolRef)):
    return x if isinstance(x, bool) else SBool(x)
  if isinstance(x, sx.NUM):
    if isinstance(x, Fr):
      return SNum(x)
    return x
  return SNum(x)


class SBool:
  __slots__ = ('v',)

  def __init__(self, v):
    self.v = v

  def __bool__(self):
    return sx.CTX.branch(self.v)

  def __and__(self, o):
    return wrap(sx.band(self.v, unwrap(o)))
  __rand__ = __and__

  def __or__(self, o):
    return wrap(sx.bor(self.v, unwrap(o)))
  __ror__ = __or__

  def __xor__(self, o):
    return wrap(sx.bxor(self.v, unwrap(o)))
  __rxor__ = __xor__

  def __invert__(self):
    return wrap(sx.bnot(self.v))

  def __eq__(self, o):
    return wrap(sx.eq(self.v, unwrap(o)))

  def __ne__(self, o):
    return wrap(sx.ne(self.v, unwrap(o)))

  def __hash__(self):
    return hash(bool(self))

  def _n(self):
    return SNum(sx.as_fd(self.v))

  def __add__(self, o):
    return self._n() + o
  __radd__ = __add__

  def __mul__(self, o):
    return self._n() * o
  __rmul__ = __mul__

  def __sub__(self, o):
    return self._n() - o

  def __rsub__(self, o):
    return o - self._n()

  def __index__(self):
    return int(bool(self))
  __int__ = __index__

  def __repr__(self):
    return 'SBool'


def _ok(o):
  return isinstance(o, (SNum, SBool, int, float, Fr, np.integer, np.floating, np.bool_))


def _bin(f, refl=False):
  def g(self, o):
    if not _ok(o):
      return NotImplemented
    a, b = self.v, unwrap(o)
    if refl:
      a, b = b, a
    return wrap(f(a, b))
  return g


def _truediv(a, b):
  if isinstance(b, sx.NUM):
    if b == 0:
      raise ZeroDivisionError('division by zero')
  elif sx.CTX.branch(sx.eq(b, 0)):
    raise ZeroDivisionError('division by zero')
  return sx.div(a, b)


def _chk0(f):
  def g(a, b):
    if isinstance(b, sx.NUM):
      if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    elif sx.CTX.branch(sx.eq(b, 0)):
      raise ZeroDivisionError('integer division or modulo by zero')
    return f(a, b)
  return g


class SNum:
  """Symbolic Python number."""
  __slots__ = ('v',)
  __array_priority__ = 1000

  def __init__(self, v):
    self.v = v

  __add__ = _bin(sx.add)
  __radd__ = _bin(sx.add, True)
  __sub__ = _bin(sx.sub)
  __rsub__ = _bin(sx.sub, True)
  __mul__ = _bin(sx.mul)
  __rmul__ = _bin(sx.mul, True)
  __truediv__ = _bin(_truediv)
  __rtruediv__ = _bin(_truediv, True)
  __floordiv__ = _bin(_chk0(sx.floordiv))
  __rfloordiv__ = _bin(_chk0(sx.floordiv), True)
  __mod__ = _bin(_chk0(sx.pymod))
  __rmod__ = _bin(_chk0(sx.pymod), True)
  __lt__ = _bin(sx.lt)
  __le__ = _bin(sx.le)
  __gt__ = _bin(sx.gt)
  __ge__ = _bin(sx.ge)

  def __divmod__(self, o):
    return self // o, self % o

  def __rdivmod__(self, o):
    return o // self, o % self

  def __eq__(self, o):
    if not _ok(o):
      return NotImplemented
    return wrap(sx.eq(self.v, unwrap(o)))

  def __ne__(self, o):
    if not _ok(o):
      return NotImplemented
    return wrap(sx.ne(self.v, unwrap(o)))

  def __neg__(self):
    return wrap(sx.neg(self.v))

  def __pos__(self):
    return self

  def __abs__(self):
    return wrap(sx.sabs(self.v))

  def __floor__(self):
    return wrap(sx.floor(self.v))

  def __ceil__(self):
    return wrap(sx.ceil(self.v))

  def __trunc__(self):
    return wrap(sx.trunc(self.v))

  def __round__(self, n=None):
    if n is not None:
      raise Unsupported('round(x, n)')
    return wrap(sx.round_half_even(self.v))

  def __pow__(self, n):
    if isinstance(n, int):
      return wrap(sx.ipow(self.v, n))
    return NotImplemented

  def __bool__(self):
    return sx.CTX.branch(sx.ne(self.v, 0))

  def __index__(self):
    return sx.CTX.concretize(self.v)

  def __int__(self):
    v = sx.trunc(self.v)
    return sx.CTX.concretize(v)

  def __float__(self):
    if isinstance(self.v, sx.NUM):
      return float(self.v)
    raise Unsupported('float(symbolic)')

  def __hash__(self):
    return hash(self.__index__())

  def conjugate(self):
    return self

  def item(self):
    return self

  @property
  def real(self):
    return self

  def is_integer(self):
    return wrap(sx.eq(self.v, sx.floor(self.v)))

  def __format__(self, spec):
    # Harnesses whose code builds names from numbers ask for concrete text.
    if sx.CTX is not None and getattr(sx.CTX, 'format_concrete', False):
      return format(self.__index__(), spec)
    return '<sym>'

  def __str__(self):
    return self.__format__('')

  def __repr__(self):
    return '<sym>'


# ------------------------------------------------------------- case execution
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def in_repo(tb):
  """The exception was raised by (or in a library called from) the code under test."""
  own = [f.filename for f in traceback.extract_tb(tb)
         if f.filename.startswith((REPO + '/vmoe', VERIF))]
  return bool(own) and own[-1].startswith(REPO + '/vmoe')


class Result(dict):
  pass


def run_replay(fn, params, inputs, known=()):
  """Executes the harness concretely on the real code. Returns failures."""
  ctx = Ctx('replay', values=inputs, known=known)
  try:
    fn(ctx, **params)
  except Infeasible as e:
    return [], 'assumption not met: %s' % e
  except Unsupported as e:
    return ctx.failed, 'unsupported in replay: %s' % e
  except Exception as e:  # the code under test raised
    if in_repo(sys.exc_info()[2]) or getattr(e, 'code_fault', False):
      ctx.failed.append(('raises', '%s: %s' % (type(e).__name__, str(e)[:300])))
    else:
      return ctx.failed, 'harness error %s' % traceback.format_exc()[-1500:]
  return ctx.failed, ''


def run_case(fn, params, timeout_s=60, known=(), seed=1, max_paths=3000, deadline=None):
  """Explores all paths of one harness case."""
  t0 = time.time()
  res = dict(obligations=0, queries=0, solver_s=0.0, paths=0, violations=[],
             errors=[], known=[], covers={}, tol=False)
  stats = Stats()
  for tol in (False, True):
    stats = Stats() if tol else stats
    work = [[]]
    need_tol = False
    viol = None
    known_hits = []
    try:
      while work:
        prefix = work.pop()
        if stats.paths >= max_paths:
          raise Inconclusive('path bound %d exceeded' % max_paths)
        if deadline and time.time() > deadline:
          raise Inconclusive('deadline exceeded')
        ctx = Ctx('sym', prefix=prefix, stats=stats, timeout_s=timeout_s, tol=tol,
                  known=known, seed=seed)
        stats.paths += 1
        try:
          fn(ctx, **params)
          work.extend(ctx.pending)
          if len(stats.samples) < 2 and ctx.inputs:
            mi = ctx.model_inputs(5000)
            if mi:
              stats.samples.append(mi)
        except Infeasible:
          work.extend(ctx.pending)
          if ctx.inputs and not isinstance(ctx, type(None)):
            pass
        except ViolationFound as v:
          viol = v
          ok, detail, used = None, '', None
          for inp in v.inputs:
            fails, why = run_replay(fn, params, inp)
            if fails:
              ok, used = fails, inp
              break
            detail += ' | replay: %s' % (why or 'property held')
          if ok:
            keys = sorted(set(o for o, _ in ok))
            unk = [o for o in keys if o not in known]
            if not unk:
              for o in keys:
                known_hits.append(o)
              # A listed finding: go on with the other paths.
              work.extend(ctx.pending)
              continue
            res['violations'].append(dict(obligation=unk[0], inputs=used,
                                          fails=[list(map(str, f)) for f in ok]))
          elif v.unknown:
            raise Inconclusive('solver returned unknown on %s' % v.obligation)
          else:
            res['errors'].append('counterexample for %r did not reproduce%s; inputs=%s' % (
                v.obligation, detail, json.dumps(v.inputs[:1])[:1500]))
          break
        except NeedTol:
          need_tol = True
          break
        except Inconclusive:
          raise
        except Exception as e:
          # Either the code under test raises here, or the encoding gave up.
          tb = traceback.format_exc()
          inp = None
          try:
            sx.set_ctx(ctx)
            inp = ctx.model_inputs()
          except Exception:
            pass
          fails, why = ([], 'no model')
          for inp in ([inp] if inp is not None else ctx.guesses()):
            fails, why = run_replay(fn, params, inp)
            if fails:
              break
          if fails:
            keys = sorted(set(o for o, _ in fails))
            unk = [o for o in keys if o not in known]
            if not unk:
              known_hits.extend(keys)
              work.extend(ctx.pending)
              continue
            res['violations'].append(dict(obligation=unk[0], inputs=inp,
                                          fails=[list(map(str, f)) for f in fails]))
          else:
            res['errors'].append('%s (replay: %s)' % (tb[-2500:], why))
          break
    except Inconclusive as e:
      res['errors'].append('inconclusive: %s' % e)
    if not need_tol:
      res['tol'] = tol
      break
  if os.environ.get('VERIF_SELFTEST') and not res['violations'] and not res['errors']:
    # Development aid: concrete runs on models of explored paths must agree with the verdict.
    for inp in stats.samples:
      fails, why = run_replay(fn, params, inp)
      unk = [o for o, _ in fails if o not in known]
      if unk:
        res['violations'].append(dict(obligation=unk[0], inputs=inp,
                                      fails=[list(map(str, f)) for f in fails]))
        break
      if why and not why.startswith(('assumption', 'unsupported')):
        res['errors'].append('sample replay: %s' % why)
        break
  res['known'] = sorted(set(known_hits) | stats.known)
  if not res['violations'] and not res['errors']:
    for c, ok in stats.covers.items():
      if not ok:
        res['errors'].append('vacuity: cover %r unreachable' % c)
    if stats.obligations == 0:
      res['errors'].append('vacuity: no obligation reached')
  res.update(obligations=stats.obligations, trivial=stats.trivial, identities=stats.identities, queries=stats.queries,
             solver_s=stats.solver_s, paths=stats.paths, covers=stats.covers,
             sat=stats.sat, unsat=stats.unsat, eqns=stats.eqns,
             prims=sorted(stats.prims), functions=sorted(stats.functions),
             validated=stats.validated, samples=stats.samples[:1],
             wall_s=time.time() - t0)
  return res
