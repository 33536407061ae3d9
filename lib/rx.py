"""Symbolic strings and regular expressions.

A symbolic string has a symbolic length (up to a bound) and symbolic characters
from a finite alphabet.  `Re` stands for the `re` module: searching a symbolic
string forks on a formula that says whether any derivation of the parsed
pattern matches; anything else goes to the real module.
"""
import re
try:
  from re import _parser as sre_parse, _constants as C
except ImportError:  # pragma: no cover
  import sre_parse
  import sre_constants as C
from . import sx
from .sx import Unsupported


class SymStr:
  """len and chars (indices into the alphabet) are integer terms."""

  def __init__(self, alphabet, n, chars):
    self.alphabet, self.n, self.chars = alphabet, n, chars

  def __getattr__(self, k):
    raise Unsupported('string operation %s on a symbolic string' % k)

  __len__ = __iter__ = __getitem__ = __add__ = __contains__ = lambda self, *a: (_ for _ in ()).throw(Unsupported('operation on a symbolic string'))


def string(ctx, name, alphabet, n):
  """An arbitrary string of up to n characters."""
  k = ctx.int(name + '.len', 0, n)
  cs = [ctx.int('%s.%d' % (name, i), 0, len(alphabet) - 1) for i in range(n)]
  if not ctx.sym:
    return ''.join(alphabet[int(c)] for c in cs[:int(k)])
  from .engine import unwrap
  return SymStr(alphabet, unwrap(k), [unwrap(c) for c in cs])


class M:
  """Derivations of a parsed pattern on one symbolic string."""

  def __init__(self, s, flags):
    self.s = s
    self.N = len(s.chars)
    self.groups_flags = flags

  def at_least(self, i):
    return sx.ge(self.s.n, i)

  def one(self, i, ok):
    """Character i exists and satisfies the predicate."""
    if i >= self.N:
      return False
    good = [j for j, c in enumerate(self.s.alphabet) if ok(c)]
    if not good:
      return False
    if len(good) == len(self.s.alphabet):
      return sx.ge(self.s.n, i + 1)
    return sx.band(sx.ge(self.s.n, i + 1), sx.bor(*[sx.eq(self.s.chars[i], j) for j in good]))

  def end(self, i):
    return sx.eq(self.s.n, i)

  def word(self, i):
    return self.one(i, lambda c: c.isalnum() or c == '_') if i >= 0 else False

  def run(self, items, i, g, flags):
    """Yields (condition, end, groups)."""
    if not items:
      yield True, i, g
      return
    (op, av), rest = items[0], items[1:]
    for c, j, h in self.node(op, av, i, g, flags):
      if c is False:
        continue
      for c2, k, h2 in self.run(rest, j, h, flags):
        c3 = sx.band(c, c2)
        if c3 is not False:
          yield c3, k, h2

  def node(self, op, av, i, g, flags):
    ic = bool(flags & re.I)
    low = (lambda c: c.lower()) if ic else (lambda c: c)
    if op is C.LITERAL:
      yield self.one(i, lambda c: low(c) == low(chr(av))), i + 1, g
    elif op is C.NOT_LITERAL:
      yield self.one(i, lambda c: low(c) != low(chr(av))), i + 1, g
    elif op is C.ANY:
      yield self.one(i, lambda c: c != '\n' or bool(flags & re.S)), i + 1, g
    elif op is C.IN:
      yield self.one(i, lambda c: self.klass(av, c, flags)), i + 1, g
    elif op is C.BRANCH:
      for b in av[1]:
        yield from self.run(list(b), i, g, flags)
    elif op is C.SUBPATTERN:
      num, add, rem, p = av
      for c, j, h in self.run(list(p), i, g, (flags | add) & ~rem):
        yield c, j, ({**h, num: (i, j)} if num is not None else h)
    elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
      lo, hi, p = av
      yield from self.repeat(lo, hi, list(p), i, g, flags, 0)
    elif op is C.GROUPREF:
      if av in g:
        a, b = g[av]
        conds = []
        for k in range(b - a):
          if i + k >= self.N:
            return
          x, y = self.s.chars[a + k], self.s.chars[i + k]
          same = sx.eq(x, y)
          if ic:
            same = sx.bor(same, *[sx.band(sx.eq(x, u), sx.eq(y, v)) for u, cu in enumerate(self.s.alphabet)
                                  for v, cv in enumerate(self.s.alphabet) if u != v and cu.lower() == cv.lower()])
          conds += [same, sx.ge(self.s.n, i + k + 1)]
        yield sx.band(*conds), i + b - a, g
    elif op is C.AT:
      if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
        c = i == 0
        if av is C.AT_BEGINNING and flags & re.M and i > 0:
          c = self.one(i - 1, lambda ch: ch == '\n')
        yield c, i, g
      elif av in (C.AT_END, C.AT_END_STRING):
        c = self.end(i)
        if av is C.AT_END:
          c = sx.bor(c, sx.band(self.one(i, lambda ch: ch == '\n'), True if flags & re.M else self.end(i + 1)))
        yield c, i, g
      elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
        a, b = sx.to_bool(self.word(i - 1)), sx.to_bool(self.word(i))
        x = sx.bor(sx.band(a, sx.bnot(b)), sx.band(sx.bnot(a), b))
        yield (x if av is C.AT_BOUNDARY else sx.bnot(x)), i, g
      else:
        raise Unsupported('anchor %s' % av)
    elif op in (C.ASSERT, C.ASSERT_NOT):
      d, p = av
      if d < 0:
        raise Unsupported('lookbehind')
      c = sx.bor(False, *[c for c, _, _ in self.run(list(p), i, g, flags)])
      yield (c if op is C.ASSERT else sx.bnot(c)), i, g
    else:
      raise Unsupported('regex %s' % op)

  def repeat(self, lo, hi, p, i, g, flags, n):
    if n >= lo:
      yield True, i, g
    if hi is not C.MAXREPEAT and n >= hi:
      return
    if n > self.N + lo:
      return
    for c, j, h in self.run(p, i, g, flags):
      if c is False or (j == i and n >= lo):
        continue
      for c2, k, h2 in self.repeat(lo, hi, p, j, h, flags, n + 1):
        c3 = sx.band(c, c2)
        if c3 is not False:
          yield c3, k, h2

  def klass(self, av, c, flags):
    neg, hit = False, False
    cs = {c, c.lower(), c.upper()} if flags & re.I else {c}
    for op, a in av:
      if op is C.NEGATE:
        neg = True
      elif op is C.LITERAL:
        hit = hit or any(ord(x) == a for x in cs)
      elif op is C.RANGE:
        hit = hit or any(a[0] <= ord(x) <= a[1] for x in cs)
      elif op is C.CATEGORY:
        pos = {C.CATEGORY_DIGIT: c.isdigit(), C.CATEGORY_SPACE: c.isspace(), C.CATEGORY_WORD: c.isalnum() or c == '_'}
        opp = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE, C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}
        hit = hit or (pos[a] if a in pos else not pos[opp[a]])
      else:
        raise Unsupported('class %s' % op)
    return hit != neg


def matches(pattern, s, flags=0, how='search'):
  """Formula: the pattern matches the symbolic string."""
  t = sre_parse.parse(pattern, flags)
  m = M(s, 0)
  out = []
  for i in range(m.N + 1):
    if how != 'search' and i:
      break
    for c, j, _ in m.run(list(t), i, {}, t.state.flags):
      c = sx.band(c, sx.ge(s.n, max(i, j)), m.end(j) if how == 'fullmatch' else True)
      if c is not False:
        out.append(c)
  return sx.bor(False, *out)


def spec(ctx, pattern, s):
  """What `re.search(pattern, s) is not None` should be."""
  return matches(pattern, s) if isinstance(s, SymStr) else re.search(pattern, s) is not None


class Pattern:

  def __init__(self, pattern, flags=0):
    self._real = re.compile(pattern, flags)
    self.pattern, self.flags = self._real.pattern, self._real.flags

  def _go(self, how, s, *a):
    if not isinstance(s, SymStr):
      return getattr(self._real, how)(s, *a)
    if a:
      raise Unsupported('positions in a symbolic string')
    return object() if sx.CTX.branch(matches(self.pattern, s, self.flags & ~re.U, how)) else None

  search = lambda self, s, *a: self._go('search', s, *a)
  match = lambda self, s, *a: self._go('match', s, *a)
  fullmatch = lambda self, s, *a: self._go('fullmatch', s, *a)

  def __getattr__(self, k):
    return getattr(self._real, k)


class Re:
  """Stands for the module `re`."""
  Pattern = Pattern

  def compile(self, p, flags=0):
    return p if isinstance(p, Pattern) else Pattern(p, flags)

  search = lambda self, p, s, flags=0: self.compile(p, flags).search(s)
  match = lambda self, p, s, flags=0: self.compile(p, flags).match(s)
  fullmatch = lambda self, p, s, flags=0: self.compile(p, flags).fullmatch(s)

  def __getattr__(self, k):
    return getattr(re, k)
