"""I01: initialization rules put exactly the right source arrays, transformed as asked, into every target array."""
import contextlib
import re
import flax.struct
import jax
import jax.numpy as jnp
import numpy as np
from jax.sharding import NamedSharding, PartitionSpec
from lib import sx
from lib.pj_h import Pjit, Dev
from lib.rnd import random_stub
from lib.runner import Case
from vmoe.initialization import mapping, rules as rules_mod

FUNCTIONS = ['vmoe.initialization.mapping.map_state_dict', 'vmoe.initialization.mapping._flat_state_dict_mapping_build',
             'vmoe.initialization.mapping._flat_state_dict_mapping_apply', 'vmoe.initialization.rules.Rules.parse/find',
             'vmoe.initialization.rules.*Rule', 'vmoe.initialization.rules.*Transformation']
BOUNDS = {'quick': 'every array value; trees of up to 7 source and 6 target leaves with every subset of the optional ones, 9 rule sets, every setting of the flags; '
                   'every transformation on arrays of up to 16 elements (grids up to 3x3)',
          'thorough': 'grids up to 4x4, more source/target size pairs'}
OUTSIDE = 'other names and regular expressions (matching itself is Python re); names with signed or decimal numbers in stack rules; larger arrays; donation of the source buffers'
ASSUMPTIONS = ['floating point read as real arithmetic', 'scipy.ndimage.zoom(order=1) is a linear map (read off the real function, linearity checked on samples)',
               'pjit is a stub that runs the real function symbolically']
MESH = jax.sharding.Mesh(np.asarray(jax.devices()[:1]).reshape(1, 1), ('a', 'b'))


class SDev(Dev):
  """A jax.Array with a sharding."""

  def __init__(self, a, sharding, dt):
    super().__init__(a)
    self.sharding, self.dt = sharding, dt

  dtype = property(lambda s: np.dtype(s.dt))


@contextlib.contextmanager
def env(ctx):
  saved = mapping.pjit
  mapping.pjit = Pjit(ctx)
  try:
    yield
  finally:
    mapping.pjit = saved


def sh(*spec):
  return NamedSharding(MESH, PartitionSpec(*spec))


def val(x):
  return x.a if isinstance(x, Dev) else x


def same(ctx, a, b):
  a, b = val(a), val(b)
  return a.shape == b.shape and ctx.close_arr(a, b)


def arr(ctx, name, shape, dtype='float32', sharding=None):
  kw = dict(lo=-8, hi=8) if 'int' not in dtype else dict(lo=-4, hi=4)
  return SDev(ctx.arr(name, shape, dtype=dtype, **kw), sharding or sh(), dtype)


@flax.struct.dataclass
class State:
  step: object
  params: object


RULES = {
    'first_match': [('^enc/layer_(\\d+)/k$', 'params/m/k\\1'), ('layer', 'params/m/wrong'), ('^(head)/k$', 'params/\\1'), ('step', None), ('extra', ''), ('^enc/bias', 'params/m/bias')],
    'sub_keeps_rest': [('^enc', 'params/m'), ('/layer_(\\d+)/', '/'), ('head/k', 'params/head'), ('(step)', '\\1'), ('extra', None)],
    'stack': [('enc/layer_\\d+/k', 'params/m/stack', 'stack', 0), ('^enc/bias$', 'params/m/bias'), ('head/k', 'params/head'), ('step', None), ('extra', None)],
    'stack_twice': [('enc/layer_\\d+/k', 'params/m/stack', 'stack', 1), ('head/k', 'params/m/stack'), ('.', None)],
    'copy_then_stack': [('enc/layer_2/k', 'params/m/stack'), ('enc/layer_10/k', 'params/m/stack', 'stack', 0), ('.', None)],
    'collision': [('enc/bias|extra', 'params/m/bias'), ('^head/k$', 'params/head'), ('.', '')],
    'identity_missing': [('enc|head|extra', None)],
    'search': [('_2/k$', None), ('^enc/layer_10/k', 'params/m/bias'), ('^(head)/k$', 'params/\\1'), ('step|extra|bias', None)],
    'nothing': [],
    'drop_all': [('.*', None)],
}


def expected(src, tgt, rules, raise_src, raise_tgt):
  """key -> ('copy'|'stack', axis, [source keys]) for every target set from the source, or None if the mapping is an error."""
  out, kind = {}, {}
  nat = sorted(src, key=lambda s: [int(p) if p.isdigit() else p for p in re.split(r'(\d+)', s)])
  for s in nat:
    r = next((r for r in rules if re.search(r[0], s)), None)
    if r is None:
      if raise_src:
        return None
      r = ('^(.*)$', '\\1')
    if len(r) == 2 and not r[1]:
      continue
    d = re.sub(r[0], r[1], s)
    if d not in tgt:
      return None
    k = 'stack' if len(r) > 2 else 'copy'
    if d in out and (k != 'stack' or kind[d] != 'stack'):
      return None
    kind[d] = k
    out.setdefault(d, (k, r[3] if k == 'stack' else None, []))[2].append(s)
  if raise_tgt and set(tgt) - set(out):
    return None
  return out


def nest(flat):
  out = {}
  for k, v in flat.items():
    d = out
    *path, last = k.split('/')
    for p in path:
      d = d.setdefault(p, {})
    d[last] = v
  return out


def names(ctx, rules):
  """Which source goes where, by name."""
  src = {'enc/layer_10/k': arr(ctx, 's10', (2,)), 'enc/layer_2/k': arr(ctx, 's2', (2,))}
  for k, shape in (('enc/bias', (2,)), ('head/k', (2,)), ('step', ()), ('extra', (2,))):
    if ctx.bool('source has ' + k):
      src[k] = arr(ctx, k, shape)
  tgt = {'step': arr(ctx, 't_step', (), sharding=sh()), 'params/head': arr(ctx, 't_head', (2,), sharding=sh('a'))}
  opt = {'first_match': ['k2', 'k10', 'bias'], 'sub_keeps_rest': ['layer_2/k', 'layer_10/k', 'bias'], 'stack': ['stack', 'bias'], 'identity_missing': ['bias'], 'search': ['bias'],
         'nothing': [], 'drop_all': ['bias']}.get(rules, ['stack', 'bias'])
  for k in opt:
    if ctx.bool('target has ' + k):
      tgt['params/m/' + k] = arr(ctx, 't_' + k, (2, 2) if k == 'stack' else (2,), sharding=sh('b'))
  rs, rt = ctx.bool('raise_if_source_unmatched'), ctx.bool('raise_if_target_unmatched')
  exp = expected(src, tgt, RULES[rules], rs, rt)
  target = State(step=tgt['step'], params=nest({k[7:]: v for k, v in tgt.items() if k.startswith('params/')}))
  before = {k: (v.a.copy(), v.sharding) for k, v in tgt.items()}
  src_before = {k: v.a.copy() for k, v in src.items()}
  try:
    with env(ctx):
      got = mapping.map_state_dict(nest(src), target, RULES[rules], raise_if_shape_mismatched=rules != 'copy_then_stack',
                                   raise_if_source_unmatched=rs, raise_if_target_unmatched=rt)
  except (KeyError, ValueError, AttributeError, TypeError) as e:
    bad_shape = exp is not None and any(('stack' if tgt[d].ndim == 2 else 'copy') != k or (k == 'stack' and len(s) != 2) for d, (k, _, s) in exp.items())
    ctx.prove('the mapping is only refused when it is ambiguous, incomplete or does not fit', exp is None or bad_shape, str(e)[:200])
    return
  ctx.prove('an ambiguous or incomplete mapping is refused', exp is not None)
  if exp is None:
    return
  ctx.prove('the type of the target is kept', isinstance(got, State))
  flat = {'step': got.step}
  for k in tgt:
    if k == 'step':
      continue
    d = got.params
    for p in k[7:].split('/'):
      d = d[p]
    flat[k] = d
  for k, v in flat.items():
    if k not in exp:
      ctx.prove('targets no rule maps to keep their value', sx.band(same(ctx, v, before[k][0]), v is tgt[k]))
      continue
    kind, axis, ss = exp[k]
    ref = np.stack([src_before[s] for s in ss], axis) if kind == 'stack' else src_before[ss[0]]
    if ref.shape != before[k][0].shape:
      ref = np.broadcast_to(ref, before[k][0].shape)
    ctx.prove('a mapped target gets its source (stacked in natural order)', same(ctx, v, ref))
    ctx.prove('with the sharding of the target', v.sharding == before[k][1])


def flags(ctx, sdt, tdt, sshape, tshape):
  """Shape and data type mismatches."""
  s, t = arr(ctx, 'source', sshape, sdt), arr(ctx, 'target', tshape, tdt, sh('a'))
  rd, rsh = ctx.bool('raise_if_dtype_mismatched'), ctx.bool('raise_if_shape_mismatched')
  try:
    bc = np.broadcast_shapes(sshape, tshape) == tshape
  except ValueError:
    bc = False
  fits = (sdt == tdt or not rd) and (sshape == tshape or (not rsh and bc))
  v = s.a.copy()
  try:
    with env(ctx):
      got = mapping.map_state_dict({'x': s}, {'y': t}, [('x', 'y')], raise_if_dtype_mismatched=rd, raise_if_shape_mismatched=rsh)['y']
  except (ValueError, TypeError):
    ctx.prove('only refused when shape or type do not fit', not fits)
    return
  ctx.prove('refused when shape or type do not fit', fits)
  if not fits:
    return
  ref = v
  if sdt == 'float32' and tdt == 'int32':
    ref = np.array([sx.trunc(x) for x in v.ravel()], dtype=object).reshape(v.shape)
  ctx.prove('the value, converted', same(ctx, got, np.broadcast_to(ref, tshape)))
  ctx.prove('has the data type of the target', ctx.dtypes.get(id(got.a), tdt) == tdt)


def transform(ctx, name):
  """The transformations."""
  spec = {'reshape': (('reshape', (3, 2)), (2, 3), (3, 2)), 'reshape_like_target': (None, (2, 3), (6,)), 'squeeze': (('squeeze', 1), (2, 1, 3), (2, 3)),
          'squeeze_last': (('squeeze', -1), (2, 3, 1), (2, 3)), 'tile0': (('expand_tile', 0, 3), (2, 2), (3, 2, 2)), 'tile1': (('expand_tile', 1, 2), (3, 2), (3, 2, 2)),
          'tile_last': (('expand_tile', -1, 2), (2, 3), (2, 3, 2)), 'tile_many': (('expand_tile', (0, 2), (2, 3)), (2, 2), (2, 2, 3, 2))}
  rule, ss, ts = spec[name]
  s, t = arr(ctx, 'source', ss), arr(ctx, 'target', ts, sharding=sh('b'))
  v = s.a.copy()
  rules = [('x', 'y') + rule] if rule else rules_mod.Rules([rules_mod.ReshapeRule(pattern='x', replacement='y', shape=None)])
  with env(ctx):
    got = mapping.map_state_dict({'x': s}, {'y': t}, rules)['y']
  kind = name.split('_')[0].rstrip('01')
  ctx.prove('the shape of the target', val(got).shape == ts)
  for i in np.ndindex(*ts):
    if kind == 'reshape':
      x = v.ravel()[np.ravel_multi_index(i, ts)]
    elif kind == 'squeeze':
      x = v[(i[0], 0, i[1]) if name == 'squeeze' else i + (0,)]
    else:
      ax = rule[1] if isinstance(rule[1], tuple) else (rule[1] % len(ts),)
      x = v[tuple(j for a, j in enumerate(i) if a not in ax)]
    ctx.prove('every element comes from its place', ctx.close(val(got)[i], x))
  ctx.prove('with the sharding of the target', got.sharding == sh('b'))


def tiles(ctx, k):
  """New axes in any order, each with its own number of repetitions."""
  ss = (2, 3)
  nd = len(ss) + k
  axis = tuple(ctx.int('axis[%d]' % i, -nd, nd - 1).__index__() for i in range(k))
  reps = tuple(ctx.int('reps[%d]' % i, 1, 3).__index__() for i in range(k))
  pos = [a % nd for a in axis]
  ctx.assume(len(set(pos)) == k)
  ts, rest = [None] * nd, list(ss)
  for a in range(nd):
    ts[a] = reps[pos.index(a)] if a in pos else rest.pop(0)
  ts = tuple(ts)
  s, t = arr(ctx, 'source', ss), arr(ctx, 'target', ts, sharding=sh('b'))
  v = s.a.copy()
  with env(ctx):
    got = mapping.map_state_dict({'x': s}, {'y': t}, [('x', 'y', 'expand_tile') + ((axis[0], reps[0]) if k == 1 and ctx.bool('scalars') else (axis, reps))])['y']
  ctx.prove('each new axis has its own number of repetitions', val(got).shape == ts)
  for i in np.ndindex(*ts):
    ctx.prove('every element comes from its place', ctx.close(val(got)[i], v[tuple(j for a, j in enumerate(i) if a not in pos)]))


def lerp(v, n, axis):
  """Linear interpolation along one axis to n points, corners aligned."""
  v = np.moveaxis(v, axis, 0)
  o = v.shape[0]
  rows = []
  for i in range(n):
    p = sx.Fr(i * (o - 1), n - 1) if n > 1 else sx.Fr(0)
    j = min(int(p), o - 1)
    f = p - j
    a = v[j:j + 1]
    k = min(j + 1, o - 1)
    b = v[k:k + 1]
    rows.append(np.array([sx.add(sx.mul(1 - f, x), sx.mul(f, y)) for x, y in zip(a.ravel(), b.ravel())], dtype=object).reshape(a.shape))
  return np.moveaxis(np.concatenate(rows), 0, axis)


def zoom(ctx, ss, ts, mesh=False):
  s, t = arr(ctx, 'source', ss), arr(ctx, 'target', ts, sharding=sh('a'))
  v = s.a.copy()
  with env(ctx), (MESH if mesh else contextlib.nullcontext()):
    got = mapping.map_state_dict({'x': s}, {'y': t}, [('x', 'y', 'zoom')])['y']
  ref = v
  for a in range(len(ss)):
    ref = lerp(ref, ts[a], a)
  ctx.prove('linear interpolation with aligned corners', same(ctx, got, ref))


def vit_zoom(ctx, ns, stok, nt, ttok, struct=False, H=2):
  """Position embeddings: the grid is resized, the class token is carried over, kept or dropped."""
  ss, ts = (1, ns * ns + stok, H), (1, nt * nt + ttok, H)
  s = arr(ctx, 'source', ss)
  t = arr(ctx, 'target', ts, sharding=sh())
  v, tv = s.a.copy(), t.a.copy()
  if struct:
    t = jax.ShapeDtypeStruct(ts, jnp.float32, sharding=sh())
  with env(ctx), random_stub():
    got = mapping.map_state_dict({'x': s}, {'y': t}, [('x', 'y', 'vit_zoom')])['y']
  got = val(got)
  ctx.prove('the shape of the target', got.shape == ts)
  grid = v[0, stok:].reshape(ns, ns, H)
  ref = lerp(lerp(grid, nt, 0), nt, 1).reshape(nt * nt, H)
  ctx.prove('the grid is resized by linear interpolation', ctx.close_arr(got[0, ttok:], ref))
  if ttok and stok:
    ctx.prove('the class token of the source is used', ctx.close_arr(got[0, 0], v[0, 0]))
  elif ttok and not struct:
    ctx.prove('the class token of the target is kept', ctx.close_arr(got[0, 0], tv[0, 0]))


def vit_zoom_refused(ctx, ss, ts):
  """Position embeddings that are no square grid (with or without a token), or of another size, are refused."""
  s, t = arr(ctx, 'source', ss), arr(ctx, 'target', ts)
  try:
    with env(ctx):
      mapping.map_state_dict({'x': s}, {'y': t}, [('x', 'y', 'vit_zoom')], raise_if_shape_mismatched=False)
  except ValueError:
    ctx.prove('refused', True)
    return
  ctx.prove('refused', False)


def empty(ctx):
  """Empty nodes stay empty, and never mix with arrays."""
  s_empty, t_empty = ctx.bool('source is empty'), ctx.bool('target is empty')
  s = {} if s_empty else arr(ctx, 'source', (2,))
  t = {} if t_empty else arr(ctx, 'target', (2,))
  other = arr(ctx, 'other', (2,))
  o = other.a.copy()
  try:
    with env(ctx):
      got = mapping.map_state_dict({'x': s, 'o': other}, {'y': t, 'o': arr(ctx, 't_other', (2,)), 'unmapped': {}}, [('x', 'y'), ('o', 'o')])
  except ValueError:
    ctx.prove('only refused when one is empty and not the other', s_empty != t_empty)
    return
  ctx.prove('an empty node is not an array', s_empty == t_empty)
  if s_empty == t_empty:
    ctx.prove('empty nodes are kept', got['unmapped'] == {} and (not t_empty or got['y'] == {}))
    ctx.prove('the others are mapped', same(ctx, got['o'], o))


def cases(tier):
  out = [Case(names, rules=r) for r in RULES]
  out += [Case(flags, sdt=a, tdt=b, sshape=c, tshape=d) for a, b, c, d in
          [('float32', 'float32', (2,), (2,)), ('int32', 'float32', (2,), (2,)), ('float32', 'int32', (2,), (2,)), ('float32', 'float32', (2,), (3, 2)),
           ('float32', 'float32', (3,), (2,)), ('int32', 'float32', (1, 2), (3, 2)), ('float32', 'float32', (3, 2), (2,))]]
  out += [Case(transform, name=n) for n in ('reshape', 'reshape_like_target', 'squeeze', 'squeeze_last', 'tile0', 'tile1', 'tile_last', 'tile_many')] + [Case(tiles, k=k) for k in (1, 2)]
  out += [Case(zoom, ss=(3, 2), ts=(5, 2)), Case(zoom, ss=(4,), ts=(2,)), Case(zoom, ss=(2, 2), ts=(2, 2)), Case(zoom, ss=(1, 3), ts=(1, 2), mesh=True)]
  out += [Case(vit_zoom, ns=2, stok=1, nt=3, ttok=1), Case(vit_zoom, ns=3, stok=0, nt=2, ttok=0), Case(vit_zoom, ns=2, stok=1, nt=3, ttok=0),
          Case(vit_zoom, ns=3, stok=0, nt=2, ttok=1), Case(vit_zoom, ns=2, stok=0, nt=2, ttok=1, struct=True), Case(vit_zoom, ns=2, stok=1, nt=2, ttok=1, struct=True)]
  out += [Case(vit_zoom_refused, ss=a, ts=b) for a, b in [((1, 6, 2), (1, 4, 2)), ((1, 4, 2), (1, 7, 2)), ((2, 4, 2), (1, 4, 2)), ((1, 4, 2), (1, 4, 1)), ((4, 2), (1, 4, 2))]]
  out += [Case(empty)]
  if tier == 'thorough':
    out += [Case(vit_zoom, ns=4, stok=a, nt=b, ttok=c) for a in (0, 1) for b in (2, 3, 5) for c in (0, 1)]
    out += [Case(zoom, ss=(3, 4), ts=(5, 3)), Case(zoom, ss=(2, 3, 2), ts=(3, 3, 4))]
  return out
