"""Symbolic interpreter of TensorFlow function graphs (the preprocessing ops).

fn is traced by tf.function into a graph of TF operations; each operation is
executed over terms. Images of symbolic size are views (offset, size, source).
"""
import numpy as np
import tensorflow as tf
from tensorflow.python.framework import tensor_util
from . import sx
from .jx import Unsupported


def obj(x, shape=None):
  a = np.asarray(x)
  if a.dtype == object:
    return a
  o = np.empty(a.shape, dtype=object)
  for i in np.ndindex(*a.shape):
    v = a[i]
    o[i] = bool(v) if a.dtype == bool else int(v) if np.issubdtype(a.dtype, np.integer) else sx.Fr(float(v)) if np.issubdtype(a.dtype, np.floating) else v
  return o


class View:
  """A window of an image whose sides are terms: dims[i] cells from off[i] of the source."""

  def __init__(self, dims, off=None, src='image', dtype=None):
    self.dims = list(dims)
    self.off = list(off) if off is not None else [0] * len(self.dims)
    self.src = src
    self.dtype = dtype
    self.flipped = False

  def like(self, **kw):
    v = View(self.dims, self.off, self.src, self.dtype)
    v.flipped = self.flipped
    v.__dict__.update(kw)
    return v


def scal(t):
  a = obj(t)
  return a[()] if a.ndim == 0 else a.reshape(-1)[0]


def cint(x):
  """A concrete integer."""
  if not sx.is_concrete(x):
    x = sx.CTX.concretize(x)
  return int(x)


def ew(f):
  def g(*xs):
    arrs = np.broadcast_arrays(*[obj(x) for x in xs])
    out = np.empty(arrs[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
      out[i] = f(*[a[i] for a in arrs])
    return out
  return g


def b2(x):
  return x


EW = {
    'Sub': sx.sub, 'AddV2': sx.add, 'Add': sx.add, 'Mul': sx.mul, 'RealDiv': sx.div, 'FloorDiv': sx.floordiv, 'FloorMod': sx.pymod, 'Maximum': sx.smax,
    'Minimum': sx.smin, 'Greater': sx.gt, 'GreaterEqual': sx.ge, 'Less': sx.lt, 'LessEqual': sx.le, 'Equal': sx.eq, 'NotEqual': sx.ne,
    'LogicalAnd': sx.band, 'LogicalOr': sx.bor, 'LogicalNot': sx.bnot, 'Neg': sx.neg, 'Abs': sx.sabs, 'Round': sx.round_half_even, 'Rint': sx.round_half_even,
    'Floor': sx.floor, 'Ceil': sx.ceil, 'SelectV2': sx.ite, 'Select': sx.ite, 'ClipByValue': lambda x, lo, hi: sx.smax(lo, sx.smin(x, hi)),
    'Square': lambda a: sx.mul(a, a), 'MulNoNan': lambda a, b: sx.ite(sx.eq(b, 0), 0, sx.mul(a, b)), 'DivNoNan': lambda a, b: sx.ite(sx.eq(b, 0), 0, sx.div(a, b)),
    'TruncateDiv': sx.idiv_trunc, 'Div': sx.div, 'SquaredDifference': lambda a, b: sx.mul(sx.sub(a, b), sx.sub(a, b)), 'Sign': sx.sign,
    'Reciprocal': lambda a: sx.div(1, a),
}
RED = {'Sum': sx.sumall, 'Max': lambda l: _fold(sx.smax, l), 'Min': lambda l: _fold(sx.smin, l), 'All': sx.allof, 'Any': sx.anyof,
       'Prod': lambda l: _fold(sx.mul, l, 1), 'Mean': lambda l: sx.div(sx.sumall(l), len(l))}


def _fold(f, l, init=None):
  l = list(l)
  r = l.pop(0) if init is None else init
  for x in l:
    r = f(r, x)
  return r


def strided(x, begin, end, strides, a):
  """Index of StridedSlice as a list of (kind, ...)."""
  begin, end, strides = [list(obj(v)) for v in (begin, end, strides)]
  n = len(begin)
  nd = len(x.dims) if isinstance(x, View) else x.ndim
  if a('ellipsis_mask'):
    e = a('ellipsis_mask').bit_length() - 1
    new = sum(1 for i in range(n) if (a('new_axis_mask') >> i) & 1 and i != e)
    pad = nd - (n - 1 - new)
  else:
    e, pad = None, None
  items = []
  ax = 0
  for i in range(n):
    if i == e:
      for _ in range(pad):
        items.append(('all', ax))
        ax += 1
    elif (a('new_axis_mask') >> i) & 1:
      items.append(('new',))
    elif (a('shrink_axis_mask') >> i) & 1:
      items.append(('int', ax, begin[i]))
      ax += 1
    else:
      b = None if (a('begin_mask') >> i) & 1 else begin[i]
      t = None if (a('end_mask') >> i) & 1 else end[i]
      items.append(('slice', ax, b, t, cint(strides[i])))
      ax += 1
  while ax < nd:
    items.append(('all', ax))
    ax += 1
  return items


class Interp:

  def __init__(self, ctx):
    self.ctx = ctx
    self.asserts = []
    self.types = set()
    self.random = {}
    self.nr = 0

  def graph(self, graph, args):
    """args: list of values for the graph's inputs; returns env."""
    env = dict(zip([t.name for t in graph.inputs], args))
    for op in graph.get_operations():
      self.types.add(op.type)
      if op.type == 'Placeholder':
        continue
      ins = [env[t.name] for t in op.inputs]
      outs = self.op(op, ins, graph)
      for t, v in zip(op.outputs, outs):
        env[t.name] = v
    return env

  def sub(self, name, graph, args):
    f = graph._get_function(name)
    g = f.graph if hasattr(f, 'graph') else None
    if g is None:
      from tensorflow.python.framework import function_def_to_graph
      g = function_def_to_graph.function_def_to_graph(graph._get_function(name).cached_definition)
    env = self.graph(g, args)
    return [env[t.name] for t in g.outputs]

  def op(self, op, ins, graph):
    t = op.type
    if t == 'Const':
      v = tensor_util.MakeNdarray(op.get_attr('value'))
      return [obj(v)]
    if t in ('Identity', 'StopGradient', 'Snapshot', 'EnsureShape'):
      return [ins[0]]
    if t == 'IdentityN':
      return list(ins)
    if t in ('NoOp', 'Print', 'PrintV2'):
      return []
    if t in ('Assert',):
      self.asserts.append(scal(ins[0]))
      return []
    if t in EW:
      if any(isinstance(x, View) for x in ins):
        raise Unsupported('%s of an image of symbolic size' % t)
      return [ew(EW[t])(*ins)]
    if t == 'Cast':
      src, dst = op.get_attr('SrcT'), op.get_attr('DstT')
      if isinstance(ins[0], View):
        return [ins[0].like(dtype=dst)]
      return [self.cast(ins[0], src, dst)]
    if t == 'Shape':
      x = ins[0]
      return [obj(np.array(list(x.dims) + [None], dtype=object)[:-1] if isinstance(x, View) else list(x.shape))] if isinstance(x, View) or x.ndim else [np.zeros((0,), object)]
    if t == 'Size':
      x = ins[0]
      return [np.array(_fold(sx.mul, x.dims, 1) if isinstance(x, View) else x.size, dtype=object)]
    if t == 'Rank':
      return [np.array(len(ins[0].dims) if isinstance(ins[0], View) else ins[0].ndim, dtype=object)]
    if t == 'StridedSlice':
      return [self.strided(ins[0], strided(ins[0], *ins[1:], lambda k: op.get_attr(k)))]
    if t == 'Slice':
      x, b, s = ins
      b, s = list(obj(b)), list(obj(s))
      if isinstance(x, View):
        off = [sx.add(o, y) for o, y in zip(x.off, b)]
        dims = [sx.sub(d, y) if sx.is_concrete(z) and int(z) == -1 else z for d, y, z in zip(x.dims, b, s)]
        self.asserts.append(sx.allof([sx.band(sx.ge(y, 0), sx.ge(z, 0), sx.le(sx.add(y, z), d)) for y, z, d in zip(b, dims, x.dims)]))
        return [x.like(off=off, dims=dims)]
      idx = tuple(slice(cint(y), n if cint(z) == -1 else cint(y) + cint(z)) for y, z, n in zip(b, s, x.shape))
      return [x[idx]]
    if t == 'Pack':
      return [np.stack([obj(x) for x in ins], axis=op.get_attr('axis'))]
    if t == 'Unpack':
      ax = op.get_attr('axis')
      return [np.take(ins[0], i, axis=ax) if ins[0].ndim > 1 else np.array(ins[0][i], dtype=object) for i in range(op.get_attr('num'))]
    if t == 'ConcatV2':
      return [np.concatenate([obj(x) for x in ins[:-1]], axis=cint(scal(ins[-1])))]
    if t == 'ExpandDims':
      ax = cint(scal(ins[1]))
      x = ins[0]
      if isinstance(x, View):
        ax = ax if ax >= 0 else len(x.dims) + 1 + ax
        return [x.like(dims=x.dims[:ax] + [1] + x.dims[ax:], off=x.off[:ax] + [0] + x.off[ax:])]
      return [np.expand_dims(x, ax)]
    if t == 'Squeeze':
      ax = list(op.get_attr('squeeze_dims'))
      x = ins[0]
      if isinstance(x, View):
        ax = ax or [i for i, d in enumerate(x.dims) if sx.is_concrete(d) and int(d) == 1]
        return [x.like(dims=[d for i, d in enumerate(x.dims) if i not in ax], off=[d for i, d in enumerate(x.off) if i not in ax])]
      return [np.squeeze(x, tuple(ax) if ax else None)]
    if t == 'Reshape':
      return [obj(ins[0]).reshape([cint(v) for v in obj(ins[1]).reshape(-1)])]
    if t == 'Transpose':
      return [np.transpose(ins[0], [cint(v) for v in obj(ins[1])])]
    if t == 'Fill':
      out = np.empty([cint(v) for v in obj(ins[0])], dtype=object)
      out[...] = scal(ins[1])
      return [out]
    if t in ('ZerosLike', 'OnesLike'):
      out = np.empty(ins[0].shape, dtype=object)
      out[...] = (False, True)[t == 'OnesLike'] if op.get_attr('T') == tf.bool else int(t == 'OnesLike')
      return [out]
    if t == 'Range':
      return [obj(np.arange(*[cint(scal(x)) for x in ins]))]
    if t in RED:
      ax = tuple(cint(v) for v in obj(ins[1]).reshape(-1))
      x = ins[0]
      if x.ndim == 0 or not ax:
        return [x]
      ax = tuple(a % x.ndim for a in ax)
      y = np.moveaxis(x, ax, range(len(ax))).reshape((-1,) + tuple(n for i, n in enumerate(x.shape) if i not in ax))
      out = np.empty(y.shape[1:], dtype=object)
      for i in np.ndindex(*out.shape):
        out[i] = RED[t](list(y[(slice(None),) + i]))
      if op.get_attr('keep_dims'):
        out = out.reshape([1 if i in ax else n for i, n in enumerate(x.shape)])
      return [out]
    if t == 'ScatterNd':
      idx, upd, shape = ins
      shape = [cint(v) for v in obj(shape)]
      k = idx.shape[-1]
      out = np.empty(shape, dtype=object)
      rows = list(np.ndindex(*idx.shape[:-1]))
      for c in np.ndindex(*shape):
        out[c] = sx.sumall([sx.ite(sx.allof([sx.eq(idx[r + (j,)], c[j]) for j in range(k)]), upd[r + c[k:]], 0) for r in rows] + [0])
      for r in rows:
        self.asserts.append(sx.allof([sx.band(sx.ge(idx[r + (j,)], 0), sx.lt(idx[r + (j,)], shape[j])) for j in range(k)]))
      return [out]
    if t == 'OneHot':
      x, depth, on, off = ins
      ax = op.get_attr('axis')
      d = cint(scal(depth))
      out = np.empty(x.shape + (d,), dtype=object)
      for i in np.ndindex(*out.shape):
        out[i] = sx.ite(sx.eq(x[i[:-1]], i[-1]), scal(on), scal(off))
      return [out if ax == -1 else np.moveaxis(out, -1, ax)]
    if t == 'GatherV2':
      x, i, ax = ins
      return [np.take(x, np.vectorize(cint, otypes=[int])(obj(i)), axis=cint(scal(ax)))]
    if t in ('BroadcastTo',):
      return [np.broadcast_to(ins[0], [cint(v) for v in obj(ins[1])])]
    if t == 'Tile':
      return [np.tile(ins[0], [cint(v) for v in obj(ins[1])])]
    if t == 'ReverseV2':
      x = ins[0]
      if isinstance(x, View):
        ax = [cint(v) % len(x.dims) for v in obj(ins[1])]
        return [x.like(flipped=tuple(ax))]
      return [np.flip(x, [cint(v) for v in obj(ins[1])])]
    if t.startswith('Resize'):
      x, size = ins
      h, w = list(obj(size))
      if isinstance(x, View):
        return [View([x.dims[0], h, w, x.dims[3]], None, (t, x), tf.uint8 if t == 'ResizeNearestNeighbor' else tf.float32)]
      raise Unsupported(t)
    if t in ('If', 'StatelessIf'):
      fn = op.get_attr('then_branch').name, op.get_attr('else_branch').name
      c = self.ctx.branch(scal(ins[0]))
      return self.sub(fn[0] if c else fn[1], graph, ins[1:])
    if t in ('PartitionedCall', 'StatefulPartitionedCall'):
      return self.sub(op.get_attr('f').name, graph, ins)
    if t == 'RandomUniform':
      shape = [cint(v) for v in obj(ins[0])]
      self.nr += 1
      return [self.ctx.arr('uniform%d' % self.nr, tuple(shape), lo=0, lt=1)]
    if t.startswith('SampleDistortedBoundingBox'):
      # Any box within the image, of at least one pixel.
      size = obj(ins[0])
      self.nr += 1
      by, bx, h, w = [self.ctx.int('%s%d' % (k, self.nr), 0, 4096) for k in ('box_y', 'box_x', 'box_h', 'box_w')]
      by, bx, h, w = [getattr(v, 'v', v) for v in (by, bx, h, w)]
      self.ctx.assume(sx.allof([sx.ge(h, 1), sx.ge(w, 1), sx.le(sx.add(by, h), size[0]), sx.le(sx.add(bx, w), size[1])]))
      attr = {k: op.get_attr(k) for k in ('area_range', 'use_image_if_no_bounding_boxes')}
      attr['min_object_covered'] = scal(ins[2]) if len(ins) > 2 else op.get_attr('min_object_covered')
      attr['boxes'] = obj(ins[1]).size
      self.random['box'] = (by, bx, h, w, attr)
      return [np.array([by, bx, 0], dtype=object), np.array([h, w, -1], dtype=object), np.zeros((1, 1, 4), dtype=object)]
    if t == 'ExtractJpegShape':
      return [np.array(list(ins[0].dims), dtype=object)]
    if t == 'DecodeAndCropJpeg':
      x, win = ins
      y0, x0, h, w = list(obj(win))
      self.asserts.append(sx.allof([sx.ge(y0, 0), sx.ge(x0, 0), sx.le(sx.add(y0, h), x.dims[0]), sx.le(sx.add(x0, w), x.dims[1])]))
      ch = op.get_attr('channels')
      return [x.like(dims=[h, w, ch or x.dims[2]], off=[sx.add(x.off[0], y0), sx.add(x.off[1], x0), 0])]
    if t in ('DecodeImage', 'DecodeJpeg', 'DecodePng'):
      return [ins[0].like(dims=ins[0].dims[:2] + [op.get_attr('channels') or ins[0].dims[2]])]
    raise Unsupported('TF operation %s' % t)

  def cast(self, x, src, dst):
    def one(v):
      if src == tf.bool:
        return v if dst == tf.bool else sx.ite(v, 1, 0)
      if dst == tf.bool:
        return sx.ne(v, 0)
      if src.is_floating and dst.is_integer:
        return sx.trunc(v)
      return v
    return ew(one)(x)

  def strided(self, x, items):
    if isinstance(x, View):
      dims, off = [], []
      for it in items:
        if it[0] == 'new':
          dims.append(1)
          off.append(0)
        elif it[0] == 'all' or (it[0] == 'slice' and it[2] is None and it[3] is None and it[4] == 1):
          dims.append(x.dims[it[1]])
          off.append(x.off[it[1]])
        elif it[0] == 'int':
          if not (sx.is_concrete(x.dims[it[1]]) and int(x.dims[it[1]]) == 1):
            raise Unsupported('pixel of an image of symbolic size')
        elif it[4] == 1:
          _, ax, b, e, _ = it
          d = x.dims[ax]
          lim = lambda v: sx.smax(0, sx.smin(d, sx.ite(sx.lt(v, 0), sx.add(v, d), v)))
          b = 0 if b is None else lim(b)
          e = d if e is None else lim(e)
          off.append(sx.add(x.off[ax], b))
          dims.append(sx.smax(0, sx.sub(e, b)))
        elif it[4] == -1 and it[2] is None and it[3] is None:
          return self.strided(x.like(flipped=(it[1],)), [('all', i[1]) if i is it else i for i in items])
        else:
          raise Unsupported('strided slice of an image of symbolic size')
      return x.like(dims=dims, off=off)
    idx = []
    for it in items:
      if it[0] == 'new':
        idx.append(None)
      elif it[0] == 'all':
        idx.append(slice(None))
      elif it[0] == 'int':
        idx.append(cint(it[2]))
      else:
        idx.append(slice(None if it[2] is None else cint(it[2]), None if it[3] is None else cint(it[3]), it[4]))
    r = x[tuple(idx)]
    if not isinstance(r, np.ndarray):
      a = np.empty((), dtype=object)
      a[()] = r
      return a
    return r


def trace(fn, specs):
  """The concrete function of fn: dict -> dict of tensors (other entries returned as they are)."""
  return tf.function(lambda d: {k: v for k, v in fn(dict(d)).items()}).get_concrete_function(
      {k: tf.TensorSpec(s.shape, s.dtype, name='in%d' % i) for i, (k, s) in enumerate(sorted(specs.items()))})


def run(ctx, fn, specs, values):
  """Returns (outputs, interp): outputs maps keys to terms."""
  cf = trace(fn, specs)
  it = Interp(ctx)
  args = []
  names = sorted(specs)
  for t in cf.graph.inputs:
    args.append(values[names[int(t.name.split(':')[0][2:])]])
  env = it.graph(cf.graph, args)
  outs = {}
  for k, t in cf.structured_outputs.items():
    outs[k] = env[t.name]
  ctx.stats.prims.update('tf.' + x for x in it.types)
  it.structured = cf.structured_outputs
  return outs, it
