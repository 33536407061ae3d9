"""D03: preprocessing operations compute what they say for every image, label and size."""
import numpy as np
import tensorflow as tf
from lib import sx, tfx
from lib.engine import unwrap
from lib.runner import Case
from vmoe.data import input_pipeline, pp_ops

FUNCTIONS = ['vmoe.data.pp_ops.' + k for k in ('value_range', 'onehot', 'ignore_no_labels', 'keep', 'copy', 'flatten', 'central_crop', 'resize', 'resize_small', 'reshape',
                                               'inception_crop', 'decode_jpeg_and_inception_crop', 'decode', 'flip_lr', 'InKeyOutKey')] + [
                                                   'vmoe.data.input_pipeline.get_data_process_fn', 'vmoe.utils.parse_call']
BOUNDS = {'quick': 'every pixel value (images of 2x2x3), every image size up to 3000x3000 for the geometric operations, every label in range (up to 3 labels, 4 classes), '
                   'the listed arguments', 'thorough': 'image sizes up to 4000, up to 4 labels of 6 classes'}
OUTSIDE = 'the interpolation and decoding kernels of TensorFlow (uninterpreted); float32 rounding'
ASSUMPTIONS = ['each function is traced by tf.function and its graph interpreted over terms; sample_distorted_bounding_box returns any box inside the image']
VALID = '__valid__'


def apply(ctx, fn, specs, values):
  """Terms of the outputs, and whether TensorFlow accepts the input (a term)."""
  if ctx.sym:
    out, it = tfx.run(ctx, fn, specs, values)
    return out, sx.allof(it.asserts), it
  d = {}
  for k, s in specs.items():
    d[k] = tf.constant(np.asarray(tfx_native(values[k], s.dtype)), s.dtype)
  try:
    out = fn(d)
    out = {k: tf.convert_to_tensor(v) for k, v in out.items()}
  except (tf.errors.InvalidArgumentError, ValueError):
    return None, False, None
  return {k: tfx.obj(v.numpy()) for k, v in out.items()}, True, None


def tfx_native(a, dtype):
  o = np.empty(np.shape(a), dtype=dtype.as_numpy_dtype)
  for i in np.ndindex(*o.shape):
    o[i] = np.asarray(a, dtype=object)[i] if not isinstance(np.asarray(a, dtype=object)[i], sx.Fr) else float(np.asarray(a, dtype=object)[i])
  return o


def img(ctx, name, shape, dtype, hi=255):
  if dtype.is_integer:
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
      a[i] = unwrap(ctx.int('%s_%s' % (name, '_'.join(map(str, i))), 0, hi))
    return a
  return ctx.arr(name, shape, lo=-300, hi=300)


def same(a, b):
  return sx.allof([sx.eq(x, y) for x, y in zip(np.asarray(a, object).flat, np.asarray(b, object).flat)] + [np.shape(a) == np.shape(b)])


RANGES = [dict(vmin=-1, vmax=1), dict(vmin=0, vmax=1, in_max=255.0), dict(vmin=-1, vmax=1, clip_values=True, in_min=16, in_max=240), dict(vmin=2, vmax=-2, in_min=-8, in_max=8),
          dict(vmin=-1, vmax=1, in_min=[0, 16, -16], in_max=[256, 240, 240]), dict(vmin=0.25, vmax=0.75, in_min=64, in_max=128, clip_values=True)]


def value_range(ctx, i, dtype):
  kw = RANGES[i]
  dt = getattr(tf, dtype)
  x = img(ctx, 'image', (1, 2, 3), dt)
  o = img(ctx, 'other', (2,), tf.int32)
  out, ok, _ = apply(ctx, pp_ops.value_range(**kw), dict(image=tf.TensorSpec((1, 2, 3), dt), other=tf.TensorSpec((2,), tf.int32)), dict(image=x, other=o))
  ctx.prove('accepted', ok)
  ctx.prove('other entries are untouched', sx.band(set(out) == {'image', 'other'}, same(out['other'], o)))
  for idx in np.ndindex(*x.shape):
    ch = lambda v, d: sx.Fr(kw.get(v, d)[idx[-1]] if isinstance(kw.get(v, d), list) else kw.get(v, d))
    lo, hi = sx.Fr(kw['vmin']), sx.Fr(kw['vmax'])
    a, b = ch('in_min', 0), ch('in_max', 255.0)
    want = sx.add(lo, sx.mul(sx.sub(x[idx], a), (hi - lo) / (b - a)))
    if kw.get('clip_values'):
      want = sx.smax(lo, sx.smin(hi, want))
    ctx.prove('the input range is mapped linearly onto the output range (and clipped if requested)', ctx.close(out['image'][idx], want))


def onehot(ctx, k, depth, multi, on, off, dtype):
  dt = getattr(tf, dtype)
  lab = img(ctx, 'labels', () if k is None else (k,), dt, depth - 1)
  out, ok, _ = apply(ctx, pp_ops.onehot(depth, multi=multi, on=on, off=off), dict(labels=tf.TensorSpec(lab.shape, dt)), dict(labels=lab))
  ctx.prove('labels in range are accepted', ok)
  y = out['labels']
  if k is None or not multi:
    ctx.prove('shape', y.shape == lab.shape + (depth,))
    for i in np.ndindex(*y.shape):
      ctx.prove('exactly the class of the label is on', ctx.close(y[i], sx.ite(sx.eq(lab[i[:-1]], i[-1]), sx.Fr(on), sx.Fr(off))))
  else:
    ctx.prove('shape', y.shape == (depth,))
    for c in range(depth):
      ctx.prove('exactly the classes among the labels are on, repeated labels count once', ctx.close(y[c], sx.ite(sx.anyof([sx.eq(l, c) for l in lab]), sx.Fr(on), sx.Fr(off))))


def no_labels(ctx, k, has_valid, keys):
  lk, vk = keys
  lab = img(ctx, 'labels', () if k is None else (k,), tf.int64, 9)
  specs, vals = {lk: tf.TensorSpec(lab.shape, tf.int64)}, {lk: lab}
  v = True
  if has_valid:
    v = unwrap(ctx.bool('valid'))
    specs[vk] = tf.TensorSpec((), tf.bool)
    a = np.empty((), object)
    a[()] = v
    vals[vk] = a
  kw = {} if keys == ('labels', VALID) else dict(labels_key=lk, valid_key=vk)
  out, ok, _ = apply(ctx, pp_ops.ignore_no_labels(**kw), specs, vals)
  ctx.prove('labels are kept', sx.band(set(out) == {lk, vk}, same(out[lk], lab)))
  ctx.prove('an example is valid exactly if it was valid and has labels', sx.iff(out[vk][()], sx.band(v, k != 0)))


def keys_ops(ctx):
  """keep / copy / flatten / key handling."""
  a, b = img(ctx, 'a', (2,), tf.int32), img(ctx, 'b', (2,), tf.int32)
  v = np.empty((), object)
  v[()] = unwrap(ctx.bool('v'))
  T = tf.TensorSpec((2,), tf.int32)
  specs = {'a': T, 'b': T, VALID: tf.TensorSpec((), tf.bool)}
  vals = {'a': a, 'b': b, VALID: v}
  out, _, _ = apply(ctx, pp_ops.keep('b'), specs, vals)
  ctx.prove('keep keeps the given keys and the validity, nothing else', sx.band(set(out) == {'b', VALID}, same(out.get('b'), b) if 'b' in out else False,
                                                                            same(out[VALID], v) if VALID in out else False))
  out, _, _ = apply(ctx, pp_ops.keep('a', 'b'), {'a': T, 'b': T}, {'a': a, 'b': b})
  ctx.prove('keep invents nothing', set(out) == {'a', 'b'})
  out, _, _ = apply(ctx, pp_ops.copy('a', 'c'), specs, vals)
  ctx.prove('copy copies one entry', sx.band(set(out) == {'a', 'b', 'c', VALID}, same(out['c'], a), same(out['a'], a), same(out['b'], b), same(out[VALID], v)))
  for how, kw, src, dst in (('inkey/outkey', dict(inkey='a', outkey='z'), a, 'z'), ('key', dict(key='b'), b, 'b'), ('inkey', dict(inkey='a'), a, 'image'), ('key first', dict(key='a', inkey='b'), a, 'a')):
    sp = dict(specs)
    va = dict(vals)
    out, _, _ = apply(ctx, pp_ops.value_range(0, 2, 0, 1, **kw), sp, va)
    ctx.prove('operations read and write the given keys only (%s)' % how, sx.band(
        set(out) == {'a', 'b', VALID, dst}, same(out[dst], [sx.mul(2, s) for s in src]), *[same(out[k], vals[k]) for k in vals if k != dst]))
  out, _, _ = apply(ctx, lambda d: pp_ops.flatten()({'p': {'a': d['a']}, 'b': d['b']}), specs, vals)
  ctx.prove('flatten joins keys with /', sx.band(set(out) == {'p/a', 'b'}, same(out['p/a'], a), same(out['b'], b)))


PIPES = [('value_range(0, 2, 0, 1, key="a")|copy("a", "c")|value_range(0, 3, in_max=1, key="a")', {'a': 6, 'b': 1, 'c': 2}),
         ('copy("a", "c")|value_range(0, 3, 0, 1, inkey="c", outkey="b")|keep("b")', {'b': 3}),
         ('copy(inkey="b", outkey="a")|keep("a", "b")', {'a': 1, 'b': 1})]


def pipeline(ctx, i):
  """Processing strings apply the operations from left to right."""
  p, want = PIPES[i]
  a, b = img(ctx, 'a', (2,), tf.int32), img(ctx, 'b', (2,), tf.int32)
  T = tf.TensorSpec((2,), tf.int32)
  out, _, _ = apply(ctx, input_pipeline.get_data_process_fn(p), {'a': T, 'b': T}, {'a': a, 'b': b})
  ctx.prove('the listed operations are applied in order', set(out) == set(want))
  src = {'a': b if i == 2 else a, 'b': a if i == 1 else b, 'c': a}
  for k, m in want.items():
    ctx.prove('the listed operations are applied in order', same(out[k], [sx.mul(m, v) for v in src[k]]))


def geom(ctx, fn, H, W, hi, dtype=tf.uint8, C=3, jpeg=False):
  """Runs fn on an image of symbolic size; returns (view, accepted, interp)."""
  v = tfx.View([unwrap(H), unwrap(W), C], None, 'image', tf.string if jpeg else dtype)
  spec = tf.TensorSpec((), tf.string) if jpeg else tf.TensorSpec((None, None, C), dtype)
  out, it = tfx.run(ctx, fn, {'image': spec}, {'image': v})
  o = out['image']
  o.static = it.structured['image']
  if ctx.sym:
    return o, sx.allof(it.asserts), it
  # Replay: sizes, positions and errors come from the real execution.
  h, w = int(H), int(W)
  y, x = np.mgrid[0:h, 0:w]
  im = np.stack([y // 256, y % 256, x // 256, x % 256][:C] if C == 4 else [y % 256, x % 256, (y // 256) * 16 + x // 256], -1)
  t = tf.constant(im, dtype)
  if jpeg:
    t = tf.io.encode_jpeg(tf.cast(t, tf.uint8), quality=100)
  try:
    r = fn({'image': t})['image']
  except (tf.errors.InvalidArgumentError, ValueError):
    return None, False, None
  v = o.like(dims=list(r.shape), dtype=r.dtype)
  v.static = r
  a = r.numpy()
  if a.size and C == 3 and np.issubdtype(a.dtype, np.integer) and not jpeg:
    p, q = a[0, 0], a[-1, -1]
    dec = lambda z: (int(z[0]) + 256 * (int(z[2]) // 16), int(z[1]) + 256 * (int(z[2]) % 16))
    if v.src == 'image' and 'box' not in it.random:
      v.off = list(dec(p)) + [0]
  return v, True, it


def sizes(ctx, hi):
  return ctx.int('height', 1, hi), ctx.int('width', 1, hi)


def central_crop(ctx, size, hi):
  H, W = sizes(ctx, hi)
  h, w = (size, size) if isinstance(size, int) else size
  v, ok, _ = geom(ctx, pp_ops.central_crop(size), H, W, hi)
  fits = sx.band(sx.ge(unwrap(H), h), sx.ge(unwrap(W), w))
  ctx.prove('a crop is possible exactly if the image is large enough', sx.iff(ok, fits))
  if v is None:
    return
  dy, dx = unwrap((H - h) // 2), unwrap((W - w) // 2)
  ctx.prove('the crop has the requested size', sx.implies(fits, sx.band(sx.eq(v.dims[0], h), sx.eq(v.dims[1], w), sx.eq(v.dims[2], 3))))
  ctx.prove('the crop is the central window', sx.implies(fits, sx.band(sx.eq(v.off[0], dy), sx.eq(v.off[1], dx), v.src == 'image', not v.flipped)))


def whole(v, H, W):
  """v is the full image of size HxW."""
  sp = [(d, o) for d, o in zip(v.dims, v.off)][-3:]
  return sx.band(v.src == 'image', sx.eq(sp[0][0], unwrap(H)), sx.eq(sp[1][0], unwrap(W)), sx.eq(sp[0][1], 0), sx.eq(sp[1][1], 0), not v.flipped)


def resize(ctx, size, method, dtype, hi):
  H, W = sizes(ctx, hi)
  h, w = (size, size) if isinstance(size, int) else size
  dt = getattr(tf, dtype)
  kw = {} if method is None else dict(resize_method=method)
  if not ctx.sym:
    ctx.assume(int(H) * int(W) < 4000000)
  v, ok, _ = geom(ctx, pp_ops.resize(size, **kw), H, W, hi, dt)
  ctx.prove('every image is accepted', ok)
  ctx.prove('the result has the requested size and the type of the input', sx.band(sx.eq(v.dims[0], h), sx.eq(v.dims[1], w), sx.eq(v.dims[2], 3), v.dtype == dt, v.static.dtype == dt))
  if v.src != 'image':
    name = {'bilinear': 'ResizeBilinear', 'bicubic': 'ResizeBicubic', 'nearest': 'ResizeNearestNeighbor', 'area': 'ResizeArea'}[method or 'bilinear']
    ctx.prove('the whole image is resized with the requested method', sx.band(v.src[0] == name, whole(v.src[1], H, W)))


def resize_small(ctx, s, hi):
  H, W = sizes(ctx, hi)
  # Images too elongated to fit in memory after resizing are of no interest.
  ctx.assume(sx.band(sx.le(unwrap(H), unwrap(W * 8)), sx.le(unwrap(W), unwrap(H * 8))))
  landscape = H <= W
  if landscape:
    ctx.cover('landscape')
  v, ok, _ = geom(ctx, pp_ops.resize_small(s), H, W, hi)
  ctx.prove('every image is accepted', ok)
  h, w = v.dims[0], v.dims[1]
  small, big, a, b = (h, w, H, W) if landscape else (w, h, W, H)
  ctx.prove('the smaller side gets the requested size', sx.eq(small, s))
  d = sx.sub(sx.mul(big, unwrap(a)), sx.mul(s, unwrap(b)))
  ctx.prove('the other side keeps the aspect ratio up to rounding', sx.band(sx.le(sx.mul(2, d), unwrap(a)), sx.ge(sx.mul(2, d), sx.neg(unwrap(a)))))
  if v.src != 'image':
    ctx.prove('the whole image is resized', sx.band(v.src[0] == 'ResizeArea', whole(v.src[1], H, W)))


def inception(ctx, jpeg, size, area, hi):
  H, W = sizes(ctx, hi)
  kw = dict(resize_size=size) if area is None else dict(resize_size=size, area_min=area[0], area_max=area[1])
  amin, amax = area or (5, 100)
  f = pp_ops.decode_jpeg_and_inception_crop if jpeg else pp_ops.inception_crop
  if not ctx.sym:
    ctx.assume(int(H) * int(W) < 1000000)
  v, ok, it = geom(ctx, f(**kw), H, W, hi, jpeg=jpeg)
  ctx.prove('the crop lies inside the image', ok)
  if size:
    h, w = (size, size) if isinstance(size, int) else size
    ctx.prove('the result has the requested size', sx.band(sx.eq(v.dims[0], h), sx.eq(v.dims[1], w), sx.eq(v.dims[2], 3)))
  else:
    ctx.prove('the crop lies inside the image', sx.band(sx.ge(v.dims[0], 1), sx.ge(v.dims[1], 1), sx.le(v.dims[0], unwrap(H)), sx.le(v.dims[1], unwrap(W))))
  if not jpeg:
    ctx.prove('the type of the image is kept', v.static.dtype == tf.uint8)
  if 'box' in it.random:
    by, bx, bh, bw, attr = it.random['box']
    c = v.src[1] if size else v
    if not size and not ctx.sym:
      c = c.like(dims=[bh, bw, 3])
    d, o = c.dims[-3:], c.off[-3:]
    ctx.prove('exactly the sampled box is cropped', sx.band(sx.eq(o[0], by), sx.eq(o[1], bx), sx.eq(d[0], bh), sx.eq(d[1], bw), c.src == 'image'))
    ctx.prove('the crop area is within the configured percentages, over the whole image', sx.band(
        abs(attr['area_range'][0] - amin / 100) < 1e-6, abs(attr['area_range'][1] - amax / 100) < 1e-6, attr['use_image_if_no_bounding_boxes'] is True,
        attr['boxes'] == 0, attr['min_object_covered'] == 0))


def flip(ctx):
  x = img(ctx, 'image', (2, 3, 1), tf.uint8)
  spec = dict(image=tf.TensorSpec((2, 3, 1), tf.uint8))
  out, ok, _ = apply(ctx, pp_ops.flip_lr(), spec, dict(image=x))
  mirrored = same(out['image'], x[:, ::-1])
  ctx.prove('the result is the image or its mirror image', sx.bor(same(out['image'], x), mirrored))


def reshape(ctx):
  x = img(ctx, 'image', (2, 6), tf.uint8)
  out, ok, _ = apply(ctx, pp_ops.reshape((2, 2, 3)), dict(image=tf.TensorSpec((2, 6), tf.uint8)), dict(image=x))
  ctx.prove('reshape keeps all values in order', same(out['image'], x.reshape(2, 2, 3)))


def cases(tier):
  hi = 3000 if tier == 'quick' else 4000
  q = tier == 'quick'
  out = [Case(value_range, i=i, dtype=d) for i in range(len(RANGES)) for d in ('uint8', 'float32')]
  out += [Case(onehot, k=k, depth=4 if q else 6, multi=m, on=on, off=off, dtype='int64') for k in (None, 0, 1, 3) + (() if q else (4,)) for m in (True, False)
          for on, off in ((1.0, 0.0), (0.875, 0.125))]
  out += [Case(onehot, k=2, depth=3, multi=True, on=0.5, off=-0.5, dtype='int32')]
  out += [Case(no_labels, k=k, has_valid=v, keys=ks) for k in (0, 1, 2, None) for v in (True, False) for ks in (('labels', VALID), ('l', 'ok'))]
  out += [Case(keys_ops), Case(flip), Case(reshape)] + [Case(pipeline, i=i) for i in range(len(PIPES))]
  out += [Case(central_crop, size=s, hi=hi) for s in (1, 224, (3, 8), [7, 5])]
  out += [Case(resize, size=s, method=m, dtype=d, hi=hi) for s, m, d in ((224, None, 'uint8'), ((3, 5), 'bicubic', 'float32'), (4, 'nearest', 'uint8'))]
  out += [Case(resize_small, s=s, hi=hi) for s in (1, 16, 256)]
  out += [Case(inception, jpeg=j, size=s, area=a, hi=hi) for j in (False, True) for s, a in ((None, None), (8, (10, 50)), ((4, 6), None))]
  return out
