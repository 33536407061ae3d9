"""Environment of the training loops: data, checkpoint manager, hooks, compiler."""
import contextlib
import os
import types as pytypes
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
import optax
from .engine import SNum
from . import ckpt_h as H


class Crash(BaseException):
  pass


class Store:
  """What survives a crash: committed checkpoints (and at most one being written)."""

  def __init__(self):
    self.done = {}
    self.pending = None

  def commit(self):
    if self.pending:
      step, items = self.pending
      self.done[step] = items
      self.pending = None


def _int(x):
  return x.__index__() if isinstance(x, SNum) else int(x)


class World:

  def __init__(self, ctx, every, tick, nbatches=None):
    self.ctx, self.every, self.tick = ctx, every, tick
    self.store = Store()
    self.log = []
    self.pulled = 0
    self.init_calls = 0

  # Checkpoint manager: saves on multiples of the interval or when forced, one save in flight.
  def manager(self, *, workdir=None, every_steps=None, **kw):
    w = self

    class Manager:

      def latest_step(self):
        return max(w.store.done) if w.store.done else None

      def save(self, step, items=None, args=None, force=False, **kw):
        step = _int(step)
        w.tick('save')
        w.store.commit()  # the previous save is waited for
        if step in w.store.done:
          if force:
            raise ValueError('checkpoint for step %d exists' % step)
          return False
        if not force and (not (step % w.every == 0) or (w.store.done and step <= max(w.store.done))):
          return False
        st = items['state']
        w.store.pending = (step, dict(state=jax.tree_util.tree_map(np.asarray, st), it=items['dataset_iterator']))
        w.log.append(('save', step, int(st.step), items['dataset_iterator'], force))
        return True

      def restore(self, step, **kw):
        step = _int(step)
        it = w.store.done[step]
        w.log.append(('restore', step))
        return {'state': jax.tree_util.tree_map(jnp.asarray, it['state']), 'dataset_iterator': it['it']}

      def wait_until_finished(self):
        w.tick('wait')
        w.store.commit()
    return Manager()

  def exists(self, path):
    base = os.path.basename(path)
    return base.isdigit() and int(base) in self.store.done

  def batches(self, *a, **kw):
    while True:
      self.pulled += 1
      self.log.append(('batch',))
      yield {k: jnp.full((2,), float(self.pulled)) for k in ('image', 'labels', 'text')}

  def recorder(self, kind):
    w = self

    class Hook:

      def __init__(self, *a, **kw):
        self.on_steps = kw.get('on_steps')
        w.log.append(('create', kind, list(self.on_steps) if self.on_steps is not None else None))

      def __call__(self, step, t=None, **kw):
        w.tick(kind)
        p = kw.get('params', (kw.get('variables') or {}).get('params') if kw.get('variables') else None)
        w.log.append((kind, step, None if p is None else np.asarray(p['n']).item()))

      def timed(self, *a, **kw):
        return contextlib.nullcontext()
    return Hook

  def compiler(self, fun=None, *a, **kw):
    w = self
    f = fun

    class Compiled:

      def __call__(self, *args):
        return jax.tree_util.tree_map(jnp.asarray, f(*args))

      def lower(self, *args):
        return self

      def compile(self):
        return CompiledStep()

    class CompiledStep:

      def __call__(self, state, *args):
        w.tick('train_step')
        before = int(state.step)
        out = f(state, *args)
        w.log.append(('train_step', before, float(np.asarray(args[0]).ravel()[0])))
        return out

      def cost_analysis(self):
        return {'flops': -1.0, 'optimal_seconds': -1.0}
    return Compiled()


def apply_fn(variables, *inputs, rngs=None):
  # d loss / d n = -1: every update adds one (lr 1).
  n = variables['params']['n']
  return n * jnp.ones((2,)), {}


def loss(*a, **kw):
  return -a[0]
