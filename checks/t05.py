"""T05: training runs every step once, in order; whatever the crash point, a restart continues from the last checkpoint and ends complete."""
import contextlib
import types as pytypes
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
import optax
from lib import loop_h as L, sx, ckpt_h as H
from lib.engine import unwrap
from lib.runner import Case
from lib.shadow import shadow
from vmoe.projects.contrastive import trainer as ctrainer
from vmoe.train import trainer
from vmoe.train.train_state import TrainState

FUNCTIONS = ['vmoe.train.trainer.train_and_evaluate', 'vmoe.train.trainer.restore_or_create_train_state', 'vmoe.train.trainer.create_or_reuse_train_state',
             'vmoe.train.trainer.get_train_steps_and_epochs', 'vmoe.train.trainer.create_evaluation_hook/create_fewshot_hook/create_progress_hook',
             'vmoe.projects.contrastive.trainer.train_and_evaluate']
BOUNDS = {'quick': 'training length 1..4 (symbolic), save interval 1..3, two consecutive crashes at any event (each train step, checkpoint call, hook), the checkpoint in '
                   'flight committed or lost; steps/epochs arithmetic for every batch size and example count up to 100000',
          'thorough': 'training length up to 6, interval up to 4'}
OUTSIDE = 'longer trainings; multi-host coordination; the orbax library (modelled: interval, force, one save in flight, atomic commit)'
ASSUMPTIONS = ['stubs: datasets, orbax manager, metric hooks, compiler (runs the step function eagerly)']


class TF:

  def __init__(self, w, real):
    self.io = pytypes.SimpleNamespace(gfile=pytypes.SimpleNamespace(exists=w.exists, makedirs=lambda d: None))
    self._real = real

  def __getattr__(self, k):
    return getattr(self._real, k)


@contextlib.contextmanager
def env(ctx, w, mod):
  saved = []

  def patch(o, k, v):
    saved.append((o, k, o.__dict__.get(k, saved)))
    setattr(o, k, v)
  sd = {k: jax.ShapeDtypeStruct((2,), jnp.float32, sharding=jax.sharding.SingleDeviceSharding(jax.devices()[0])) for k in ('image', 'labels', 'text')}
  patch(mod.input_pipeline, 'get_datasets', lambda *a, **k: {'train': 'train', 'val': 'val'})
  patch(mod.input_pipeline, 'get_data_num_examples', lambda *a, **k: 7)
  patch(mod.pjit_utils, 'get_dataset_shape_dtype_struct', lambda *a, **k: sd)
  patch(trainer.pjit_utils, 'prefetch_to_device', w.batches)
  patch(mod, 'tf', TF(w, mod.tf))
  patch(mod.multihost_utils, 'sync_devices', lambda *a, **k: None)
  patch(mod, 'ThreadPool', lambda *a, **k: None)
  patch(trainer.parameter_overview, 'log_parameter_overview', lambda *a, **k: None)
  patch(trainer.evaluator, 'EvaluateMultipleDatasets', w.recorder('eval'))
  patch(trainer.fewshot, 'FewShotPeriodicAction', w.recorder('fewshot'))
  rec = w.recorder('progress')
  for m in {trainer, mod}:
    patch(m, 'create_checkpoint_manager', w.manager)
    patch(m, 'create_flax_model', lambda **k: pytypes.SimpleNamespace(apply=L.apply_fn))
    patch(m, 'ReportProgress', rec)
    patch(m, 'create_profile_hook', lambda **k: (lambda step: None))
    if ctx.sym:
      patch(m, 'range', H.srange)

  def make(**kw):
    def init():
      w.init_calls += 1
      return TrainState.create(apply_fn=L.apply_fn, params={'n': jnp.zeros(())}, tx=optax.sgd(1.0), rngs={})
    return init
  for m in {trainer, mod}:
    patch(m, 'make_create_train_state_fn', make)
  if mod is trainer:
    patch(trainer.pjit, 'pjit', w.compiler)
    patch(trainer, 'get_loss_fn', lambda **k: (L.loss, L.loss, None))
  else:
    patch(trainer.pjit, 'pjit', w.compiler)
    patch(mod.jax, 'jit', w.compiler)
    patch(mod, 'sigmoid_loss', L.loss)
    patch(mod.fewshot, 'FewShotPeriodicAction', w.recorder('fewshot'))
    patch(mod.evaluators, 'ZeroShotPeriodicAction', w.recorder('zeroshot')) if hasattr(mod.evaluators, 'ZeroShotPeriodicAction') else None
    patch(mod.evaluators, 'RetrievalPeriodicAction', w.recorder('retrieval')) if hasattr(mod.evaluators, 'RetrievalPeriodicAction') else None
  try:
    with contextlib.ExitStack() as st:
      if ctx.sym:
        st.enter_context(shadow(trainer, mod) if mod is not trainer else shadow(trainer))
      yield
  finally:
    for o, k, v in reversed(saved):
      if v is saved:
        delattr(o, k)
      else:
        setattr(o, k, v)


def config(T, E):
  c = ml_collections.ConfigDict()
  c.dataset = dict(train=dict(batch_size=3))
  c.model = dict(name='x')
  c.optimizer = dict()
  c.loss = dict(name='x')
  c.params_axis_resources = []
  c.save_checkpoint = dict(every_steps=1)
  c.fewshot = dict(a=1)
  c.retrieval = dict(datasets=dict(coco=dict()))
  c.zeroshot = dict(datasets=dict(imagenet=dict()))
  return c


class Cfg:
  """ConfigDict whose train_steps may be symbolic."""

  def __init__(self, c, T):
    self._c, self._T = c, T

  def get(self, k, d=None):
    return self._T if k == 'train_steps' else self._c.get(k, d)

  def __getattr__(self, k):
    return self._T if k == 'train_steps' else getattr(self._c, k)


def loop(ctx, which, tmax, emax, crashes):
  mod = dict(vmoe=trainer, contrastive=ctrainer)[which]
  ctx.format_concrete = True
  T = ctx.int('train_steps', 1, tmax)
  every = ctx.int('every', 1, emax)
  events = [0]
  limit = [None]

  def tick(what):
    events[0] += 1
    if limit[0] is not None and limit[0] == events[0]:
      raise L.Crash(what)
  w = L.World(ctx, every, tick)
  mesh = jax.sharding.Mesh(np.asarray(jax.devices()[:1]).reshape(1), ('d',))
  writer = pytypes.SimpleNamespace(write_scalars=lambda *a, **k: None)
  perstep = 5 if which == 'contrastive' else 5
  emaxev = 3 + perstep * tmax + 3
  with env(ctx, w, mod):
    for attempt in range(crashes + 1):
      last = attempt == crashes
      events[0] = 0
      limit[0] = None if last else ctx.int('crash%d' % attempt, 1, emaxev)
      w.log, w.pulled = [], 0
      start = max(w.store.done) if w.store.done else None
      crashed = False
      try:
        mod.train_and_evaluate(Cfg(config(T, every), T), '/nowhere', mesh, writer)
      except L.Crash:
        crashed = True
      check_run(ctx, w, T, start, crashed)
      if crashed:
        if w.store.pending is not None and ctx.bool('flushed%d' % attempt):
          w.store.commit()
        w.store.pending = None
        ctx.cover('crashed')
      else:
        tt = T.__index__() if hasattr(T, '__index__') else T
        ctx.prove('the final state is saved when training ends', tt in w.store.done and w.store.pending is None)
        ctx.prove('the final checkpoint holds the state after all the updates', int(w.store.done[tt]['state'].step) == tt)
        ctx.cover('finished')
        if not last:
          break


def check_run(ctx, w, T, start, crashed):
  log = w.log
  first = 1 if start is None else start + 1
  ctx.prove('continues from the latest checkpoint', [e[1] for e in log if e[0] == 'restore'] == ([] if start is None else [start]))
  ts = [e for e in log if e[0] == 'train_step']
  ctx.prove('each step is run once, in order, starting after the restored one', [e[1] for e in ts] == list(range(first - 1, first - 1 + len(ts))))
  for i, e in enumerate(ts):
    ctx.prove('every step consumes the next batch', e[2] == float(i + 1))
    ctx.prove('no step beyond the requested number', unwrap(T >= e[1] + 1))
  ctx.prove('no batch is consumed without a step', w.pulled <= len(ts) + 1 if crashed else w.pulled == len(ts))
  if not crashed:
    ctx.prove('runs up to the requested number of steps', unwrap(T == first - 1 + len(ts)) if first - 1 + len(ts) >= 1 else len(ts) == 0)
  for e in log:
    if e[0] == 'save':
      ctx.prove('a checkpoint is labelled with the number of updates it contains', e[1] == e[2])
      ctx.prove('and with the number of examples seen', e[3]['last_seen_index'] == 3 * e[1])
  n = first - 1
  for e in log:
    if e[0] == 'train_step':
      n += 1
    elif e[0] in ('eval', 'fewshot', 'progress', 'zeroshot', 'retrieval'):
      ctx.prove('hooks run after the step they are labelled with', unwrap(e[1] == n))
      if e[2] is not None:
        ctx.prove('hooks get the parameters of that step', e[2] == float(n))
  for kind in sorted(set(e[1] for e in log if e[0] == 'create')):
    if not crashed and ts:
      ctx.prove('hooks are called on every step', len([e for e in log if e[0] == kind]) == len(ts))
    for e in log:
      if e[0] == 'create' and e[1] == kind:
        for want in (first, T):
          hit = False
          for s in e[2]:
            hit = sx.bor(hit, unwrap(s == want))
          ctx.prove('hooks are triggered on the first and the last step', hit)
  if start is None and not crashed:
    ctx.prove('the initial state is saved', 0 in w.store.done)


def arithmetic(ctx):
  """Number of steps for a number of epochs."""
  bs = ctx.int('batch', 1, 100000)
  n = ctx.int('examples', 1, 100000)
  mode = ctx.choice('mode', ['steps', 'epochs', 'both', 'none'])
  if mode == 'steps':
    s = ctx.int('steps', 1, 100000)
    with shadow(trainer):
      steps, ep = trainer.get_train_steps_and_epochs(train_batch_size=bs, train_examples=n, train_steps=s)
    ctx.prove('the given number of steps', sx.eq(unwrap(steps), unwrap(s)))
    lhs, rhs = sx.mul(unwrap(ep), unwrap(n)), sx.mul(unwrap(s), unwrap(bs))
    ctx.prove('epochs = steps * batch / examples', sx.le(sx.sabs(sx.sub(lhs, rhs)), sx.mul(rhs, sx.Fr(1, 10**9))))
  elif mode == 'epochs':
    num = ctx.choice('num', [1, 2, 3, 5, 8, 300, 1200])
    e = num / 4
    with shadow(trainer):
      steps, ep = trainer.get_train_steps_and_epochs(train_batch_size=bs, train_examples=n, train_epochs=e)
    st, b, need = unwrap(steps), unwrap(bs), sx.mul(sx.Fr(num, 4), unwrap(n))
    ctx.prove('enough steps to see every epoch', sx.ge(sx.mul(st, b), need))
    ctx.prove('and not one more', sx.lt(sx.mul(sx.sub(st, 1), b), need))
  else:
    try:
      trainer.get_train_steps_and_epochs(train_batch_size=bs, train_examples=n, **(dict(train_steps=3, train_epochs=2) if mode == 'both' else {}))
      ok = False
    except ValueError:
      ok = True
    ctx.prove('ambiguous length is rejected', ok)


def manager(ctx):
  """The checkpoint manager is created with the configured interval and retention."""
  every = ctx.int('every', 1, 100000)
  last = ctx.int('keep_last', 1, 1000)
  period = ctx.int('period', 1, 100000)
  got = {}

  def opts(**kw):
    got.update(kw)
    return kw
  oc = trainer.orbax.checkpoint
  saved = {k: getattr(oc, k) for k in ('CheckpointManagerOptions', 'CheckpointManager', 'AsyncCheckpointer', 'Checkpointer')}
  tf, sync = trainer.tf, trainer.multihost_utils.sync_devices
  made = []
  try:
    oc.CheckpointManagerOptions = opts
    oc.CheckpointManager = lambda d, items, options=None, **kw: made.append((d, set(items), options)) or 'manager'
    oc.AsyncCheckpointer = lambda *a, **kw: 'async'
    oc.Checkpointer = lambda *a, **kw: 'sync'
    trainer.multihost_utils.sync_devices = lambda *a: None
    trainer.tf = pytypes.SimpleNamespace(io=pytypes.SimpleNamespace(gfile=pytypes.SimpleNamespace(exists=lambda p: True, makedirs=lambda p: None)))
    r = trainer.create_checkpoint_manager(workdir='/w', every_steps=every, keep_last=last, keep_steps_multiple_of=period)
  finally:
    trainer.tf, trainer.multihost_utils.sync_devices = tf, sync
    for k, v in saved.items():
      setattr(oc, k, v)
  ctx.prove('a manager for the ckpt directory holding state and dataset position', r == 'manager' and made[0][0] == '/w/ckpt'
            and made[0][1] == {'state', 'dataset_iterator'})
  ctx.prove('saves with the configured interval', unwrap(got['save_interval_steps'] == every))
  ctx.prove('keeps the configured number of checkpoints', unwrap(got['max_to_keep'] == last))
  ctx.prove('keeps the configured period', unwrap(got['keep_period'] == period))


def cases(tier):
  th = tier == 'thorough'
  out = [Case(arithmetic), Case(manager)]
  for wch in ('vmoe', 'contrastive'):
    for c in (0, 1) + ((2,) if th else ()):
      out.append(Case(loop, which=wch, tmax=(6 if th else 4) if c < 2 else 3, emax=4 if th else 3, crashes=c))
  out.append(Case(loop, which='vmoe', tmax=2, emax=2, crashes=2))
  return out
