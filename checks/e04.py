"""E04: evaluation hooks run on the first, last, configured and periodic steps; image-text evaluators see one modality, report under their own names."""
import contextlib
import types as pytypes
from clu import periodic_actions
import jax
import ml_collections
import numpy as np
from jax.sharding import NamedSharding, PartitionSpec
from lib import sx
from lib.engine import unwrap
from lib.runner import Case
from vmoe.projects.contrastive import evaluators
from vmoe.projects.contrastive import trainer as ctrainer
from vmoe.train import trainer

FUNCTIONS = ['vmoe.train.trainer.create_evaluation_hook', 'vmoe.train.trainer.create_fewshot_hook', 'vmoe.train.trainer.override_base_config',
             'vmoe.projects.contrastive.trainer.create_fewshot_hook', 'vmoe.projects.contrastive.trainer.create_retrieval_hook',
             'vmoe.projects.contrastive.trainer.create_zeroshot_hook', 'vmoe.projects.contrastive.evaluators.ZeroShotPeriodicAction',
             'vmoe.projects.contrastive.evaluators.RetrievalPeriodicAction']
BOUNDS = {'quick': 'every first and last step up to 4, every period up to 3 or none, any (or no) extra steps configured among three; up to two tasks; every embedding and metric value',
          'thorough': 'steps up to 6, periods up to 4'}
OUTSIDE = 'Big Vision evaluators (stubs that call the prediction function and return arbitrary metrics); seconds-based schedules (T06)'
ASSUMPTIONS = ['clu.PeriodicCallback runs for real; the model is a stub of arbitrary weight']
MESH = jax.sharding.Mesh(np.asarray(jax.devices()[:1]).reshape(1), ('d',))
SHARD = NamedSharding(MESH, PartitionSpec('d'))


@contextlib.contextmanager
def patched(*ps):
  saved = []
  try:
    for o, k, v in ps:
      saved.append((o, k, getattr(o, k)))
      setattr(o, k, v)
    yield
  finally:
    for o, k, v in reversed(saved):
      setattr(o, k, v)


class Act(periodic_actions.PeriodicCallback):
  """Stands for the class of an action: same schedule, records its arguments."""
  made = None

  def __init__(self, *, every_steps=None, every_secs=None, on_steps=None, **kw):
    self.kw = kw
    super().__init__(every_steps=every_steps, every_secs=every_secs, on_steps=on_steps, callback_fn=self.run, execute_async=False, pass_step_and_time=True)
    self.made.append(self)

  def run(self, step, t, **kw):
    self.log.append((step, kw))


KINDS = ('evaluation', 'fewshot', 'contrastive_fewshot', 'retrieval', 'zeroshot')


def hook(ctx, kind, tmax, pmax, tasks=1, overrides=False):
  first = ctx.int('first', 1, tmax)
  last = ctx.int('last', 1, tmax)
  ctx.assume(sx.le(unwrap(first), unwrap(last)))
  first, last = first.__index__(), last.__index__()  # the steps of the loop: every pair is explored
  every = ctx.int('every', 1, pmax) if ctx.bool('periodic') else None
  extra = ctx.choice('extra', [None, (), [2], (3, 2), {1, tmax + 5}])
  log, writes, models, seen = [], [], [], []
  wi, wt = ctx.real('wi', -8, 8), ctx.real('wt', -8, 8)

  def apply(v, images=None, texts=None, **kw):
    seen.append((v, images, texts, kw))
    return ('z', wi * images if images is not None else wt * texts), {}

  def flax_model(*, config, deterministic):
    models.append((config, deterministic))
    return pytypes.SimpleNamespace(apply=apply)
  class A(Act):
    made = []
  A.log = log
  metrics = {}

  def metric(*name):
    if name not in metrics:
      metrics[name] = ctx.real('_'.join(name).replace('@', ''), 0, 1)
    return metrics[name]
  evs = []

  class Ev:

    def __init__(self, predict_fn=None, devices=None, **kw):
      self.predict_fn, self.devices, self.kw = predict_fn, devices, kw
      self.datasets = {t: None for t in kw.get('dataset_names', ())}
      self.who = str(len(evs))
      evs.append(self)

    def evaluate(self, variables, *task):
      log.append((self, variables))
      x = ctx.real('x', -8, 8)
      self.checks = []
      self.checks.append((self.predict_fn(variables, {'image': x}), 'image', x))
      self.checks.append((self.predict_fn(variables, {'labels': x}), 'text', x))
      self.checks.append((self.predict_fn(variables, {'image': x, 'labels': None}), 'image', x))
      refused = 0
      for bad in ({'image': x, 'labels': x}, {}, {'image': None, 'labels': None}):
        try:
          self.predict_fn(variables, bad)
        except ValueError:
          refused += 1
      ctx.prove('exactly one modality, or an error', refused == 3)
      if task:
        return {'accuracy': metric('acc', task[0])}
      return {d: {k: metric(d, k, self.who) for k in ('Recall@1', 'Recall@5')} for d in ('txt2img', 'img2txt')}
  writer = pytypes.SimpleNamespace(write_scalars=lambda s, m: writes.append((s, dict(m))))

  class Progress:
    names = []

    def timed(self, name, wait_jax_async_dispatch=True):
      self.names.append(name)
      return lambda f: f
  progress = Progress()
  Progress.names = []
  base = ml_collections.ConfigDict(dict(name='M', size=3, sub=dict(a=1, b=2)))
  kw = dict(base_model_config=base, writer=writer, progress_hook=progress, first_step=first, train_steps=last)
  if overrides:
    kw['model_overrides'] = ml_collections.ConfigDict(dict(size=4, sub=dict(b=5)))
  if extra is not None:
    kw['on_steps'] = extra
  if every is not None:
    kw['every_steps'] = every
  names = ['t%d' % i for i in range(tasks)]
  m = trainer if kind in ('evaluation', 'fewshot') else ctrainer
  ps = [(m, 'create_flax_model', flax_model)]
  ps += {'evaluation': [(trainer.evaluator, 'EvaluateMultipleDatasets', A)], 'fewshot': [(trainer.fewshot, 'FewShotPeriodicAction', A)],
         'contrastive_fewshot': [(ctrainer.fewshot, 'FewShotPeriodicAction', A)], 'retrieval': [(evaluators, 'bv_retrieval', pytypes.SimpleNamespace(Evaluator=Ev))],
         'zeroshot': [(evaluators, 'bv_discriminative', pytypes.SimpleNamespace(Evaluator=Ev))]}[kind]
  with patched(*ps):
    if kind == 'evaluation':
      h, cfg = trainer.create_evaluation_hook(datasets={'v': 'data'}, loss_fn='loss', label_pred_fn='pred', extra_rng_keys=('r',), **kw)
    elif kind == 'fewshot':
      h, cfg = trainer.create_fewshot_hook(extra_rng_keys=('r',), shots=(1,), **kw)
    elif kind == 'contrastive_fewshot':
      h, cfg = ctrainer.create_fewshot_hook(extra_rng_keys=('r',), shots=(1,), **kw), None
    else:
      f = ctrainer.create_retrieval_hook if kind == 'retrieval' else ctrainer.create_zeroshot_hook
      ds = {n: dict(opt=i) for i, n in enumerate(names)}
      h, cfg = f(datasets=ml_collections.ConfigDict(ds) if ctx.bool('as_config') else ds, data_sharding=SHARD, extra='e', **kw), None
    want_cfg = dict(name='M', size=4 if overrides else 3, sub=dict(a=1, b=5 if overrides else 2))
    ctx.prove('one deterministic model, with the overrides', len(models) == 1 and models[0][1] is True and dict(models[0][0]) == want_cfg)
    if cfg is not None:
      ctx.prove('the configuration of that model is returned', cfg.to_dict() == want_cfg)
    ctx.prove('the configuration of the trained model is untouched', base.to_dict() == dict(name='M', size=3, sub=dict(a=1, b=2)))
    n_actions = len(names) if kind == 'retrieval' else 1
    for step in range(first, last + 1):
      del log[:], writes[:], seen[:]
      v = {'params': step}
      arg = {'params': v['params']} if kind == 'evaluation' else {'variables': v}
      h(step, **arg)
      due = step in (first, last) or step in (extra or ())
      if every is not None:
        due = sx.bor(due, unwrap(step % every == 0))
      ran = len(log) > 0
      ctx.prove('runs exactly on the first, last, configured and periodic steps', sx.iff(due, ran) if ctx.sym else bool(due) == ran)
      if not ran:
        ctx.prove('nothing is computed or written on other steps', not writes and not seen)
        continue
      ctx.cover('ran')
      if kind in ('evaluation', 'fewshot', 'contrastive_fewshot'):
        ctx.prove('once, with the parameters of that step', log == [(step, arg)])
        continue
      ctx.prove('each task once, with the parameters of that step', [(e.who, p) for e, p in log] == (
          [(str(i), v) for i in range(tasks)] if kind == 'retrieval' else [('0', v)] * tasks))
      want = []
      if kind == 'retrieval':
        for i, t in enumerate(names):
          want.append({'retrieval/%s/%s/%s' % (t, d, k): metric(d, k, str(i)) for d in ('txt2img', 'img2txt') for k in ('Recall@1', 'Recall@5')})
      else:
        want.append({'zeroshot/%s/accuracy' % t: metric('acc', t) for t in names})
      ctx.prove('reported once per action, at that step', [s for s, _ in writes] == [step] * n_actions)
      for (_, got), w in zip(writes, want):
        ctx.prove('every metric under its own name, and nothing else', {k for k in got if not k.endswith('/duration_secs')} == set(w))
        for k in w:
          ctx.prove('with its value', sx.eq(unwrap(got[k]), unwrap(w[k])) if k in got else False)
      for e, _ in log:
        for out, what, x in e.checks:
          zi = wi * x if what == 'image' else wt * x
          i = 0 if what == 'image' else 1
          ok = len(out) == 3 and out[1 - i] is None and out[2] is None and out[i] is not None and out[i][0] == 'z'
          ctx.prove('images come back first, texts second', sx.eq(unwrap(out[i][1]), unwrap(zi)) if ok else False)
      ctx.prove('the model gets the variables of that step and one modality', all(s[0] is v and (s[1] is None) != (s[2] is None) for s in seen))
  if kind in ('retrieval', 'zeroshot'):
    ctx.prove('evaluators get the devices of the mesh', all(list(e.devices) == list(MESH.devices.ravel()) for e in evs))
    ctx.prove('one evaluator per retrieval task, one for all zero-shot tasks', len(evs) == n_actions)
    for i, e in enumerate(evs):
      if kind == 'retrieval':
        ctx.prove('options of the task', {k: v for k, v in e.kw.items() if k in ('opt', 'extra')} == dict(opt=i, extra='e'))
      else:
        ctx.prove('options of the tasks', tuple(e.kw['dataset_names']) == tuple(names) and e.kw['dataset_overrides'] == {n: dict(opt=i) for i, n in enumerate(names)} and e.kw['extra'] == 'e')
  else:
    a, = A.made
    ctx.prove('writes to the given writer', a.kw['metric_writer'] is writer and a.kw['report_progress'] is progress)
    ctx.prove('the PRNG names', tuple(a.kw['rng_keys']) == ('r',))
    if kind == 'evaluation':
      ctx.prove('evaluates the given data with the given functions', a.kw['datasets'] == {'v': 'data'} and a.kw['loss_fn'] == 'loss' and a.kw['label_pred_fn'] == 'pred')
    else:
      ctx.prove('the configured options', tuple(a.kw['shots']) == (1,))
    x = ctx.real('y', -8, 8)
    del seen[:]
    out, _ = a.kw['apply_fn']('vars', x, rngs='keys')
    ctx.prove('the model is applied to the images only', len(seen) == 1 and seen[0][0] == 'vars' and seen[0][1] is x and seen[0][2] is None and seen[0][3] == {'rngs': 'keys'})
    ctx.prove('and its output returned', sx.eq(unwrap(out[1]), unwrap(wi * x)))


def missing(ctx):
  """Without Big Vision, or without tasks, nothing is evaluated and training goes on."""
  kind = ctx.choice('kind', ['retrieval', 'zeroshot', 'fewshot', 'contrastive_fewshot'])
  tasks = ctx.choice('tasks', [None, {}, {'a': {}}])
  step = ctx.int('step', 1, 4)
  base = ml_collections.ConfigDict(dict(name='M'))
  kw = dict(base_model_config=base, writer=None, progress_hook=None, first_step=step, train_steps=4)
  with patched((ctrainer, 'create_flax_model', lambda **k: pytypes.SimpleNamespace(apply=None)), (evaluators, 'bv_retrieval', None), (evaluators, 'bv_discriminative', None)):
    if kind == 'fewshot':
      h, _ = trainer.create_fewshot_hook(extra_rng_keys=(), **kw)
    elif kind == 'contrastive_fewshot':
      h = ctrainer.create_fewshot_hook(extra_rng_keys=(), **kw)
    else:
      f = ctrainer.create_retrieval_hook if kind == 'retrieval' else ctrainer.create_zeroshot_hook
      h = f(datasets=tasks, data_sharding=SHARD, **kw)
    for s in (1, 4):
      ctx.prove('the hook does nothing', not h(s, variables={}) )


def cases(tier):
  t, p = (4, 3) if tier == 'quick' else (6, 4)
  out = [Case(hook, kind=k, tmax=t, pmax=p) for k in KINDS]
  out += [Case(hook, kind=k, tmax=2, pmax=2, overrides=True) for k in KINDS]
  out += [Case(hook, kind=k, tmax=3, pmax=2, tasks=2) for k in ('retrieval', 'zeroshot')]
  out += [Case(missing)]
  return out
