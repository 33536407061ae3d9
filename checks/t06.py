"""T06: what training reports: array summaries computed and named as configured; progress written by one process, at the due steps."""
import contextlib
import re
from typing import Any, NamedTuple
import jax
import jax.numpy as jnp
import numpy as np
import optax
from lib import sx
from lib.engine import unwrap
from lib.runner import Case
from vmoe.train import periodic_actions, tree_summarizer, trainer
from vmoe.train.train_state import TrainState

FUNCTIONS = ['vmoe.train.tree_summarizer.TreeSummarizer.__call__/_summarize/_transform/_yield', 'vmoe.train.periodic_actions.ReportProgress',
             'vmoe.train.periodic_actions.SingleProcessPeriodicAction', 'vmoe.train.trainer.create_tree_summarizer/create_progress_hook/create_profile_hook', 'vmoe.train.trainer.train_step (summaries)']
BOUNDS = {'quick': 'arrays of up to 2x3 entries of any values; up to 3 rules, every sequence of up to 2 of the six operations over every set of axes; up to 5 consecutive steps from any first step, '
                   'every period up to 4, 3 processes, any times',
          'thorough': '2x2x2 arrays, sequences of 3 operations, 8 steps'}
OUTSIDE = 'larger arrays; the clu actions themselves (profiles, notes of the work unit)'
ASSUMPTIONS = ['floating point read as real arithmetic', 'clu.ReportProgress writes what it does on its own; only the decision to report and what vmoe adds are observed']
OPS = ('mean', 'std', 'sum', 'min', 'max', 'norm')


# --------------------------------------------------------------------- summaries
def apply(op, x, axes):
  """One operation, element by element."""
  axes = tuple(range(x.ndim)) if axes is None else tuple(a % x.ndim for a in ((axes,) if isinstance(axes, int) else axes))
  out = {}
  for i in np.ndindex(*x.shape):
    out.setdefault(tuple(0 if d in axes else v for d, v in enumerate(i)), []).append(x[i])
  r = np.empty(tuple(1 if d in axes else n for d, n in enumerate(x.shape)), dtype=object)
  for k, l in out.items():
    n = len(l)
    s = sum(l[1:], l[0])
    if op == 'sum':
      v = s
    elif op == 'mean':
      v = s / n
    elif op == 'min':
      v = l[0]
      for u in l[1:]:
        v = jnp.minimum(v, u)
    elif op == 'max':
      v = l[0]
      for u in l[1:]:
        v = jnp.maximum(v, u)
    elif op == 'norm':
      v = jnp.sqrt(sum(u * u for u in l))
    else:
      v = jnp.sqrt(sum((u - s / n) ** 2 for u in l) / n)
    r[k] = v
  return r


def suffix(transforms):
  out = ''
  for t in transforms:
    if isinstance(t, str):
      out += '_' + t
    else:
      out += '_%s%s' % (t[0], ((t[1],) if isinstance(t[1], int) else tuple(t[1])))
  return out


def expected(flat, rules):
  """[(name, value)] in order."""
  out = []
  for key, x in flat.items():
    for r in rules:
      pat, *tr = (r,) if isinstance(r, (str, re.Pattern)) else r
      if not re.search(pat, key):
        continue
      y = np.empty(x.shape, dtype=object)
      for i in np.ndindex(*x.shape):
        y[i] = x[i]
      for t in tr:
        y = apply(t, y, None) if isinstance(t, str) else apply(t[0], y, t[1])
      for i in np.ndindex(*y.shape):
        idx = ','.join(str(v) for v, n in zip(i, y.shape) if n > 1)
        out.append((key + suffix(tr) + ('[%s]' % idx if idx else ''), y[i]))
  return out


def compare(ctx, got_names, got, want_names, want, lo):
  ctx.prove('the names: key, operations, axes and position, in the order of the tree and of the rules', got_names == want_names)
  if got_names == want_names:
    for a, b in zip(got, want):
      ctx.prove('the values of the configured operations', np.shape(a) == () and ctx.close(np.asarray(a, dtype=object)[()], np.asarray(b, dtype=object)[()]))


def run_both(ctx, tree, flat_of, rules, limit):
  names, wnames = [], []

  def f(tree):
    names[:] = []
    out = []
    for k, v in tree_summarizer.TreeSummarizer(rules=rules, max_summary_values=limit)(tree):
      names.append(k)
      out.append(v)
    return out

  def g(tree):
    l = expected(flat_of(tree), rules)
    wnames[:] = [k for k, _ in l]
    return [v for _, v in l]
  return ctx.run(f, tree), ctx.run(g, tree, validate=False), names, wnames


def ops(ctx, shape, transforms, limit=100):
  x = ctx.arr('x', shape, lo=-4, hi=4)
  got, want, n, wn = run_both(ctx, {'a': {'w': x}}, lambda t: {'a/w': t['a']['w']}, [('a/w', *transforms)], limit)
  compare(ctx, n, got, wn, want, -4)


class Opt(NamedTuple):
  count: Any
  mu: Any


def rules(ctx, rs):
  tree = {'step': ctx.arr('step', (), lo=0, hi=9), 'params': {'moe': {'w': ctx.arr('w', (2, 1), lo=-4, hi=4)}, 'head': {'w': ctx.arr('h', (2,), lo=-4, hi=4)}},
          'opt': (Opt(ctx.arr('count', (), lo=0, hi=4), {'w': ctx.arr('mu', (1, 2), lo=-4, hi=4)}),)}
  flat = lambda t: {'step': t['step'], 'params/moe/w': t['params']['moe']['w'], 'params/head/w': t['params']['head']['w'], 'opt/0/count': t['opt'][0].count, 'opt/0/mu/w': t['opt'][0].mu['w']}
  got, want, n, wn = run_both(ctx, tree, flat, rs, 4)
  # Arguments of traced functions come back with sorted keys; only the order of the tree may differ.
  o, p = sorted(range(len(n)), key=lambda i: (n[i], i)), sorted(range(len(wn)), key=lambda i: (wn[i], i))
  compare(ctx, [n[i] for i in o], [got[i] for i in o], [wn[i] for i in p], [want[i] for i in p], -4)


def limit(ctx):
  """Too many values for one rule and array are refused."""
  a, b = ctx.choice('rows', [1, 2, 3]), ctx.choice('columns', [1, 2])
  m = ctx.choice('max_summary_values', [1, 2, 3, 4, 6])
  tr = ctx.choice('transforms', [(), ('norm',), (('sum', 0),), (('max', (1,)),), (('min', (0, 1)),)])
  x = np.arange(a * b, dtype=np.float32).reshape(a, b)
  axes = {'norm': (0, 1)}.get(tr[0]) if tr and isinstance(tr[0], str) else (tr[0][1] if tr else ())
  axes = (axes,) if isinstance(axes, int) else axes
  n = (1 if 0 in axes else a) * (1 if 1 in axes else b)
  try:
    got = list(tree_summarizer.TreeSummarizer(rules=[('w', *tr)], max_summary_values=m)({'w': x, 'v': np.zeros((9, 9))}))
  except ValueError:
    got = None
  ctx.prove('refused exactly when there are too many values', (got is None) == (n > m))
  ctx.prove('all of them otherwise', got is None or len(got) == n)


def unknown(ctx):
  try:
    list(tree_summarizer.TreeSummarizer(rules=[('w', ctx.choice('op', ['median', ('prod', 0), '']))])({'w': np.zeros(2)}))
    ok = False
  except ValueError:
    ok = True
  ctx.prove('unknown operations are refused', ok)


def creation(ctx):
  for c, want in ((None, None), ([], None), ({}, None), (['a', ('b', 'norm')], ([('a',), ('b', 'norm')], 1)), (('a',), ([('a',)], 1)), ({'rules': ['a'], 'max_summary_values': 5}, ([('a',)], 5))):
    s = trainer.create_tree_summarizer(c)
    ok = s is None if want is None else (s.max_summary_values == want[1] and [(r[0].pattern,) + tuple(r[1:]) for r in s.rules] == want[0])
    ctx.prove('summaries exactly as configured', ok)


def in_step(ctx):
  """Summaries of a training step see the gradients and the new state."""
  x, y = ctx.arr('image', (2, 2), lo=-4, hi=4), ctx.arr('label', (2,), lo=-4, hi=4)
  w = ctx.arr('w', (2,), lo=-4, hi=4)
  summ = tree_summarizer.TreeSummarizer(rules=[('^params_grads/a/w$', 'sum'), ('^params/a/w$', ('max', 0)), '^step$', ('^params/a/w$',)], max_summary_values=2)

  def f(x, y, w):
    st = TrainState.create(apply_fn=lambda v, im, rngs=None: (im @ v['params']['a']['w'], {}), params={'a': {'w': w}}, tx=optax.sgd(0.5), rngs={'dropout': jax.random.PRNGKey(0)})
    st = st.replace(step=jnp.asarray(0))
    st, met = trainer.train_step(st, x, y, lambda l, y: (l - y) ** 2, summarizer=summ)
    return st.params, {k: v for k, v in met.items() if not k.startswith('global_norm')}

  def ref(x, y, w):
    g = jax.grad(lambda w: jnp.mean((x @ w - y) ** 2))(w)
    v = w - 0.5 * g
    return {'params_grads/a/w_sum': g[0] + g[1], 'params/a/w_max(0,)': jnp.maximum(v[0], v[1]), 'step': 1.0, 'params/a/w[0]': v[0], 'params/a/w[1]': v[1]}
  with jax.sharding.Mesh(np.asarray(jax.devices()[:1]).reshape(1, 1), ('expert', 'replica')):
    params, met = ctx.run(f, x, y, w)
    want = ctx.run(ref, x, y, w, validate=False)
  ctx.prove('the metrics and the summaries', set(met) == set(want) | {'main_loss', 'total_loss'})
  for k in want:
    ctx.prove('summaries of the gradients of this step and of the state after it', k in met and ctx.close(np.asarray(met[k], dtype=object)[()], np.asarray(want[k], dtype=object)[()]))


# ---------------------------------------------------------------------- progress
class Writer:

  def __init__(self):
    self.log = []

  def write_scalars(self, step, scalars):
    self.log.append((step, dict(scalars)))


class Memory:

  def memory_usage(self, *a, **k):
    return 77.0


@contextlib.contextmanager
def env(process, memory):
  base = periodic_actions.periodic_actions.ReportProgress
  old = jax.process_index, base._apply, periodic_actions.memory_profiler
  jax.process_index = lambda *a: process
  base._apply = lambda self, step, t: self.__dict__.setdefault('applied', []).append((step, t))
  periodic_actions.memory_profiler = Memory() if memory else None
  try:
    yield
  finally:
    jax.process_index, base._apply, periodic_actions.memory_profiler = old


def progress(ctx, steps, create, every, secs=None, memory=False, parts=(), writer=True):
  me = ctx.int('process', 0, 2)
  first = ctx.int('first step', 0, 20)
  owner = 0 if create else ctx.choice('owner', [None, 0, 1])
  w = Writer() if writer else None
  with env(me, memory):
    extra = [2] if create == 'on_steps' else []
    last = first.__index__() + steps - 1
    if create:
      a = trainer.create_progress_hook(writer=w, first_step=first.__index__(), train_steps=last, every_steps=every, every_secs=secs, **({'on_steps': extra} if extra else {}))
    else:
      a = periodic_actions.ReportProgress(writer=w, every_steps=every, every_secs=secs, **({} if owner == 0 and ctx.choice('default', [0, 1]) else {'process_index': owner}))
    for p, v in parts:
      a._time_per_part[p] = v
    prev, prev_t = None, None
    t = ctx.real('t0', 0, 100)
    for i in range(steps):
      if i:
        t = t + ctx.real('dt%d' % i, 0, 20)
      s = first + i
      met = {'loss': 0.5 + i, 'global_norm': {'grads': 2.0 * i}, 'a/b': np.float32(3)} if i != 2 else None
      n = len(w.log) if w else 0
      k = len(getattr(a, 'applied', []))
      r = a(s, t, scalar_metrics=met) if i != 2 else a(s, t)
      s0, mine = first.__index__() + i, True if owner is None else sx.eq(unwrap(me), owner)
      if prev is None:
        due, prev, prev_t = False, s0, t
      else:
        due = (s0 % every == 0 if every else False) or (bool(create) and (s0 == last or s0 in extra))
        if secs is not None and not due:
          due = sx.gt(unwrap(t - prev_t), secs)
        due = sx.band(due, mine)
      did = bool(r)
      ctx.prove('a report exactly when one is due, on the reporting process', sx.iff(due, did) if ctx.sym else bool(due) == did)
      ctx.prove('the report of the base action goes with it', len(getattr(a, 'applied', [])) == k + did)
      if did:
        prev, prev_t = s0, t
      if not w:
        continue
      want = {}
      if met:
        want = {'loss': 0.5 + i, 'global_norm/grads': 2.0 * i, 'a/b': 3.0}
      if memory:
        want['host_memory_mb'] = 77.0
      want.update({'uptime_' + p: v for p, v in parts})
      new = w.log[n:]
      ctx.prove('metrics, memory and times are written with the report, flat, as numbers', len(new) == did and all(
          int(st) == s0 and m == want and all(type(v) is float for v in m.values()) for st, m in new))


def single(ctx):
  me, owner = ctx.int('process', 0, 3), ctx.int('owner', 0, 3)
  default = ctx.choice('default', [False, True])
  result = ctx.choice('result', [True, False])
  calls = []

  def act(*a, **k):
    calls.append((a, k))
    return result
  with env(me, False):
    r = periodic_actions.SingleProcessPeriodicAction(act, **({} if default else {'process_index': owner}))(5, t=2.0, step='s')
  mine = sx.eq(unwrap(me), 0 if default else unwrap(owner))
  ran = bool(calls)
  ctx.prove('runs on that process only', sx.iff(mine, ran) if ctx.sym else bool(mine) == ran)
  ctx.prove('with the given arguments, once', calls in ([], [((5,), {'t': 2.0, 'step': 's'})]))
  ctx.prove('returns what the action does, or False', r == (result if ran else False))


def profile(ctx):
  everyone = ctx.choice('all_processes', [None, False, True])
  me = ctx.int('process', 0, 2)
  made = []

  def cls(name):
    def make(**kw):
      made.append((name, kw))
      return lambda *a, **k: made.append(name) or True
    return make
  m = trainer.periodic_actions
  old = m.Profile, m.ProfileAllHosts
  m.Profile, m.ProfileAllHosts = cls('one'), cls('all')
  try:
    with env(me, False):
      a = trainer.create_profile_hook(workdir='/w', num_profile_steps=3, **({} if everyone is None else {'all_processes': everyone}))
      a(1)
  finally:
    m.Profile, m.ProfileAllHosts = old
  want = 'all' if everyone else 'one'
  ctx.prove('the profiler asked for, in the working directory', made[0] == (want, {'logdir': '/w', 'num_profile_steps': 3}))
  ran = made[1:] == [want]
  mine = True if everyone else sx.eq(unwrap(me), 0)
  ctx.prove('profiles the first process, or all', sx.iff(mine, ran) if ctx.sym else bool(mine) == ran)


def cases(tier):
  q = tier == 'quick'
  out = []
  axes = [None, 0, 1, (0, 1), (1,), (-1,)]
  for o in OPS:
    for a in axes:
      out.append(Case(ops, shape=(2, 3), transforms=((o,) if a is None else ((o, a),))))
    out.append(Case(ops, shape=(), transforms=(o,)))
  for o in ('sum', 'max', 'norm', 'mean') if q else OPS:
    for p in ('min', 'mean', 'norm', 'std') if q else OPS:
      out.append(Case(ops, shape=(2, 2), transforms=((o, 0), p)))
  out += [Case(ops, shape=(2, 3), transforms=()), Case(ops, shape=(1, 3), transforms=()), Case(ops, shape=(3,), transforms=(('sum', (0,)), 'norm')),
          Case(rules, rs=['w', ('^opt', 'sum')]), Case(rules, rs=[('params/.*w$', 'mean'), ('params/.*w$', ('max', 0)), 'step']), Case(rules, rs=['nothing', ('moe|mu', ('sum', (1,)))]),
          Case(rules, rs=[re.compile('count'), (re.compile('HEAD', re.I), 'norm'), 'head']), Case(limit), Case(unknown), Case(creation), Case(in_step)]
  n = 5 if q else 8
  out += [Case(progress, steps=n, create=c, every=e, secs=s, **kw) for c, e, s, kw in (
      (None, 1, None, {}), (None, 3, None, dict(memory=True)), (None, None, 10, dict(parts=(('eval', 1.5), ('ckpt', 2.5)))), (None, 4, 10, dict(writer=False)),
      ('plain', None, None, {}), ('plain', 2, None, dict(parts=(('eval', 3.0),))), ('on_steps', 4, None, {}), ('on_steps', None, 10, {}))]
  out += [Case(single), Case(profile)]
  if not q:
    for o in OPS:
      for a in (0, (1, 2), (0, 2), None):
        for p in OPS:
          out.append(Case(ops, shape=(2, 2, 2), transforms=((o,) if a is None else ((o, a),)) + (p,)))
  return out
