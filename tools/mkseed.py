"""mkseed.py ID PROPERTY FILE : reads a JSON spec on stdin {edits:[[file,old,new],...], needs, breaks, demo} and writes seeded/ID."""
import json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Run with the current directory at the root of the repository.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD:$D/stubs" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 NO_GCE_CHECK=true
exec timeout 280 /opt/venv/bin/python "$D/demo.py"
'''
def mk(id, prop, edits, needs, breaks, demo, stubs=False):
  out = os.path.join(HERE, 'seeded', id)
  shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
  t = tempfile.mkdtemp(prefix='mkseed')
  subprocess.check_call('git -C /repo archive HEAD | tar x -C %s' % t, shell=True)
  subprocess.check_call('cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % t, shell=True)
  for f, old, new in edits:
    p = os.path.join(t, f); s = open(p).read()
    assert s.count(old) == 1, (id, f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
  d = subprocess.check_output(['git', '-C', t, 'diff'], text=True)
  open(os.path.join(out, 'patch.diff'), 'w').write(d)
  open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
  open(os.path.join(out, 'demo.py'), 'w').write(demo)
  json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
  if stubs:
    shutil.copytree(os.path.join(HERE, 'stubs'), os.path.join(out, 'stubs'), ignore=shutil.ignore_patterns('__pycache__'))
  shutil.rmtree(t)
