"""Writes DESIGN.md from tools/design_text.md, the check modules, the property list and seeded/."""
import glob
import importlib
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = json.load(open(os.path.join(HERE, 'tools', 'design_how.json')))


def consts(i):
  # Run with the environment of run.sh (see tools/design.sh).
  m = importlib.import_module('checks.' + i.lower())
  return {k: getattr(m, k) for k in ('FUNCTIONS', 'BOUNDS', 'OUTSIDE', 'ASSUMPTIONS')}


def main():
  props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
  man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
  na = {n['property']: n['reason'] for n in man['not_applicable']}
  tech = {c['property']: c['technique'] for c in man['checks']}
  times = json.load(open(os.path.join(HERE, 'tools', 'design_times.json')))
  for f in glob.glob(os.path.join(HERE, 'evidence', '*.json')):
    e = json.load(open(f))
    if e.get('tier') == 'quick' and e['property'] not in times:
      times[e['property']] = round(e['wall_s'])
  json.dump(times, open(os.path.join(HERE, 'tools', 'design_times.json'), 'w'), sort_keys=True, indent=0)
  seeds = []
  for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    seeds.append((d.split('/')[-2], json.load(open(d))))
  out = []
  for p in props:
    i = p['id']
    if i in na:
      continue
    c = consts(i)
    out.append('### %s – %s\n' % (i, p['title']))
    out.append('*Statement.* %s\n' % p['statement'])
    out.append('*Decided by* %s.\n' % tech[i])
    if i in HOW:
      out.append('*Oracle and harness.* %s\n' % HOW[i])
    out.append('*Encoded functions.* %s.\n' % ', '.join('`%s`' % f for f in c['FUNCTIONS']))
    out.append('*Bounds.* Quick: %s. Thorough: %s.\n' % (c['BOUNDS']['quick'], c['BOUNDS']['thorough']))
    out.append('*Outside.* %s.\n' % c['OUTSIDE'])
    out.append('*Assumptions.* %s.\n' % '; '.join(c['ASSUMPTIONS']))
    out.append('*Beyond the tests.* The solver decides %s; %s.%s\n' % (p['quantifier']['text'], p['why_tests_cant'],
                                                                 ' Quick run: about %d s.' % times[i] if i in times else ''))
  t = open(os.path.join(HERE, 'tools', 'design_text.md')).read()
  kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
  t = t.replace('@@PROPS@@', '\n'.join(out))
  title = {p['id']: p['title'] for p in props}
  t = t.replace('@@NA@@', '\n'.join('* **%s – %s**: %s' % (k, title[k], v) for k, v in na.items()) or '(none)')
  t = t.replace('@@FIXED@@', '\n'.join('* ' + x[len('fixed: '):] for x in kf['fixed']))
  t = t.replace('@@FINDINGS@@', '\n'.join('* %s (%s): %s' % (x['property'], x['case'], x['what']) for x in kf['findings']))
  rows = ['| planted bug | what it breaks | needs | caught by |', '|---|---|---|---|']
  for n, m in seeds:
    rows.append('| %s | %s | %s | %s |' % (n, m['what_it_breaks'], m['needs'], m.get('caught_by', m['property'])))
  t = t.replace('@@SEEDS@@', '\n' + '\n'.join(rows) + '\n')
  open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)


main()
