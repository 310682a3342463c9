"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = 'runtime monitoring: reference-model oracle over observed executions'
notes = {}
exec(open(V + '/tools/notes.py').read())
checks = []
na = []
for p in props:
    i = p['id']
    if os.path.exists('%s/nv/checks/%s.py' % (V, i.lower())):
        t, n = notes.get(i, (TECH, 'Held on every execution of the run; says nothing about inputs the generators do not produce.'))
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s' % i,
                       'thorough_cmd': 'python3 run.py %s --thorough' % i,
                       'technique': t, 'level': 'exploration', 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1,
           'setup_cmd': 'python3 tools/setup.py',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: every monitor observes the public boundary (output bytes, location counter, labels, '
                    'exceptions, files, stdout). python3 run.py <id> runs one check; see DESIGN.md.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
