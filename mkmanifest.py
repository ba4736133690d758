"""Writes MANIFEST.json from the table below (development tool)."""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'deterministic simulation with fault injection (seeded search over simulated runs)'
SEARCH = ('Seeded random search over complete simulated runs of the real code, not exhaustive: a violation found is '
          'real and replays exactly, absence of one is evidence for the explored runs only. ')
NOTES = {}
NA = {
    'C18': 'Pure function of its arguments (strings to strings): no schedule, clock, I/O or other party for a '
           'simulator to control; what depends on it in whole runs is decided under C01, C08 and C10.',
    'C19': 'Pure function of its arguments (string to number and back): nothing for a simulator to control; times in '
           'whole runs are decided under C01, C05 and C09.',
}
props = [json.loads(line)['id'] for line in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    path = os.path.join(HERE, 'props', p.lower() + '.py')
    if not os.path.exists(path):
        NA.setdefault(p, 'No check has been built for it yet.')
        continue
    src = open(path).read()
    ns = {}
    note = ''
    if 'LEVEL_NOTE' in src:
        import ast
        for node in ast.parse(src).body:
            if isinstance(node, ast.Assign) and node.targets[0].id == 'LEVEL_NOTE':
                note = ast.literal_eval(node.value)
    checks.append({'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
                   'technique': TECH, 'level': 'exploration', 'level_note': SEARCH + note})
doc = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
       'not_applicable': [{'property': p, 'reason': NA[p]} for p in props if p in NA],
       'notes': 'No hooks in /repo: all seams are put in place by /verif/sim from outside (builtins.open, os.*, '
                'socket.create_connection, time.*, datetime). Replay a violation with ./replay FILE. See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
