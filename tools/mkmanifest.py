#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist and the reasons below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C18': 'A pure function of the C source text: the value computed by a compiled program involves no schedule, clock, fault or interleaving, so simulation has nothing to decide (C05 and C06 cover the parts of MesCC that meet faults and scheduling).',
 'C19': 'A pure function of the program text: no schedule, clock, fault or interleaving is involved (C01, C02, C15 and C16 decide the parts of evaluation that meet collection, exhaustion, processes and interactive input).',
 'C20': 'Pure functions of their arguments: no schedule, clock, fault or interleaving is involved.',
}
PEND = 'Check not built yet.'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
notes = json.load(open(os.path.join(V, 'tools/levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i + '.py')) and i not in NA:
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd='python3 checks/%s.py --tier quick' % i, thorough_cmd='python3 checks/%s.py --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=n.get('technique', 'deterministic simulation with fault injection'),
                           level=n.get('level', 'exploration'), level_note=n['note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, PEND)))
commits = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s', '2274141..HEAD'], stdout=subprocess.PIPE).stdout.decode().splitlines()
m = dict(version=1, setup_cmd='python3 sim/build.py mes gccguest mesccguest',
         hooks=dict(guard='MES_SIM', enable='sim/build.py compiles src/*.c with -D MES_SIM=1 into /verif/.build', source_commits=[c.split()[0] for c in commits if c.split()[1] == 'sim:']),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
