#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {}
def check(pid, level, technique, note):
    C[pid] = dict(property=pid, quick_cmd=f'bash /verif/run.sh {pid}', thorough_cmd=f'bash /verif/run.sh {pid} --tier thorough',
                  evidence_file=f'evidence/{pid}.json', technique=technique, level=level, level_note=note)
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
na = [dict(property=p, reason=NA.get(p, 'check not built yet')) for p in props if p not in C]
m = dict(version=1, setup_cmd='bash /verif/setup.sh', checks=[C[p] for p in props if p in C], not_applicable=na,
         notes='One runner (run.sh/run.py) over mc/ (explorer, controlled multiprocessing, simulated MPI, crash injector) and checks/. '
               'No hooks were added to /repo; the checks import /repo/py directly.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed;', [x['property'] for x in na])
