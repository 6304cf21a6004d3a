#!/usr/bin/env python3
# Source of /verif/MANIFEST.json.
import json,os
ROOT=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
ids=[json.loads(l)['id'] for l in open(ROOT+'/properties.jsonl')]
PURE=("Pure function of its operands: it has no thread, clock, I/O, storage, callback or failure for the property to depend on, so there is no schedule "
      "or fault to simulate; deciding it means choosing inputs (or proving it), which is not deterministic simulation. ")
NA={
'C20':PURE+'The part of addition that does depend on schedule, history, environment or start-up is claimed in C01-C04, C07 and C10.',
'C21':PURE+'Schedule/history/environment aspects of multiplication are claimed in C01-C04, C07 and C10.',
'C22':PURE+'Schedule/history/environment/start-up aspects of division are claimed in C01-C04, C07 and C10.',
'C23':PURE+'The lazily built seed tables, the only stateful part, are covered by C01-C04.',
'C24':PURE,'C25':PURE,'C26':PURE,'C27':PURE,'C28':PURE+'Other integer backends need vendor headers that are not installed.',
'C29':PURE,'C30':PURE,'C31':PURE,'C32':PURE+'MPFR-state and resource aspects are claimed in C05 and C06.',
'C33':'Decided entirely at compile time: nothing executes that a simulator could schedule or fault.'}
CHECKS={}
try:
    exec(open(ROOT+'/tools/checks.py').read())
except FileNotFoundError: pass
checks=[]
for i in ids:
    if i in CHECKS:
        c=dict(property=i,quick_cmd=f'python3 sim/check.py {i}',thorough_cmd=f'python3 sim/check.py {i}',evidence_file=f'evidence/{i}.json')
        c.update(CHECKS[i]); checks.append(c)
na=[dict(property=i,reason=NA.get(i,'Claimed by the design, check not built yet.')) for i in ids if i not in CHECKS]
json.dump(dict(version=1,setup_cmd='python3 sim/build.py',checks=checks,not_applicable=na,
  notes='Deterministic simulation with fault injection; see DESIGN.md. No hooks in /repo.'),open(ROOT+'/MANIFEST.json','w'),indent=1)
