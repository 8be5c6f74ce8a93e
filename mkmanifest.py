#!/usr/bin/env python3
"""Regenerates MANIFEST.json from specs.py and properties.jsonl."""
import json
from specs import SPECS
P=[json.loads(l)['id'] for l in open('properties.jsonl')]
NA=json.load(open('not_applicable.json'))
T={'harness':'stateless bounded-exhaustive exploration of the real code (every choice sequence within the bounds re-executed on the implementation) against an executable reference model',
   'e2e':'bounded-exhaustive exploration of program runs (every input / history / fault point within the bounds executed by the real program) against an executable reference model'}
checks=[]
for p in P:
    if p not in SPECS: continue
    s=SPECS[p]
    t='; '.join(T[k] for k in ('harness','e2e') if s.get(k))
    checks.append({'property':p,'quick_cmd':'python3 /verif/check.py %s --tier quick'%p,'thorough_cmd':'python3 /verif/check.py %s --tier thorough'%p,
      'technique':'model checking: '+t,'level':'model_checking','level_note':'Bounds: '+s['bounds']['quick']+' Oracle: '+s.get('oracle','')})
m={'version':1,'setup_cmd':'python3 /verif/check.py --setup','checks':checks,
   'not_applicable':[{'property':p,'reason':NA.get(p,'Check not built yet.')} for p in P if p not in SPECS],
   'notes':'All checks rebuild /repo\'s current sources into /verif/build (content-hash cache). No hooks in /repo are needed.'}
json.dump(m,open('MANIFEST.json','w'),indent=1); print(len(checks),'checks')
