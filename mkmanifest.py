#!/usr/bin/env python3
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
try:
    from dv.claims import CLAIMS
except Exception as e:
    CLAIMS={}
checks=[];na=[]
for p in props:
    c=CLAIMS.get(p['id'])
    if c and c.get('claimed'):
        checks.append(dict(property=p['id'],quick_cmd=f"./check {p['id']}",thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
            technique=c.get('technique',"contract-based deductive verification (own VC generator over clang's AST of the real code, z3/cvc5)"),level='proof',level_note=c['note']))
    else:
        na.append(dict(property=p['id'],reason=(c or {}).get('na',"check under construction; contracts for this property are not discharged yet")))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,notes="see DESIGN.md")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
