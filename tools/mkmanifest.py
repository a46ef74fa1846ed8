#!/usr/bin/env python3
# Writes MANIFEST.json: claimed properties, and a reason for every one not claimed.
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
claimed=json.load(open(here+'/tools/claimed.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claimed['claimed']:
        checks.append(dict(property=i,quick_cmd=f'bash check.sh {i}',thorough_cmd=f'VERIF_TIER=thorough bash check.sh {i}',
            technique='contract-based deductive verification of the Go SSA (own VC generator govc, discharged by z3)',
            level='proof',level_note=claimed['claimed'][i],evidence_file=f'evidence/{i}.json'))
    else:
        na.append(dict(property=i,reason=claimed['not_claimed'].get(i,'not yet brought under contract')))
json.dump(dict(version=1,setup_cmd='bash build.sh',checks=checks,not_applicable=na,
  notes='Contracts are in contracts/*.spec, the verifier in govc/. No hooks in /repo.'),open(here+'/MANIFEST.json','w'),indent=1)
