#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json,re,sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
src=open('/verif/tools/claims.txt').read()
claims={}
for l in src.splitlines():
    if not l.strip() or l.startswith('#'): continue
    i,tech,note=[x.strip() for x in l.split('|')]
    claims[i]=(tech,note)
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claims:
        checks.append(dict(property=i,quick_cmd=f"./run.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
            evidence_file=f"evidence/{i}.json",technique=claims[i][0],level="model_checking",level_note=claims[i][1]))
    else:
        na.append(dict(property=i,reason="no check has been built yet"))
m=dict(version=1,setup_cmd="cd mc && HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off go build -o /dev/null ./cmd/mc",checks=checks,not_applicable=na,
  notes="Every check builds its checker from /repo's working tree (run.sh). No hooks are committed in /repo: seams are closed with build overlays made at check time.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
