#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.json-like table below and properties.jsonl."""
import json,os
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(here+'/properties.jsonl') if l.strip()]
claims=json.load(open(here+'/claims.json'))
checks=[]
na=[]
for p in props:
    i=p['id']
    c=claims.get(i)
    if c is None or 'na' in c:
        na.append({"property":i,"reason":(c or {}).get('na','check not built yet')})
        continue
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
      "technique":c['technique'],"level":"model_checking","level_note":c['note']})
m={"version":1,"setup_cmd":"./check.sh build","checks":checks,"not_applicable":na,
 "notes":"All checks enumerate executions of the real tower code (no separate model that could drift). See DESIGN.md."}
if os.path.exists(here+'/hooks.json'): m["hooks"]=json.load(open(here+'/hooks.json'))
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')
