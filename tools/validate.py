#!/usr/bin/env python3
"""Validates properties.jsonl / MANIFEST.json / evidence against the task's schemas (needs python3-vt)."""
import json,jsonschema,glob,sys,os
bad=0
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); ids.append(d['id'])
    try: jsonschema.validate(d,s)
    except Exception as e: print(d['id'],str(e)[:300]); bad=1
    if d['statement'].count('. ')>2: print(d['id'],'sentences',d['statement'].count('. ')); bad=1
if os.path.exists('/verif/MANIFEST.json'):
    m=json.load(open('/verif/MANIFEST.json'))
    jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    c=[x['property'] for x in m['checks']]+[x['property'] for x in m.get('not_applicable',[])]
    if sorted(c)!=sorted(ids): print('MANIFEST/properties mismatch',set(c)^set(ids)); bad=1
s=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'):
    try: jsonschema.validate(json.load(open(f)),s)
    except Exception as e: print(f,str(e)[:300]); bad=1
print('bad' if bad else 'ok'); sys.exit(bad)
