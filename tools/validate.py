#!/usr/bin/env python3-vt
import json,jsonschema,glob,os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open(R+'/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); ids.append(d['id'])
if os.path.exists(R+'/MANIFEST.json'):
    m=json.load(open(R+'/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    c=[x['property'] for x in m['checks']]+[x['property'] for x in m.get('not_applicable',[])]
    assert sorted(c)==sorted(ids),(set(c)^set(ids))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob(R+'/evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
print('ok',len(ids))
