#!/bin/bash
# Validates the committed tables and the evidence against the schemas.
python3-vt - <<'P'
import json,jsonschema,glob
S=lambda n: json.load(open('/root/.vp/%s.schema.json'%n))
ids=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); ids.append(p['id']); jsonschema.validate(p,S('PROPERTIES'))
m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,S('MANIFEST'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),S('EVIDENCE'))
got=[c['property'] for c in m['checks']]+[c['property'] for c in m['not_applicable']]
assert sorted(got)==sorted(ids), set(got)^set(ids)
print('valid', len(ids))
P
