#!/usr/bin/env python3-vt
"""Validates properties.jsonl, MANIFEST.json and evidence/*.json against the schemas."""
import json, jsonschema, glob, os, re
R = "/root/.vp/"
s = json.load(open(R + "PROPERTIES.schema.json"))
ids = []
for l in open('/verif/properties.jsonl'):
    p = json.loads(l); jsonschema.validate(p, s); assert len(p['title']) <= 80, p['id']
    n = len(re.findall(r'\.(\s|$)', p['statement']))
    assert n <= 3, (p['id'], n)
    ids.append(p['id'])
if os.path.exists('/verif/MANIFEST.json'):
    m = json.load(open('/verif/MANIFEST.json'))
    jsonschema.validate(m, json.load(open(R + "MANIFEST.schema.json")))
    c = [x['property'] for x in m['checks']]; na = [x['property'] for x in m.get('not_applicable', [])]
    assert sorted(c + na) == sorted(ids), (set(ids) ^ set(c + na))
es = json.load(open(R + "EVIDENCE.schema.json"))
for f in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), es)
print('ok', len(ids))
