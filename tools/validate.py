#!/usr/bin/env python3-vt
"""Validates properties, manifest and evidence against the schemas"""
import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
v=jsonschema.Draft202012Validator(s)
for l in open('/verif/properties.jsonl'):
    d=json.loads(l)
    for e in v.iter_errors(d): print(d['id'],e.path,e.message[:150])
m=json.load(open('/verif/MANIFEST.json'))
for e in jsonschema.Draft202012Validator(json.load(open('/root/.vp/MANIFEST.schema.json'))).iter_errors(m): print(e.path,e.message[:150])
import glob,os
es=jsonschema.Draft202012Validator(json.load(open('/root/.vp/EVIDENCE.schema.json')))
for f in glob.glob('/verif/evidence/*.json'):
    for e in es.iter_errors(json.load(open(f))): print(f,e.path,e.message[:150])
