#!/usr/bin/env python3
"""Validate properties.jsonl, MANIFEST.json and evidence files against the schemas (run with python3-vt)."""
import json, glob, os, jsonschema
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
S = lambda n: json.load(open('/root/.vp/%s.schema.json' % n))
for l in open('properties.jsonl'):
    jsonschema.validate(json.loads(l), S('PROPERTIES'))
jsonschema.validate(json.load(open('MANIFEST.json')), S('MANIFEST'))
for e in glob.glob('evidence/P??.json'):
    jsonschema.validate(json.load(open(e)), S('EVIDENCE'))
print('schemas ok')
