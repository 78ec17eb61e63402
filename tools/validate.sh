#!/bin/sh
# schema validation of the committed descriptions
cd "$(dirname "$0")/.." && python3-vt -c "
import json,jsonschema,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),s)
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in os.listdir('evidence'): jsonschema.validate(json.load(open('evidence/'+f)),e)
print('ok')"
