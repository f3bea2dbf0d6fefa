#!/opt/veriftools/pyvenv/bin/python
"""Validates the generated files against the schemas."""
import json, jsonschema, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(f'{root}/properties.jsonl'): jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open(f'{root}/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print('valid')
