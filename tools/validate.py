"""Validate properties.jsonl, MANIFEST.json and evidence/*.json (run with python3-vt)."""
import glob
import json
import jsonschema
P = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for line in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(line), P)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),
                    json.load(open('/root/.vp/MANIFEST.schema.json')))
E = json.load(open('/root/.vp/EVIDENCE.schema.json'))
n = 0
for f in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), E)
    n += 1
print('ok', n, 'evidence files')
