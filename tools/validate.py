"""python3-vt tools/validate.py: files against their schemas."""
import glob
import json
import jsonschema
s = json.load(open('/root/.vp/MANIFEST.schema.json'))
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), s)
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for line in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(line), s)
s = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for p in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(p)), s)
print('valid')
