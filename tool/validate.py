"""Development helper: validates the documents against the schemas."""
import json
import jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    d = json.loads(l)
    jsonschema.validate(d, s)
    assert len(d['title']) <= 80, d['id']
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
e = json.load(open('/root/.vp/EVIDENCE.schema.json'))
import glob
for f in glob.glob('/verif/evidence/[A-Z][0-9][0-9].json'):
    jsonschema.validate(json.load(open(f)), e)
print('valid')
