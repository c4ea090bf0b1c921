"""validates properties.jsonl and MANIFEST.json (run with python3-vt)"""
import json
import jsonschema
s = json.load(open('/root/.vp/MANIFEST.schema.json'))
m = json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(m, s)
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ok = True
for line in open('/verif/properties.jsonl'):
    for e in jsonschema.Draft7Validator(s).iter_errors(json.loads(line)):
        ok = False
        print(json.loads(line)['id'], e.message[:200])
print('valid' if ok else 'INVALID')
