import json,jsonschema
s=json.load(open('/root/.vp/MANIFEST.schema.json')); jsonschema.validate(json.load(open('/verif/MANIFEST.json')),s)
v=jsonschema.Draft202012Validator(json.load(open('/root/.vp/PROPERTIES.schema.json')))
n=0
for l in open('/verif/properties.jsonl'):
    for e in v.iter_errors(json.loads(l)): print(json.loads(l)['id'], e.json_path, e.message[:150]); n+=1
print('valid' if not n else 'INVALID')
