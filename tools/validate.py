import json,jsonschema
m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
n=0
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s); n+=1
print(n,'properties',len(m['checks']),'checks',len(m['not_applicable']),'na')
