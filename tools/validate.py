import json, jsonschema, glob, os
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
m = json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
e = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for c in m['checks']:
    p = '/verif/evidence/%s.json' % c['property']
    if os.path.exists(p):
        jsonschema.validate(json.load(open(p)), e)
    else:
        print('no evidence', c['property'])
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not claimed')
