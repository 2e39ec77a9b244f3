import json, jsonschema, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(H + '/properties.jsonl'):
    d = json.loads(l)
    jsonschema.validate(d, s)
    n = d['statement'].count('. ') + 1
    if n > 3:
        print(d['id'], n, 'sentences')
jsonschema.validate(json.load(open(H + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
