"""python3-vt tools/validate.py : schemas of properties.jsonl, MANIFEST.json, evidence."""
import json, jsonschema, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    jsonschema.validate(p, s)
    ids.append(p['id'])
m = V + '/MANIFEST.json'
if os.path.exists(m):
    m = json.load(open(m))
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    claimed = [c['property'] for c in m['checks']] + [c['property'] for c in m.get('not_applicable', [])]
    assert sorted(claimed) == sorted(ids), set(ids) ^ set(claimed)
e = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob(V + '/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), e)
print("valid", len(ids))
