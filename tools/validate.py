import json,sys,jsonschema
ps=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=set()
for l in open('/verif/properties.jsonl'):
    o=json.loads(l); jsonschema.validate(o,ps); ids.add(o['id'])
m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
c={x['property'] for x in m['checks']}; n={x['property'] for x in m.get('not_applicable',[])}
assert c|n==ids and not (c&n),(ids-c-n)
import glob
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),es)
print('ok',len(c),'claimed')
