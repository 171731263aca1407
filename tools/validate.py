import json,jsonschema,glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=set()
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s); n=p['statement'].count('. ')+1; ids.add(p['id'])
    if n>3: print('too many sentences',p['id'],n)
try:
    m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    have={c['property'] for c in m['checks']}|{n['property'] for n in m.get('not_applicable',[])}
    print('missing',ids-have,'extra',have-ids)
except FileNotFoundError: print('no manifest')
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in sorted(glob.glob('/verif/evidence/*.json')):
    jsonschema.validate(json.load(open(f)),es)
print('ok')
