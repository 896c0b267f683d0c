import json,jsonschema,os,glob
b='/verif/'
sp=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open(b+'properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,sp); ids.append(d['id'])
print(len(ids),'properties ok')
if os.path.exists(b+'MANIFEST.json'):
    m=json.load(open(b+'MANIFEST.json'));jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    c=[x['property'] for x in m['checks']]; print('claimed',len(c),'unclaimed',set(ids)-set(c)-{x.get('property',x.get('id')) for x in m.get('not_applicable',[])},'unknown',set(c)-set(ids))
se=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob(b+'evidence/*.json'): jsonschema.validate(json.load(open(f)),se)
