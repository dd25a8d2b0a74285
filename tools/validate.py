# run with python3-vt: validates properties.jsonl, MANIFEST.json and evidence files against the schemas
import json,jsonschema,os,glob
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open(here+'/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s); ids.append(p['id'])
    for f in p['anchors']['files']:
        if not os.path.exists('/repo/'+f): print('missing anchor',p['id'],f)
    if p['statement'].count('. ')+1>3: print(p['id'],'too many sentences')
if os.path.exists(here+'/MANIFEST.json'):
    m=json.load(open(here+'/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    c=[x['property'] for x in m['checks']]; n=[x['property'] for x in m.get('not_applicable',[])]
    print('claimed',len(c),'na',len(n),'unaccounted',set(ids)-set(c)-set(n),'unknown',set(c+n)-set(ids))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob(here+'/evidence/*.json'): jsonschema.validate(json.load(open(f)),e); assert os.path.getsize(f)<60000,f
