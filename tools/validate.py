import json,jsonschema,os,glob
v=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
l=lambda p:json.load(open(p))
jsonschema.validate(l(v+'/MANIFEST.json'),l('/root/.vp/MANIFEST.schema.json'))
s=l('/root/.vp/PROPERTIES.schema.json')
for x in open(v+'/properties.jsonl'):
    d=json.loads(x)
    e=list(jsonschema.Draft202012Validator(s).iter_errors(d))
    for k in e: print(d['id'],k.message)
s=l('/root/.vp/EVIDENCE.schema.json')
for f in glob.glob(v+'/evidence/*.json'):
    for k in jsonschema.Draft202012Validator(s).iter_errors(l(f)): print(f,k.message[:200])
print('validated')
