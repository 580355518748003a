import json,os,re
for l in open('/verif/properties.jsonl'):
    d=json.loads(l)
    if len(d['title'])>80: print('long title',d['id'],len(d['title']))
    for f in d['anchors']['files']:
        if not os.path.exists('/repo/'+f): print(d['id'],f)
    n=len(re.findall(r'[.!?](?:\s|$)',d['statement'])); 
    if n>3: print(d['id'],n)
