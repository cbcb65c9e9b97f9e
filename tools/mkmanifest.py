#!/usr/bin/env python3
# writes MANIFEST.json from checks.json and properties.jsonl
import json, os
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
cfg=json.load(open(os.path.join(H,'checks.json')))
props=[json.loads(l)['id'] for l in open(os.path.join(H,'properties.jsonl'))]
na=json.load(open(os.path.join(H,'not_applicable.json')))
m={'version':1,'setup_cmd':'./setup.sh','hooks':{'guard':'none','enable':'no hooks: the verifier reads /repo as it is, replay drivers are added with go test -overlay'},
 'checks':[],'not_applicable':[]}
for p in props:
    if p in cfg:
        c=cfg[p]
        m['checks'].append({'property':p,'quick_cmd':'python3 check.py %s quick'%p,'thorough_cmd':'python3 check.py %s thorough'%p,
          'technique':c.get('technique','contract-based deductive verification of the Go source (govc: contracts, weakest-precondition style obligations, z3/cvc5)'),
          'level':c.get('level','proof'),'level_note':c['note']})
    else:
        m['not_applicable'].append({'property':p,'reason':na.get(p,'no contracts yet')})
json.dump(m,open(os.path.join(H,'MANIFEST.json'),'w'),indent=1)
