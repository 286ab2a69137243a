#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (one source of truth)."""
import json,os,sys,subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/tool')
import props
with open(V+'/properties.jsonl','w') as f:
    for p in props.P:
        f.write(json.dumps({'id':p['id'],'title':p['title'],'statement':p['statement'],
          'quantifier':{'over':p['over'],'text':p['q']},'why_tests_cant':p['why'],
          'anchors':{'files':p['files'],'mechanism':[{'name':n,'where':w} for n,w in p['mech']],'hook_needed':None}})+'\n')
for p in props.P:
    assert len(p['title'])<=80,p['id']
m={'version':1,'setup_cmd':'python3 -m lcs.build core && python3 -m lcs.build core SUPPORT_TTL',
   'checks':[],'not_applicable':[{'property':p['id'],'reason':p['na']} for p in props.P if 'na' in p],
   'notes':'Static analysis of the LLVM IR of /repo, rebuilt (compiled, never executed) from the working tree on every run; see DESIGN.md. Known findings: known_findings.json.'}
extra=getattr(props,'SETUP',None)
if extra: m['setup_cmd']=extra
for p in props.P:
    if 'na' in p: continue
    m['checks'].append({'property':p['id'],'quick_cmd':'python3 check.py %s'%p['id'],'thorough_cmd':'python3 check.py %s'%p['id'],
      'technique':p['tech'],'level':'other','level_note':p['note']})
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
try:
    import jsonschema
except ImportError: sys.exit(0)
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
for l in open(V+'/properties.jsonl'): jsonschema.validate(json.loads(l),json.load(open('/root/.vp/PROPERTIES.schema.json')))
print('ok',len(m['checks']),'checks')
