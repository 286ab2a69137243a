#!/usr/bin/env python3
"""DESIGN.md = design_head.md + per-property sections (rule docstring, assumptions, bounds) + design_tail.md"""
import ast,json,os,re,subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); os.chdir(V)
P={}
for l in open('properties.jsonl'):
    d=json.loads(l); P[d['id']]=d
M=json.load(open('MANIFEST.json'))
seeds={}; MISSED={'B37-trace-params-double-comma':'a step by a value that can be zero counts as a change; deciding when such a value is zero needs string contents.'}
for s in sorted(os.listdir('seeded')):
    m=json.load(open('seeded/%s/meta.json'%s)); seeds.setdefault(m['property'],[]).append(s)
K=json.load(open('known_findings.json'))
out=[open('tool/design_head.md').read()]
N=json.load(open('tool/design_notes.json')) if os.path.exists('tool/design_notes.json') else {}
for pid in sorted(P):
    d=P[pid]; rp='rules/%s.py'%pid.lower()
    out.append('### %s  %s\n'%(pid,d['title']))
    if not os.path.exists(rp): continue
    t=ast.parse(open(rp).read()); out.append('**Method** (`%s`). '%rp+re.sub(r'\n',r'\n',ast.get_docstring(t))+'\n')
    for n in t.body:
        if isinstance(n,ast.Assign) and getattr(n.targets[0],'id','')=='ASSUME':
            out.append('**Assumes** '+'; '.join(ast.literal_eval(n.value))+'.\n')
    if pid in N: out.append('**Decisions** '+N[pid]+'\n')
    fx=[f for f in K['fixed'] if 'property=%s '%pid in f]; kf=[f for f in K['findings'] if f['property']==pid]
    if fx: out.append('**Defects found and repaired in /repo** '+'; '.join(re.sub(r'^fixed: property=\w+ ','',f) for f in fx)+'.\n')
    for f in kf: out.append('**Known finding** %s: %s\n'%(f['key'],f.get('what','')))
    got=[x for x in seeds.get(pid,()) if x not in MISSED]
    if got: out.append('**Planted bugs caught** '+', '.join(got)+'.\n')
    for x in seeds.get(pid,()):
        if x in MISSED: out.append('**Planted bug not caught** %s: %s\n'%(x,MISSED[x]))
na=M.get('not_applicable') or []
out.append('## Not applicable to static analysis here\n')
for n in na: out.append('- **%s** %s: %s\n'%(n['id'] if 'id' in n else n.get('property',''),P.get(n.get('id') or n.get('property'),{}).get('title',''),n['reason']))
out.append(open('tool/design_tail.md').read())
open('DESIGN.md','w').write('\n'.join(out))
