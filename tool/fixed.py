#!/usr/bin/env python3
"""append fixed entries to known_findings.json from `hash property text` lines on stdin"""
import json,sys,os
p=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'known_findings.json')
d=json.load(open(p)) if os.path.exists(p) else {'findings':[],'fixed':[]}
for l in sys.stdin:
    l=l.strip()
    if not l: continue
    h,pid,what=l.split(' ',2)
    e='fixed: property=%s %s %s'%(pid,h,what)
    if e not in d['fixed']: d['fixed'].append(e)
json.dump(d,open(p,'w'),indent=1)
