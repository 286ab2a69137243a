"""Rule context: facts, violations, obligations, evidence, known findings."""
import json, os, sys, time, hashlib, importlib, traceback
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V)
from lcs import build
from lcs.build import AnalysisBroken

_modcache={}
class Ctx:
    def __init__(s, pid, tier):
        s.pid=pid; s.tier=tier; s.viol={}; s.obl=0; s.disch=0; s.counts={}; s.samples=[]; s.units=[]; s.notes=[]; s.rules=[]
    def module(s, group='core', defines=()):
        from lcs.ir import Module
        k=(group,tuple(defines))
        if k not in _modcache:
            p,units=build.facts(group,tuple(defines))
            _modcache[k]=(Module(p),units)
        m,units=_modcache[k]
        s.counts.setdefault('units_'+group+('+'+','.join(defines) if defines else ''),len(units))
        return m
    def sem(s, group='core', defines=()):
        from lcs.sem import Sem
        m=s.module(group,defines)
        if not hasattr(m,'_sem'): m._sem=Sem(m)
        return m._sem
    def count(s,k,n=1): s.counts[k]=s.counts.get(k,0)+n
    def ok(s, rule, inst):
        s.obl+=1; s.disch+=1; s.count('rule:'+rule)
        if len(s.samples)<60 and sum(1 for x in s.samples if x.startswith(rule+':'))<8: s.samples.append('%s: %s: holds'%(rule,inst))
    def bad(s, rule, key, msg, where=''):
        """violation: key identifies rule instance (no line numbers)"""
        s.obl+=1; s.count('rule:'+rule)
        k='%s|%s'%(rule,key)
        s.viol.setdefault(k,(rule,key,msg,where))
    def check(s, rule, key, cond, msg, where=''):
        if cond: s.ok(rule,key)
        else: s.bad(rule,key,msg,where)
        return cond
    def floor(s, name, n, least):
        s.counts['instances:'+name]=n
        if n<least: raise AnalysisBroken('%s: %d instances of "%s" found, at least %d expected'%(s.pid,n,name,least))
    def need(s, x, what):
        if not x: raise AnalysisBroken('%s: anchor not found: %s'%(s.pid,what))
        return x

def known():
    p=os.path.join(V,'known_findings.json')
    if not os.path.exists(p): return []
    return json.load(open(p))['findings']

def main(pid):
    t0=time.time()
    tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1') or 1)
    ctx=Ctx(pid,tier); rc=0
    mod=importlib.import_module('rules.'+pid.lower())
    broken=None
    try:
        mod.run(ctx)
        if ctx.obl==0: raise AnalysisBroken('no rule instance analysed')
    except AnalysisBroken as e:
        broken='analysis broken: %s'%e
    except Exception as e:
        tb=traceback.extract_tb(e.__traceback__)[-3:]
        broken='analysis failed: %s: %s [%s]'%(type(e).__name__,str(e)[:200],'; '.join('%s:%d %s'%(os.path.basename(t.filename),t.lineno,t.name) for t in tb))
    kf={k['key']:k for k in known() if k['property']==pid and k.get('status')=='finding'}
    new=[v for k,v in ctx.viol.items() if k not in kf]
    old=[(k,v) for k,v in ctx.viol.items() if k in kf]
    os.makedirs(os.path.join(V,'evidence'),exist_ok=True)
    for k,v in old:
        print('KNOWN-FINDING: property=%s %s'%(pid,kf[k].get('what',v[2])))
    stale=[k for k in kf if k not in ctx.viol]
    replay=os.path.join('evidence','%s.violation.txt'%pid)
    rp=os.path.join(V,replay)
    if os.path.exists(rp): os.unlink(rp)
    if new:
        with open(rp,'w') as f:
            f.write('property %s: %d violation(s)\n'%(pid,len(new)))
            for r,key,msg,where in new:
                f.write('\nrule: %s\ninstance: %s\nwhat: %s\nwhere: %s\n'%(r,key,msg,where))
            f.write('\nre-run: cd /verif && python3 check.py %s\n'%pid)
        for r,key,msg,where in new[:25]:
            print('  [%s] %s: %s @ %s'%(r,key,msg,where))
        print('VIOLATION property=%s replay=%s'%(pid,replay))
        rc=1
    ev={'property':pid,'tier':tier,'seed':seed,'level':getattr(mod,'LEVEL','other'),
        'coverage':{'explanation':getattr(mod,'EXPLAIN',mod.__doc__ or '').strip(),
                    'obligations':ctx.obl,'discharged':ctx.disch,'counts':ctx.counts,'samples':ctx.samples[:40] or ['none'],
                    'known_findings_seen':[k for k,_ in old],'known_findings_not_seen':stale,
                    'notes':ctx.notes},
        'assumptions':getattr(mod,'ASSUME',[]),'wall_s':round(time.time()-t0,2),'violations':len(new)}
    if broken and not new:
        ev['coverage']['broken']=broken
        print(broken,file=sys.stderr); rc=2
    json.dump(ev,open(os.path.join(V,'evidence',pid+'.json'),'w'),indent=1)
    print('%s: %d obligations, %d discharged, %d known, %d new; %.1fs'%(pid,ctx.obl,ctx.disch,len(old),len(new),time.time()-t0))
    return rc
