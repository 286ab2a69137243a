"""Prefetcher protocol.  (shared) path analysis of the shared lookup, request and
eviction functions: the prefetcher's hook is called exactly once exactly when the
prefetcher (and the hook) exists and the lookup updates, with the cache, the
request and the true outcome; prefetching comes once, after the request was
served; an eviction is reported once, after the object left, with the id and
size it had.  (policy) on every path of the updating lookup of a policy that
keeps its objects in its own index the shared lookup function is called exactly
once with the request, and on every path of its eviction every object leaves
through the shared eviction function."""
from lcs.ctx import *
from lcs.engine import *
from lcs.ir import *
LEVEL='other'
EXPLAIN=__doc__
ASSUME=['policies composed of other caches (and the experimental GLCache, MClock, QDLPv0) keep no index of their own: their inner caches have no prefetcher','parameters.update of a policy lookup is the update flag']
EXPERIMENTAL={'GLCache','MClock','QDLPv0','myMQv1','LHD','LRUv0','nop'}
class Hook(Explorer):
    """state: (calls of the hook, lookup outcome, served)"""
    max_states=60000; split=True
    def __init__(s,fn,hook,kind): super().__init__(fn); s.hook=hook; s.kind=kind; s.err={}; s.n=0; s.seen=0; s.loads=[j for j in fn.live() if j.op=='load' and fn.fld(j) in('cache.prefetcher','prefetcher.'+hook)]
    def init(s): return (0,None,0,0)     # null: 1 prefetcher or hook absent, 2 lookup without update
    def onedge(s,t,truth,P):
        if not P.st[3]&1:
            for j in s.loads:
                v=P.env.get(j.id)
                if v is None and j.id in P.alias:
                    c=s.canon(j.id,P); v=P.env.get(c) if isinstance(c,int) else None
                if v==0: P.st=P.st[:3]+(P.st[3]|1,); break
        if s.kind=='find' and s.val(2,P)==0: P.st=P.st[:3]+(P.st[3]|2,)
        return P
    def rep(s,k,i,m): s.err.setdefault(k,(i,m))
    def same(s,v,P,arg): 
        return s.canon(v,P)==arg
    def transfer(s,i,P):
        fn=s.fn; m=fn.mod
        if i.op not in('call','invoke'): return None
        c=m.srcname(i.callee) if i.callee else fn.slotof(i)
        n,look,served,null=P.st
        if c=='prefetcher.'+s.hook:
            s.seen+=1
            if not s.same(i.o[0],P,0): s.rep('cache',i,'the hook is given another cache')
            if s.kind!='evict' and not s.same(i.o[1],P,1): s.rep('request',i,'the hook is given another request')
            if s.kind=='find':
                if look is None: s.rep('order',i,'the hook is called before the lookup')
                else:
                    v=s.val(i.o[2],P)
                    if look==0 and v!=0 or look==1 and (v is None or v==0): s.rep('hit',i,'the hook is told "%s" when the object is %s'%('a hit' if look==0 else 'a miss','absent' if look==0 else 'found'))
            if s.kind=='get' and served==0: s.rep('order',i,'prefetching comes before the request is looked up')
            if s.kind=='evict':
                if served!=1: s.rep('order',i,'the eviction is reported before the object has left the cache')
                s.reqarg(i,P)
            P.st=(min(n+1,2),look,served,null); return None
        if s.kind=='find' and c and 'hashtable_find' in c:
            out=[]
            for k,v in((0,0),(1,NZ)):
                Q=Path(P.st,dict(P.env),dict(P.alias),dict(P.avail)); Q.st=(n,k,served,null); Q.env[i.id]=v; Q.alias.pop(i.id,None); out.append(Q)
            return out
        if s.kind=='get' and c in('cache.find','cache.insert','cache.evict'):
            if n: s.rep('order',i,'%s follows prefetching'%c)
            P.st=(n,look,1,null)
        if s.kind=='evict' and c in('cache_remove_obj_base',):
            P.st=(n,look,min(served+1,2),null)
        return None
    def reqarg(s,i,P):
        fn=s.fn; b=base_of(fn.ex(i.o[1])); got=set()
        for j in fn.live():
            if j.op=='store' and base_of(fn.ex(j.o[1]))==b:
                f=(fn.fld(j) or '').split('.')[-1]; v=fn.ex(j.o[0])
                while v[0] in('zext','sext','trunc'): v=v[2]
                if v[0]=='ld' and base_of(v[1])==('arg',1):
                    g=fn.fieldinfo(v[1]); g=g[1] if g else None
                    if f in('obj_id','obj_size'): got.add((f,g))
        for f in('obj_id','obj_size'):
            if (f,f) not in got: s.rep('victim',i,'the reported request does not carry the %s of the evicted object'%f)
    def onexit(s,i,P):
        s.n+=1; n,look,served,null=P.st
        if s.kind=='find' and s.val(2,P)==0: null|=2
        if n>1: s.rep('once',i,'the hook is called more than once')
        elif n==1 and null&2: s.rep('peek',i,'the hook is called for a lookup without update')
        elif n==0 and not null: s.rep('once',i,'the hook is not called although the prefetcher has it')
        if s.kind=='evict' and served!=1: s.rep('remove',i,'the object is removed %d times'%served)
class Own(Explorer):
    """state: (shared lookups, problem) / removals not through the shared eviction"""
    max_states=60000
    def __init__(s,fn,mode): super().__init__(fn); s.mode=mode; s.err={}; s.n=0; s.own=0
    def init(s): return 0
    def transfer(s,i,P):
        if i.op not in('call','invoke'): return None
        fn=s.fn; c=fn.mod.srcname(i.callee) if i.callee else fn.slotof(i)
        if s.mode=='find' and c=='cache_find_base' and s.canon(i.o[0],P)==0:
            P.st=min(P.st+1,2); s.own+=1
            if s.canon(i.o[1],P)!=1: s.err.setdefault('request',(i,'looks up another request'))
            if s.val(i.o[2],P) in(None,0): s.err.setdefault('flag',(i,'hides the updating lookup from the shared lookup function'))
        if s.mode=='evict' and s.canon(i.o[0],P)==0 if i.o else False:
            if c=='cache_evict_base': s.own+=1
            if c=='cache_remove_obj_base': s.err.setdefault('evict',(i,'an object leaves without the shared eviction function: the prefetcher is not told'))
        return None
    def onexit(s,i,P):
        s.n+=1
        if s.mode=='find' and P.st!=1: s.err.setdefault('once',(i,'the updating lookup calls the shared lookup function %s'%('never' if P.st==0 else 'more than once')))
def run(ctx):
    for defs in((),('SUPPORT_TTL',)):
        sem=ctx.sem('core',defs); m=sem.m; tag=' (TTL)' if defs else ''
        for src,hook,kind in(('cache_find_base','handle_find','find'),('cache_get_base','prefetch','get'),('cache_evict_base','handle_evict','evict')):
            f=m.get(src); ctx.need(f,src)
            ex=Hook(f,hook,kind)
            ex.run()
            ctx.count('paths of shared functions',ex.n)
            if not ex.seen: ex.err.setdefault('once',(next(f.live()),'the hook is never called'))
            for k in('once','cache','request','hit','order','peek','victim','remove'):
                if k in ex.err: ctx.bad('shared','%s %s'%(src,k),'%s: %s'%(src,ex.err[k][1]),ex.err[k][0].where())
                else: ctx.ok('shared','%s %s%s'%(src,k,tag))
    sem=ctx.sem(); m=sem.m; np=0
    for a in sorted(sem.algos.values(),key=lambda a:a.name):
        if a.name in EXPERIMENTAL: continue
        ins=m.fns.get(a.slots.get('cache.insert'))
        if ins is None or not any(m.srcname(i.callee or '')=='cache_insert_base' and base_of(ins.ex(i.o[0]))==('arg',0) for i in ins.live() if i.op=='call'): continue
        np+=1
        f=m.fns.get(a.slots['cache.find'])
        if f is not None:
            ex=Own(specialize(f,{2:1}),'find')
            try: ex.run()
            except TooManyStates: ctx.notes.append('state bound in '+f.src); continue
            ctx.count('policy paths',ex.n)
            for k in('once','request','flag'):
                if k in ex.err: ctx.bad('policy','%s find %s'%(a.name,k),'%s: %s'%(f.src,ex.err[k][1]),ex.err[k][0].where())
                else: ctx.ok('policy','%s find %s'%(a.name,k))
        f=m.fns.get(a.slots['cache.evict'])
        if f is not None:
            ex=Own(f,'evict')
            try: ex.run()
            except TooManyStates: ctx.notes.append('state bound in '+f.src); continue
            ctx.count('policy paths',ex.n)
            if 'evict' in ex.err: ctx.bad('policy','%s evict'%a.name,'%s: %s'%(f.src,ex.err['evict'][1]),ex.err['evict'][0].where())
            else: ctx.ok('policy','%s evict'%a.name)
    ctx.floor('policies with an index of their own',np,22)
