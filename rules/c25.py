"""An absent object is never dereferenced.  Path-sensitive null analysis of the
lookup, request, insertion and deletion operation of every policy (peek and
updating lookups), of the shared functions they use and of the prefetchers and
admission policies, with and without TTL support: a pointer that is the result
of looking up the requested object (in an object index, a nested cache or a
side table) is read, written or handed to a function that reads it only on
paths where it is known not to be NULL."""
from lcs.ctx import *
from lcs.engine import *
from lcs.ir import *
LEVEL='other'
EXPLAIN=__doc__
ASSUME=['an object taken from the head or tail of a non-empty queue, or found by the id of such an object, is present (queue membership is C07)','memory allocation does not fail']
INDEX={'chained_hashtable_find_obj_id_v2','chained_hashtable_find_v2','chained_hashtable_find_obj_v2','chained_hashtable_find','chained_hashtable_find_req','chained_hashtable_find_obj','cache_find_base','cache.find','g_hash_table_lookup'}
class Null(Explorer):
    max_states=20000; split=True
    def __init__(s,fn,need,every=False):
        super().__init__(fn); s.need=need; s.every=every; s.err={}; s.src={}; s.n=0
        for i in fn.live():
            if i.op in('call','invoke') and s.source(i): s.src[i.id]=i
    def source(s,i):
        fn=s.fn; c=fn.mod.srcname(i.callee) if i.callee else fn.slotof(i)
        if c not in INDEX or len(i.o)<2: return False
        return s.every or s.asked(fn.ex(i.o[1]))
    def keepids(s,st): return s.src
    def init(s): return frozenset()          # (index, request): known to be in the index
    def where(s,i):
        e=s.fn.ex(i.o[0]); c=s.fn.mod.srcname(i.callee) if i.callee else ''
        if c.startswith('chained_hashtable') and e[0]=='ld':
            f=s.fn.fieldinfo(e[1])
            if f and f[1]=='hashtable': e=base_of(e[1])
        return e
    def onedge(s,t,truth,P):
        for k,i in s.src.items():
            v=P.env.get(k)
            if v is not None and v!=0: P.st|={s.where(i)}
        return P
    def asked(s,e,d=0):
        if d>6: return False
        if e==('arg',1): return True
        if e[0] in('zext','sext','trunc'): return s.asked(e[2],d+1)
        if e[0]=='ld':
            f=s.fn.fieldinfo(e[1])
            return bool(f) and f[0].startswith('request') and f[1]=='obj_id' and base_of(e[1])==('arg',1)
        return False
    def base(s,p,P):
        fn=s.fn
        while True:
            p=s.canon(p,P)
            if isinstance(p,int) and p>=fn.nargs and fn.ins[p].op in('getelementptr','bitcast'): p=fn.ins[p].o[0]
            else: return p
    def deref(s,i,p,P,what):
        b=s.base(p,P)
        if not isinstance(b,int) or b not in s.src: return
        s.n+=1
        v=s.val(b,P)
        if v is not None and v!=0: return
        s.err.setdefault((i.id,b),(i,s.src[b],what,v==0))
    def transfer(s,i,P):
        fn=s.fn
        if i.op=='load': s.deref(i,i.o[0],P,'read')
        elif i.op=='store': s.deref(i,i.o[1],P,'written')
        if i.op not in('call','invoke'): return None
        c=fn.mod.srcname(i.callee) if i.callee else fn.slotof(i)
        if i.id in s.src:
            if s.where(i) in P.st: P.env[i.id]=NZ
        elif c in('cache.insert','cache_insert_base') and s.asked(fn.ex(i.o[1])): P.st|={s.where(i)}
        elif c in('cache.remove','cache.evict','cache.get','cache_evict_base','cache_remove_obj_base') or c and 'hashtable_delete' in c or i.callee and i.callee in fn.mod.fns and fn.mod.fns[i.callee].relfile.startswith('libCacheSim/cache/eviction'):
            P.st=frozenset()
        if i.callee:
            for k in s.need(i.callee):
                if k<len(i.o): s.deref(i,i.o[k],P,'given to %s, which uses it,'%fn.mod.srcname(i.callee))
        return None
def needs(m):
    """arguments a function uses without testing them"""
    r={}
    for f in m.repo_fns():
        a=set()
        for i in f.blocks[0] if f.n else ():
            if i.op in('load','store'):
                x=i.o[0] if i.op=='load' else i.o[1]
                while isinstance(x,int) and x>=f.nargs and f.ins[x].op in('getelementptr','bitcast'): x=f.ins[x].o[0]
                if isinstance(x,int) and x<f.nargs: a.add(x)
            if f.exitcall[0] is i: break
        r[f.name]=a
    return r
SHARED=('cache_find_base','cache_get_base','cache_insert_base','cache_evict_base','cache_remove_obj_base')
def run(ctx):
    for defs in((),('SUPPORT_TTL',)):
        sem=ctx.sem('core',defs); m=sem.m; tag=' (TTL)' if defs else ''
        nd=needs(m); names={}
        for a in sem.algos.values():
            for sl in('find','remove','get','insert','can_insert'):
                x=a.slots.get('cache.'+sl)
                if x in m.fns: names.setdefault(x,'%s %s'%(a.name,sl))
        for s in SHARED:
            f=m.get(s); ctx.need(f,s); names.setdefault(f.name,s)
        for slot,fs in sem.slot_targets.items():
            if slot.startswith('prefetcher.') or slot.startswith('admissioner.'):
                for x in fs:
                    if x in m.fns: names.setdefault(x,m.srcname(x))
        nf=nu=0
        for x,label in sorted(names.items(),key=lambda t:t[1]):
            f=m.fns[x]; nf+=1
            ex=Null(f,lambda c:nd.get(c,()),f.relfile.startswith(('libCacheSim/cache/prefetch','libCacheSim/cache/admission')))
            if not ex.src: ctx.ok('null',label+' makes no lookup'+tag) ; continue
            try: ex.run()
            except TooManyStates: ctx.notes.append('state bound in '+f.src); continue
            nu+=ex.n
            if not ex.err: ctx.ok('null','%s: %d uses of %d lookups%s'%(label,ex.n,len(ex.src),tag))
            for (i,j,what,isnull) in ex.err.values():
                c=m.srcname(j.callee) if j.callee else f.slotof(j)
                ctx.bad('null','%s %s'%(f.src,c),'%s: the result of looking up the requested object (%s) is %s %s'%(f.src,c,what,'where it is NULL' if isnull else 'without being known present'),i.where())
        ctx.floor('functions'+tag,nf,100); ctx.floor('uses of lookup results'+tag,nu,60)
