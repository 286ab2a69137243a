"""Room is made before insertion.  (1) Path-sensitive exploration of every
access path: an insertion is reached only under the established inequality
occupied + object size + metadata size <= capacity, where the occupied size was
sampled after the last eviction, and an eviction only under its negation.  The
inequality is compared as a linear form, so its spelling does not matter.
(2) The same obligation for every insertion a prefetcher performs."""
from lcs.proto import *
from rules import c03
EXCEPT=dict(c03.EXCEPT)
EXCEPT['LP_ARC']='private experimental algorithm with its own access loop'
class PfProto(Explorer):
    """insertions a prefetcher makes into its cache (arg0)"""
    def __init__(s, sem, fn, resident):
        super().__init__(fn); s.sem=sem; s.resident=resident; s.err={}; s.n=0
    def init(s): return frozenset()
    def keepids(s,st): return [f[2] for f in st if f[0]=='find']
    def report(s,rule,i,msg): s.err.setdefault((rule,msg),i)
    def onedge(s,t,truth,P):
        for i,tr in s.atoms(t.o[0],truth,P):
            if i.op!='icmp': continue
            D=leq0(s.fn,i,tr)
            if D is None: continue
            t_,c=D
            for R in {f[1] for f in P.st}|{base_of(e[1]) for e in t_ if e[0]=='ld'}:
                sizes=[f[2] for f in P.st if f[0]=='size' and f[1]==R]
                n={}
                for e,k in t_.items():
                    x=None
                    if e[0]=='ld':
                        fi=s.fn.fieldinfo(e[1]); b=base_of(e[1])
                        if fi and b==SELF and fi[0]=='cache': x='cache.'+fi[1]
                        elif fi and b==R and fi[1]=='obj_size': x='sz'
                    elif e[0]=='call' and s.fn.slotof(s.fn.ins[e[1]])=='cache.get_occupied_byte': x='occ'
                    if x is None and any(lin(q)==({e:1},0) for q in sizes): x='sz'
                    if x is None: n=None; break
                    n[x]=n.get(x,0)+k
                if n is None: continue
                full={'occ':1,'sz':1,'cache.obj_md_size':1,'cache.cache_size':-1}
                fit={'sz':1,'cache.obj_md_size':1,'cache.cache_size':-1}
                if n==full and c==0: P.st=frozenset(x for x in P.st if x[0]!='full')|{('room',R)}
                elif n=={k:-v for k,v in full.items()} and c==1: P.st=frozenset(x for x in P.st if x[0]!='room')|{('full',R)}
                elif n==fit and c<=0: P.st|={('fit',R)}
        return P
    def transfer(s,i,P):
        fn=s.fn
        if i.op=='store':
            f=fn.fld(i) or ''
            if f.startswith('request') and f.split('.')[-1] in('obj_id','obj_size'):
                R=base_of(fn.ex(i.o[1])); k=f.split('.')[-1]
                P.st=frozenset(x for x in P.st if not(x[1]==R and (x[0]=='find' or k=='obj_size')))
                if k=='obj_size': P.st|={('size',R,fn.ex(i.o[0]))}
            return None
        if i.op not in('call','invoke') or not i.o: return None
        sl=fn.slotof(i) if not i.callee else None
        if i.callee and (fn.mod.srcname(i.callee)=='copy_request' or i.callee.startswith('llvm.memcpy')):
            R=base_of(fn.ex(i.o[0])); P.st=frozenset(x for x in P.st if x[1]!=R); return None
        if not sl or fn.ex(i.o[0])!=SELF: return None
        if sl=='cache.find':
            R=fn.ex(i.o[1]); s.n+=1
            if s.val(i.o[2],P)!=0: s.report('peek',i,'prefetch lookup is not a peek (update_cache is not false)')
            P.st=frozenset(x for x in P.st if not(x[0]=='find' and x[1]==R))|{('find',R,i.id)}
        elif sl=='cache.evict':
            s.n+=1
            fu=[x for x in P.st if x[0]=='full']
            if not fu: s.report('evict',i,'eviction although occupied + object size + metadata > capacity is not established')
            if not s.resident and not any(('fit',x[1]) in P.st for x in fu): s.report('fit',i,'makes room for an object that is not known to fit the cache (size + metadata <= capacity not established)')
            P.st=frozenset(x for x in P.st if x[0] not in('room','full'))
        elif sl=='cache.insert':
            s.n+=1; R=fn.ex(i.o[1])
            if not s.resident and not any(x[0]=='find' and x[1]==R and P.env.get(x[2])==0 for x in P.st): s.report('absent',i,'prefetched object is inserted without establishing that it is absent')
            if ('room',R) not in P.st: s.report('room',i,'prefetch insertion although occupied + object size + metadata <= capacity is not established')
            P.st=frozenset(x for x in P.st if x[0] not in('room','full') and not(x[0]=='find' and x[1]==R))
        return None
def run(ctx):
    res=c03.explore(ctx); n=0
    for a,f,ex in res:
        if a and a.name in EXCEPT: continue
        nm=a.name if a else 'shared access function'
        n+=1; bad=set()
        for (r,msg),i in ex.err.items():
            if r in('room','evict'): bad.add(r); ctx.bad(r,'%s: %s'%(nm,msg),msg+' (in %s)'%f.src,i.where())
        for r in('room','evict'):
            if r not in bad: ctx.ok(r,nm)
    ctx.floor('access paths',n,45)
    sem=ctx.sem(); m=sem.m; k=0
    for slot,res in(('prefetcher.prefetch',False),('prefetcher.handle_evict',True),('prefetcher.handle_find',False),('prefetcher.handle_insert',False)):
        for F in sorted(sem.slot_targets.get(slot,())):
            f=m.fns[F]; ex=PfProto(sem,f,res); ex.run(); k+=ex.n
            bad=set()
            for (r,msg),i in ex.err.items(): bad.add(r); ctx.bad('prefetch-'+r,'%s: %s'%(f.src,msg),msg,i.where())
            for r in('room','evict','fit','absent','peek'):
                if r not in bad and ex.n: ctx.ok('prefetch-'+r,f.src)
    ctx.floor('prefetcher cache operations',k,8)
