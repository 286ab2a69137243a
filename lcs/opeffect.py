"""Net change of the number of resident objects along every path of a cache
operation (typestate exploration; helper functions that were not inlined are
summarised by the set of (net change, boolean result) pairs of their exits)."""
from .proto import *
SAT=4
def sat(n): return max(-SAT,min(SAT,n))
class OpEffect(Explorer):
    max_states=40000
    def __init__(s, sem, fn, algo, memo, stack=()):
        super().__init__(fn); s.sem=sem; s.algo=algo; s.memo=memo; s.stack=stack; s.exits=[]; s.nev=0; s.aborts=0
    # state: (delta, inserted-object id or None)
    def init(s): return (0,None)
    def keepids(s,st): return [st[1]] if st[1] is not None else []
    def transfer(s,i,P):
        fn=s.fn; d,ins=P.st
        if i.op=='store':
            if fn.fld(i)=='cache.n_obj' and base_of(fn.ex(i.o[1]))==SELF:
                t,c=lsub(lin(fn.ex(i.o[0])),lin(('ld',fn.ex(i.o[1]),i.sz)))
                if t: P.st=(SAT,ins) if d>=0 else (-SAT,ins)
                else: P.st=(sat(d+c),ins)
                s.nev+=1
            return None
        if i.op not in('call','invoke') or not i.o: return None
        if fn.ex(i.o[0])!=SELF: return None
        c=fn.mod.srcname(i.callee) if i.callee else fn.slotof(i)
        if c in('cache_insert_base',): P.st=(sat(d+1),i.id); s.nev+=1; return None
        if c in('cache_evict_base','cache_remove_obj_base'): P.st=(sat(d-1),ins); s.nev+=1; return None
        if c=='cache.evict': P.st=(sat(d-1),ins); s.nev+=1; return None
        if c=='cache.insert': P.st=(sat(d+1),i.id); s.nev+=1; return None
        if c=='cache.remove':
            return s.split(i,P,[(-1,1),(0,0)])
        if i.callee and i.callee in fn.mod.fns and i.callee not in s.stack and fn.mod.fns[i.callee].relfile.startswith('libCacheSim/cache/eviction'):
            sm=summary(s.sem,fn.mod.fns[i.callee],s.algo,s.memo,s.stack+(i.callee,))
            if sm and sm!={(0,None)}: s.nev+=1; return s.split(i,P,sorted(sm,key=repr))
        return None
    def split(s,i,P,outs):
        r=[]
        d,ins=P.st
        for dd,rv in outs:
            Q=Path((sat(d+dd),ins),dict(P.env),dict(P.alias),dict(P.avail))
            if rv is not None: Q.env[i.id]=rv
            if dd==1: Q.st=(Q.st[0],i.id)
            r.append(Q)
        return r
    def onexit(s,i,P):
        rv=s.val(i.o[0],P) if i.o else None
        s.exits.append((P.st[0],rv,P.st[1],s.canon(i.o[0],P) if i.o else None,i))
    def onabort(s,i,P): s.aborts+=1
def summary(sem,fn,algo,memo,stack):
    if fn.name in memo: return memo[fn.name]
    memo[fn.name]={(0,None)}
    ex=OpEffect(sem,fn,algo,memo,stack); ex.run()
    r=set()
    isint=fn.j.get('ret','')
    for d,rv,_,_,_ in ex.exits: r.add((d,rv if rv in(0,1,NZ) else None))
    memo[fn.name]=r
    return r
