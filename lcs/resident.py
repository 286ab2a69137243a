"""Residency: which counters / nested caches make up a cache's reported object
count, and the net change of that count along every path of an operation."""
from .proto import *
SAT=4
def sat(n): return max(-SAT,min(SAT,n))

def subkey(fn,e):
    """name of the params field a nested-cache pointer was loaded from"""
    if e==SELF: return 'self'
    for _ in range(4):
        if e[0]!='ld': return None
        f=fn.fieldinfo(e[1])
        if f and f[0] not in('cache','cache_obj'): return f[0]+'.'+f[1].replace('[]','')
        b=base_of(e[1])
        e=b
    return None

def subset(sem,algo,slot,field):
    """nested caches (or 'self') contributing to a getter"""
    g=sem.F(algo.slots['cache.'+slot]); out=set()
    if g is None: return out
    for i in g.live():
        if i.op in('call','invoke'):
            if g.slotof(i)=='cache.'+slot: out.add(subkey(g,g.ex(i.o[0])))
        elif i.op=='load':
            if g.fld(i)=='cache.'+field: out.add(subkey(g,base_of(g.ex(i.o[0]))))
    return out
def residents(sem,algo): return subset(sem,algo,'get_n_obj','n_obj')

class ResEffect(Explorer):
    """state: (delta of resident count, last inserted object id, known) where
    known = frozenset of ('obj',v,K): v is a non-removed object returned by a lookup in K |
    ('req',R,v): request R names the object v | ('q',v,R): lookup v was made with request R"""
    max_states=60000
    def __init__(s, sem, fn, algo, res, memo, stack=(), selfkey='self'):
        super().__init__(fn); s.sem=sem; s.algo=algo; s.res=res; s.memo=memo; s.stack=stack; s.exits=[]; s.nev=0; s.aborts=0; s.unk=[]
    def init(s): return (0,None,frozenset())
    def keepids(s,st): return ([st[1]] if st[1] is not None else [])+[t[1] if t[0]!='req' else t[2] for t in st[2]]
    def key(s,v): return subkey(s.fn,s.fn.ex(v))
    def idsource(s,v,P):
        """('obj',ssa) or ('req',expr): whose obj_id is operand v"""
        fn=s.fn; v=s.canon(v,P)
        if not isinstance(v,int) or v<fn.nargs: return None
        i=fn.ins[v]
        if i.op!='load': return None
        f=fn.fld(i) or ''
        if not f.endswith('.obj_id'): return None
        if f.startswith('request'): return ('req',base_of(fn.ex(i.o[0])))
        if f.startswith('cache_obj'):
            p=i.o[0]
            while isinstance(p,int) and p>=fn.nargs and fn.ins[p].op=='getelementptr': p=fn.ins[p].o[0]
            return ('obj',s.canon(p,P))
        return None
    def find_v(s,src,K,P):
        """lookup results in K that the id source denotes -> list of v"""
        kn=P.st[2]; out=[]
        if src is None: return out
        vs=[]
        if src[0]=='obj': vs=[src[1]]
        else:
            vs=[t[2] for t in kn if t[0]=='req' and t[1]==src[1]]
            vs+=[t[1] for t in kn if t[0]=='q' and t[2]==src[1]]
        return [v for v in vs if ('obj',v,K) in kn]
    def transfer(s,i,P):
        fn=s.fn; d,ins,kn=P.st
        if i.op=='store':
            f=fn.fld(i) or ''
            if f=='cache.n_obj' and subkey(fn,base_of(fn.ex(i.o[1]))) in s.res:
                t,c=lsub(lin(fn.ex(i.o[0])),lin(('ld',fn.ex(i.o[1]),i.sz)))
                if t: P.st=(SAT,ins,kn) if d>=0 else (-SAT,ins,kn)
                else: P.st=(sat(d+c),ins,kn)
                s.nev+=1
            elif f.startswith('request') and f.endswith('.obj_id'):
                R=base_of(fn.ex(i.o[1]))
                kn=frozenset(t for t in kn if not(t[0]=='req' and t[1]==R) and not (t[0]=='q' and t[2]==R))
                src=s.idsource(i.o[0],P)
                if src and src[0]=='obj': kn=kn|{('req',R,src[1])}
                P.st=(d,ins,kn)
            return None
        if i.op not in('call','invoke') or not i.o: return None
        # a re-executed lookup invalidates what was known about its previous result
        if any(t[1]==i.id or t[2]==i.id for t in kn):
            kn=frozenset(t for t in kn if t[1]!=i.id and t[2]!=i.id); P.st=(d,ins,kn)
        k=s.key(i.o[0])
        c=fn.mod.srcname(i.callee) if i.callee else fn.slotof(i)
        if c in('copy_cache_obj_to_request',):
            R=fn.ex(i.o[0]); kn=frozenset(t for t in kn if not(t[0]=='req' and t[1]==R) and not (t[0]=='q' and t[2]==R))
            P.st=(d,ins,kn|{('req',R,s.canon(i.o[1],P))}); return None
        if k is not None and c in('cache.find','cache.to_evict'):
            add={('obj',i.id,k)}
            if c=='cache.find': add.add(('q',i.id,base_of(fn.ex(i.o[1]))))
            P.st=(d,ins,kn|add)
            if c=='cache.to_evict': P.env[i.id]=NZ
            return None
        if k is not None and k in s.res:
            if c in('cache_insert_base','cache.insert'):
                P.st=(sat(d+1),i.id,kn); s.nev+=1
                if c=='cache.insert': P.env[i.id]=NZ
                return None
            if c in('cache_evict_base','cache_remove_obj_base','cache.evict'):
                if c=='cache.evict': kn=frozenset(t for t in kn if not (t[0]=='obj' and t[2]==k and fn.ins[t[1]].op in('call','invoke') and fn.slotof(fn.ins[t[1]])=='cache.to_evict'))
                P.st=(sat(d-1),ins,kn); s.nev+=1; return None
            if c=='cache.remove':
                s.nev+=1
                vs=s.find_v(s.idsource(i.o[1],P),k,P)
                nn=[v for v in vs if s.val(v,P) not in(None,0)]
                if nn:
                    P.st=(d,ins,frozenset(t for t in kn if t[1] not in nn and t[2] not in nn))
                    return s.split(i,P,[(-1,1)])
                if any(s.val(v,P)==0 for v in vs): return s.split(i,P,[(0,0)])
                return s.split(i,P,[(-1,1),(0,0)])
            if c=='cache.get': s.nev+=1; return s.split(i,P,[(0,1),(1,0),(0,0),(-SAT,0)])
        f=fn.mod.fns.get(i.callee) if i.callee else None
        if f and f.name not in s.stack and f.relfile.startswith('libCacheSim/cache/eviction') and fn.ex(i.o[0])==SELF:
            sm=summary(s.sem,f,s.algo,s.res,s.memo,s.stack+(f.name,))
            if sm and sm!={(0,None)}: s.nev+=1; return s.split(i,P,sorted(sm,key=repr))
        return None
    def split(s,i,P,outs):
        r=[]; d,ins,kn=P.st
        for dd,rv in outs:
            Q=Path((sat(d+dd),ins,kn),dict(P.env),dict(P.alias),dict(P.avail))
            if rv is not None: Q.env[i.id]=rv
            if dd==1: Q.st=(Q.st[0],i.id,kn)
            r.append(Q)
        return r
    def onexit(s,i,P):
        rv=s.val(i.o[0],P) if i.o else None
        s.exits.append((P.st[0],rv,P.st[1],s.canon(i.o[0],P) if i.o else None,i))
    def onabort(s,i,P): s.aborts+=1
def summary(sem,fn,algo,res,memo,stack):
    if fn.name in memo: return memo[fn.name]
    memo[fn.name]={(0,None)}
    ex=ResEffect(sem,fn,algo,res,memo,stack); ex.run()
    r=set()
    for d,rv,_,_,_ in ex.exits: r.add((d,rv if rv in(0,1,NZ) else None))
    memo[fn.name]=r
    return r
