"""Protocol of one cache access, explored path-sensitively over a `get`
implementation: lookup -> (hit) return true | (miss) admission -> make room ->
insert -> return false."""
from .engine import *
from .lin import *

SELF=('arg',0)
class GetProto(Explorer):
    # state: (nfind, find_id, can_id, room, nins, nreq, bad)
    def __init__(s, sem, fn, algo=None):
        super().__init__(fn); s.sem=sem; s.algo=algo; s.err={}; s.nexit=0; s.nev=0; s.reqs={}
    def init(s): return (0,None,None,None,0,0)
    def keepids(s,st): return [x for x in (st[1],st[2]) if x is not None]
    def report(s,rule,i,msg): s.err.setdefault((rule,msg),i)
    def kind(s,i):
        """operation on this very cache"""
        fn=s.fn
        if not i.o: return None
        sl=fn.slotof(i) if not i.callee else None
        if i.callee and s.algo:
            for k,v in s.algo.slots.items():
                if v==i.callee and k in('cache.find','cache.insert','cache.evict','cache.can_insert','cache.get_occupied_byte','cache.remove','cache.get'): sl=k
        if i.callee=='cache_get_base': sl='base'
        if sl and fn.ex(i.o[0])==SELF: return sl
        return None
    def field(s,e):
        """short name of a request/cache field expression"""
        if e[0]=='ld':
            f=s.fn.fieldinfo(e[1])
            if f: 
                b=base_of(e[1])
                if b==SELF and f[0]=='cache': return 'cache.'+f[1]
                if b==('arg',1) and f[0].startswith('request'): return 'req.'+f[1]
        if e[0]=='call':
            i=s.fn.ins[e[1]]
            if s.kind(i)=='cache.get_occupied_byte': return 'occ'
        return None
    def room_form(s,D):
        """D<=0 known. +1 if that is occ+size+md<=cap; -1 if it is occ+size+md>cap"""
        t,c=D; names={}
        occ=None
        for e,k in t.items():
            n=s.field(e)
            if n is None: return None,None
            if n=='occ': occ=e[1]
            names[n]=names.get(n,0)+k
        full={'occ':1,'req.obj_size':1,'cache.obj_md_size':1,'cache.cache_size':-1}
        if names==full and c==0: return 1,occ
        if names=={k:-v for k,v in full.items()} and c==1: return -1,occ
        return None,None
    def onedge(s,t,truth,P):
        for i,tr in s.atoms(t.o[0],truth,P):
            if i.op!='icmp': continue
            D=leq0(s.fn,i,tr)
            if D is None: continue
            r,occ=s.room_form(D)
            if r is not None:
                st=P.st
                # the size must have been sampled after the last change
                if st[3]==('stale',occ) or (isinstance(st[3],tuple) and st[3][0]=='chg' and occ in st[3][1]): continue
                P.st=st[:3]+(('room' if r>0 else 'full'),)+st[4:]
        return P
    def transfer(s,i,P):
        fn=s.fn; st=P.st
        nf,fid,cid,room,ni,nr=st
        if i.op=='store':
            f=fn.fld(i)
            if f=='cache.n_req' and base_of(fn.ex(i.o[1]))==SELF:
                d=lsub(lin(fn.ex(i.o[0])),lin(('ld',fn.ex(i.o[1]),i.sz)))
                if d==({},1): nr=min(nr+1,3)
                else: s.report('count',i,'request counter is not incremented by one')
            P.st=(nf,fid,cid,room,ni,nr); return None
        if i.op not in('call','invoke'): return None
        k=s.kind(i)
        if k is None: return None
        s.nev+=1
        if k=='cache.find':
            u=s.val(i.o[2],P)
            if u==0: return None
            if fn.ex(i.o[1])!=('arg',1): s.report('lookup',i,'lookup uses a different request object')
            if u!=1: s.report('lookup',i,'lookup is not made with update_cache=true')
            if ni: s.report('lookup',i,'lookup after insertion')
            if nf: s.report('lookup',i,'second updating lookup in one access')
            nf=min(nf+1,2); fid=i.id
        elif k=='cache.can_insert':
            cid=i.id
        elif k=='cache.evict':
            if nf and P.env.get(fid)!=0: s.report('evict',i,'eviction on a path where the lookup did not miss')
            if room!='full': s.report('evict',i,'eviction although occupied + object size + metadata > capacity is not established')
            if cid is None or P.env.get(cid) not in(1,NZ): s.report('evict',i,'eviction before the object was admitted')
            room=None
        elif k=='cache.insert':
            if fn.ex(i.o[1])!=('arg',1): s.report('insert',i,'insertion uses a different request object')
            if not nf: s.report('insert',i,'insertion before any lookup')
            elif P.env.get(fid)!=0: s.report('insert',i,'insertion on a path where the lookup did not miss')
            if cid is None: s.report('admit',i,'insertion without asking can_insert')
            elif P.env.get(cid) not in(1,NZ): s.report('admit',i,'insertion although can_insert was not true')
            if room!='room': s.report('room',i,'insertion although occupied + object size + metadata <= capacity is not established')
            if ni: s.report('insert',i,'second insertion in one access')
            ni=min(ni+1,2); room=None
        elif k=='cache.remove':
            s.report('lookup',i,'removal inside an access')
        P.st=(nf,fid,cid,room,ni,nr)
        return None
    def onabort(s,i,P): pass
    def onexit(s,i,P):
        nf,fid,cid,room,ni,nr=P.st
        s.nexit+=1
        if nr!=1: s.report('count',i,'request counter incremented %d times on a path'%nr)
        if nf!=1: s.report('lookup',i,'%d updating lookups on a path'%nf); return
        r=s.val(i.o[0],P); h=P.env.get(fid)
        if h is None:
            if not any(a.op=='icmp' and tr and s.canon(a.o[0],P)==fid and a.pred=='ne' for a,tr in s.atoms(i.o[0],True,P)): s.report('result',i,'result does not report whether the lookup found the object')
        elif h==0:
            if r!=0: s.report('result',i,'a path where the lookup missed does not return false')
            if ni==0 and (cid is None or P.env.get(cid)!=0): s.report('insert',i,'admitted miss is not inserted')
        else:
            if r not in(1,NZ): s.report('result',i,'a path where the lookup hit does not return true')

class GetWrap(Explorer):
    """a `get` that delegates to the base protocol: exactly one call with its own arguments, result passed through"""
    def __init__(s, sem, fn, algo):
        super().__init__(fn); s.sem=sem; s.algo=algo; s.err={}; s.nexit=0; s.nev=0
    kind=GetProto.kind
    def report(s,rule,i,msg): s.err.setdefault((rule,msg),i)
    def init(s): return (0,None)
    def keepids(s,st): return [st[1]] if st[1] is not None else []
    def transfer(s,i,P):
        fn=s.fn; n,cid=P.st
        if i.op=='store' and fn.fld(i)=='cache.n_req' and base_of(fn.ex(i.o[1]))==SELF: s.report('count',i,'request counter is written outside the base access function')
        if i.op not in('call','invoke'): return None
        k=s.kind(i)
        if i.callee=='cache_get_base':
            s.nev+=1
            if k!='base' or fn.ex(i.o[1])!=('arg',1): s.report('lookup',i,'delegates with a different cache or request')
            if n: s.report('lookup',i,'two accesses for one request')
            P.st=(min(n+1,2),i.id)
        elif k in('cache.insert','cache.evict','cache.remove','cache.get'): s.report('insert',i,'%s outside the base access protocol'%k)
        elif k=='cache.find' and s.val(i.o[2],P)!=0: s.report('lookup',i,'additional updating lookup')
        return None
    def onexit(s,i,P):
        n,cid=P.st; s.nexit+=1
        if n!=1: s.report('lookup',i,'%d accesses on a path'%n); return
        v=s.canon(i.o[0],P)
        # allow int<->bool conversions
        for _ in range(6):
            if isinstance(v,int) and v>=s.fn.nargs and s.fn.ins[v].op in('zext','trunc','freeze') : v=s.canon(s.fn.ins[v].o[0],P)
        if v==cid: return
        a,b=s.val(i.o[0],P),P.env.get(cid)
        if b is not None and a is not None and bool(a)==bool(b): return
        s.report('result',i,'the result of the access is not returned')
