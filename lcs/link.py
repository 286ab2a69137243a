"""Typestate of cache objects along every path of an operation: linked into a
queue / present in the hash table / freed, tracked per object pointer."""
from .proto import *
LINK={'prepend_obj_to_head':1,'append_obj_to_tail':1,'remove_obj_from_list':-1}
MOVE={'move_obj_to_head','move_obj_to_tail'}
TABLE_DEL={'cache_remove_obj_base','cache_evict_base'}   # (cache,obj[,req],remove_from_hashtable)
HT_DEL={'hashtable_delete','chained_hashtable_delete_v2','chained_hashtable_delete'}
def sat(n): return max(-2,min(2,n))

class LinkEffect(Explorer):
    """state: frozenset of (token, link delta, table delta, freed)"""
    max_states=40000
    def __init__(s,sem,fn,memo,stack=()):
        super().__init__(fn); s.sem=sem; s.memo=memo; s.stack=stack; s.err={}; s.exits=[]; s.nlink=0; s.ntab=0; s.lists=set(); s.sum=set(); s.nret=0
    def init(s): return frozenset()
    def keepids(s,st): return [t[0] for t in st if isinstance(t[0],int)]
    def tok(s,v,P):
        """object identity: canonical SSA value (pointer base)"""
        fn=s.fn
        for _ in range(6):
            v=s.canon(v,P)
            if isinstance(v,int) and v>=fn.nargs and fn.ins[v].op in('bitcast','freeze'): v=fn.ins[v].o[0]
            else: break
        if isinstance(v,list): return None
        return v
    def get(s,P,t):
        for x in P.st:
            if x[0]==t: return x
        return (t,0,0,0)
    def put(s,P,x):
        P.st=frozenset(y for y in P.st if y[0]!=x[0])|({x} if x[1:]!=(0,0,0) else set())
    def rep(s,rule,i,msg): s.err.setdefault((rule,msg),i)
    def transfer(s,i,P):
        fn=s.fn
        # a value computed anew names a new object
        if i.op not in('load','store','call','invoke') and any(t[0]==i.id for t in P.st) and i.id not in P.alias: s.kill(i,P)
        # use after free
        if i.op in('load','store'):
            p=i.o[0] if i.op=='load' else i.o[1]
            b=p
            while isinstance(b,int):
                b=s.canon(b,P)
                if isinstance(b,int) and b>=fn.nargs and fn.ins[b].op=='getelementptr': b=fn.ins[b].o[0]
                else: break
            if isinstance(b,int) and s.get(P,b)[3] and i.bb in fn.reachable():
                f=fn.fld(i) or ''
                s.rep('use-after-free',i,'%s of %s after the object was freed'%('read' if i.op=='load' else 'write',f or 'a field'))
            # a re-loaded pointer is a new object
            if i.id is not None and any(t[0]==i.id for t in P.st) and i.op=='load' and i.id not in P.alias: s.kill(i,P)
            return None
        if i.op not in('call','invoke'): 
            return None
        if any(t[0]==i.id for t in P.st): s.kill(i,P)
        c=fn.mod.srcname(i.callee) if i.callee else fn.slotof(i)
        if c in LINK:
            t=s.tok(i.o[2],P); s.nlink+=1
            if t is None: return None
            x=s.get(P,t)
            if x[3]: s.rep('use-after-free',i,'%s on a freed object'%c)
            s.lists.add((s.lname(i),LINK[c],i))
            s.put(P,(t,sat(x[1]+LINK[c]),x[2],x[3])); return None
        if c in MOVE:
            t=s.tok(i.o[2],P); s.nlink+=1
            x=s.get(P,t)
            if x[3]: s.rep('use-after-free',i,'%s on a freed object'%c)
            if x[1]<0: s.rep('link',i,'%s on an object that was just taken out of its queue'%c)
            return None
        if c=='cache_insert_base':
            s.ntab+=1; s.put(P,(i.id,0,1,0)); P.env[i.id]=NZ; return None
        if c in TABLE_DEL or c in HT_DEL:
            s.ntab+=1
            k=1
            if c in TABLE_DEL:
                rm=s.val(i.o[-1],P)
                if rm==0: 
                    if s.get(P,s.tok(i.o[1],P))[3]: s.rep('use-after-free',i,'%s on a freed object'%c)
                    return None
            t=s.tok(i.o[k],P)
            if t is None: return None
            x=s.get(P,t)
            if x[3]: s.rep('use-after-free',i,'object freed twice')
            s.put(P,(t,x[1],sat(x[2]-1),1)); return None
        if c and (c.startswith('llvm.') or c in('printf','fprintf')): return None
        # passing a freed object on
        for k,o in enumerate(i.o):
            if isinstance(o,int):
                t=s.tok(o,P)
                if t is not None and s.get(P,t)[3]: s.rep('use-after-free',i,'freed object passed to %s'%c)
        f=fn.mod.fns.get(i.callee) if i.callee else None
        if f is not None and f.name not in s.stack and f.relfile.startswith('libCacheSim/cache/eviction'):
            sm=lsummary(s.sem,f,s.memo,s.stack+(f.name,))
            if sm and sm!={()}:
                out=[]
                for opt in sorted(sm):
                    Q=Path(P.st,dict(P.env),dict(P.alias),dict(P.avail))
                    for a,l,tb,fr in opt:
                        if a=='ret': t=i.id
                        else:
                            t=s.tok(i.o[a],Q) if a<len(i.o) else None
                        if t is None: continue
                        x=s.get(Q,t); s.put(Q,(t,sat(x[1]+l),sat(x[2]+tb),max(fr,x[3])))
                    out.append(Q)
                return out
        return None
    def lname(s,i):
        a=s.fn.ex(i.o[0]); f=s.fn.fld(i,0) if i.j.get('tag') else None
        if not f:
            r=s.fn.fieldinfo(a); f='.'.join(r[:2]) if r else s.fn.pp(a)
        return f
    def kill(s,i,P):
        x=s.get(P,i.id)
        s.settle(x,i,'when the next object is taken up')
        P.st=frozenset(y for y in P.st if y[0]!=i.id)
    def settle(s,x,i,when):
        t,l,tb,fr=x
        if l!=tb:
            w='taken out of the table but' if tb<0 else 'added to the table but' if tb>0 else ''
            if l<tb and tb==0: m='object unlinked from its queue but left in the table'
            elif l>tb and tb==0: m='object linked into a second queue'
            elif tb<0 and l==0: m='object removed from the table (and freed) while still linked in a queue'
            elif tb>0 and l==0: m='object added to the table but linked into no queue'
            else: m='object queue links change by %+d but table entries by %+d'%(l,tb)
            s.rep('link',i,m+' '+when)
    def onexit(s,i,P):
        s.nret+=1
        opt=[]
        rv=s.tok(i.o[0],P) if i.o else None
        if isinstance(rv,int) and s.get(P,rv)[3]: s.rep('use-after-free',i,'the function returns an object that was freed')
        for x in P.st:
            if isinstance(x[0],int) and x[0]<s.fn.nargs: opt.append((x[0],)+x[1:])
            elif x[0]==rv and x[1]!=x[2]: opt.append(('ret',)+x[1:])
            else: s.settle(x,i,'at return')
        s.sum.add(tuple(sorted(opt,key=str)))
    def onphi(s,b,tgt,upd,P):
        # a token whose only name was overwritten by a loop-carried phi is settled
        ids={u[0] for u in upd}
        for x in list(P.st):
            if x[0] in ids and all(c!=x[0] for _,c in upd):
                s.settle(x,s.fn.blocks[tgt][0],'when the next object is taken up')
                P.st=frozenset(y for y in P.st if y[0]!=x[0])
        return P.st
def lsummary(sem,fn,memo,stack):
    if fn.name in memo: return memo[fn.name].sum
    ex=LinkEffect(sem,fn,memo,stack); memo[fn.name]=ex
    try: ex.run()
    except TooManyStates: ex.toomany=True
    if len(ex.sum)>12: ex.sum={()}; ex.toomany=True
    return ex.sum
