"""Shape analysis of doubly linked queues.  A queue of any length is described
by finitely many abstract heaps: the nodes an operation can touch (head, tail,
the object and its two neighbours) are explicit, everything between them is an
opaque list segment of unknown length (>= 1).  A function is interpreted
abstractly over each heap; the resulting heap is compared with the expected
order, in both directions."""
from .ir import *
from .engine import evalins, constval, icmp as icmpv
NULL=('null',0)
class Undet(Exception): pass
class NullDeref(Exception):
    def __init__(s,i): s.i=i
TOP=('top',)

def queue_offsets(m):
    d=m.structs['cache_obj']
    for x in d['members']:
        if x[0]=='queue':
            sub=m.structs[x[2].split(' ',1)[1]]
            return {y[0]:x[1]+y[1] for y in sub['members']}
def heaps():
    """(label, items, obj): items = list of 'node' / ('seg',k)"""
    def part(kind,side):
        if kind==0: return []
        if kind==1: return ['%s1'%side]
        if kind==2: return ['%s1'%side,'%s2'%side]
        return ['%s1'%side,('seg',side),'%s2'%side]
    for a in range(4):
        for b in range(4):
            yield '%d before, %d after'%(min(a,3),min(b,3)) if max(a,b)<3 else '%s before, %s after'%(a if a<3 else '3 or more',b if b<3 else '3 or more'),part(a,'b')+['obj']+part(b,'a'),'obj'
def lists():
    """queues without a distinguished object"""
    yield 'empty',[]
    yield 'one element',['n1']
    yield 'two elements',['n1','n2']
    yield 'three elements',['n1','n2','n3']
    yield 'four or more elements',['n1','n2',('seg','m'),'n3','n4']

class Heap:
    def __init__(s,off): s.mem={}; s.off=off; s.segs={}
    def copy(s):
        h=Heap(s.off); h.mem=dict(s.mem); h.segs=s.segs; return h
    def build(s,items,headcell,tailcell):
        P,N=s.off['prev'],s.off['next']
        def first(x): return (x,0) if isinstance(x,str) else ('seg:%s:first'%x[1],0)
        def last(x): return (x,0) if isinstance(x,str) else ('seg:%s:last'%x[1],0)
        for k,x in enumerate(items):
            nx=first(items[k+1]) if k+1<len(items) else NULL
            pv=last(items[k-1]) if k else NULL
            if isinstance(x,str): s.mem[(x,N)]=nx; s.mem[(x,P)]=pv
            else: s.segs[x[1]]=(pv,nx)
        if headcell: s.mem[headcell]=first(items[0]) if items else NULL
        if tailcell: s.mem[tailcell]=last(items[-1]) if items else NULL
        return s
    def walk(s,headcell,tailcell):
        """list of items reachable from head with consistent back links, or error string"""
        P,N=s.off['prev'],s.off['next']
        cur=s.mem.get(headcell,NULL); prev=NULL; out=[]; n=0
        while cur!=NULL:
            n+=1
            if n>20: return None,'the queue becomes cyclic'
            b=cur[0]
            if b.startswith('seg:'):
                k=b.split(':')[1]; e=b.split(':')[2]
                if e!='first': return None,'a link points into the middle of the queue'
                pv,nx=s.segs[k]
                if pv!=prev: return None,'a back link does not match the forward order'
                out.append(('seg',k)); prev=('seg:%s:last'%k,0); cur=nx; continue
            if (b,N) not in s.mem: return None,'the queue contains a node it should not'
            if s.mem[(b,P)]!=prev: return None,"the back link of %s does not match the forward order"%desc(b)
            out.append(b); prev=cur; cur=s.mem[(b,N)]
            if cur==TOP: return None,'a link becomes unknown'
        if tailcell and s.mem.get(tailcell,NULL)!=prev: return None,'the tail does not point to the last element'
        return out,None
def desc(b): return {'b1':'the first node','b2':'the node before the object','obj':'the object','a1':'the node after the object','a2':'the last node'}.get(b,b)

class Interp:
    loopblocks=None     # blocks in cycles: a path that returns to one in the same state ends there
    def __init__(s,fn,heap,args,calls=None,loadhook=None,limit=4000):
        s.fn=fn; s.args=args; s.calls=calls; s.loadhook=loadhook; s.limit=limit; s.steps=0; s.results=[]
        s.run(0,None,heap,{},0,())
    def v(s,o,env):
        if isinstance(o,int):
            if o<s.fn.nargs: return s.args.get(o,('sym:arg%d'%o,0))
            return env.get(o,TOP)
        k=o[0]
        if k=='i': return o[1]
        if k in('n','z'): return NULL
        if k=='o':
            b=s.v(o[1],env); return (b[0],b[1]+o[2]) if isinstance(b,tuple) and len(b)==2 else TOP
        if k in('g','F','s'): return ('glob:'+str(o[1]),0)
        return TOP
    def addr(s,a): return isinstance(a,tuple) and len(a)==2
    def run(s,b,prev,heap,env,start,removed):
        fn=s.fn
        while True:
            if s.loopblocks and b in s.loopblocks:
                k=(b,prev,frozenset(heap.mem.items()),removed,frozenset((x,v) for x,v in env.items() if v is not TOP and x in s.live[b]))
                if k in s.seen: return
                s.seen.add(k)
            # phis
            upd={}
            for i in fn.blocks[b]:
                if i.op=='phi':
                    for o,ib in zip(i.o,i.j['in']):
                        if ib==prev: upd[i.id]=s.v(o,env)
            env.update(upd)
            for i in fn.blocks[b]:
                if i.op=='phi': continue
                s.steps+=1
                if s.steps>s.limit: raise Undet('step bound')
                if i is fn.exitcall[b]: return
                op=i.op
                if op=='getelementptr':
                    p=s.v(i.o[0],env); off=i.off or 0; ok=s.addr(p)
                    for a,sc in(i.var or []):
                        x=s.v(a,env)
                        if isinstance(x,int): off+=x*sc
                        else: ok=False
                    env[i.id]=(p[0],p[1]+off) if ok else TOP
                elif op=='load':
                    p=s.v(i.o[0],env)
                    if not s.addr(p): env[i.id]=TOP; continue
                    if p[0]=='null': raise NullDeref(i)
                    if p in heap.mem: env[i.id]=heap.mem[p]
                    else:
                        r=s.loadhook(i,p) if s.loadhook else None
                        if r is None:
                            if p[0].startswith('seg:') and p[1] in heap.off.values(): raise Undet('walks into the queue')
                            r=('sym:%s+%d'%p,0) if i.ty=='ptr' else TOP
                        env[i.id]=r; heap.mem[p]=r
                elif op=='store':
                    p=s.v(i.o[1],env)
                    if not s.addr(p): 
                        continue
                    if p[0]=='null': raise NullDeref(i)
                    if p[0].startswith('seg:') and p[1] in heap.off.values(): raise Undet('writes into the queue')
                    heap.mem[p]=s.v(i.o[0],env)
                elif op=='icmp':
                    a,c=s.v(i.o[0],env),s.v(i.o[1],env); r=None
                    if isinstance(a,int) and isinstance(c,int): r=icmpv(i.pred,a,c)
                    elif s.addr(a) and s.addr(c) and i.pred in('eq','ne'):
                        known=lambda x: x==NULL or not x[0].startswith(('sym:','seg:')) or x[0].startswith('seg:')
                        if a==c: e=1
                        elif known(a) and known(c): e=0
                        elif NULL in(a,c): e=0 if not (a[0].startswith('sym:call') or c[0].startswith('sym:call')) else None
                        else: e=None
                        if e is not None and a!=c and a[0].startswith('seg:') and c[0].startswith('seg:') and a[0].split(':')[1]==c[0].split(':')[1]: e=None
                        r=None if e is None else (e if i.pred=='eq' else 1-e)
                    env[i.id]=TOP if r is None else r
                elif op in('call','invoke'):
                    c=fn.mod.srcname(i.callee) if i.callee else fn.slotof(i)
                    if c and c.startswith('llvm.expect'): env[i.id]=s.v(i.o[0],env); continue
                    if c and c.startswith('llvm.'): continue
                    r=s.calls(s,c,i,[s.v(o,env) for o in i.o],heap) if s.calls else None
                    if isinstance(r,tuple) and r and r[0]=='removed': removed=removed+(r[1],); continue
                    env[i.id]=r if r is not None else (('sym:call%d'%i.id,0) if i.ty=='ptr' else TOP)
                elif op=='ret':
                    s.results.append((heap,removed,s.v(i.o[0],env) if i.o else None,i)); return
                elif op in('br','switch'): pass
                elif op=='select':
                    c=s.v(i.o[0],env)
                    if isinstance(c,int): env[i.id]=s.v(i.o[1] if c else i.o[2],env)
                    else:
                        a,d=s.v(i.o[1],env),s.v(i.o[2],env); env[i.id]=a if a==d else TOP
                else:
                    def val(o):
                        x=s.v(o,env)
                        return x if isinstance(x,int) else 0 if x==NULL else None
                    if op in('bitcast','freeze'): env[i.id]=s.v(i.o[0],env)
                    elif op=='alloca': env[i.id]=('alloca%d'%i.id,0)
                    else:
                        r=evalins(i,val); env[i.id]=r if isinstance(r,int) else TOP
            t=fn.blocks[b][-1] if fn.blocks[b] else None
            if t is None: return
            full=t.j.get('succ') or []
            if t.op=='br' and len(full)==2:
                c=s.v(t.o[0],env)
                if isinstance(c,int): nb=full[0] if c else full[1]
                else:
                    s.run(full[0],b,heap.copy(),dict(env),0,removed); nb=full[1]
            elif t.op=='switch':
                for x in full[1:]: s.run(x,b,heap.copy(),dict(env),0,removed)
                nb=full[0]
            elif full: nb=full[0]
            else: return
            prev,b=b,nb

EXPECT={'remove_obj_from_list':lambda it:[x for x in it if x!='obj'],
 'move_obj_to_head':lambda it:['obj']+[x for x in it if x!='obj'],
 'move_obj_to_tail':lambda it:[x for x in it if x!='obj']+['obj'],
 'prepend_obj_to_head':lambda it:['obj']+it,'append_obj_to_tail':lambda it:it+['obj']}
def prim_model(s,c,i,a,heap):
    """ideal effect of a list primitive on explicit heaps (used when interpreting callers)"""
    return None
def check_primitive(m,src):
    """[(heap label, message or None, instr)]"""
    fn=m.get(src); off=queue_offsets(m); out=[]
    if src in('prepend_obj_to_head','append_obj_to_tail'): H=[(l,it) for l,it in lists()]
    else: H=[(l,it) for l,it,_ in heaps()]
    H0,T0=('cellhead',0),('celltail',0)
    for l,it in H:
        h=Heap(off).build(it,H0,T0)
        if src in('prepend_obj_to_head','append_obj_to_tail'):
            # stale link values in the fresh object
            h.mem[('obj',off['prev'])]=('sym:stale1',0); h.mem[('obj',off['next'])]=('sym:stale2',0)
        msg=None; at=None
        try:
            r=Interp(fn,h,{0:H0,1:T0,2:('obj',0)})
            exp=EXPECT[src](it)
            if not r.results: msg='no path returns'
            for hp,rem,rv,i in r.results:
                w,e=hp.walk(H0,T0)
                if e: msg=e; at=i
                elif w!=exp: msg='the resulting order is %s, expected %s'%(fmt(w),fmt(exp)); at=i
        except NullDeref as e: msg='dereferences NULL'; at=e.i
        except Undet as e: msg='undetermined: %s'%e
        out.append((l,msg,at))
    return out
def fmt(w): return '['+' '.join(x if isinstance(x,str) else '...' for x in w)+']'

def check_evict(m,fn,algo,headf,tailf,struct):
    """interpret an evict function over every queue shape; returns [(label,msg,instr,victim items)]"""
    off=queue_offsets(m); d={x[0]:x[1] for x in m.structs[struct]['members']}
    H0,T0=('params',d[headf]),('params',d[tailf]); out=[]
    ep=None
    for l,it in lists():
        if not it: continue
        h=Heap(off).build(it,H0,T0)
        def loadhook(i,p):
            if fn.fld(i)=='cache.eviction_params': return('params',0)
            return None
        def calls(s,c,i,a,heap):
            if c in('cache_evict_base','cache_remove_obj_base'): return('removed',a[1])
            if c in EXPECT:
                obj=a[2]
                if not s.addr(obj) or (obj[0],off['next']) not in heap.mem: raise Undet('list primitive on an unknown object')
                w,e=heap.walk(H0,T0)
                if e: raise Undet(e)
                items=[('obj' if x==obj[0] else x) for x in w]
                items=[obj[0] if x=='obj' else x for x in EXPECT[c](items)]
                for k in list(heap.mem):
                    if k[1] in off.values() and not k[0].startswith('sym'): del heap.mem[k]
                heap.segs={}
                heap.build(items,H0,T0)
                if obj[0] not in items: heap.mem[(obj[0],off['prev'])]=NULL; heap.mem[(obj[0],off['next'])]=NULL
            return None
        msg=None; at=None; vict=set()
        try:
            r=Interp(fn,h,{0:('cache',0)},calls,loadhook)
            for hp,rem,rv,i in r.results:
                w,e=hp.walk(H0,T0)
                names=[x[0] for x in rem if s_addr(x)]
                if len(names)!=len(rem): raise Undet('unknown victim')
                if e: msg=e; at=i
                elif w!=[x for x in it if x not in names]: msg='after evicting %s the queue %s becomes %s'%(','.join(names) or 'nothing',fmt(it),fmt(w)); at=i
                vict.update(names)
        except NullDeref as e: msg='dereferences NULL'; at=e.i
        except Undet as e: msg='undetermined: %s'%e
        out.append((l,msg,at,vict))
    return out
def s_addr(x): return isinstance(x,tuple) and len(x)==2
