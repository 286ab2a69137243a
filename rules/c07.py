"""Queue integrity.  (a) Shape analysis of the shared queue primitives over
every abstract queue (explicit head, tail, object and neighbours; opaque
segments of any length between them): the resulting queue holds exactly the
expected nodes in the expected order, forward and backward.  (b) The same
analysis of eviction functions that unlink by hand.  (c) Typestate of every
object on every path of insert / lookup / evict / delete / candidate query: its
queue links change by exactly as much as its table entry (added+linked,
unlinked+freed, or moved), so no freed object stays in a queue and no cached one
falls out; a freed object is never used again.  (d) Any scan position kept
between operations is moved or known to differ when an object is freed.
(e) Heap-ordered policies: priority-queue entries change with table entries.
(f) Shape analysis of insert / find / evict / remove of policies that link
objects by hand into per-frequency lists."""
from lcs.link import *
from lcs.cursor import *
from lcs.shape import *
from lcs import handlist
ASSUME=['the queue-primitive analysis assumes the precondition that the object is (remove, move) or is not (prepend, append) in the given queue','which of several queues an object is in is per-object state and not tracked across operations']
EXCEPT_LINK={'LeCaR':'objects whose evicting expert is unknown are in no queue (per-object state)'}
# the candidate list collected by FIFO_Merge holds n_exam consecutive objects; the next scan position lies behind them
EXCEPT_CURSOR={('FIFO_Merge','FIFO_Merge_evict')}
EXTERNAL={'GLCache','LRUv0'}    # objects are owned by segments / GLib, deletion from the table does not free them
PQ={'pqueue_insert':1,'pqueue_pop':-1,'pqueue_remove':-1}
class PqPair(Explorer):
    """state: (priority-queue delta, table delta)"""
    def __init__(s,fn): super().__init__(fn); s.exits={}; s.npq=0
    def init(s): return (0,0)
    def transfer(s,i,P):
        if i.op not in('call','invoke'): return None
        c=s.fn.mod.srcname(i.callee) if i.callee else s.fn.slotof(i)
        q,t=P.st
        if q=='none':
            if c in TABLE_DEL: P.st=(0,t)
            return None
        if c in PQ: q+=PQ[c]; s.npq+=1
        elif c=='cache_insert_base': t+=1
        elif c in TABLE_DEL: t-=1
        P.st=(max(-3,min(3,q)),max(-3,min(3,t))); return None
    def onedge(s,t,truth,P):
        for i,tr in s.atoms(t.o[0],truth,P):
            if i.op=='icmp' and i.pred in('eq','ne') and (i.pred=='eq')==tr and s.val(i.o[1],P)==0:
                j=s.canon(i.o[0],P)
                if isinstance(j,int) and j>=s.fn.nargs and s.fn.ins[j].op=='load' and 'pq_node' in (s.fn.fld(s.fn.ins[j]) or ''): P.st=('none',P.st[1])
        return P
    def onexit(s,i,P): s.exits.setdefault(P.st,i)
def run(ctx):
    sem=ctx.sem(); m=sem.m; memo={}
    for p in EXPECT:
        ctx.need(m.get(p),p)
        bad=None; und=0; n=0
        for l,msg,at in check_primitive(m,p):
            n+=1
            if msg and msg.startswith('undetermined'): und+=1
            elif msg: bad=bad or (l,msg,at); ctx.bad('shape',p,'%s (queue: %s)'%(msg,l),at.where() if at else m.get(p).file)
            else: ctx.ok('shape','%s, %s'%(p,l))
        ctx.count('abstract queues interpreted',n)
        if und: ctx.notes.append('%s: %d abstract queues undetermined'%(p,und))
    nq=0
    for a in sem.algos.values():
        if a.name in EXTERNAL: continue
        slots={}
        for sl in('insert','find','evict','remove','to_evict','can_insert'):
            n=a.slots.get('cache.'+sl)
            if n in m.fns: lsummary(sem,m.fns[n],memo,(n,)); slots[sl]=(m.fns[n],memo[n])
        queued=any(d!=0 for _,e in slots.values() for _,d,_ in e.lists)
        nq+=queued
        for sl,(f,ex) in slots.items():
            if getattr(ex,'toomany',False): ctx.notes.append('state bound reached in %s'%f.src); continue
            ctx.count('paths',ex.nret); ctx.count('queue operations',ex.nlink); ctx.count('table operations',ex.ntab)
            bad=set()
            for (r,msg),i in ex.err.items():
                if r=='link' and (not queued or a.name in EXCEPT_LINK): continue
                if r=='link' and handlist.direct(f,None) and 'freq_node' in m.structs and any(f.fld(x) in('freq_node.last_obj','freq_node.first_obj') for x in f.live() if x.op in('load','store')): continue   # decided by rule freq-list
                if r=='link' and sl=='evict' and 'still linked' in msg and ex.nlink==0:
                    if manual(ctx,m,a,f): continue
                bad.add(r); ctx.bad(r,'%s %s: %s'%(a.name,sl,msg),msg,i.where())
            for r in('link','use-after-free'):
                if r not in bad and (r!='link' or queued) : ctx.ok(r,'%s %s'%(a.name,sl))
        # hand-linked per-frequency lists
        hpairs=set()
        if 'freq_node' in m.structs:
            for sl,(f,_) in slots.items():
                if any(f.fld(i) in('freq_node.last_obj','freq_node.first_obj') for i in f.live() if i.op in('load','store')): hpairs|=handlist.direct(f,None)
            if not hpairs and any('freq_node.n_obj'==f.fld(i) for sl,(f,_) in slots.items() for i in f.live() if i.op in('load','store')): hpairs={handlist.LINKS[0]}
        for sl in('insert','find','evict','remove'):
            if sl not in slots: continue
            f=slots[sl][0]
            for pair in sorted(hpairs):
                r=handlist.check(m,f,sl,pair,'first_obj','last_obj')
                nund=sum(1 for l,msg,at in r if msg and msg.startswith('undetermined'))
                if nund: ctx.notes.append('%s: %d hand-linked list shapes undetermined'%(f.src,nund))
                for l,msg,at in r:
                    if msg and msg.startswith('undetermined'): continue
                    if msg: ctx.bad('freq-list','%s %s'%(a.name,sl),'%s: %s (list: %s)'%(f.src,msg,l),at.where() if at else f.file)
                    else: ctx.ok('freq-list','%s, %s'%(f.src,l))
                ctx.count('hand-linked list shapes',len(r))
        # priority queues
        if any(True for sl,(f,_) in slots.items() for i in f.live() if i.op=='call' and m.srcname(i.callee or '') in PQ):
            for sl in('insert','evict','remove','find'):
                f=slots[sl][0]; e=PqPair(f)
                try: e.run()
                except TooManyStates: continue
                for (q,t),i in e.exits.items():
                    if q=='none': continue
                    ctx.check('heap-entry','%s %s'%(a.name,sl),q==t or a.name in PQ_EXCEPT,'priority-queue entries change by %+d while cached objects change by %+d'%(q,t),i.where())
        cu=cursors(sem,a)
        if cu:
            for f in m.repo_fns():
                if f.file!=a.file: continue
                e=Cursor(sem,f,cu)
                try: e.run()
                except TooManyStates: continue
                if not e.n: continue
                for c in cu:
                    k='%s %s'%(f.src,c.split('.')[-1])
                    if c in e.err and (a.name,f.src) not in EXCEPT_CURSOR: ctx.bad('cursor',k,'an object is freed while the scan position "%s" may still point at it'%c.split('.')[-1],e.err[c].where())
                    else: ctx.ok('cursor',k)
    ctx.floor('policies with queues',nq,12)
PQ_EXCEPT={}
_man={}
def manual(ctx,m,a,f):
    """eviction that unlinks by hand: decided by shape analysis"""
    if f.name in _man: return _man[f.name]
    st=None
    for i in f.live():
        n=f.fld(i) if i.op in('load','store') else None
        if n and n.endswith('.q_tail') or n and n.endswith('.q_head'): st=n.rsplit('.',1)[0]
    ok=False
    if st and st in m.structs:
        r=check_evict(m,f,a.name,'q_head','q_tail',st); ok=True
        for l,msg,at,v in r:
            if msg and msg.startswith('undetermined'): ok=False
            elif msg: ctx.bad('shape','%s'%f.src,'%s (queue: %s)'%(msg,l),at.where() if at else f.file)
            elif len(v)!=1: ok=False
            else: ctx.ok('shape','%s, %s'%(f.src,l))
    _man[f.name]=ok
    return ok
