"""C10: only the oracle policies use the trace's knowledge of the future, and
they always use the knowledge carried by the latest request.
(1) every load of a next-access time in cache code outside the oracle policies
feeds nothing but a copy into another next-access field, or is unreachable
unless a policy-mode parameter has its oracle value (constant propagation per
mode value); (2) cache code reaches no trace-reader operation; (3) each oracle
policy, on every path of an insertion or an updating lookup that finds the
object, stores the next-access time of the current request in the field (and
the priority) its eviction decision reads; (4) the ordering used by Belady's
priority queue puts the furthest next access first."""
import re
from lcs.ctx import *
from lcs.engine import *
from lcs.ir import *
LEVEL='other'
EXPLAIN=__doc__
ASSUME=['oracle policies are those named after Belady, the experimental GLCache and priv/MClock, and parameter modes whose enumerator names BELADY or ORACLE']
NAV='next_access_vtime'
READER=re.compile(r'^(read_one_req|read_one_req_above|read_first_req|read_last_req|go_back_one_req|go_back_two_req|skip_n_req|reset_reader|reader_set_read_pos|get_num_of_req|clone_reader|setup_reader|read_n_req|open_trace)$')
def oracle(f): return 'elady' in os.path.basename(f) or '/GLCache/' in f or f.endswith('MClock.c')
def modes(m):
    """{struct.field: [(value, is oracle)]} for mode parameters with an oracle value"""
    out={}
    for n,d in m.structs.items():
        for x in d.get('members',[]):
            t=x[2] if len(x)>2 else ''
            if t.startswith('enum '):
                e=m.structs.get(t[5:])
                if e and any(re.search('BELADY|ORACLE',y[0]) for y in e['members']):
                    out[n+'.'+x[0]]=[(y[1],bool(re.search('BELADY|ORACLE',y[0]))) for y in e['members']]
    return out
def run(ctx):
    m=ctx.module('core'); sem=ctx.sem('core'); md=modes(m)
    nload=0; ncopy=0; nmode=0; refd=referenced(m)
    for fn in m.repo_fns():
        if not fn.relfile.startswith('libCacheSim/cache/') or oracle(fn.relfile): continue
        if fn.internal and fn.name not in refd: continue   # seen inlined in its callers
        for i in fn.live():
            if i.op!='load': continue
            f=fn.fld(i) or ''
            if not f.endswith('.'+NAV) or not f.startswith(('request','cache_obj')): continue
            if oracle((i.j.get('loc') or [['','','']])[0][2]): continue
            nload+=1
            use=otheruse(fn,i)
            if use is None:
                ncopy+=1; ctx.ok('future','%s: copy of %s'%(fn.src,f)); continue
            ml=[j for j in fn.live() if j.op=='load' and fn.fld(j) in md]
            fld={fn.fld(j) for j in ml}
            ok=False
            for F in fld:
                okF=True
                for v,o in md[F]:
                    if o: continue
                    g=specialize(fn,{},{j.id:v for j in ml if fn.fld(j)==F})
                    if i.bb in g.reachable(): okF=False
                if okF: ok=True
            if ok: nmode+=1; ctx.ok('future','%s: %s only in the oracle mode'%(fn.src,f)); continue
            ctx.bad('future','%s %s'%(fn.src,f),'%s: the policy uses %s, the time of a future request (%s)'%(fn.src,f,use[0]),i.where())
    ctx.counts['loads of next-access times in online cache code']=nload
    ctx.floor('copies of next-access times',ncopy,3)
    # 2
    n=0
    for fn in m.repo_fns():
        if not fn.relfile.startswith('libCacheSim/cache/'): continue
        bad=None
        for i in fn.live():
            if i.op in('call','invoke') and i.callee:
                c=m.srcname(i.callee); g=m.fns.get(i.callee)
                if READER.match(c) and (g is None or 'traceReader' in g.relfile or True): bad=(i,c)
                elif g is not None and g.relfile.startswith('libCacheSim/traceReader/') and g.relfile.endswith('.c'): bad=(i,c)
        n+=1
        if bad: ctx.bad('read-ahead','%s %s'%(fn.src,bad[1]),'%s: cache code reads the trace through %s'%(fn.src,bad[1]),bad[0].where())
    ctx.ok('read-ahead','%d functions of libCacheSim/cache call no trace-reader operation'%n)
    # 3
    base=refresh(ctx,m,sem)
    order(ctx,m)
def referenced(m):
    out=set()
    def add(o):
        if isinstance(o,(list,tuple)):
            if len(o)>1 and o[0]=='F': out.add(o[1])
            for x in o: add(x)
    for f in m.fns.values():
        for i in f.live():
            if i.op in('call','invoke') and i.callee and i.callee!=f.name: out.add(i.callee)
            add(i.o)
    for g in getattr(m,'globals',{}).values(): add(list(g.values()) if isinstance(g,dict) else g)
    return out
def otheruse(fn,i):
    """None if the value only reaches stores into next-access fields, else (description, user)"""
    seen={i.id}; work=[i.id]
    users=getattr(fn,'_users',None)
    if users is None:
        users=fn._users={}
        for j in fn.live():
            for o in j.o:
                if isinstance(o,int): users.setdefault(o,[]).append(j)
    while work:
        x=work.pop()
        for j in users.get(x,[]):
            if j.op in('phi','select','freeze') and (j.op!='select' or x!=j.o[0]):
                if j.id not in seen: seen.add(j.id); work.append(j.id)
            elif j.op=='store' and j.o[0]==x:
                t=fn.fld(j) or ''
                if t.endswith(NAV) or 'next' in t: continue
                e=base_of(fn.ex(j.o[1]))
                if not t: return ('stored to %s'%fn.pp(fn.ex(j.o[1])),j)
                return ('stored to %s'%t,j)
            elif j.op in('call','invoke') and (m_print(fn,j)): continue
            elif j.op in('call','invoke') and j.callee and j.callee.startswith('llvm.dbg'): continue
            else: return ({'icmp':'compared','call':'passed to %s'%fn.callee_or_slot(j)}.get(j.op,'used in %s'%j.op),j)
    return None
def m_print(fn,j):
    c=j.callee
    return c in('printf','fprintf','snprintf','sprintf')
class Fresh(Explorer):
    """must-store of F := req->next_access_vtime on the object an insertion or an updating lookup returns.
    state: frozenset of done fields"""
    max_states=40000
    def __init__(s,fn,reqarg,want,memo): super().__init__(fn); s.reqarg=reqarg; s.want=want; s.memo=memo; s.err={}; s.n=0
    def init(s): return frozenset()
    def isreq(s,v,P):
        v=s.canon(v,P)
        for _ in range(4):
            if isinstance(v,int) and v>=s.fn.nargs and s.fn.ins[v].op in('freeze','bitcast','sitofp','uitofp','trunc','sext','zext','fptosi'): v=s.canon(s.fn.ins[v].o[0],P)
        if not isinstance(v,int) or v<s.fn.nargs: return False
        i=s.fn.ins[v]
        if i.op!='load': return False
        f=s.fn.fld(i) or ''
        if ('fresh',v) in P.st: return True
        return f=='request.'+NAV and base_of(s.fn.ex(i.o[0]))==('arg',s.reqarg)
    def transfer(s,i,P):
        fn=s.fn
        if i.op=='load':
            f=fn.fld(i) or ''
            if f.startswith('cache_obj.') and f.endswith(NAV):
                P.st=(P.st|{('fresh',i.id)}) if f.split('cache_obj.')[1] in P.st else P.st-{('fresh',i.id)}
        elif i.op=='store':
            f=fn.fld(i) or ''
            if f.endswith('.'+NAV) and f.startswith('cache_obj'):
                k=f.split('cache_obj.')[1]
                P.st=(P.st|{k}) if s.isreq(i.o[0],P) else P.st-{k}
            elif f.endswith('.pri'):
                P.st=(P.st|{'node.pri'}) if s.isreq(i.o[0],P) else P.st-{'node.pri'}
        elif i.op in('call','invoke'):
            c=fn.mod.srcname(i.callee) if i.callee else None
            if c=='cache_insert_base' and 'ins' in s.memo and fn.ex(i.o[1])==('arg',s.reqarg): P.st=P.st|{'misc.'+NAV}
            if c=='cache_find_base' and 'find' in s.memo and fn.ex(i.o[1])==('arg',s.reqarg) and s.val(i.o[2],P) in(1,NZ): P.st=P.st|{'misc.'+NAV}
            if c=='pqueue_change_priority' and s.isreq(i.o[1],P): P.st=P.st|{'pri'}
            if c=='pqueue_insert': P.st=(P.st|{'pri'}) if 'node.pri' in P.st else P.st
            if c in('cache_evict_base','cache_remove_obj_base','cache.remove') or c and c.endswith('_remove'): P.st=P.st|{'gone'}
            if c and re.search('hashtable_find',c): P.st=P.st|{('looked',i.id)}   # not in the table: nothing to record
            if c is None and fn.slotof(i)=='cache.remove': P.st=P.st|{'gone'}
        return None
    def onedge(s,t,truth,P):
        if any(s.val(x[1],P)==0 for x in P.st if isinstance(x,tuple) and x[0]=='looked'): P.st=P.st|{'gone'}
        return P
    def onexit(s,i,P):
        r=s.val(i.o[0],P) if i.o else None
        if r==0: return
        s.n+=1
        if 'gone' in P.st: return
        for k in s.want-P.st: s.err.setdefault(k,i)
def refresh(ctx,m,sem):
    memo=set()
    for src,what in(('cache_insert_base','ins'),('cache_find_base','find')):
        fn=ctx.need(m.get(src),src)
        consts={2:1} if what=='find' else {}
        e=Fresh(specialize(fn,consts),1,{'misc.'+NAV},set()); e.run()
        for k,i in e.err.items(): ctx.bad('fresh','%s %s'%(src,k),'%s: a path returns the object without recording the next access time of the current request'%src,i.where())
        if not e.err: memo.add(what); ctx.ok('fresh',src)
    n=0
    for a in sorted(sem.algos.values(),key=lambda a:a.name):
        if '/GLCache/' in a.file: continue
        want=set()
        for sl in('evict','to_evict'):
            g=m.fns.get(a.fn(sl) or '')
            if g is None: continue
            for f in closure(m,g):
                for i in f.live():
                    if i.op=='load':
                        x=f.fld(i) or ''
                        if x.startswith('cache_obj') and x.endswith('.'+NAV): want.add(x.split('cache_obj.')[1])
                    if i.op in('call','invoke') and i.callee and m.srcname(i.callee) in('pqueue_pop','pqueue_peek') and oracle(a.file): want.add('pri')
        if not want: continue
        for sl in('insert','find'):
            fn=m.fns.get(a.fn(sl) or '')
            if fn is None: continue
            e=Fresh(specialize(fn,{2:1} if sl=='find' else {}),1,want,memo)
            try: e.run()
            except TooManyStates: ctx.notes.append('undecided: %s'%fn.src); continue
            n+=1
            for k,i in e.err.items(): ctx.bad('fresh','%s %s'%(fn.src,k),'%s: a path %s without recording the next access time of the current request in %s, which %s reads to choose the victim'%(fn.src,'inserts the object' if sl=='insert' else 'finds the object',"the object's queue priority" if k=='pri' else 'cache_obj.'+k,a.name),i.where())
            if not e.err: ctx.ok('fresh','%s: %s'%(fn.src,', '.join(sorted(want))))
    ctx.floor('insert/find functions of policies that evict by next access time',n,6)
def closure(m,g):
    out=[g]; seen={g.name}
    for f in out:
        for i in f.live():
            for c in ([i.callee] if i.op in('call','invoke') and i.callee else [])+[o[1] for o in i.o if isinstance(o,list) and o[0]=='F']:
                h=m.fns.get(c)
                if h is not None and c not in seen and h.file==g.file: seen.add(c); out.append(h)
    return out
def order(ctx,m):
    """direction of the default priority queue: the comparator's truth and the side it is applied to"""
    init=ctx.need(m.get('pqueue_init'),'pqueue_init'); bu=ctx.need(m.get('bubble_up'),'bubble_up')
    cmpf=None
    for i in init.live():
        if i.op=='call':
            for o in i.o:
                if isinstance(o,list) and o[0]=='F' and m.fns.get(o[1]) and 'cmp' in o[1]: cmpf=m.fns[o[1]]
        if i.op=='store' and isinstance(i.o[0],list) and i.o[0][0]=='F' and (init.fld(i) or '').endswith('cmppri'): cmpf=m.fns.get(i.o[0][1])
    if cmpf is None:
        ctx.notes.append('undecided: comparator of the default priority queue'); return
    d=None
    for r in cmpf.rets():
        e=cmpf.ex(r.o[0])
        while e[0] in('zext','sext','trunc'): e=e[2]
        if e[0] in('icmp','fcmp') and e[2][0]=='arg' and e[3][0]=='arg':
            p=e[1][1:] if e[0]=='icmp' else e[1][1:]
            less=(p in('lt','le')); d=less if (e[2][1],e[3][1])==(0,1) else (not less) if (e[2][1],e[3][1])==(1,0) else None
    if d is None:
        ctx.notes.append('undecided: form of the default comparator'); return
    # d: comparator(a,b) true when a<b
    up=None
    for i in bu.live():
        if i.op=='call' and bu.slotof(i)=='pqueue_t.cmppri' or (i.op=='call' and i.callee is None and (bu.slotof(i) or '').endswith('cmppri')):
            # the element whose priority is taken once, before the loop, is the one moving up
            a,b=bu.ex(i.o[0]),bu.ex(i.o[1])
            mv=[k for k,e in enumerate((a,b)) if invariant(bu,e,i)]
            if mv==[1]: up=d          # cmp(parent, moving): moves up when parent<moving
            elif mv==[0]: up=not d
            else: continue
            ctx.check('order','bubble_up',up is True,'the priority queue puts the smallest priority first, so Belady evicts the object needed soonest',i.where())
    if up is None: ctx.notes.append('undecided: direction of bubble_up')
    # the element taken is the root of that queue
    bel=m.get('Belady_evict')
    if bel is not None:
        n=0
        for i in bel.live():
            if i.op in('call','invoke') and i.callee and m.srcname(i.callee) in('cache_evict_base','cache_remove_obj_base'):
                n+=1; e=bel.ex(i.o[1])
                ok=e[0]=='call' and bel.ins[e[1]].callee and 'find' in m.srcname(bel.ins[e[1]].callee) and popped(bel,bel.ex(bel.ins[e[1]].o[1]))
                ctx.check('order','Belady_evict',ok,'Belady_evict removes an object that is not the one at the head of the priority queue',i.where())
def popped(fn,e):
    return any(x[0]=='call' and fn.ins[x[1]].callee and fn.mod.srcname(fn.ins[x[1]].callee) in('pqueue_pop','pqueue_peek') for x in subexprs(e))
def invariant(fn,e,at):
    """the value is computed outside the loop that contains instruction at"""
    L=[b for h,b in fn.loops().items() if at.bb in b]
    if not L: return False
    body=min(L,key=len)
    return not any(x[0] in('phi','call','alloca') and fn.ins[x[1]].bb in body for x in subexprs(e)) and any(x[0]=='call' for x in subexprs(e))
