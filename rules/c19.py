"""Simulation accounting.  Every path of the simulation worker and of the
command-line simulation loop is explored, interval by interval between two
reads of the trace: a request that was read and is valid is handed to the cache
exactly once before the next is read; it is either part of the warm-up (no
counter other than the warm-up count changes) or measured (request count +1,
request bytes + its size, and the miss counters change the same way exactly when
the cache reported a miss); after the first measured request nothing is warm-up.
Counters are recognised whether they are kept in memory or in local variables.
The remaining results come from the cache's own operations and the result array
starts from zero."""
from lcs.engine import *
from lcs.lin import *
from rules.c18 import root, reaches
ASSUME=['the reader reports the end of the trace through request.valid (decided by the reader properties)']
ROLE={'n_req':'req','n_req_byte':'reqb','n_miss':'miss','n_miss_byte':'missb','n_warmup_req':'warm'}
class Acc(Explorer):
    max_states=200000
    def __init__(s,sem,fn,roles):
        super().__init__(fn); s.sem=sem; s.phirole=roles; s.err={}; s.nint=0; s.kinds=set()
    # state: (pending, getid, deltas, measured, interval just ended (served?, miss, deltas))
    def init(s): return ('none',None,frozenset(),False,None)
    def keepids(s,st): return [x for x in (st[1],st[4] and st[4][3]) if isinstance(x,int)]
    def report(s,r,i,m): s.err.setdefault((r,m),i)
    def isrole(s,v): return isinstance(v,int) and v in s.phirole and s.header(v)
    def plin(s,v,P,d=0):
        """linear form of an operand under the path facts; loop counters are atoms"""
        fn=s.fn; n=0
        while isinstance(v,int) and not s.isrole(v) and v in P.alias and n<50: v=P.alias[v]; n+=1
        if not isinstance(v,int): return lin(fn.ex(v)) if isinstance(v,list) else ({('?',str(v)):1},0)
        if v<fn.nargs: return {('arg',v):1},0
        if s.isrole(v): return {('phi',v):1},0
        i=fn.ins[v]
        if d<12:
            if i.op in('zext','sext','trunc','freeze') and not s._i1(i.o[0]): return s.plin(i.o[0],P,d+1)
            if i.op=='add': return ladd(s.plin(i.o[0],P,d+1),s.plin(i.o[1],P,d+1))
            if i.op=='sub': return ladd(s.plin(i.o[0],P,d+1),s.plin(i.o[1],P,d+1),-1)
            if i.op=='select':
                c=s.lazy(i.o[0],P,i.bb)
                if isinstance(c,int): return s.plin(i.o[1] if c else i.o[2],P,d+1)
            if i.op=='mul':
                for a,b in((0,1),(1,0)):
                    c=s.val(i.o[b],P)
                    if isinstance(c,int):
                        t,k=s.plin(i.o[a],P,d+1); return {x:y*c for x,y in t.items() if y*c},k*c
        x=s.val(v,P)
        if not isinstance(x,int): x=s.lazy(v,P,fn.ins[v].bb)
        if isinstance(x,int): return {},x
        if i.op=='load' and root(fn,fn.ex(i.o[0]))[0]!='alloca': return {('ld',fn.ex(i.o[0]),i.sz):1},0
        if i.op=='phi': return {('phi',v):1},0
        return lin(fn.ex(v))
    def delta(s,role,D,i):
        """D: linear form added to counter `role`"""
        t,c=D
        if not t and c==0: return None
        if not t: d=('c',c)
        elif c==0 and len(t)==1 and list(t.values())==[1] and list(t)[0][0]=='ld':
            e=list(t)[0]; f=s.fn.fieldinfo(e[1])
            d=('sz',) if f and f[1]=='obj_size' and f[0].startswith('request') else ('other',str(t)[:60])
        else: d=('other',str(t)[:60])
        return (role,d)
    def addd(s,P,role,D,i,phi=False):
        x=s.delta(role,D,i)
        if x is None: return
        p,g,ds,me,pv=P.st
        # the new value of a loop counter is seen at the back edge: it belongs to the interval that just ended
        cur=pv[2] if phi and pv is not None and p!='done' else ds
        old=[y for y in cur if y[0]==role]
        if old: x=(role,('other','changed twice'))
        new=frozenset([y for y in cur if y[0]!=role]+[x])
        P.st=(p,g,ds,me,pv[:2]+(new,pv[3])) if cur is not ds else (p,g,new,me,pv)
    def req_of(s,e): return root(s.fn,e)
    def transfer(s,i,P):
        fn=s.fn; p,g,ds,me,pv=P.st
        if i.op=='store':
            f=fn.fld(i) or ''
            r=ROLE.get(f.split('.')[-1]) if f.startswith('cache_stat_t.') else None
            if r:
                a=fn.ex(i.o[1]); D=s.plin(i.o[0],P); me_=('ld',a,None)
                t=dict(D[0]); own=[e for e in t if e[0]=='ld' and e[1]==a]
                for e in own:
                    if t[e]==1: del t[e]
                ph=[e for e in t if e[0]=='phi' and e[1] in s.phirole]
                for e in ph: del t[e]
                if own or not ph:
                    if not own and not ph and not t and D[1]==0: return None
                    s.addd(P,r,(t,D[1]),i)
            return None
        if i.op not in('call','invoke'): return None
        c=fn.mod.srcname(i.callee) if i.callee else fn.slotof(i)
        if c=='read_one_req':
            s.interval(i,P); return None
        if c=='cache.get':
            if p!='valid': s.report('once',i,{'done':'one request is handed to the cache twice','unknown':'a request is handed to the cache without checking that one was read','invalid':'a request is handed to the cache after the end of the trace','none':'a request is handed to the cache before any was read'}[p])
            s.flush(i,P); me=P.st[3]
            outs=[]
            for h in (0,1):
                Q=Path(('done',i.id,ds,me,None),dict(P.env),dict(P.alias),dict(P.avail)); Q.env[i.id]=h; outs.append(Q)
            return outs
        return None
    def onedge(s,t,truth,P):
        fn=s.fn; v=t.o[0]
        # request.valid
        x=s.canon(v,P); neg=False
        for _ in range(6):
            if isinstance(x,int) and x>=fn.nargs:
                j=fn.ins[x]
                if j.op in('trunc','zext','freeze'): x=s.canon(j.o[0],P); continue
                if j.op=='icmp' and s.val(j.o[1],P)==0 and j.pred in('eq','ne'):
                    if j.pred=='eq': neg=not neg
                    x=s.canon(j.o[0],P); continue
                if j.op=='select' : pass
            break
        if not s.valid(x,truth!=neg,P): return None
        # conjunctions
        if isinstance(v,int) and v>=fn.nargs:
            for (a,tr) in s.conj(v,truth,P):
                if not s.valid(a,tr,P): return None
        return P
    def conj(s,v,truth,P,d=0):
        v=s.canon(v,P)
        if not isinstance(v,int) or v<s.fn.nargs or d>6: return
        i=s.fn.ins[v]
        if i.op=='load': yield v,truth
        elif i.op in('trunc','zext','freeze'): yield from s.conj(i.o[0],truth,P,d+1)
        elif i.op=='and' and truth or i.op=='or' and not truth:
            for o in i.o:
                if isinstance(o,int): yield from s.conj(o,truth,P,d+1)
        elif i.op=='select' and truth and s.val(i.o[2],P)==0:
            for o in i.o[:2]:
                if isinstance(o,int): yield from s.conj(o,True,P,d+1)
    def valid(s,x,truth,P):
        fn=s.fn
        if isinstance(x,int) and x>=fn.nargs and P.st[1]==('r',x): ok=True; truth=not truth    # result of the last read: 0 says a request was read
        elif isinstance(x,int) and x>=fn.nargs and fn.ins[x].op=='load':
            f=fn.fld(fn.ins[x]) or ''; ok=False
            if f.startswith('request') and f.endswith('.valid'): ok=True
        else: ok=False
        if ok:
                if P.st[0]=='unknown': P.st=('valid' if truth else 'invalid',)+P.st[1:]
                elif P.st[0]=='valid' and not truth or P.st[0]=='invalid' and truth: return False   # only a read changes it
        return True
    def onphi(s,b,tgt,upd,P):
        for pid,c in upd:
            r=s.phirole.get(pid)
            if r and s.header(pid):
                D=s.plin(c,P)
                if ('phi',pid) in D[0] and D[0][('phi',pid)]==1:
                    t=dict(D[0]); del t[('phi',pid)]
                    s.addd(P,r,(t,D[1]),s.fn.ins[pid],True)
        for pid,c in upd:
            if s.isrole(pid): P.env.pop(pid,None); P.alias.pop(pid,None)
        return P.st
    def header(s,pid): return s.fn.ins[pid].bb in s.fn.loops()
    def interval(s,i,P):
        s.flush(i,P)
        p,g,ds,me,pv=P.st; s.nint+=1
        if p=='valid': s.report('once',i,'a request that was read is dropped without being handed to the cache')
        if p=='unknown' : s.report('once',i,'a request that was read is skipped')
        P.st=('unknown',('r',i.id),frozenset(),me,(p=='done',isinstance(g,int) and P.env.get(g)==0,ds,g))
    def flush(s,i,P):
        p,g,ds,me,pv=P.st
        if pv is None: return
        P.st=(p,g,ds,me,None)
        served,miss,ds,_=pv
        D=dict(ds)
        if not served:
            if D: s.report('count',i,'counters change (%s) without a request having been served'%','.join(sorted(D)))
            return
        if 'req' not in D:
            s.kinds.add('warm')
            if set(D)-{'warm'}: s.report('count',i,'a request that is not counted changes %s'%', '.join(sorted(set(D)-{'warm'})))
            if 'warm' in s.phirole.values() or 'warm' in s.memroles:
                if D.get('warm')!=('c',1): s.report('count',i,'a warm-up request does not add one to the warm-up count')
            if me and s.monotone: s.report('count',i,'a request after the warm-up is not counted')
            return
        s.kinds.add('hit' if not miss else 'miss')
        want={'req':('c',1)}
        if s.has('reqb'): want['reqb']=('sz',)
        if miss:
            want['miss']=('c',1)
            if s.has('missb'): want['missb']=('sz',)
        for k in sorted(set(want)|set(D)):
            if D.get(k)!=want.get(k): s.report('count',i,'%s of a measured %s changes by %s instead of %s'%({'req':'request count','reqb':'request bytes','miss':'miss count','missb':'miss bytes','warm':'warm-up count'}[k],'miss' if miss else 'hit',show(D.get(k)),show(want.get(k))))
        P.st=(p,g,P.st[2],True,None)
    memroles=frozenset(); monotone=True
    def has(s,r): return r in s.memroles or r in s.phirole.values()
    def onexit(s,i,P):
        s.interval(i,P); s.flush(i,P)
def show(d):
    if d is None: return 'nothing'
    return {'c':'%s'%(d[1:],),'sz':'the object size'}.get(d[0],'something else')
def close(fn,seed):
    """phis connected through phi/select/add-constant chains"""
    out=set(); st=list(seed)
    while st:
        v=st.pop()
        if not isinstance(v,int) or v<fn.nargs or v in out: continue
        i=fn.ins[v]
        if i.op=='phi':
            out.add(v); st+=[o for o in i.o if isinstance(o,int)]
        elif i.op in('add',): st+=[o for o in i.o if isinstance(o,int)]
        elif i.op=='select': st+=[o for o in i.o[1:] if isinstance(o,int)]
        elif i.op in('zext','sext','trunc'): st.append(i.o[0])
    return {v for v in out}
def roles_mem(fn):
    R={}; mem=set()
    for i in fn.live():
        if i.op=='store':
            f=fn.fld(i) or ''
            if f.startswith('cache_stat_t.') and f.split('.')[-1] in ROLE:
                r=ROLE[f.split('.')[-1]]; mem.add(r)
                def terms(v,d=0):
                    if isinstance(v,int) and v>=fn.nargs and d<6:
                        j=fn.ins[v]
                        if j.op=='phi': yield v
                        elif j.op in('add','zext','trunc','sext'):
                            for o in j.o: yield from terms(o,d+1)
                for ph in terms(i.o[0]):
                    for q in close(fn,[ph]): R[q]=r
    return R,mem
def roles_ratio(fn):
    """counters of a printed ratio: fdiv(uitofp miss, uitofp req) handed to a print"""
    R={}
    for i in fn.live():
        if i.op=='fdiv':
            L=[]
            for o in i.o:
                x=o
                while isinstance(x,int) and x>=fn.nargs and fn.ins[x].op in('uitofp','sitofp','zext','trunc'): x=fn.ins[x].o[0]
                L.append(x)
            if all(isinstance(x,int) and x>=fn.nargs and fn.ins[x].op=='phi' for x in L) and L[0]!=L[1]:
                # outside the request loop
                if not any(fn.blocks and i.bb in body for body in fn.loops().values()):
                    for x,r in zip(L,('miss','req')):
                        for q in close(fn,[x]): R[q]=r
    return R
def explore(ctx,sem,fn,roles,mem,monotone=True):
    ex=Acc(sem,fn,roles); ex.memroles=frozenset(mem); ex.monotone=monotone
    ex.run(); nm=fn.src
    bad=set()
    for (r,msg),i in ex.err.items(): bad.add(r); ctx.bad(r,'%s: %s'%(nm,msg),msg,i.where())
    for r in ('once','count'):
        if r not in bad: ctx.ok(r,nm)
    ctx.count('intervals between reads examined',ex.nint); ctx.count('abstract states',ex.visited)
    for k in ('hit','miss'): ctx.check('count','%s measures %ss'%(nm,k),k in ex.kinds,'no path measures a %s'%k,fn.file)
def run(ctx):
    sem=ctx.sem('core'); m=sem.m
    f=ctx.need(m.get('_simulate') or worker(m),'simulation worker')
    R,mem=roles_mem(f)
    ctx.need({'req','miss','reqb','missb'}<=mem,'counters of the simulation worker')
    explore(ctx,sem,f,R,mem)
    # ---- results taken from the cache
    for fld,op in (('n_obj','get_n_obj'),('occupied_byte','get_occupied_byte')):
        st=[i for i in f.live() if i.op=='store' and f.fld(i)=='cache_stat_t.'+fld]
        ctx.need(st,'store of the result field '+fld)
        for i in st:
            e=f.ex(i.o[0])
            while e[0] in('zext','sext','trunc'): e=e[2]
            ok=e[0]=='call' and f.slotof(f.ins[e[1]])=='cache.'+op or e==('c',0)
            ctx.check('final',fld,ok,'the reported %s is not what the cache reports through %s (policies with several parts keep it elsewhere)'%(fld,op),i.where())
    # ---- length of the warm-up
    n=0; nwr={f.ex(j.id) for j in f.live() if j.op=='load' and (f.fld(j) or '').endswith('.n_warmup_req') and root(f,f.ex(j.o[0]))==('arg',1)}
    for i in f.live():
        if i.op!='icmp' or i.pred in('eq','ne'): continue
        D=leq0(f,i,True)
        if D is None: continue
        t=D[0]
        N=[e for e in t if e in nwr]
        if not N: continue
        other={e:k for e,k in t.items() if e not in N}
        if not other: continue            # comparison with a constant
        if len(other)==1 and list(other)[0][0] in('phi','ld'):
            n+=1; c=list(other)[0]
            forms=[({c:1,N[0]:-1},1),({c:-1,N[0]:1},0)]
            ctx.check('warmup','count',(t,D[1]) in forms,'the warm-up does not end after exactly the requested number of requests',i.where())
    ctx.floor('warm-up length comparisons',n,1)
    # ---- the launchers
    k=0
    for g in m.repo_fns():
        if not any(g.calls('g_thread_pool_push')): continue
        k+=1
        for i in g.live():
            if i.op=='store' and (g.fld(i) or '').endswith('.n_warmup_req') and not (g.fld(i) or '').startswith('cache_stat'):
                e=g.ex(i.o[0])
                ok=e==('c',0) or frac_of_total(g,e)
                ctx.check('warmup',g.src,ok,'the number of warm-up requests is not the given fraction of the number of requests: '+g.pp(e),i.where())
            if i.op=='store' and (g.fld(i) or '')=='cache_stat_t.cache_size': ctx.check('final',g.src+' cache_size',size_of_elem(g,i),'the reported cache size is not that of the simulated cache: '+g.pp(g.ex(i.o[0])),i.where())
        # every result names a size, and the simulated cache has that size
        named=[i for h in (g,f) for i in h.live() if i.op=='store' and (h.fld(i) or '')=='cache_stat_t.cache_size']
        ctx.check('final',g.src+' size named',bool(named),'no size is put into the results',g.relfile)
        for i in g.live():
            if i.op!='store' or not isinstance(i.o[0],int) or i.o[0]<g.nargs: continue
            c=g.ins[i.o[0]]
            if c.op=='call' and m.srcname(c.callee or '')=='create_cache_with_new_size' and g.ex(i.o[1])[0]=='adr' and g.ex(i.o[1])[3]:
                ctx.check('final',g.src+' size simulated',elem_same(g.ex(i.o[1]),g.ex(c.o[1])),'the cache for one size is created with another: '+g.pp(g.ex(c.o[1])),c.where())
        # result array starts from zero
        res=[i for i in g.live() if i.op=='store' and (g.fld(i) or '').endswith('.result')]
        ctx.need(res,'result array of '+g.src)
        push=list(g.calls('g_thread_pool_push'))
        for i in res:
            b=g.ex(i.o[0])
            if b[0]=='call' and g.ins[b[1]].callee in('calloc','g_malloc0','g_malloc0_n'): ctx.ok('zero',g.src); continue
            z=[j for j in g.live() if j.op=='call' and (j.callee or '').startswith(('llvm.memset','memset')) and g.ex(j.o[0])==b and g.ex(j.o[1])==('c',0)]
            full=[j for j in z if b[0]=='call' and samelen(g,g.ex(j.o[2]),g.ins[b[1]])]
            ctx.check('zero',g.src,any(all(g.dominates(j,p) for p in push) for j in full),'the counters are not all zero when the simulations start',i.where())
    ctx.floor('simulation launchers',k,2)
    # ---- command-line loop
    sem2=ctx.sem('bin_cachesim'); n=0
    for f in sem2.m.repo_fns():
        if any(f.calls('read_one_req')) and any(f.slotof(i)=='cache.get' for i in f.live() if i.op=='call' and not i.callee):
            R=roles_ratio(f)
            ctx.need(R,'reported ratio in '+f.src)
            n+=1; explore(ctx,sem2,f,R,set(),False)
    ctx.floor('command-line simulation loops',n,1)
def worker(m):
    for f in m.repo_fns():
        for i in f.calls('g_thread_pool_new'):
            o=i.o[0]
            if o[0]=='F': return m.fns[o[1]]
def frac_of_total(g,e):
    while e[0] in('fptoui','fptosi'): e=e[2]
    if e[0]=='sel': return all(x==('c',0) or frac_of_total(g,x) for x in e[2:4])
    if e[0]=='phi': return all(g.ex(o)==('c',0) or frac_of_total(g,g.ex(o)) for o in g.ins[e[1]].o)
    if e[0]!='fmul': return False
    L=[e[1],e[2]]; n=[x for x in L if x[0] in('uitofp','sitofp') and x[2][0]=='call' and g.mod.srcname(g.ins[x[2][1]].callee or '')=='get_num_of_req']
    f=[x for x in L if x[0]=='arg']
    return len(n)==1 and len(f)==1
def samelen(g,n,alloc):
    """memset length == allocated length (up to integer widening)"""
    sz=lin(g.ex(alloc.o[0])) if alloc.callee in('malloc','g_malloc') else None
    def norm(l):
        t,c=l
        r={}
        for k,v in t.items():
            while k[0] in('zext','sext','trunc'): k=k[2]
            r[str(k)]=r.get(str(k),0)+v
        return r,c
    return sz is not None and norm(sz)==norm(lin(n))
def size_of_elem(g,i): return elem_same(g.ex(i.o[1]),g.ex(i.o[0]))
def elem_same(a,e):
    """e is read from the array element that has the index of a"""
    while e[0] in('zext','sext','trunc'): e=e[2]
    if e[0]!='ld': return False
    def idx(x):
        while True:
            if x[0]=='adr':
                for v,sc in x[3]: yield lin(v),x[2]//sc if sc else 0
                x=x[1]
            elif x[0]=='ld': x=x[1]
            else: return
    # caches[i-1] -> cache_size  or  cache_sizes[i-1]
    want=list(idx(a)); got=list(idx(e[1]))
    return bool(want) and bool(got) and dict(want[0][0][0])==dict(got[0][0][0]) and want[0][0][1]+want[0][1]==got[0][0][1]+got[0][1]
