"""Concurrent simulations are isolated.  Worker roots are the functions handed to
thread creation; every function reachable from them (calls and vtable slots) is
examined:
 global   a store to process-global memory that is not thread-local must be
          atomic, under a lock, or influence nothing but diagnostics (forward
          slice of every load of it, data and control);
 libc     no call of a function with hidden shared state (rand, strtok, ...)
          unless its result only reaches diagnostics;
 shared   the worker writes through the shared argument only at an element
          selected by its own work index, or with the lock held;
 readonly a callee that receives a shared pointer writes nothing through it;
 seed     the worker seeds the thread's random state with a constant before its
          first cache operation;
 launch   the launcher stores no field of the shared structure once work is
          queued, fills element k before queueing work item k, and waits for all
          workers before freeing shared state or returning."""
from lcs.slice import *
from lcs.lin import *
from lcs.effects import *
ASSUME=['mutexes and the GLib thread pool behave as documented','caches handed to one simulation are distinct objects (the caller creates one per entry)','external libraries (XGBoost, zstd) keep no shared state between handles']
HIDDEN={'rand','srand','random','srandom','drand48','lrand48','mrand48','srand48','strtok','localtime','gmtime','ctime','asctime','strerror','setlocale','setenv','putenv','unsetenv','readdir','tmpnam','chdir','umask','getopt','getopt_long','hcreate','hsearch','ecvt','ttyname','g_random_int','g_random_double','g_random_int_range','g_random_double_range'}
LOCK={'pthread_mutex_lock','g_mutex_lock','pthread_spin_lock','g_rec_mutex_lock'}; UNLOCK={'pthread_mutex_unlock','g_mutex_unlock','pthread_spin_unlock','g_rec_mutex_unlock'}
CREATE={'g_thread_pool_new':(0,1),'g_thread_new':(1,2),'g_thread_try_new':(1,2),'pthread_create':(2,3)}
def locked(fn):
    """ids of instructions executed with some lock certainly held"""
    R=fn.reachable(); IN={0:0}; TOP=99
    ins={b:TOP for b in R}; ins[0]=0
    ch=True; out=set()
    def flow(b,d,rec=None):
        for i in fn.blocks[b]:
            if i.op in('call','invoke') and i.callee in UNLOCK: d=max(0,d-1)
            if rec is not None and d>0: rec.add(i.id)
            if i.op in('call','invoke') and i.callee in LOCK: d+=1
        return d
    while ch:
        ch=False
        for b in sorted(R):
            ps=[p for p in fn.pred[b] if p in R]
            d=0 if b==0 else min([flow(p,ins[p]) for p in ps] or [0])
            if d<ins[b]: ins[b]=d; ch=True
    for b in R: flow(b,ins[b],out)
    return out
def root(fn,e):
    """root of an address through loads: ('arg',k), glob, alloca, call ..."""
    while True:
        e=base_of(e)
        if e[0]=='ld': e=e[1]
        else: return e
class Writes:
    """does a function write through pointer argument k (directly or via what it points to)?"""
    def __init__(s,sem): s.sem=sem; s.m=sem.m; s.memo={}; s.n=0
    def run(s,name,k):
        key=(name,k)
        if key in s.memo: return s.memo[key]
        s.memo[key]=None
        f=s.m.fns.get(name)
        if f is None: return None
        s.n+=1; me=('arg',k)
        for i in f.live():
            if i.op in('store','atomicrmw','cmpxchg'):
                if root(f,f.ex(i.o[1] if i.op=='store' else i.o[0]))==me: s.memo[key]=(i,'writes '+(f.fld(i) or '?') if i.op=='store' else 'writes it'); return s.memo[key]
            elif i.op in('call','invoke'):
                for q,o in enumerate(i.o):
                    e=f.ex(o)
                    if root(f,e)!=me: continue
                    if base_of(e)[0]=='ld' and not is_ptr(f,o): continue
                    c=i.callee
                    if c is None:
                        t=s.sem.targets(i)
                        for x in t:
                            r=s.run(x,q)
                            if r: s.memo[key]=r; return r
                        continue
                    if c in s.m.fns:
                        r=s.run(c,q)
                        if r: s.memo[key]=r; return r
                    elif c.startswith(('llvm.memcpy','llvm.memmove','llvm.memset')):
                        if q==0: s.memo[key]=(i,'writes memory'); return s.memo[key]
                    elif c in PURE_EXT or c.startswith('llvm.') or c in READONLY or c in LOCK or c in UNLOCK: pass
                    else: s.memo[key]=(i,'passes it to %s()'%c); return s.memo[key]
        return None
READONLY={'strdup','g_strdup','open','fopen','memcpy','strncpy','strcpy','snprintf','stat','access','realpath'}
def is_ptr(f,o):
    if isinstance(o,int):
        if o<f.nargs: return f.args[o][1].startswith('ptr')
        return (f.ins[o].ty or '').startswith('ptr')
    return True
def run(ctx):
    for grp in ('core',):
        group(ctx,grp)
def group(ctx,grp):
    sem=ctx.sem(grp); m=sem.m
    roots=[]; launch=[]
    for f in m.repo_fns():
        for i in f.live():
            if i.op in('call','invoke') and i.callee in CREATE:
                fi,_=CREATE[i.callee]; o=i.o[fi]
                w=o[1] if isinstance(o,list) and o[0]=='F' else None
                ctx.need(w,'worker function of %s in %s'%(i.callee,f.src))
                roots.append(w); launch.append((f,i,w))
    ctx.floor('thread launch sites',len(launch),2)
    R,par=sem.reach(sorted(set(roots)))
    fns=[m.fns[n] for n in sorted(R) if n in m.fns]
    ctx.count('worker-reachable functions',len(fns))
    # ---- globals
    shared={}
    LK={}
    for f in fns:
        for i in f.live():
            tgt=[]
            if i.op=='store': tgt=[(f.ex(i.o[1]),'store')]
            elif i.op in('call','invoke'):
                c=i.callee or ''
                if c in LOCK or c in UNLOCK or c.startswith(('llvm.threadlocal','__cxa_guard','llvm.lifetime','llvm.dbg')): continue
                for q,o in enumerate(i.o):
                    e=f.ex(o)
                    if root(f,e)[0]=='glob' and is_ptr(f,o) and base_of(e)[0]=='glob':
                        if c.startswith(('llvm.memcpy','llvm.memset','llvm.memmove')) and q>0: continue
                        if c in m.fns: continue      # by-reference use of a global inside repo code: seen where it is stored
                        if c in PURE_EXT or c in READONLY or c.startswith('_Z'): continue
                        tgt.append((e,'passed to '+c))
            for e,why in tgt:
                g=root(f,e)
                if g[0]!='glob': continue
                G=m.globals.get(g[1])
                if G is None or G.get('tls') or G.get('const'): continue
                if why!='store' and G.get('init') is not None and not any(1 for _ in stores_to(fns,g)): continue
                if f.name not in LK: LK[f.name]=locked(f)
                if i.id in LK[f.name] if i.id is not None else False: ctx.ok('global','%s in %s (lock held)'%(g[1],f.src)); continue
                shared.setdefault(g[1],[]).append((f,i,why))
    ok=set(shared)
    for g,sites in sorted(shared.items()):
        bad=None
        for f in fns:
            st=[i.id for i in f.live() if i.op=='load' and root(f,f.ex(i.o[0]))==('glob',g)]
            if not st: continue
            r=leaks(f,st,m,ok)
            if r is not None: bad=(f,r); break
        f,i,_=sites[0]
        ctx.check('global','%s %s'%(f.src,g.split('.')[-1] if '.' not in g else g),bad is None,'process-global "%s" is written by concurrent simulations without thread-local storage, lock or atomic access, and its value reaches %s'%(g,bad and bad[1].where()),i.where())
    # ---- hidden state
    for f in fns:
        for i in f.live():
            if i.op in('call','invoke') and i.callee in HIDDEN:
                r=i if i.id is None else leaks(f,[i.id],m,ok)
                if i.callee in('rand','random','srand','srandom','strtok','drand48','lrand48') or i.callee.startswith('g_random') : r=r or i
                ctx.check('libc','%s %s'%(f.src,i.callee),r is None,'%s() uses process-global state and is reached by concurrent simulations'%i.callee,i.where())
    # ---- the worker itself
    W=Writes(sem)
    for w in sorted(set(roots)):
        f=m.fns[w]; me=('arg',1)
        lk=locked(f); idxs=set()
        for i in f.live():
            if i.op in('store','atomicrmw','cmpxchg'):
                a=f.ex(i.o[1] if i.op=='store' else i.o[0])
                if root(f,a)!=me: continue
                fld=f.fld(i) if i.op=='store' else None
                if i.op!='store' : ctx.ok('shared','%s atomic'%w); continue
                if i.id in lk or lockid(f,i,lk): ctx.ok('shared','%s %s (lock held)'%(w,fld)); continue
                ix=own_index(f,a)
                if ix: idxs.add(ix); ctx.ok('shared','%s %s (own element)'%(w,fld)); continue
                ctx.bad('shared','%s writes %s'%(w,fld),'the worker writes shared memory that is neither its own element nor protected by the lock: %s'%f.pp(a),i.where())
            elif i.op in('call','invoke'):
                c=i.callee
                for q,o in enumerate(i.o):
                    e=f.ex(o)
                    if root(f,e)!=me or not is_ptr(f,o): continue
                    if c in LOCK or c in UNLOCK or c and c.startswith(('llvm.lifetime','llvm.dbg')): continue
                    ix=own_index(f,e)
                    if ix: idxs.add(ix); ctx.ok('shared','%s passes its own element'%w); continue
                    if c and (c.startswith(('llvm.memcpy','strncpy','snprintf')) ) and q>0: continue
                    if c in PURE_EXT or c in READONLY and q>0: continue
                    if c in('g_atomic_int_inc','g_atomic_int_add'): continue
                    if c in m.fns:
                        r=W.run(c,q)
                        ctx.check('readonly','%s %s argument %d'%(w,c,q),r is None,'%s() is given state shared between simulations and %s'%(c,r and r[1]),r[0].where() if r else '')
                    elif c is None:
                        for t in sem.targets(i):
                            r=W.run(t,q)
                            ctx.check('readonly','%s %s argument %d'%(w,t,q),r is None,'%s() is given state shared between simulations and %s'%(t,r and r[1]),r[0].where() if r else '')
                    else: ctx.bad('readonly','%s %s'%(w,c),'shared state is passed to %s()'%c,i.where())
        ctx.check('shared',w+' one element per work item',len(idxs)==1,'the worker selects its elements with %d different index expressions'%len(idxs),f.file)
        # ---- seed
        ops=[i for i in f.live() if i.op=='call' and (f.slotof(i) or '').startswith('cache.')]
        seeds=[i for i in f.live() if seed_store(f,i)]
        ctx.need(ops,'cache operations in '+w)
        for o in ops:
            ctx.check('seed','%s %s'%(w,f.slotof(o)),any(f.dominates(x,o) for x in seeds),'a cache operation is reached without the thread random state having been seeded with a constant',o.where())
    # ---- clone: no mutable state shared with the source
    # ---- launchers
    for f,cr,w in launch: launcher(ctx,sem,f,cr,w)
    ctx.count('functions checked for writes through a shared argument',W.n)
def stores_to(fns,g):
    for f in fns:
        for i in f.live():
            if i.op=='store' and root(f,f.ex(i.o[1]))==g: yield i
def lockid(f,i,lk):
    # stores have no id of their own in some dumps: use the neighbours
    b=f.blocks[i.bb]
    nb=[x for x in b if x.idx in(i.idx-1,i.idx+1) and x.id in lk]
    return i.id is None and bool(nb)
def own_index(f,a):
    """(array, index form) if address a selects an element by this worker's work item"""
    x=a
    while True:
        if x[0]=='adr':
            for v,sc in x[3]:
                t,c=lin(v)
                if t=={('arg',0):1} : 
                    b=x[1]
                    return ('ix',c)
            x=x[1]
        elif x[0]=='ld': x=x[1]
        else: return None
def seed_store(f,i):
    if i.op=='store':
        b=f.ex(i.o[1]); G=None
        if b[0]=='glob': G=b[1]
        elif b[0]=='call' and (f.ins[b[1]].callee or '').startswith('llvm.threadlocal'): 
            e=f.ex(f.ins[b[1]].o[0]); G=e[1] if e[0]=='glob' else None
        return G=='rand_seed' and f.ex(i.o[0])[0]=='c'
    if i.op in('call','invoke') and i.callee:
        return f.mod.srcname(i.callee)=='set_rand_seed' and f.ex(i.o[0])[0]=='c'
    return False
def reaches(f,a,b,avoid):
    """path from just after instruction a to instruction b that passes none of `avoid`"""
    av={(x.bb,x.idx) for x in avoid}
    def scan(bb,start):
        for i in f.blocks[bb]:
            if i.idx<start: continue
            if (i.bb,i.idx)==(b.bb,b.idx): return 'hit'
            if (i.bb,i.idx) in av or i is f.exitcall[bb]: return 'stop'
        return 'go'
    r=scan(a.bb,a.idx+1)
    if r=='hit': return True
    if r=='stop': return False
    seen=set(); st=list(f.succ[a.bb])
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x); r=scan(x,0)
        if r=='hit': return True
        if r=='go': st+=f.succ[x]
    return False
def launcher(ctx,sem,f,cr,w):
    nm=f.src
    if cr.callee!='g_thread_pool_new': ctx.notes.append('launch through %s in %s'%(cr.callee,nm)); 
    P=f.ex(cr.o[CREATE[cr.callee][1]])
    pool=('call',cr.id)
    push=[i for i in f.live() if i.op=='call' and i.callee=='g_thread_pool_push' and f.ex(i.o[0])==pool]
    free=[i for i in f.live() if i.op=='call' and i.callee=='g_thread_pool_free' and f.ex(i.o[0])==pool]
    ctx.need(push or cr.callee!='g_thread_pool_new','work item push in '+nm)
    for i in free:
        ctx.check('launch',nm+' waits',f.ex(i.o[1])==('c',0) and f.ex(i.o[2])==('c',1),'the thread pool is released without waiting for all queued simulations',i.where())
    free=[i for i in free if f.ex(i.o[1])==('c',0) and f.ex(i.o[2])==('c',1)]
    for p in push:
        for r in f.rets():
            ctx.check('launch',nm+' return',not reaches(f,p,r,free),'results are returned on a path that does not wait for the simulations',r.where())
        for i in f.live():
            if i.op in('call','invoke') and i.callee in('free','g_free','g_mutex_clear','g_slice_free1'):
                e=f.ex(i.o[-1] if i.callee=='g_slice_free1' else i.o[0])
                if root(f,e)==P or e==P:
                    ctx.check('launch',nm+' '+i.callee,not reaches(f,p,i,free),'shared state is released while simulations may still run',i.where())
            if i.op=='store' and root(f,f.ex(i.o[1]))==P:
                a=f.ex(i.o[1]); fld=f.fld(i)
                if base_of(a)==P:
                    ctx.check('launch','%s %s'%(nm,fld),not reaches(f,p,i,free),'a field of the shared structure is stored after work has been queued',i.where())
                else: elem(ctx,f,nm,p,i,a,fld)
            if i.op=='store' and i.bb is not None:
                a=f.ex(i.o[1])
                if a[0]=='adr' and a[3] and base_of(a)[0]=='call' and root(f,a)!=P and stored_in(f,P,base_of(a)):
                    elem(ctx,f,nm,p,i,a,f.fld(i))
def stored_in(f,P,e):
    return any(i.op=='store' and f.ex(i.o[0])==e and base_of(f.ex(i.o[1]))==P for i in f.live())
def elem(ctx,f,nm,p,i,a,fld):
    if not reaches(f,p,i,[]):
        ctx.ok('launch','%s %s before any work is queued'%(nm,fld)); return
    # inside the queueing loop: the element of the item about to be queued
    x=a; d=None
    while x[0]=='adr':
        for v,sc in x[3]: d=lsub(lin(f.ex(p.o[1])),lin(v))
        x=x[1]
    same=d is not None and d[0]=={} and d[1]==1
    ctx.check('launch','%s %s element'%(nm,fld),same and f.dominates(i,p),'after work has been queued, an element other than that of the item about to be queued is written',i.where())
