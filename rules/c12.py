"""C12: a clone (same or new size) is a fresh cache with the original's
configuration.  (clone) at the call of the original's initialiser inside each
cloning function every common parameter is the original's (constant propagation
with the metadata size zero / non-zero), the size is the original's or the
requested one, and the parameter string is the original's, or none when it had
none; on every path to the return the admission policy and the prefetcher are
clones of the original's exactly when it has them, and the precomputed stack
distances are carried over.  (init) each policy initialiser registers itself,
passes its common parameters on unchanged (the hash-table size hint aside) and
its own parameter string, keeps no pointer to that string, and charges
per-object metadata only when asked to.  (parts) every admission policy and
prefetcher keeps a copy of its parameter string and its clone operation creates
the same kind from that string (and the new size)."""
import re
from lcs.ctx import *
from lcs.engine import *
from lcs.lin import *
from lcs.ir import *
LEVEL='other'
EXPLAIN=__doc__
ASSUME=['the hash-table size is a tuning hint and not part of the configuration','myMQv1 and LRB are experimental / not built']
PAR='common_cache_params'
def pfield(f): return f.split('.')[-1] if f and f.startswith(PAR) else None
class Args(Explorer):
    """last writer of each field of the parameter block A when call c is reached"""
    def __init__(s,fn,A,c): super().__init__(fn); s.A=A; s.c=c; s.got={}
    def init(s): return frozenset()
    def transfer(s,i,P):
        fn=s.fn
        if i is s.c:
            d=dict(P.st)
            for k in FIELDS: s.got.setdefault(k,set()).add(d.get(k))
        elif i.op=='store' and base_of(fn.ex(i.o[1]))==s.A:
            k=pfield(fn.fld(i))
            if k in FIELDS: P.st=frozenset(x for x in P.st if x[0]!=k)|{(k,('st',i.id,s.rep(i.o[0],P)))}
        elif i.op=='call' and i.callee and i.callee.startswith('llvm.mem') and base_of(fn.ex(i.o[0]))==s.A:
            src=('zero',) if 'memset' in i.callee else ('cp',base_of(fn.ex(i.o[1])))
            P.st=frozenset((k,src) for k in FIELDS)
        return None
    def rep(s,v,P):
        if isinstance(v,int):
            c=s.val(v,P)
            if isinstance(c,int): return ('c',c)
            v=s.canon(v,P)
        return v if isinstance(v,int) else ('c',constval(v))
FIELDS=('cache_size','default_ttl','consider_obj_metadata','hashpower')
class Clone(Explorer):
    """status of the optional parts of the new cache; state: frozenset of facts"""
    max_states=60000
    def __init__(s,fn,newid): super().__init__(fn); s.new=newid; s.err={}; s.n=0
    def init(s): return frozenset()
    def oldfield(s,v,P,name):
        v=s.canon(v,P)
        if not isinstance(v,int) or v<s.fn.nargs: return False
        i=s.fn.ins[v]
        return i.op=='load' and s.fn.fld(i)=='cache.'+name and base_of(s.fn.ex(i.o[0]))==('arg',0)
    def onedge(s,t,truth,P):
        for j in s.fn.live():
            if j.op=='load' and j.id in P.env and P.env[j.id]==0 and s.fn.fld(j) in('cache.admissioner','cache.prefetcher') and base_of(s.fn.ex(j.o[0]))==('arg',0):
                P.st=P.st|{('none',s.fn.fld(j)[6:])}
        return P
    def transfer(s,i,P):
        fn=s.fn
        if i.op!='store': return None
        f=fn.fld(i) or ''
        if not f.startswith('cache.') or not s.isnew(fn.ex(i.o[1])): return None
        k=f[6:]
        if k in('admissioner','prefetcher'):
            v=s.canon(i.o[0],P); st='other'
            if isinstance(v,int) and v>=fn.nargs and fn.ins[v].op in('call','invoke') and fn.slotof(fn.ins[v])==k+'.clone' and s.oldfield(fn.ins[v].o[0],P,k):
                c=fn.ins[v]; p=fn.ins[c.fp]
                own=base_of(fn.ex(p.o[0])); st='clone' if s.oldptr(own,k) else 'other'
                if k=='prefetcher' and not s.samesize(c.o[1]): st='size'
            elif s.val(i.o[0],P)==0: st='null'
            P.st=frozenset(x for x in P.st if not(x[0]=='set' and x[1]==k))|{('set',k,st)}
        elif k.startswith('future_stack_dist'):
            P.st=frozenset(x for x in P.st if not(x[0]=='set' and x[1]==k))|{('set',k,'copy' if s.oldfield(i.o[0],P,k) else 'other')}
        return None
    def oldptr(s,e,k):
        if e[0]!='ld': return e==('arg',0)
        fi=s.fn.fieldinfo(e[1]); return bool(fi) and fi[0]=='cache' and fi[1]==k and base_of(e[1])==('arg',0)
    def isnew(s,e):
        b=base_of(e); return b[0]=='call' and b[1]==s.new
    def samesize(s,v):
        return s.fn.ex(v) in s.sizeexprs
    def onexit(s,i,P):
        if not i.o or s.val(i.o[0],P)==0: return
        s.n+=1
        got={x[1]:x[2] for x in P.st if x[0]=='set'}; none={x[1] for x in P.st if x[0]=='none'}
        for k in('admissioner','prefetcher'):
            g=got.get(k,'null')
            if g=='clone' or (g=='null' and k in none): continue
            s.err.setdefault(k,(i,{'null':'the clone has no %s although the original may have one','other':"the clone's %s is not a clone of the original's",'size':"the clone's %s is created for another cache size"}[g]%k))
        for k in('future_stack_dist','future_stack_dist_array_size'):
            if got.get(k)!='copy': s.err.setdefault(k,(i,'%s is not carried over'%k))
def loadof(fn,v):
    """(field, base) when value v is a load (through width changes), else (None,None)"""
    while isinstance(v,int) and v>=fn.nargs and fn.ins[v].op in('zext','sext','trunc','bitcast','freeze'): v=fn.ins[v].o[0]
    if not isinstance(v,int) or v<fn.nargs or fn.ins[v].op!='load': return None,None
    i=fn.ins[v]; return (fn.fld(i) or '').split('.')[-1],base_of(fn.ex(i.o[0]))
def strip(e):
    while e[0] in('zext','sext','trunc','bitcast'): e=e[2]
    return e
def run(ctx):
    m=ctx.module('core'); sem=ctx.sem('core')
    for name in('clone_cache','create_cache_with_new_size'):
        fn=ctx.need(m.get(name),name); clonefn(ctx,m,fn)
    n=0
    for a in sorted(sem.algos.values(),key=lambda a:a.name):
        if '/GLCache/' in a.file or '/LRB/' in a.file: continue
        n+=1; initfn(ctx,m,a)
    ctx.floor('policy initialisers',n,40)
    structinit(ctx,m)
    parts(ctx,m)
def clonefn(ctx,m,fn):
    calls=[i for i in fn.live() if i.op in('call','invoke') and fn.slotof(i)=='cache.cache_init']
    if not calls:
        # delegation to the other cloning function
        for d in fn.live():
            if d.op=='call' and d.callee and m.srcname(d.callee) in('create_cache_with_new_size','clone_cache') and fn.src!=m.srcname(d.callee):
                ok=fn.ex(d.o[0])==('arg',0) and (loadof(fn,d.o[1])==('cache_size',('arg',0)) if len(d.o)>1 and not fn.nargs>1 else False) and all(fn.ex(r.o[0])==('call',d.id) for r in fn.rets())
                ctx.check('clone','%s: delegates'%fn.src,ok,'%s: does not ask for a clone of the original with its own size'%fn.src,d.where()); return
    if len(calls)!=1:
        ctx.bad('clone','%s init'%fn.src,'%s: %d calls of the original\'s initialiser'%(fn.src,len(calls)),fn.where() if hasattr(fn,'where') else fn.src); return
    c=calls[0]
    own=fn.ins[c.fp]
    ctx.check('clone','%s: initialiser'%fn.src,base_of(fn.ex(own.o[0]))==('arg',0),'the initialiser called is not the one of the cache being cloned',c.where())
    A=base_of(fn.ex(c.o[0]))
    want=('arg',1) if fn.nargs>1 else None
    ids=[j.id for j in fn.live() if j.op=='load' and fn.fld(j)=='cache.obj_md_size' and base_of(fn.ex(j.o[0]))==('arg',0)]
    mds={1,16}|{i.o[0][1] for f in m.repo_fns() for i in f.live() if i.op=='store' and f.fld(i)=='cache.obj_md_size' and isinstance(i.o[0],list) and i.o[0][0]=='i' and i.o[0][1]>0}
    for v in[None,0]+sorted(mds):
        g=fn if v is None else specialize(fn,{},{x:v for x in ids})
        e=Args(g,A,next(x for x in g.live() if x.id==c.id)); e.run()
        if v is None: sizes=e.got.get('cache_size',set())
        for k in FIELDS:
            if k=='hashpower' or (k=='consider_obj_metadata')!=(v is not None): continue
            for w in e.got.get(k,{None}):
                at=fn.ins[w[1]] if w and w[0]=='st' else c
                x=w[2] if w and w[0]=='st' else ('c',0) if w==('zero',) else None
                if k=='consider_obj_metadata':
                    ok=isinstance(x,tuple) and isinstance(x[1],int) and (x[1]!=0)==(v!=0)
                    if isinstance(x,int): ctx.notes.append('undecided: %s %s'%(fn.src,k)); continue
                elif x is None: ok=False
                elif k=='cache_size' and want: ok=isinstance(x,int) and strip(fn.ex(x))==want
                else: ok=isinstance(x,int) and loadof(fn,x)==(k,('arg',0))
                ctx.check('clone','%s: %s'%(fn.src,k),ok,"%s: the clone's %s is not %s"%(fn.src,k,'the requested size' if k=='cache_size' and want else "the original's"),at.where())
    # parameter string
    p=c.o[1]
    def srcs(v,seen):
        if isinstance(v,int) and v>=fn.nargs and v not in seen:
            seen.add(v); i=fn.ins[v]
            if i.op=='phi': return [y for x in i.o for y in srcs(x,seen)]
            if i.op=='select': return srcs(i.o[1],seen)+srcs(i.o[2],seen)
        return [v]
    S=srcs(p,set()); null=[v for v in S if not isinstance(v,int) and constval(v)==0]
    rest=[v for v in S if v not in null]
    def isparam(v):
        e=fn.ex(v); fi=fn.fieldinfo(e); return bool(fi) and fi[0]=='cache' and fi[1].startswith('init_params') and base_of(e)==('arg',0)
    ctx.check('clone','%s: parameter string'%fn.src,bool(rest) and all(isparam(v) for v in rest),"the parameter string handed to the initialiser is not the original's",c.where())
    # empty string means the original had none
    ids=[j.id for j in fn.live() if j.op=='load' and (fn.fld(j) or '').startswith('cache.init_params') and base_of(fn.ex(j.o[0]))==('arg',0)]
    ids+=[j.id for j in fn.live() if j.op=='call' and j.callee=='strlen' and isparam(j.o[0])]
    g=specialize(fn,{},{x:0 for x in ids})
    r=g.lat.get(p) if isinstance(p,int) else constval(p)
    ctx.check('clone','%s: no parameter string'%fn.src,r==0,'the original was created without parameters but the clone is created with an empty parameter string, which some policies parse instead of using their defaults',c.where())
    e=Clone(fn,c.id); e.sizeexprs={fn.ex(w[2]) for w in sizes if w and w[0]=='st' and isinstance(w[2],int)}
    e.run()
    for k,(i,msg) in e.err.items(): ctx.bad('clone','%s %s'%(fn.src,k),'%s: %s'%(fn.src,msg),i.where())
    if not e.err: ctx.ok('clone','%s: admission policy, prefetcher and stack distances on %d paths'%(fn.src,e.n))
def initfn(ctx,m,a):
    f=a.init; w=f.src
    sl=a.slots.get('cache.cache_init')
    ctx.check('init','%s registers itself'%w,sl==f.name,'%s: the initialiser kept for cloning is %s'%(w,sl),'%s:%d'%(f.relfile,f.line))
    for c in f.calls('cache_struct_init'):
        A=base_of(f.ex(c.o[1])); ok=True; why=''
        if A!=('arg',0):
            e=Args(f,A,c)
            try: e.run()
            except TooManyStates: ctx.notes.append('undecided: %s common parameters'%w); e.got={}
            for k in FIELDS:
                if k=='hashpower': continue
                for x in e.got.get(k,()):
                    good=x==('cp',('arg',0)) or x and x[0]=='st' and isinstance(x[2],int) and loadof(f,x[2]) in((k,('arg',0)),(k,A))
                    if not good: ok=False; why='have another %s than it was given'%k
        ctx.check('init','%s common parameters'%w,ok,'%s: the common parameters of the cache %s'%(w,why),c.where())
        ctx.check('init','%s parameter string'%w,f.ex(c.o[2])==('arg',1),'%s: the cache does not keep the parameter string it was created with, so its clones differ'%w,c.where())
    for i in f.live():
        if i.op=='store' and f.ex(i.o[0])==('arg',1) and base_of(f.ex(i.o[1]))[0]!='alloca':
            ctx.bad('init','%s keeps string'%w,'%s: keeps a pointer to the caller\'s parameter string'%w,i.where())
    ids={j.id:0 for j in f.live() if j.op=='load' and pfield(f.fld(j))=='consider_obj_metadata'}
    g=specialize(f,{},ids); R=g.reachable()
    for i in f.live():
        if i.op=='store' and f.fld(i)=='cache.obj_md_size' and i.bb in R:
            x=i.o[0]; v=constval(x) if not isinstance(x,int) else g.lat.get(x)
            if isinstance(v,int): ctx.check('init','%s metadata'%w,v==0,'%s: charges %s bytes of metadata per object although the configuration says not to'%(w,v),i.where())
            else: ctx.notes.append('undecided: metadata size of %s'%w)
class SInit(Explorer):
    """is the parameter string known to fit where it is copied?"""
    def __init__(s,fn): super().__init__(fn); s.err=None; s.n=0
    def init(s): return frozenset()
    def onedge(s,t,truth,P):
        for i,tr in s.atoms(t.o[0],truth,P):
            D=leq0(s.fn,i,tr) if i.op=='icmp' else None
            if D is None: continue
            T,c=D
            if len(T)==1:
                (e,k),=T.items()
                if k==1 and e[0]=='call' and s.fn.ins[e[1]].callee in('strlen','strnlen') and s.fn.ex(s.fn.ins[e[1]].o[0])==('arg',2): P.st|={('len',-c)}
        return P
    def transfer(s,i,P):
        fn=s.fn
        if i.op=='call' and i.callee in('strncpy','strcpy','snprintf','memcpy','strlcpy','llvm.memcpy.p0.p0.i64') and (fn.fld(i,0) or '').startswith('cache.init_params'):
            s.n+=1
            size=s.size
            if not any(x[1]<size for x in P.st): s.err=s.err or i
        return None
def structinit(ctx,m):
    fn=ctx.need(m.get('cache_struct_init'),'cache_struct_init')
    for k in('cache_size','default_ttl'):
        L=[i for i in fn.live() if i.op=='store' and fn.fld(i)=='cache.'+k]
        ok=bool(L)
        for i in L:
            ok=ok and loadof(fn,i.o[0])==(k,('arg',1))
        ctx.check('init','cache_struct_init %s'%k,ok,'the cache does not take its %s from the common parameters'%k,L[0].where() if L else fn.src)
    d=m.structs.get('cache'); size=None
    for x in d['members']:
        if x[0]=='init_params': size=x[3]
    e=SInit(fn); e.size=size or 0; e.run()
    ctx.check('init','parameter string kept whole',e.n>0 and e.err is None,'a parameter string longer than the %s bytes kept is cut off silently (clones then differ from the original)'%size if e.n else 'the parameter string is not kept',e.err.where() if e.err else fn.src)
    for f in m.repo_fns():
        if f is fn: continue
        for i in f.live():
            if i.op=='store' and (f.fld(i) or '').startswith('cache.init_params') or i.op=='call' and i.callee in('strncpy','strcpy','snprintf','sprintf','strcat','strncat','memset') and i.o and (f.fld(i,0) or '').startswith('cache.init_params'):
                ctx.bad('init','%s params'%f.src,'%s: changes the parameter string kept for cloning'%f.src,i.where())
class Keep(Explorer):
    """the creator stores a copy of its parameter string"""
    def __init__(s,fn,st): super().__init__(fn); s.stn=st; s.err=None; s.n=0
    def init(s): return 'unset'
    def transfer(s,i,P):
        fn=s.fn
        if i.op=='store' and fn.fld(i)==s.stn+'.init_params':
            v=s.canon(i.o[0],P); ok=False
            if isinstance(v,int) and v>=fn.nargs:
                j=fn.ins[v]; ok=j.op=='call' and j.callee in('strdup','g_strdup','xstrdup') and fn.ex(j.o[0])==('arg',0)
            P.st='kept' if ok else 'null' if s.val(i.o[0],P)==0 else 'other'
        return None
    def onexit(s,i,P):
        s.n+=1
        if P.st!='kept': s.err=s.err or i
def parts(ctx,m):
    n=0
    for f in m.repo_fns():
        for i in f.live():
            if i.op!='store' or not(isinstance(i.o[0],list) and i.o[0][0]=='F'): continue
            t=f.fld(i) or ''
            if t not in('admissioner.clone','prefetcher.clone'): continue
            st=t.split('.')[0]; g=m.fns.get(i.o[0][1])
            n+=1
            e=Keep(specialize(f,{0:NZ}),st)   # created with a parameter string
            e.run()
            ctx.check('parts','%s keeps its parameters'%f.src,e.err is None,'%s: created with parameters, it does not keep a copy of them for its clones'%f.src,e.err.where() if e.err else f.src)
            if g is None: continue
            cs=[j for j in g.live() if j.op=='call' and j.callee and re.match('create_',m.srcname(j.callee))]
            ok=len(cs)>=1; why='%s creates nothing'%g.src
            for j in cs:
                ex=strip(g.ex(j.o[0])); fi=g.fieldinfo(ex[1]) if ex[0]=='ld' else None
                if j.callee!=f.name: ok=False; why='%s creates another kind: %s'%(g.src,m.srcname(j.callee))
                elif not(fi and fi[1]=='init_params' and base_of(ex[1])==('arg',0)): ok=False; why='%s does not pass the parameters of the original'%g.src
                elif st=='prefetcher' and g.ex(j.o[1])!=('arg',1): ok=False; why='%s does not pass the size of the new cache'%g.src
            for r in g.rets():
                if r.o and strip(g.ex(r.o[0]))[0]!='call': ok=False; why='%s does not return the new one'%g.src
            ctx.check('parts','%s'%g.src,ok,why,cs[0].where() if cs else g.src)
    ctx.floor('admission policies and prefetchers with a clone operation',n,6)
