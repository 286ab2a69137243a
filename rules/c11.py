"""Admission.  Decided over the shared admission function, every policy's own
can_insert, every access function and every admission policy:
 gate      the shared function lets an object in exactly when the cache has no
           admission policy or that policy, asked once about this very request,
           admits it, and object size + per-object metadata <= capacity;
 override  a policy with its own can_insert asks the shared function exactly once
           with its own cache and request, never lets in what it refused, and
           refuses more only because the object is larger than a part of the
           cache that the policy's insertion really fills;
 once      one access asks can_insert at most once;
 size      a size admission policy admits exactly objects smaller than the threshold;
 prob      the probabilistic policy draws one number per question and admits exactly
           when it is below the threshold computed from the probability with the
           same modulus; probabilities outside (0,1] are refused;
 seen      the bloom-filter policy admits exactly ids it was asked about before and
           remembers the whole id every time;
 pure      no admission policy writes the request or the cache;
 names     every documented admission name creates the policy of that name, any
           other name is an error, and the command-line tool gives the policy it
           creates to every cache it creates."""
import re
from lcs.ctx import *
from lcs.engine import *
from lcs.lin import *
from lcs.ir import *
from lcs.proto import GetProto,SELF
ASSUME=['GLib hash tables are maps keyed by the whole pointer','fewer than 2^32 questions about one object','LIRS and SR_LRU may reorganise their lists inside can_insert (the evictions are checked by C04/C05)']
NAMES={'bloomfilter':'create_bloomfilter_admissioner','bloom-filter':'create_bloomfilter_admissioner','prob':'create_prob_admissioner','size':'create_size_admissioner','adaptsize':'create_adaptsize_admissioner'}
# can_insert of building blocks that never hold an admission policy of their own
NODEFAULT={'SR_LRU':'internal building block of Cacheus: Cacheus asks its admission policy before it hands the request on'}
class Bool(Explorer):
    """all exits of a bool function: (truth, calls, values of calls, facts, null loads)"""
    max_states=30000
    def __init__(s,fn,watch): super().__init__(fn); s.watch=watch; s.exits=[]
    def init(s): return ((),frozenset(),frozenset())
    def keepids(s,st): return st[0]
    def facts(s,v,truth,P):
        out=set()
        for i,tr in s.atoms(v,truth,P):
            if i.op=='icmp':
                D=leq0(s.fn,i,tr)
                if D is not None: out.add(('le',frozenset(D[0].items()),D[1]))
                else: out.add((i.pred if tr else {'eq':'ne','ne':'eq'}[i.pred],s.fn.ex(i.o[0]),s.fn.ex(i.o[1])))
            elif i.op=='fcmp': out.add(('f',i.pred,tr,s.fn.ex(i.o[0]),s.fn.ex(i.o[1])))
        return out
    def nulls(s,P):
        return {s.fn.ins[v].id for v,x in P.env.items() if isinstance(v,int) and v>=s.fn.nargs and x==0 and s.fn.ins[v].op=='load'}
    def onedge(s,t,truth,P):
        a,f,z=P.st
        P.st=(a,f|s.facts(t.o[0],truth,P),z|{s.fn.ex(v) for v in s.nulls(P)})
        return P
    def transfer(s,i,P):
        if i.op in('call','invoke') and s.watch(i):
            if len(P.st[0])<4: P.st=(P.st[0]+(i.id,),)+P.st[1:]
        if i.op=='select' and i.ty=='i1' and s.val(i.o[0],P) is None:
            pass
        return None
    def onexit(s,i,P):
        for tr in (True,False):
            Q=Path(P.st,dict(P.env),dict(P.alias),dict(P.avail))
            if not s.assume(i.o[0],tr,Q): continue
            a,f,z=Q.st
            f=f|s.facts(i.o[0],tr,Q)
            z=z|{s.fn.ex(v) for v in s.nulls(Q)}
            s.exits.append((tr,a,{c:Q.env.get(c) for c in a},f,z,i))
def true(v): return v in(1,NZ)
def fld(fn,e):
    """'struct.field' of a load expression, tagged with the root it is reached from"""
    while e[0] in('zext','sext','trunc'): e=e[2]
    if e[0]!='ld': return None
    f=fn.fieldinfo(e[1])
    return f and (f[0]+'.'+f[1],base_of(e[1]))
def leterms(fn,f):
    """{(field,base) or expr: coef} of a linear fact"""
    return {(fld(fn,e) or e):k for e,k in f[1]},f[2]
SZ=('request.obj_size',('arg',1)); MD=('cache.obj_md_size',SELF); CAP=('cache.cache_size',SELF)
def norm(t):
    return {((re.sub(r'@.*\.(?=[^.]*$)','.',k[0]),k[1]) if isinstance(k[0],str) and '@' in k[0] else k):v for k,v in t.items()}
def gate(ctx,m):
    fn=ctx.need(m.get('cache_can_insert_default'),'cache_can_insert_default')
    adm=lambda i: not i.callee and fn.slotof(i)=='admissioner.admit'
    calls=[i for i in fn.live() if i.op in('call','invoke') and adm(i)]
    ctx.need(calls,'question to the admission policy')
    for i in calls:
        a=fn.ex(i.o[0])
        ctx.check('gate','policy of this cache',fld(fn,a)==('cache.admissioner',SELF),'cache_can_insert_default: asks another admission policy than the one of this cache',i.where())
        ctx.check('gate','this request',fn.ex(i.o[1])==('arg',1),'cache_can_insert_default: the admission policy is not asked about this request',i.where())
    ex=Bool(fn,adm); ex.run()
    err={}
    for tr,a,val,f,z,i in ex.exits:
        fit=nofit=False
        for x in f:
            if x[0]!='le': continue
            t,c=leterms(fn,x); t=norm(t)
            if t=={SZ:1,MD:1,CAP:-1} and c==0: fit=True
            if t=={SZ:-1,MD:-1,CAP:1} and c==1: nofit=True
        none=any(e[0]=='ld' and fld(fn,e)==('cache.admissioner',SELF) for e in z)
        if len(a)>1: err.setdefault('the admission policy is asked twice about one request',i)
        yes=a and all(true(val[c]) for c in a); no=a and any(val[c]==0 for c in a)
        if tr:
            if not none and not yes: err.setdefault('an object the admission policy did not admit is let in',i)
            if not fit: err.setdefault('an object is let in although size + metadata <= capacity is not established',i)
        else:
            if not no and not nofit: err.setdefault('an admitted object that fits is refused',i)
    ctx.floor('exits of the shared admission function',len(ex.exits),3)
    for k,i in err.items(): ctx.bad('gate',k,'cache_can_insert_default: '+k,i.where())
    if not err: ctx.ok('gate','let in exactly when admitted and fitting')
def override(ctx,sem):
    m=sem.m; done=set(); n=0
    for a in sem.algos.values():
        t=a.slots.get('cache.can_insert')
        if not t or t=='cache_can_insert_default': continue
        fn=m.fns[t]
        if t in done: continue
        done.add(t); n+=1; nm=a.name
        dft=lambda i: i.callee=='cache_can_insert_default'
        ex=Bool(fn,dft); ex.run()
        ctx.count('exits of own can_insert functions',len(ex.exits))
        err={}
        for i in fn.live():
            if i.op in('call','invoke') and dft(i) and (fn.ex(i.o[0])!=SELF or fn.ex(i.o[1])!=('arg',1)): err.setdefault('the shared admission function is asked about something else',i)
        filled=fills(sem,m.fns[a.slots['cache.insert']]) if 'cache.insert' in a.slots else set()
        for tr,c,val,f,z,i in ex.exits:
            big=small=False
            for x in f:
                if x[0]!='le': continue
                tt,k=leterms(fn,x); tt=norm(tt)
                own={SZ,MD}
                rest={e:v for e,v in tt.items() if e not in own}
                if SZ not in tt or len(rest)!=1: continue
                e,v=next(iter(rest.items()))
                if v!=-tt[SZ]: continue
                if tt[SZ]==1: small=True       # size (+md) <= limit
                else: big=True
                # which part
                p=part(fn,x)
                if p and filled and p not in filled: err.setdefault('the object is compared with %s, which an insertion never fills'%p,i)
            sub=[j for j in fn.live() if j.op in('call','invoke') and not j.callee and fn.slotof(j)=='cache.can_insert']
            if nm not in NODEFAULT:
                if len(c)!=1 : err.setdefault('the shared admission function is asked %d times on a path'%len(c),i); continue
                if tr and not true(val[c[0]]): err.setdefault('an object refused by the shared admission function is let in',i)
            else: 
                if len(c)>1: err.setdefault('the shared admission function is asked twice',i)
            refused=c and val[c[0]]==0
            if tr and big: err.setdefault('an object known to be larger than the part it goes to is let in',i)
            if not tr and not refused and not big and not sub: err.setdefault('an admitted object that fits is refused',i)
        for k,i in err.items(): ctx.bad('override','%s: %s'%(nm,k),'%s: %s'%(fn.src,k),i.where())
        if not err: ctx.ok('override',nm)
    ctx.floor('own can_insert functions',n,9)
def part(fn,fact):
    """params field of the sub cache whose capacity the fact compares with"""
    for e,k in fact[1]:
        x=e
        while x[0] in('zext','sext','trunc'): x=x[2]
        if x[0]!='ld': continue
        f=fn.fieldinfo(x[1])
        if not f or f!=('cache','cache_size') and (f[0],f[1])!=('cache','cache_size'): continue
        b=base_of(x[1])
        if b[0]=='ld':
            g=fn.fieldinfo(b[1])
            if g: return g[1]
    return None
def fills(sem,fn):
    """params fields of nested caches an insertion stores into"""
    out=set()
    names=[fn.name]
    for n in names:
        f=sem.m.fns[n]
        for i in f.live():
            if i.op in('call','invoke') and i.callee in sem.m.fns and i.callee not in names and sem.m.fns[i.callee].relfile==fn.relfile: names.append(i.callee)
    for n in names:
        f=sem.m.fns[n]
        for i in f.live():
            if i.op in('call','invoke') and not i.callee and f.slotof(i) in('cache.insert','cache.get'):
                e=f.ex(i.o[0])
                for y in ([e] if e[0]!='phi' else phis(f,e)):
                    if y[0]=='ld':
                        g=f.fieldinfo(y[1])
                        if g: out.add(g[1])
    return out
def phis(f,e,seen=None):
    seen=seen or set(); out=[]
    if e[0]!='phi' or e[1] in seen: return [e]
    seen.add(e[1])
    for o in f.ins[e[1]].o: out+=phis(f,f.ex(o),seen)
    return out
def vals(f,e,d=0):
    """the values an expression may select from"""
    e=strip(e); out=[]
    if d>8: return [e]
    if e[0]=='phi':
        for y in phis(f,e): out+=vals(f,y,d+1) if y[0]!='phi' else []
        return out
    if e[0]=='sel': return vals(f,e[2],d+1)+vals(f,e[3],d+1)
    return [e]
class Once(Explorer):
    max_states=60000
    def __init__(s,fn,algo): super().__init__(fn); s.algo=algo; s.err=None; s.n=0
    def init(s): return 0
    kind=GetProto.kind
    def transfer(s,i,P):
        if i.op in('call','invoke'):
            k=s.kind(i)
            if k in('cache.can_insert','base'):
                s.n+=1
                if P.st and s.err is None: s.err=i
                P.st=1
        return None
def once(ctx,sem):
    m=sem.m; n=0
    todo=[('the shared access function',None,ctx.need(m.get('cache_get_base'),'cache_get_base'))]
    for a in sem.algos.values():
        if a.slots.get('cache.get') in m.fns: todo.append((a.name,a,m.fns[a.slots['cache.get']]))
    for nm,a,fn in todo:
        e=Once(fn,a); e.run(); n+=1
        ctx.check('once',nm,e.err is None,'%s: one access asks for admission twice'%nm,e.err.where() if e.err else '')
    ctx.floor('access functions',n,45)
# ---------------------------------------------------------------- policies
def strip(e):
    while e[0] in('zext','sext','trunc','freeze'): e=e[2]
    return e
def policies(m):
    out={}
    for f in m.repo_fns():
        if '/admission/' not in f.relfile: continue
        for i in f.live():
            if i.op=='store' and f.fld(i)=='admissioner.admit' and isinstance(i.o[0],list) and i.o[0][0]=='F': out[i.o[0][1]]=f
    return out
def writes(fn):
    for i in fn.live():
        if i.op=='store' and base_of(fn.ex(i.o[1]))==('arg',1): yield i
def admit_rules(ctx,m):
    pol=policies(m)
    ctx.floor('admission policies',len(pol),4)
    for t,cr in sorted(pol.items()):
        fn=m.fns[t]; nm=fn.src
        bad=list(writes(fn))
        ctx.check('pure',nm,not bad,'%s: an admission policy changes the request'%nm,bad[0].where() if bad else '')
        draw=lambda i: i.callee and m.srcname(i.callee) in('next_rand','next_rand_double','next_rand_double_g')
        look=lambda i: i.callee and ('lookup' in i.callee or 'contains' in i.callee)
        ex=Bool(fn,lambda i: draw(i) or look(i)); ex.run()
        ctx.count('exits of admission policies',len(ex.exits))
        isprob=any(draw(i) for i in fn.live() if i.op in('call','invoke'))
        isseen=any(look(i) for i in fn.live() if i.op in('call','invoke'))
        err={}
        if 'prob' in cr.src and not isprob: err['the decision draws no random number']=fn.blocks[0][0]
        if 'bloom' in cr.src and not isseen: err['the decision does not look the id up']=fn.blocks[0][0]
        if isprob: prob(ctx,m,fn,cr,ex,err)
        elif isseen: seen(ctx,m,fn,ex,err)
        elif 'prob' not in cr.src and 'bloom' not in cr.src: size(ctx,fn,ex,err)
        rule='prob' if isprob else 'seen' if isseen else 'size'
        for k,i in err.items(): ctx.bad(rule,'%s: %s'%(nm,k),'%s: %s'%(nm,k),i.where())
        if not err: ctx.ok(rule,nm)
def size(ctx,fn,ex,err):
    for tr,a,val,f,z,i in ex.exits:
        ok=False
        for x in f:
            if x[0]!='le': continue
            t,c=leterms(fn,x)
            t={k:v for k,v in norm(t).items()}
            lim=[k for k in t if k!=SZ]
            if SZ not in t or len(lim)!=1: continue
            l=lim[0]
            if not (isinstance(l[0],str) and 'threshold' in l[0] and l[1][0]=='ld' and fld(fn,l[1])==('admissioner.params',SELF)): continue
            if tr and t[SZ]==1 and t[l]==-1 and c==1: ok=True
            if not tr and t[SZ]==-1 and t[l]==1 and c==0: ok=True
        if not ok: err.setdefault('an object is %s without its size being %s the threshold'%(('admitted','below') if tr else ('refused','at least')),i)
def prob(ctx,m,fn,cr,ex,err):
    for tr,a,val,f,z,i in ex.exits:
        if len(a)!=1: err.setdefault('%d random numbers are drawn for one decision'%len(a),i); continue
        ok=None
        for x in f:
            if x[0]=='le':
                pos=[e for e,k in x[1] if k==1]; neg=[e for e,k in x[1] if k==-1]
                if len(x[1])!=2 or len(pos)!=1 or len(neg)!=1: continue
                d,l=(pos[0],neg[0]) if tr else (neg[0],pos[0])
                if x[2]!=(1 if tr else 0): continue
                d=strip(d)
                if d[0]=='urem' and strip(d[1])==('call',a[0]) and d[2][0]=='c' and fld(fn,l): ok=(fld(fn,l),d[2][1])
            elif x[0]=='f':
                p,t2,l,r=x[1],x[2],x[3],x[4]
                if strip(l)==('call',a[0]) and fld(fn,r) and (p in('olt','ult') and t2==tr or p in('oge','uge') and t2!=tr): ok=(fld(fn,r),None)
        if ok is None: err.setdefault('the object is %s without comparing the draw with the threshold'%('admitted' if tr else 'refused'),i); continue
        (fl,base),mod=ok
        if fld(fn,base)!=('admissioner.params',SELF): err.setdefault('the threshold is not the one of this policy',i); continue
        # how the creator computes that field
        st=[j for j in cr.live() if j.op=='store' and cr.fld(j)==fl]
        if not st: err.setdefault('the threshold %s is never computed'%fl,i); continue
        if mod is not None:
            good=False
            for j in st:
                e=strip(cr.ex(j.o[0]))
                if e[0] in('fptosi','fptoui'):
                    y=e[-1]
                    if y[0]=='fmul':
                        k=[q for q in y[1:] if q[0]=='f']; v=[q for q in y[1:] if q[0]!='f']
                        if len(k)==1 and float(k[0][1])==float(mod) and len(v)==1: good=True
            if not good: err.setdefault('the threshold is not probability * %d, the modulus of the draw'%mod,st[0])
    # range of the probability
    src=set()
    for j in cr.live():
        if j.op=='fcmp': src.add((j.pred,cr.ex(j.o[0])[0],cr.ex(j.o[1])))
    hi=any(p in('ogt','ugt') and c==('f',1.0) or p in('ole','ule') and c==('f',1.0) for p,_,c in src)
    lo=any(p in('ole','ule','ogt','ugt') and c==('f',0.0) for p,_,c in src)
    if not hi: err.setdefault('a probability above 1 is not refused',cr.blocks[0][0])
    if not lo: err.setdefault('a probability of 0 or less is not refused',cr.blocks[0][0])
def seen(ctx,m,fn,ex,err):
    look=[i for i in fn.live() if i.op in('call','invoke') and i.callee and 'lookup' in i.callee or i.op in('call','invoke') and i.callee and 'contains' in i.callee]
    ins=[i for i in fn.live() if i.op in('call','invoke') and i.callee and ('hash_table_insert' in i.callee or 'hash_table_add' in i.callee or 'hash_table_replace' in i.callee)]
    def wholeid(e):
        return fld0(fn,e)==('request.obj_id',('arg',1))
    for i in look:
        if not wholeid(fn.ex(i.o[1])): err.setdefault('the lookup does not use the whole object id',i)
    for i in ins:
        if not wholeid(fn.ex(i.o[1])): err.setdefault('the id remembered is not the whole object id',i)
        if 'lookup' in ''.join(x.callee for x in look) and len(i.o)>2:
            if not all(w[0]=='c' and w[1]!=0 or w[0]=='add' and any(q[0]=='c' and q[1]>0 for q in w[1:]) for w in map(strip,vals(fn,fn.ex(i.o[2])))): err.setdefault('the value remembered may be one that a lookup takes for unknown',i)
        if look and fn.ex(i.o[0])!=fn.ex(look[0].o[0]): err.setdefault('the id is remembered in another table than it is looked up in',i)
    ids={i.id for i in ins}
    ex2=Bool(fn,lambda i: i.id in ids or any(i.id==j.id for j in look)); ex2.run()
    lid={i.id for i in look}
    for tr,a,val,f,z,i in ex2.exits:
        l=[c for c in a if c in lid]; w=[c for c in a if c in ids]
        if len(l)!=1: err.setdefault('the id is looked up %d times'%len(l),i); continue
        if tr and not true(val[l[0]]): err.setdefault('an id that was not seen before is admitted',i)
        if not tr and val[l[0]]!=0: err.setdefault('an id that was seen before is refused',i)
        if not tr and not w: err.setdefault('an id is refused without being remembered',i)
        if w and a.index(w[0])<a.index(l[0]): err.setdefault('the id is remembered before it is looked up',i)
def fld0(fn,e):
    if e[0]!='ld': return None
    f=fn.fieldinfo(e[1])
    return f and (f[0]+'.'+f[1],base_of(e[1]))
# ---------------------------------------------------------------- names
def names(ctx):
    m=ctx.module('bin_cachesim'); n=0
    homes=[f for f in m.repo_fns() if any(i.callee and m.srcname(i.callee)==v for i in f.live() if i.op in('call','invoke') for v in NAMES.values())]
    homes=[f for f in homes if f.src in('create_admissioner',) or any(i.callee in('strcasecmp','strcmp') for i in f.live() if i.op=='call')]
    ctx.need(homes,'creation of admission policies by name')
    for fn in homes:
        ex=Names(fn); ex.run()
        for (name,cr,i) in sorted(ex.got,key=str):
            n+=1
            ctx.check('names',name,NAMES.get(name)==cr,'%s: admission policy "%s" creates %s'%(fn.src,name,cr),i.where())
        for name in NAMES:
            ctx.check('names','%s is known'%name,any(g[0]==name for g in ex.got),'%s: admission policy "%s" is not created'%(fn.src,name),fn.blocks[0][0].where())
        ctx.check('names','unknown name',not ex.fall,'%s: an unknown admission policy is not an error'%fn.src,ex.fall.where() if ex.fall else '')
        for i in fn.live():
            if i.op in('call','invoke') and i.callee and m.srcname(i.callee) in NAMES.values() and fn.src=='create_admissioner':
                ctx.check('names','parameters of '+m.srcname(i.callee),fn.ex(i.o[0])==('arg',1),'%s: %s does not get the admission parameters'%(fn.src,m.srcname(i.callee)),i.where())
    ctx.floor('admission names',n,5)
    # command line: every created cache gets its policy
    use=[(f,i) for f in m.repo_fns() for i in f.live() if i.op=='call' and i.callee and m.srcname(i.callee)=='create_admissioner']
    ctx.need(use,'use of create_admissioner')
    for f,i in use:
        a=[fldn(f,o) for o in i.o]
        ctx.check('names','%s: options'%f.src,a[:2]==['admission_algo','admission_params'],'%s: the admission policy is not created from the admission options (%s)'%(f.src,a),i.where())
        st=[j for j in f.live() if j.op=='store' and f.fld(j)=='cache.admissioner' and f.ex(j.o[0])==('call',i.id)]
        ctx.check('names','%s: given to the cache'%f.src,bool(st),'%s: the created admission policy is given to no cache'%f.src,i.where())
def fldn(f,o):
    e=f.ex(o)
    if e[0]!='ld': return None
    g=f.fieldinfo(e[1])
    return g and g[1]
class Names(Explorer):
    """which creator runs for which matched name"""
    def __init__(s,fn): super().__init__(fn); s.got=set(); s.fall=None; s.cmp={}
    def init(s): return (None,0)
    def transfer(s,i,P):
        if i.op in('call','invoke') and i.callee:
            c=s.fn.mod.srcname(i.callee)
            if c in NAMES.values():
                s.got.add((P.st[0],c,i)); P.st=(P.st[0],1)
        return None
    def onedge(s,t,truth,P):
        for a,tr in s.atoms(t.o[0],truth,P):
            if a.op!='icmp' or a.pred not in('eq','ne'): continue
            for x,y in((a.o[0],a.o[1]),(a.o[1],a.o[0])):
                if s.val(y,P)!=0: continue
                e=s.fn.ex(x)
                if e[0]!='call': continue
                j=s.fn.ins[e[1]]
                if j.callee not in('strcasecmp','strcmp'): continue
                k=[lit(s.fn,o) for o in j.o]; k=[q for q in k if q is not None]
                if k and (a.pred=='eq')==tr: P.st=(k[0],P.st[1])
        return P
    def onexit(s,i,P):
        if P.st[0] is None and not P.st[1] and s.fn.src=='create_admissioner': s.fall=s.fall or i
def lit(fn,o):
    if isinstance(o,list) and o[0]=='s': return o[1]
    e=fn.ex(o)
    return e[1] if e[0]=='str' else None
def run(ctx):
    m=ctx.module('core'); sem=ctx.sem('core')
    gate(ctx,m); override(ctx,sem); once(ctx,sem); admit_rules(ctx,m); names(ctx)
