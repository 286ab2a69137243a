"""Trace sampling.  A sampler family is the set of functions a creator puts into
a sampler's slots.  Decided for every family, the request reader and the tools:
 select   the spatial sampler keeps a record exactly when the hash of its whole
          object id is a multiple of the inverse ratio and depends on nothing that
          changes between records; the cached hash it uses is cleared before every
          record; the temporal sampler counts each record once, keeps it exactly
          when the count reaches the inverse ratio and then starts over;
 create   the creator rejects ratios outside (0,1], records the ratio and the
          truncated inverse, and fills the slots from one family;
 clone    a clone has the same configuration, its own counters, and the initial
          counter values of a new sampler;
 reader   a reader asks its own clone of the sampler about every record, exactly
          once, returns only kept records, and still has the sampler afterwards;
 tools    the ratio given on the command line reaches the sampler unchanged and
          the sampler reaches the reader."""
from lcs.engine import Explorer,NZ,Path,constval
from lcs.lin import *
from rules.c14 import guards,enumerators
from rules.c18 import root
ASSUME=['the XXH3 hash is a pure function of the bytes it is given','a request structure handed to the samplers directly (not through a reader) has its hash field cleared by the caller']
CFG=('sampling_ratio_inv','sampling_ratio')
def stripx(e):
    while e[0] in('zext','sext','trunc','freeze'): e=e[2]
    return e
def families(m):
    out=[]
    for f in m.repo_fns():
        sl={}; ty=None
        for i in f.live():
            if i.op!='store': continue
            g=f.fld(i) or ''
            if not g.startswith('sampler.'): continue
            k=g.split('.')[-1]
            if isinstance(i.o[0],list) and i.o[0][0]=='F': sl.setdefault(k,set()).add(i.o[0][1])
            if k=='type' and isinstance(i.o[0],list) and i.o[0][0]=='i': ty=i.o[0][1]
        if 'sample' in sl: out.append((f,sl,ty))
    return out
def hash_of_id(fn,i):
    """call of a hash over the 8 bytes of req->obj_id, unseeded"""
    if i.op!='call' or not i.callee: return False
    n=fn.mod.srcname(i.callee)
    a=fn.ex(i.o[0])
    if not (a[0]=='adr' or a[0]=='arg') or (fn.fieldinfo(a) or ('',''))[1]!='obj_id' or root(fn,a)!=('arg',1): return False
    if n=='get_hash_value_int_64': return True
    return n.startswith(('XXH3_64','XXH64')) and fn.ex(i.o[1])==('c',8) and fn.ex(i.o[2])==('c',0)
class Dec(Explorer):
    """which comparison decides the result"""
    def __init__(s,fn,kind): super().__init__(fn); s.kind=kind; s.bad=[]; s.n=0; s.out=set()
    # state: (facts, counter as ('old',k)/('c',v))
    def init(s): return (frozenset(),('old',0))
    def ctr(s,i):
        f=s.fn.fieldinfo(s.fn.ex(i.o[-1])) or ('','')
        return not f[0].startswith(('request','sampler')) and root(s.fn,s.fn.ex(i.o[-1]))==('arg',0)
    def transfer(s,i,P):
        fn=s.fn
        if s.kind=='temporal' and i.op=='load' and s.ctr(i): P.st=(P.st[0]|{('v',i.id,P.st[1])},P.st[1])
        if s.kind=='temporal' and i.op=='store' and s.ctr(i):
            P.st=(P.st[0],s.cval(i.o[0],P))
        if i.op=='select' and i.ty!='i1' and s.val(i.o[0],P) is None and isinstance(i.o[0],int):
            out=[]
            for tr in (True,False):
                Q=Path(P.st,dict(P.env),dict(P.alias),dict(P.avail))
                if not s.assume(i.o[0],tr,Q): continue
                s.learn(i.o[0],tr,Q)
                x=s.canon(i.o[1] if tr else i.o[2],Q)
                if isinstance(x,int): Q.alias[i.id]=x
                elif constval(x) is not None: Q.env[i.id]=constval(x)
                out.append(Q)
            return out
        return None
    def cval(s,v,P,d=0):
        x=s.val(v,P)
        if isinstance(x,int): return ('c',x)
        for y in P.st[0]:
            if y[0]=='v' and y[1]==v: return y[2]
        if isinstance(v,int) and v>=s.fn.nargs and d<10:
            i=s.fn.ins[v]
            if i.op in('zext','sext','trunc','freeze'): return s.cval(i.o[0],P,d+1)
            if i.op in('add','sub') :
                a,b=s.cval(i.o[0],P,d+1),s.val(i.o[1],P)
                if a and isinstance(b,int): return (a[0],a[1]+(b if i.op=='add' else -b))
            if i.op=='phi' or i.op=='select':
                c=s.canon(v,P)
                if c!=v: return s.cval(c,P,d+1)
        return None
    def cond(s,i):
        """('mult',truth-sense) / ('reach',...) of an integer comparison"""
        fn=s.fn
        if s.kind=='spatial':
            for a,b in((0,1),(1,0)):
                e=stripx(fn.ex(i.o[a]))
                if fn.ex(i.o[b])==('c',0) and i.pred in('eq','ne','ugt') and e[0]=='urem':
                    inv=stripx(e[2])
                    if inv[0]=='ld' and (fn.fieldinfo(inv[1]) or ('',''))[1]=='sampling_ratio_inv' and root(fn,inv[1])==('arg',0):
                        return i.pred=='eq',e[1]
        return None
    def reach(s,i,P):
        """counter + k compared with the inverse ratio: sense of `reached`"""
        fn=s.fn
        def term(v,d=0):
            c=s.cval(v,P)
            if c and c[0]=='old': return 'cnt',c[1]
            e=lin(fn.ex(v))
            if len(e[0])==1:
                k,n=list(e[0].items())[0]
                k=stripx(k)
                if n==1 and k[0]=='ld' and (fn.fieldinfo(k[1]) or ('',''))[1]=='sampling_ratio_inv': return 'inv',e[1]
            return None
        a,b=term(i.o[0]),term(i.o[1])
        if not a or not b or {a[0],b[0]}!={'cnt','inv'}: return None
        pred=i.pred
        if a[0]=='inv':
            a,b=b,a; pred={'ult':'ugt','ugt':'ult','ule':'uge','uge':'ule','slt':'sgt','sgt':'slt','sle':'sge','sge':'sle'}.get(pred,pred)
        k=a[1]-b[1]      # old + k  pred  inv
        if pred=='eq' and k==1 or pred[1:]=='ge' and k==1 or pred[1:]=='gt' and k==2: return True
        if pred=='ne' and k==1 or pred[1:]=='lt' and k==1 or pred[1:]=='le' and k==2: return False
        return None
    def onedge(s,t,truth,P): s.learn(t.o[0],truth,P); return P
    def learn(s,v,truth,P):
        for i,tr in s.atoms(v,truth,P):
            if i.op!='icmp': continue
            c=s.cond(i) if s.kind=='spatial' else None
            if c is not None: P.st=(P.st[0]|{('keep',tr==c[0],i.id)},P.st[1])
            if s.kind=='temporal':
                r=s.reach(i,P)
                if r is not None: P.st=(P.st[0]|{('keep',tr==r,i.id)},P.st[1])
    def onexit(s,i,P):
        s.n+=1
        K=[x for x in P.st[0] if x[0]=='keep']
        v=s.val(i.o[0],P)
        keep=None
        if isinstance(v,int): ret=v!=0
        elif v==NZ: ret=True
        else: ret=None
        if ret is None:
            x=i.o[0]; neg=False
            for _ in range(8):
                x=s.canon(x,P)
                if not isinstance(x,int) or x<s.fn.nargs: break
                j=s.fn.ins[x]
                if j.op in('zext','sext','trunc','freeze'): x=j.o[0]; continue
                if j.op=='xor' and s._i1(j.id): neg=not neg; x=j.o[0]; continue
                if j.op=='select' and s.val(j.o[1],P) in(1,-1) and s.val(j.o[2],P)==0: x=j.o[0]; continue
                if j.op=='select' and s.val(j.o[2],P) in(1,-1) and s.val(j.o[1],P)==0: x=j.o[0]; neg=not neg; continue
                if j.op=='icmp' and j.pred in('ne','eq') and s.val(j.o[1],P)==0 and isinstance(j.o[0],int) and s._boolish(j.o[0]):
                    if j.pred=='eq': neg=not neg
                    x=j.o[0]; continue
                if j.op=='icmp':
                    c=s.cond(j) if s.kind=='spatial' else None
                    if c is not None and c[0]!=neg: keep='expr'
                    if s.kind=='temporal' and s.reach(j,P) is not None and s.reach(j,P)!=neg: keep='reach'
                break
            if s.kind=='spatial':
                if keep!='expr': s.bad.append(('the result is not whether the hash of the object id is a multiple of the inverse ratio',i))
                return
            if keep=='reach': s.bad.append(('the count is not restarted when a record is kept',i)); return
            s.bad.append(('the result is not whether the count has reached the inverse ratio',i)); return
        if not K or any(x[1]!=ret for x in K):
            s.bad.append(('a record is %s although %s'%('kept' if ret else 'dropped','nothing decided it' if not K else 'its hash says otherwise' if s.kind=='spatial' else 'the count says otherwise'),i)); return
        if s.kind=='temporal':
            want=('c',0) if ret else ('old',1)
            if P.st[1]!=want: s.bad.append(('the count is %s after a record was %s'%('not restarted' if ret else 'not increased by exactly one','kept' if ret else 'dropped'),i))
def leaves(fn,v,seen=None,d=0):
    """value sources of v through phi/select/casts"""
    if seen is None: seen=set()
    if not isinstance(v,int) or v in seen or v<fn.nargs: return
    seen.add(v); i=fn.ins[v]
    if i.op in('phi',): 
        for o in i.o: yield from leaves(fn,o,seen)
        for o in i.o:
            if not isinstance(o,int): yield o
    elif i.op=='select':
        for o in i.o[1:]: yield from (leaves(fn,o,seen) if isinstance(o,int) else [o])
    elif i.op in('zext','sext','trunc','freeze'): yield from leaves(fn,i.o[0],seen)
    else: yield i
def pure_inputs(ctx,fn,nm):
    """nothing but the id, its cached hash and the configuration is read; only the cached hash is written"""
    bad=None
    for i in fn.live():
        if i.op in('load','store'):
            a=fn.ex(i.o[-1]); r=root(fn,a)
            if r[0]=='alloca': continue
            f=fn.fieldinfo(a) or ('','?')
            if r==('arg',1) and f[1] in('obj_id','hv') and (i.op=='load' or f[1]=='hv'): continue
            if r==('arg',0) and f[1] in CFG and i.op=='load': continue
            if r[0]=='glob' and i.op=='load' and f[1]=='?' : pass
            bad=bad or ('%s %s'%('reads' if i.op=='load' else 'changes',fn.pp(a)[:60]),i)
        elif i.op in('call','invoke') and not (i.callee or '').startswith('llvm.'):
            if not hash_of_id(fn,i) and not fn.mod.is_noreturn(i.callee or ''): bad=bad or ('calls %s'%(i.callee and fn.mod.srcname(i.callee) or 'through a pointer'),i)
    ctx.check('select',nm+' inputs',bad is None,'the decision is not a function of the object id alone: it %s'%(bad[0] if bad else ''),bad[1].where() if bad else '')
    # the hash used is that of the id, or the cached one
    b=None; n=0
    for i in fn.live():
        if i.op=='store' and (fn.fld(i) or '').endswith('.hv'):
            n+=1
            for l in leaves(fn,i.o[0]):
                if isinstance(l,list) or not hash_of_id(fn,l) : b=('the cached hash is not the hash of the whole object id',i)
        if i.op=='urem' and (fn.fieldinfo(stripx(fn.ex(i.o[1]))[1]) if stripx(fn.ex(i.o[1]))[0]=='ld' else ('',''))[1]=='sampling_ratio_inv':
            n+=1
            if fn.ins.get(i.o[0]) is not None and fn.ins[i.o[0]].op=='trunc': b=('only part of the hash decides',i)
            for l in leaves(fn,i.o[0]):
                if isinstance(l,list): b=('a constant takes the place of the hash',i); continue
                if hash_of_id(fn,l): continue
                if l.op=='load' and (fn.fld(l) or '').endswith('.hv') and cachedok(fn,l): continue
                b=('the value that decides is not the hash of the object id',i)
    ctx.check('select',nm+' hash',b is None and n>0,b[0] if b else 'no hash is used',b[1].where() if b else fn.file)
def cachedok(fn,l):
    """the cached hash decides only where it is known to be set: it is 0 on no path to the use"""
    # a load of hv: either guarded by hv!=0 on the way, or a store of a hash dominates it
    for i in fn.live():
        if i.op=='icmp' and i.pred in('eq','ne') and fn.ex(i.o[1])==('c',0) and stripx(fn.ex(i.o[0]))==fn.ex(l.id): return True
        if i.op=='icmp' and i.pred in('eq','ne') and fn.ex(i.o[1])==('c',0):
            e=stripx(fn.ex(i.o[0]))
            if e[0]=='ld' and (fn.fieldinfo(e[1]) or ('',''))[1]=='hv': return True
        if i.op=='store' and (fn.fld(i) or '').endswith('.hv') and fn.dominates(i,l): return True
    return False
class Range(Explorer):
    """facts about the ratio argument on the path that returns a sampler"""
    def __init__(s,fn): super().__init__(fn); s.bad=[]; s.n=0
    def init(s): return (False,False)
    def onedge(s,t,truth,P):
        for i,tr in s.atoms(t.o[0],truth,P):
            if i.op!='fcmp': continue
            a,b,p=i.o[0],i.o[1],i.pred[1:]
            if a!=0 and b==0 and isinstance(a,list): a,b=b,a; p={'gt':'lt','lt':'gt','ge':'le','le':'ge'}.get(p,p)
            if a!=0 or not isinstance(b,list) or b[0]!='f': continue
            try: c=float(b[1])
            except ValueError: continue
            if not tr: p={'gt':'le','le':'gt','lt':'ge','ge':'lt','eq':'ne','ne':'eq'}.get(p,p)
            lo,hi=P.st
            if p=='gt' and c>=0 or p=='ge' and c>0: lo=True
            if p in('le','lt') and c<=1: hi=True
            if p=='eq' and 0<c<=1: lo=hi=True
            P.st=(lo,hi)
        return P
    def onexit(s,i,P):
        if s.val(i.o[0],P)==0: return
        s.n+=1
        if P.st!=(True,True): s.bad.append(('a ratio outside (0,1] is accepted',i))
def create(ctx,m,f,sl,ty,E):
    nm=f.src
    a=next((k for k in range(f.nargs) if f.args[k][1].startswith('double')),None)
    if a is None: ctx.bad('create',nm+' argument','the creator does not take the ratio as a floating-point value',f.file); return
    if a!=0: ctx.notes.append(nm+': ratio is not the first argument'); return
    x=Range(f); x.run()
    ctx.check('create',nm+' range',not x.bad and x.n>0,x.bad[0][0] if x.bad else 'no sampler is returned',x.bad[0][1].where() if x.bad else f.file)
    for k in ('sampling_ratio_inv','sampling_ratio'):
        st=[i for i in f.live() if i.op=='store' and (f.fld(i) or '')=='sampler.'+k]
        ok=bool(st)
        for i in st:
            e=f.ex(i.o[0])
            if k=='sampling_ratio': ok&=e==('arg',0)
            else:
                while e[0] in('zext','sext','trunc'): e=e[2]
                ok&=e[0] in('fptosi','fptoui') and e[2][0]=='fdiv' and one(e[2][1]) and e[2][2]==('arg',0)
        ctx.check('create',nm+' '+k,ok,'the sampler does not record %s of the requested ratio'%('the value' if k=='sampling_ratio' else 'the truncated inverse'),(st[0].where() if st else f.file))
    for k in('sample','clone','free'):
        t=sl.get(k,set())
        ctx.check('create',nm+' slot '+k,len(t)==1,'the %s operation of the sampler is not set'%k,f.file)
    allocs(ctx,f,nm,E,ty)
def one(e):
    while e[0] in('sitofp','uitofp','fpext','fptrunc'): e=e[2]
    if e==('c',1): return True
    try: return e[0] in('f','fc','cf') and float(e[1])==1.0
    except (ValueError,TypeError): return False
def allocs(ctx,f,nm,E,ty): pass
def initial(f,own):
    """constant initial values stored into the private parameters: {(offset,size): const}"""
    out={}
    for i in f.live():
        if i.op!='store': continue
        a=f.ex(i.o[1]); k=f.fld(i) or ''
        if k.startswith('sampler.') or root(f,a)[0]=='alloca' or '.' not in k: continue
        out[k]=f.ex(i.o[0])
    return out
def clone(ctx,m,nm,f,creator,sample):
    """same configuration, own counters"""
    name=f.src
    ret=[i for i in f.live() if i.op=='ret']
    fields={'sample','sampling_ratio_inv','sampling_ratio','clone','free','type'}
    copied=set()
    full=[i for i in f.live() if i.op=='call' and (i.callee or '').startswith(('llvm.memcpy','memcpy','llvm.memmove')) and root(f,f.ex(i.o[1]))==('arg',0) and fresh(f,f.ex(i.o[0]))]
    size=max([i.j.get('off',0) for i in f.live() if i.op=='getelementptr']+[0])
    for i in full:
        if f.ex(i.o[2])==('c',56) or (f.ex(i.o[2])[0]=='c' and f.ex(i.o[2])[1]>=52): copied|=fields
    for i in f.live():
        if i.op=='store' and (f.fld(i) or '').startswith('sampler.') :
            k=f.fld(i).split('.')[-1]; e=f.ex(i.o[0])
            if k not in fields: continue
            same=e[0]=='ld' and (f.fieldinfo(e[1]) or ('',''))[1]==k and root(f,e[1])==('arg',0)
            same|=isinstance(i.o[0],list) and i.o[0][0]=='F' and i.o[0][1] in creator[1].get(k,set())
            if same: copied.add(k)
            else: copied.discard(k)
    # a clone made by calling the creator with the recorded ratio is complete
    viacreate=[i for i in f.live() if i.op=='call' and i.callee==creator[0].name]
    if viacreate:
        e=f.ex(viacreate[0].o[0])
        ok=e[0]=='ld' and (f.fieldinfo(e[1]) or ('',''))[1]=='sampling_ratio'
        ctx.check('clone',name,ok,'the clone is created with another ratio',viacreate[0].where()); return
    miss=fields-copied
    ctx.check('clone',name+' configuration',not miss,'the clone does not have the same %s'%', '.join(sorted(miss)),f.file)
    state=[i for i in sample.live() if i.op=='store' and not (sample.fieldinfo(sample.ex(i.o[1])) or ('',''))[0].startswith('request')]
    if not state: return
    own=[i for i in f.live() if i.op=='store' and (f.fld(i) or '')=='sampler.other_params']
    ok=bool(own) and all(fresh(f,f.ex(i.o[0])) for i in own) and all(f.dominates(own[-1],r) for r in ret) and all(not f.dominates(own[-1],j) for j in full)
    ctx.check('clone',name+' state',ok,'the clone shares its counters with the original',own[0].where() if own else f.file)
    want=initial(creator[0],None); got=initial(f,None)
    ctx.check('clone',name+' start',want==got,'the clone does not start from the counter values of a new sampler: %s instead of %s'%(got,want),f.file)
def fresh(f,e):
    r=e
    while r[0]=='adr': r=r[1]
    return r[0]=='call' and (f.ins[r[1]].callee or '') in('malloc','calloc','g_malloc0','g_malloc','_Znwm')
class Ask(Explorer):
    """read_one_req: every record is asked about once and only kept records are returned"""
    max_states=200000
    def __init__(s,fn,readers): super().__init__(fn); s.readers=readers; s.err={}; s.nask=0; s.nexit=0
    # (slot: 'own','null','none'; asked: '-',U,yes,no,end ; decoded; cleared)
    def init(s): return ('own','-',False,False)
    def rep(s,k,m,i): s.err.setdefault(k,(m,i))
    def smp(s,v,P):
        v=s.canon(v,P)
        return isinstance(v,int) and v>=s.fn.nargs and s.fn.ins[v].op=='load' and (s.fn.fld(s.fn.ins[v]) or '')=='reader.sampler'
    def onedge(s,t,truth,P):
        a,k,d,c=P.st
        for i,tr in s.atoms(t.o[0],truth,P):
            if i.op=='icmp' and i.pred in('eq','ne') and s.val(i.o[1],P)==0 and s.smp(i.o[0],P):
                null=tr==(i.pred=='eq')
                if null and a=='own': P.st=('none',k,d,c)
                elif null==(a=='none') : pass
                elif a=='none' and not null: return None
        return P
    def transfer(s,i,P):
        fn=s.fn; a,k,d,c=P.st
        if i.op=='store':
            g=fn.fld(i) or ''
            if g=='reader.sampler':
                if s.val(i.o[0],P)==0: P.st=('null' if a!='none' else a,k,d,c)
                elif s.smp(i.o[0],P): P.st=('own' if a!='none' else a,k,d,c)
                else: s.rep('keep','the reader gets another sampler',i)
            if g=='request.hv': P.st=(a,k,d,s.val(i.o[0],P)==0)
            return None
        if i.op not in('call','invoke'): return None
        if fn.slotof(i)=='sampler.sample':
            s.nask+=1
            if k in('yes','no'): s.rep('once','a record is asked about twice',i)
            if not c and d: s.rep('clear','the sampler is asked while the request still carries the hash of an earlier record',i)
            out=[]
            for h,n in((1,'yes'),(0,'no')):
                Q=Path((a,n,d,c),dict(P.env),dict(P.alias),dict(P.avail)); Q.env[i.id]=h; out.append(Q)
            return out
        n=fn.mod.srcname(i.callee) if i.callee else ''
        if n in('read_one_req','read_one_req_above'):
            ok=Path((a,'U' if a in('null','none') else 'yes',True,True),dict(P.env),dict(P.alias),dict(P.avail)); ok.env[i.id]=0
            end=Path((a,'end',True,True),dict(P.env),dict(P.alias),dict(P.avail)); end.env[i.id]=NZ
            if k=='yes': s.rep('once','a kept record is replaced by the next one',i)
            return [ok,end]
        if i.callee in s.readers:
            P.st=(a,'U',True,c)
            ok=Path((a,'U',True,c),dict(P.env),dict(P.alias),dict(P.avail)); ok.env[i.id]=0
            end=Path((a,'end',True,c),dict(P.env),dict(P.alias),dict(P.avail)); end.env[i.id]=NZ
            return [ok,end]
        return None
    def onexit(s,i,P):
        a,k,d,c=P.st; s.nexit+=1
        if a=='null': s.rep('keep','the reader loses its sampler: later records are no longer sampled',i)
        v=s.val(i.o[0],P) if i.o else None
        if v==NZ or isinstance(v,int) and v!=0: return
        if a!='none' and k=='end' and v==0: s.rep('end','success is reported although no further record was kept',i)
        if a!='none' and d and k!='yes' and k!='end': s.rep('all','a record is returned %s'%('although the sampler dropped it' if k=='no' else 'without asking the sampler'),i)
    def onabort(s,i,P): pass
class AskInl(Ask):
    """decoding that happens in the function itself (layouts inlined) counts as reading a record"""
    def __init__(s,fn,readers,dec): super().__init__(fn,readers); s.dec=dec
    def transfer(s,i,P):
        if i.id in s.dec and P.st[1]=='-': P.st=(P.st[0],'U',True,P.st[3])
        return super().transfer(i,P)
def run(ctx):
    m=ctx.module(); E={}
    fam=families(m)
    ctx.floor('sampler families',len(fam),2)
    ev=enumerators(); spat=ev.get('SPATIAL_SAMPLER',0); temp=ev.get('TEMPORAL_SAMPLER',1)
    for f,sl,ty in fam:
        nm=f.src
        create(ctx,m,f,sl,ty,E)
        sm=m.fns.get(next(iter(sl['sample'])))
        ctx.need(sm,'sample function of '+nm)
        kind='spatial' if ty==spat else 'temporal' if ty==temp else None
        if kind is None and 'spatial' in nm: kind='spatial'
        if kind is None: ctx.notes.append(nm+': kind of sampler not recognised, selection not examined'); continue
        ctx.check('create',nm+' kind',ty is not None and kind in nm,'the sampler is marked as being of another kind',f.file)
        x=Dec(sm,kind); x.run()
        ctx.check('select',sm.src,not x.bad and x.n>0,x.bad[0][0] if x.bad else 'no result',x.bad[0][1].where() if x.bad else sm.file)
        if kind=='spatial': pure_inputs(ctx,sm,sm.src)
        cl=m.fns.get(next(iter(sl.get('clone',{''})),''))
        if cl: clone(ctx,m,nm,cl,(f,sl),sm)
    # ---- the reader
    from rules.c15 import readers,Rec
    R={f.name for f in readers(m)}
    n=0
    for f in m.bysrc.get('read_one_req',[]):
        if not any(f.slotof(i)=='sampler.sample' for i in f.live() if i.op=='call'):
            ctx.bad('reader','asked','no record is ever handed to the sampler',f.file); continue
        dec={i.id for i in f.live() if i.op=='load' and Rec.cached(f).at(f.ex(i.o[0])) is not None}
        x=AskInl(f,R,dec); x.run(); n+=x.nexit
        for k in('all','once','keep','clear','end'):
            e=x.err.get(k); ctx.check('reader',k,e is None,e[0] if e else '',e[1].where() if e else '')
    ctx.floor('exits of the request reader',n,3)
    # decoders leave the cleared hash alone
    for f in m.repo_fns():
        if '/traceReader/' not in f.file or '/sampling/' in f.file: continue
        for i in f.live():
            if i.op=='store' and (f.fld(i) or '')=='request.hv' and f.ex(i.o[0])!=('c',0): ctx.bad('reader','hash in '+f.src,'a decoder sets the hash the sampler relies on',i.where())
    own(ctx,m)
    # ---- the tools
    t=0
    common=ctx.module('bin_common')
    mods=[ctx.module('bin_cachesim'),ctx.module('bin_traceUtils'),common]
    creators={f.src for f,_,_ in fam}
    sinks={}           # (function source name, parameter) -> reaches a sampler
    for M in mods:
        for f in M.repo_fns():
            for i in f.live():
                if i.op!='call' or not i.callee or M.srcname(i.callee) not in creators: continue
                t+=1
                e=f.ex(i.o[0])
                ctx.check('tools',f.src+' ratio',e[0] in('arg','ld') and ratio_ty(f,e),'the sampler is created with %s rather than the requested ratio'%f.pp(e),i.where())
                if e[0]=='arg': sinks[f.src,e[1]]=True
                gs=[(c,tr) for c,tr in guards(f,i)]
                bad=[c for c,tr in gs if c.op=='fcmp' and not any(f.ex(o)==e for o in c.o) ]
                fc=[(c,tr) for c,tr in gs if c.op=='fcmp']
                b=bounds(f,fc,e)
                ctx.check('tools',f.src+' range',b is None,b or '',i.where())
                used=any(j.op=='store' and f.ex(j.o[0])==('call',i.id) and (f.fld(j) or '').endswith('.sampler') for j in f.live()) 
                ctx.check('tools',f.src+' installed',used,'the sampler is not handed to the reader',i.where())
                op=[j for j in f.live() if j.op=='call' and j.callee and M.srcname(j.callee) in('setup_reader','open_trace')]
                st=[j for j in f.live() if j.op=='store' and f.ex(j.o[0])==('call',i.id)]
                if op and st: ctx.check('tools',f.src+' order',all(reach(f,j,o) for j in st for o in op) and not any(overwr(f,j,o) for j in st for o in op),'the reader is opened before the sampler is installed',i.where())
    ctx.floor('places where a tool creates a sampler',t,2)
    for M in mods:
        opt=[(f,i) for f in M.repo_fns() for i in f.live() if i.op=='store' and (f.fld(i) or '').endswith('.sample_ratio')]
        for f,i in opt:
            e=f.ex(i.o[0])
            ctx.check('tools','option in %s %s'%(f.src,f.file.split('/')[-2]),i.sz==8 and e[0] not in('sitofp','uitofp') or e[0] in('f','cf','fc','c'),'the option value loses its fraction: '+f.pp(e),i.where())
        for f in M.repo_fns():
            for i in f.live():
                if i.op not in('call','invoke') or not i.callee: continue
                s=M.srcname(i.callee)
                for (g,k) in sinks:
                    if s==g and k<len(i.o):
                        e=f.ex(i.o[k])
                        has=any((ff.fld(j) or '').endswith('.sample_ratio') for ff,j in opt)
                        if has: ctx.check('tools','%s call of %s'%(f.src,g),e[0]=='ld' and (f.fieldinfo(e[1]) or ('',''))[1]=='sample_ratio','the reader is created with the ratio %s instead of the given one'%f.pp(e),i.where())
def ratio_ty(f,e):
    if e[0]=='arg': return f.args[e[1]][1].startswith('double')
    return (f.fieldinfo(e[1]) or ('',''))[1]=='sample_ratio'
def bounds(f,fc,e):
    """comparisons under which a sampler is created: some ratio in (0,1) must not be left out"""
    for c,tr in fc:
        for a,b in((0,1),(1,0)):
            if f.ex(c.o[a])!=e or not isinstance(c.o[b],list) or c.o[b][0]!='f': continue
            try: k=float(c.o[b][1])
            except ValueError: continue
            p=c.pred[1:]
            if a==1: p={'gt':'lt','lt':'gt','ge':'le','le':'ge'}.get(p,p)
            if not tr: p={'gt':'le','le':'gt','lt':'ge','ge':'lt','eq':'ne','ne':'eq'}.get(p,p)
            if p in('gt','ge') and k>1e-5: return 'ratios up to %g are ignored'%k
            if p in('lt','le') and k<0.999: return 'ratios from %g on are ignored'%k
            if p=='eq': return 'only one ratio is honoured'
    return None
def reach(f,a,b):
    seen=set(); st=[a.bb]
    if a.bb==b.bb and a.idx<b.idx: return True
    while st:
        x=st.pop()
        for y in f.succs(x) if hasattr(f,'succs') else (f.blocks[x][-1].j.get('succ') or []):
            if y==b.bb: return True
            if y not in seen: seen.add(y); st.append(y)
    return False
def overwr(f,s,o):
    """another store to the same place between the installation and the opening"""
    a=f.ex(s.o[1])
    for j in f.live():
        if j is s or j.op!='store' or f.ex(j.o[1])!=a: continue
        if reach(f,s,j) and reach(f,j,o): return True
    for j in f.live():
        if j.op=='call' and (j.callee or '').startswith(('llvm.memset','llvm.memcpy')) and root(f,f.ex(j.o[0]))==root(f,a) and root(f,a)[0]=='alloca' and reach(f,s,j) and reach(f,j,o): return True
    return False
def own(ctx,m):
    """a reader works on its own clone, made again when it is reset"""
    n=0
    for f in m.repo_fns():
        if '/traceReader/' not in f.file: continue
        for i in f.live():
            if i.op!='store' or (f.fld(i) or '')!='reader.sampler': continue
            e=f.ex(i.o[0])
            if e==('c',0) or e==('null',) or isinstance(i.o[0],list): continue
            if f.src=='read_one_req': continue
            n+=1
            ok=e[0]=='call' and f.slotof(f.ins[e[1]])=='sampler.clone'
            if ok:
                a=f.ex(f.ins[e[1]].o[0])
                ok=a[0]=='ld' and (f.fieldinfo(a[1]) or ('',''))[1] in('init_params.sampler','sampler') and not ((f.fieldinfo(a[1]) or ('',''))[1]=='sampler' and (f.fieldinfo(a[1]) or ('',''))[0]=='reader')
            ctx.check('reader','own sampler in '+f.src,ok,'the reader shares or loses its sampler: it uses %s'%f.pp(e),i.where())
    ctx.floor('places where a reader gets its sampler',n,1)
    r=m.get('reset_reader')
    if r:
        st=[i for i in r.live() if i.op=='store' and (r.fld(i) or '')=='reader.sampler']
        ctx.check('reader','reset',bool(st),'resetting a reader keeps the counters of the first pass',r.file)
