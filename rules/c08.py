"""C08: the object index (chained hash table) is an exact map.  Shape analysis
over abstract bucket chains of every length (lcs/chain.py): each operation is
interpreted on every abstract chain, with the object present at any position or
absent, to a fixpoint, and the resulting chain, return value, object count and
ownership are compared with those of an exact map."""
from lcs.ctx import *
from lcs.chain import *
LEVEL='other'
EXPLAIN=__doc__
ASSUME=['one object per id in the table (callers insert only after a failed lookup: C03, C07)','an object handed to insert_obj carries no stale chain link','the hash function is deterministic','an arithmetic overflow of the table size exponent does not occur','an operation whose control flow leaves the analysable fragment is reported as undecided, not as a violation']
PRE='chained_hashtable_'
def run(ctx):
    m=ctx.module('core'); slots=set(); und=[]; done=0
    def go(src,setup,onret,hook=None,args=None,target=True,iterate=False,need=True,pick=False):
        nonlocal done
        fn=m.get(src)
        if fn is None:
            if need: ctx.need(None,src)
            return None
        class C(Chain): pass
        C.args=args; C.REQID=reqid(m); C.iterate=iterate; C.pick=pick
        holder={}
        try:
            c=C.__new__(C); holder['c']=c
            c.__init__(m,fn,setup,onret,hook or free_hook,target)
        except Undet as e:
            ctx.notes.append('undecided: %s: %s'%(src,e)); und.append(src); 
            c=holder['c']
            if not c.faults: return None
        for msg,i in c.faults.items(): ctx.bad('chain','%s %s'%(src,msg),'%s: %s'%(src,msg),i.where())
        if not c.faults:
            ctx.check('chain',src,c.nret>0,'%s never returns'%src,fn.file); done+=1
        for sl,i in c.slots: slots.add((sl,src,i))
        ctx.count('abstract heaps explored',sum(len(x) for x in c.seen)); ctx.count('returns compared',c.nret)
        return c
    H=('p','ht',0); KEY=T('KEY'); OBJ=('p','T',0)
    def init(present,ext=(0,),hash_next=None):
        def f(c):
            for e in ext:
                for items in c.chains(present):
                    st=c.table(ext=e); c.put(st,items,('tab',('slot',KEY))); yield st
                if present=='maybe': pass
        return f
    def both(ext=(0,)):
        def f(c):
            for p in(True,False):
                yield from init(p,ext)(c)
        return f
    def present(st): return 'T' in st.order
    # ---- lookup
    def find_ret(c,i,st,rv):
        exp=OBJ if present(st) else NULL
        same(c,i,st,st.order)
        if rv!=exp: raise Fault('returns %s although the object is %s'%('NULL' if rv==NULL else 'another object' if rv!=OBJ else 'the object','in the table' if present(st) else 'not in the table'),i)
        if st.mem[('ht',c.NOBJ)]!=T('N'): raise Fault('a lookup changes the object count',i)
    go(PRE+'find_obj_id_v2',both(),find_ret,args={0:H,1:KEY})
    for src,arg in((PRE+'find_v2',('p','req',0)),(PRE+'find_obj_v2',('p','probe',0))):
        def su(c,arg=arg):
            for st in both()(c):
                st.mem[('probe',c.ID)]=KEY; yield st
        go(src,su,find_ret,hook=find_hook,args={0:H,1:arg})
    # ---- insert
    def ins_ret(c,i,st,rv):
        w=c.walk(st,i)
        if 'T' not in w: raise Fault('the inserted object is not in its bucket afterwards',i)
        if tuple(x for x in w if x!='T')!=st.order: raise Fault('an object already in the bucket is lost',i)
        if rv!=OBJ: raise Fault('does not return the inserted object',i)
        if st.mem[('ht',c.NOBJ)]!=T('+',T('N'),1): raise Fault('the object count does not grow by one',i)
    def ins_hook(c,name,i,a,st):
        if name=='create_cache_obj_from_request':
            if a[0]!=('p','req',0): raise Fault('the new object is not made from the request',i)
            st.mem[('T',c.NXT)]=NULL; st.kind['T']='T'; return [(st,OBJ)]
        r=expand_hook(c,name,i,a,st)
        return r if r is not None else free_hook(c,name,i,a,st)
    go(PRE+'insert_v2',init(False),ins_ret,hook=ins_hook,args={0:H,1:('p','req',0)})
    def su(c):
        for st in init(False,(1,))(c):
            st.kind['T']='T'; st.mem[('T',c.NXT)]=NULL; yield st
    go(PRE+'insert_obj_v2',su,ins_ret,hook=ins_hook,args={0:H,1:OBJ},need=False)
    # ---- delete
    def del_ret(was,isbool):
        def f(c,i,st,rv):
            gone=('freed','T') in st.ev
            w=c.walk(st,i); exp=tuple(x for x in st.order if x!='T'); p='T' in st.order
            if 'T' in w: raise Fault('the object is still in the bucket afterwards',i)
            if w!=exp: raise Fault('another object of the bucket is lost',i)
            if isbool and rv!=(1 if p else 0): raise Fault('reports %s although the object was %s'%('success' if rv==1 else 'failure','in the table' if p else 'not in the table'),i)
            n=st.mem[('ht',c.NOBJ)]
            if n!=(T('+',T('N'),-1) if p else T('N')): raise Fault('the object count does not follow the number of objects in the table',i)
            ext=st.mem[('ht',c.EXT)]
            if p and ext==0 and not gone: raise Fault('the removed object is not released',i)
            if gone and (ext or not p): raise Fault('releases an object the table does not own',i)
            if any(e[0]=='freed' and e[1]!='T' for e in st.ev): raise Fault('releases another object',i)
        return f
    go(PRE+'delete_v2',init(True,(0,1)),del_ret(True,False),args={0:H,1:OBJ})
    def su(c):
        for st in both((0,1))(c):
            st.kind['T']='T'; yield st
    go(PRE+'try_delete_v2',su,del_ret(None,True),args={0:H,1:OBJ},need=False)
    go(PRE+'delete_obj_id_v2',both((0,1)),del_ret(None,True),args={0:H,1:KEY},need=False)
    # ---- resize
    def exp_ret(c,i,st,rv):
        if st.order: raise Fault('objects of a bucket are not moved to the new table',i)
        if st.mem[('ht',c.TABOFF)]!=('p','tab1',0): raise Fault('the new table is not installed',i)
        hp=st.mem[('ht',c.HPW)]
        if ('alloc',T('shl',1,addc(hp,3))) not in st.ev: raise Fault('the new table does not have 2^hashpower buckets',i)
        if ('zeroed',T('shl',1,addc(hp,3))) not in st.ev: raise Fault('the new table is not zeroed',i)
        if st.mem[('ht',c.NOBJ)]!=T('N'): raise Fault('a resize changes the object count',i)
        if ('freed','tab') not in st.ev: raise Fault('the old table is not released',i)
    def exp_su(c): yield c.table()
    def exp_hook(c,name,i,a,st):
        r=alloc_hook(c,name,i,a,st)
        return r if r is not None else free_hook(c,name,i,a,st)
    c=go('_'+PRE+'expand_v2',exp_su,exp_ret,hook=exp_hook,args={0:H},target=False,iterate=True,need=False)
    if c: covers(ctx,c,'_'+PRE+'expand_v2',T('HP'))
    # ---- iteration
    def it_ret(c,i,st,rv):
        if st.order: raise Fault('objects of the last bucket are not visited',i)
    def it_hook(c,name,i,a,st):
        if i.callee is None and i.fp is not None and c.v(i.fp,st)==('p','callback',0):
            o=a[0]
            if not isptr(o) or o[1] not in st.order: raise Fault('calls the visitor with something that is not an unvisited object of the bucket',i)
            if a[1:]!=[('p','user',0)]: raise Fault('the visitor does not get the user data',i)
            n=o[1]; st.order=tuple(x for x in st.order if x!=n); st.ev+=(('freed',n),); st.mem={q:w for q,w in st.mem.items() if q[0]!=n}
            return [(st,TOP)]
        return None
    c=go(PRE+'foreach_v2',exp_su,it_ret,hook=it_hook,args={0:H,1:('p','callback',0),2:('p','user',0)},target=False,iterate=True)
    if c: covers(ctx,c,PRE+'foreach_v2',T('HP'))
    # ---- creation
    create(ctx,m,'create_'+PRE+'v2')
    # ---- random pick: a stored object
    def rnd_ret(c,i,st,rv):
        if not(isptr(rv) and rv[1]=='picked'): raise Fault('may return something that is not an object of the table',i)
    def rnd_hook(c,name,i,a,st):
        if name and 'rand' in name:
            r=T('rnd',i.id); st.mem={q:w for q,w in st.mem.items() if not hasname(q,r)}; return [(st,r)]
        return None
    go(PRE+'rand_obj_v2',exp_su,rnd_ret,hook=rnd_hook,args={0:H},target=False,need=False,pick=True)
    # ---- one bucket function everywhere
    forms={}
    for sl,src,i in slots: forms.setdefault(sl,[]).append((src,i))
    if forms:
        best=max(forms,key=lambda k:len({s for s,_ in forms[k]}))
        for sl,L in forms.items():
            for src in sorted({s for s,_ in L}):
                i=next(i for s,i in L if s==src)
                ctx.check('bucket',src,sl==best,'%s computes the bucket of an id differently from %s'%(src,', '.join(sorted({s for s,_ in forms[best]})[:3])),i.where())
    ctx.floor('operations decided',done,6)
def reqid(m): return next(x[1] for x in m.structs['request']['members'] if x[0]=='obj_id')
def same(c,i,st,exp):
    if c.walk(st,i)!=exp if ('tab',('slot',T('KEY'))) in st.mem else False: raise Fault('a lookup changes the chain',i)
def free_hook(c,name,i,a,st):
    if name in('free_cache_obj','free','g_free','my_free') and a:
        c.free(st,a[0],i); return [(st,TOP)]
    return None
def find_hook(c,name,i,a,st):
    if name==PRE+'find_obj_id_v2':
        if a[0]!=('p','ht',0): raise Fault('looks into another table',i)
        if a[1]!=T('KEY'): raise Fault('looks up another id than the one given',i)
        return [(st,('p','T',0) if 'T' in st.order else NULL)]
    if name in(PRE+'find_v2',) and a[0]==('p','ht',0): return [(st,('p','T',0) if 'T' in st.order and a[1]==('p','req',0) else NULL)]
    return None
def expand_hook(c,name,i,a,st):
    if name=='_'+PRE+'expand_v2' and a[0]==('p','ht',0):
        out=[]
        for items in c.chains(False):
            n=st.copy(); n.mem={q:w for q,w in n.mem.items() if not(isinstance(q[1],tuple)) and not (q[0] in n.kind and q[0]!='T')}
            n.kind={k:v for k,v in n.kind.items() if k=='T'}; n.order=()
            n.mem[('ht',c.HPW)]=addc(n.mem[('ht',c.HPW)],1)
            c.put(n,items,('tab',('slot',T('KEY')))); out.append((n,TOP))
        return out
    return None
def alloc_hook(c,name,i,a,st):
    if name in('calloc','malloc','aligned_alloc') and not any(e[0]=='alloc' for e in st.ev):
        if name=='calloc':
            sz=c.op('mul',a[0],a[1]) if not(isinstance(a[0],int) and isinstance(a[1],int)) else a[0]*a[1]; st.ev+=(('alloc',sz),('zeroed',sz))
        else: st.ev+=(('alloc',a[0]),)
        return [(st,('p','tab1',0))]
    if name and name.startswith(('llvm.memset','memset')) and a[0]==('p','tab1',0) and a[1]==0:
        if ('zeroed',a[2]) not in st.ev: st.ev+=(('zeroed',a[2]),)
        return [(st,TOP)]
    return None
def covers(ctx,c,src,hp):
    """the bucket loop visits 0 .. 2^hp-1, each once"""
    fn=c.fn; ivs={c.ivof(idx) for idx,_ in c.buckets if isinstance(idx,tuple) and c.ivof(idx)}
    at=next(iter(c.buckets))[1].where() if c.buckets else fn.file
    if len(ivs)!=1:
        ctx.notes.append('undecided: %s: bucket loop not recognised'%src); return
    k=ivs.pop(); phi=fn.ins[k]; body=c.loops.get(phi.bb)
    init=[o for o,ib in zip(phi.o,phi.j['in']) if ib not in body]; step=[o for o,ib in zip(phi.o,phi.j['in']) if ib in body]
    def rel(o):
        if not isinstance(o,int): return None
        if o==k: return 0
        j=fn.ins.get(o)
        if j is None: return None
        if j.op in('add','sub') and isinstance(j.o[1],list) and j.o[1][0]=='i':
            r=rel(j.o[0]); return None if r is None else r+(j.o[1][1] if j.op=='add' else -j.o[1][1])
        if j.op in('zext','sext','trunc','freeze'): return rel(j.o[0])
        return None
    steps={rel(o) for o in step}
    start={o[1] if isinstance(o,list) and o[0]=='i' else None for o in init}
    size=T('shl',1,hp)
    exits=[b for b in body if any(t not in body and not dead(fn,t) for t in fn.succ[b])]
    conds=[cc for cc in c.cmps if cc[1]==k and any(fn.blocks[b] and uses(fn,fn.blocks[b][-1],cc[0]) for b in exits)]
    offs={off(idx) for idx,_ in c.buckets if isinstance(idx,tuple)}
    if steps=={1} and start=={0}:
        if not conds or any(fn.ins[cc[0]].pred not in('ult','slt','ne','uge','sge','eq','ule','sle','ugt','sgt') for cc in conds):
            ctx.notes.append('undecided: %s: loop exit not recognised'%src); return
        for cc in conds:
            pred=fn.ins[cc[0]].pred; 
            if cc[4]: pred={'ult':'ugt','slt':'sgt','ugt':'ult','sgt':'slt','ule':'uge','sle':'sge','uge':'ule','sge':'sle'}.get(pred,pred)
            lim=cc[3]; o=off(cc[2])
            # continue while iv+o < lim, i.e. visits iv = 0 .. lim-1-o
            if pred in('ule','sle','ugt','sgt'): lim=addc(lim,1) if lim!=TOP else lim
            lim=addc(lim,-o) if lim!=TOP and o else lim
            ctx.check('all-buckets',src,lim==size and offs<={0},'%s does not visit exactly the buckets 0 .. 2^hashpower-1 of the table'%src,fn.ins[cc[0]].where())
    elif None not in steps and (steps-{1}) and start=={0} and -1 not in steps: ctx.bad('all-buckets',src,'%s skips buckets'%src,at)
    elif steps=={1} and None not in start: ctx.bad('all-buckets',src,'%s does not start with the first bucket'%src,at)
    else: ctx.notes.append('undecided: %s: bucket loop direction'%src)
def off(t): return t[3] if isinstance(t,tuple) and t[:2]==('t','+') else 0
def dead(fn,b): 
    return fn.exitcall[b] is not None
def uses(fn,t,vid,d=0):
    for o in t.o:
        if o==vid: return True
        if isinstance(o,int) and o in fn.ins and d<4 and fn.ins[o].op in('zext','trunc','xor','call','freeze','icmp','sext') and uses(fn,fn.ins[o],vid,d+1): return True
    return False
def create(ctx,m,src):
    fn=ctx.need(m.get(src),src); h={x[0]:x[1] for x in m.structs['hashtable']['members']}
    class C(Chain): args={0:T('HP')}; REQID=0
    def setup(c):
        st=St(); yield st
    def hook(c,name,i,a,st):
        if name in('malloc','calloc'):
            sz=a[0] if name=='malloc' else (a[0]*a[1] if isinstance(a[0],int) and isinstance(a[1],int) else c.op('mul',a[0],a[1]))
            if sz==m.structs['hashtable']['size']:
                return [(st,('p','ht',0))]
            st.ev+=(('alloc',sz),)+((('zeroed',sz),) if name=='calloc' else ())
            return [(st,('p','tab',0))]
        if name and name.startswith('llvm.memset') and a[1]==0:
            if a[0]==('p','ht',0):
                for f,o in h.items(): st.mem[('ht',o)]=0
                st.mem[('ht',c.TABOFF)]=NULL
            elif a[0]==('p','tab',0): st.ev+=(('zeroed',a[2]),)
            return [(st,TOP)]
        return None
    def ret(c,i,st,rv):
        hp=T('HP'); size=T('shl',1,addc(hp,3))
        if rv!=('p','ht',0): raise Fault('does not return the new table',i)
        if st.mem.get(('ht',c.HPW))!=hp: raise Fault('the table does not remember its size',i)
        if st.mem.get(('ht',c.NOBJ))!=0: raise Fault('a new table is not empty',i)
        if st.mem.get(('ht',c.TABOFF))!=('p','tab',0) or ('alloc',size) not in st.ev: raise Fault('the bucket array does not have 2^hashpower entries',i)
        if ('zeroed',size) not in st.ev: raise Fault('the bucket array is not cleared',i)
    try:
        c=C(m,fn,setup,ret,hook)
        for msg,i in c.faults.items(): ctx.bad('create','%s'%msg,'%s: %s'%(src,msg),i.where())
        if not c.faults: ctx.ok('create',src)
    except Undet as e: ctx.notes.append('undecided: %s: %s'%(src,e))
