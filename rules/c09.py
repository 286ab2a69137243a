"""A lookup reports exactly the cached objects.  Every path of every policy's
lookup (peeking and updating) is explored with the outcome of each index or
inner-cache lookup it makes.  "Absent" may be answered only when every part
whose objects the cache counts as its own was asked about the requested object
and did not have it (or the entry found is marked as a ghost by its own
fields); "present" only with the entry that such a part returned on this path
(or re-inserted for it), never with an entry of a part that is not counted."""
from lcs.resident import *
from lcs.effects import *
LEVEL='other'
EXPLAIN=__doc__
ASSUME=['an entry found in the own index that the policy treats as absent is a ghost entry: the decision reads a field of that entry','LRUv0, myMQv1, QDLPv0, MClock and SR_LRU are not selectable']
# LHD keeps its objects in a C++ map; GLCache is experimental; nop never holds an object
EXCEPT={'LHD','GLCache','nop','LIRS','LRUv0','myMQv1','QDLPv0','MClock'}
class Find(Explorer):
    """state: frozenset of ('first',K,b) outcome of the first lookup in K |
    ('now',K,b) outcome a repeated lookup must have | ('res',id) results denoting resident objects | ('ghost',id)"""
    max_states=120000; split=True
    def __init__(s,fn,res): super().__init__(fn); s.res=res; s.arrays=set(); s.hidden=[]; s.shown=[]; s.err={}; s.n=0; s.looks=0
    def init(s): return frozenset()
    def keepids(s,st): return [t[1] for t in st if t[0] in('res','ghost','nul')]
    def key(s,i,c):
        fn=s.fn; e=fn.ex(i.o[0])
        if c.startswith('chained_hashtable'):
            if e[0]=='ld':
                f=fn.fieldinfo(e[1])
                if f and f[1]=='hashtable': return subkey(fn,base_of(e[1]))
            return None
        return subkey(fn,e)
    def asked(s,i):
        e=s.fn.ex(i.o[1])
        while e[0] in('zext','sext','trunc'): e=e[2]
        return e==('arg',1) or e[0]=='ld' and base_of(e[1])==('arg',1)
    def transfer(s,i,P):
        fn=s.fn; st=P.st
        if i.op=='store':
            # n_obj of own index changed by hand
            return None
        if i.op not in('call','invoke') or not i.o: return None
        c=fn.mod.srcname(i.callee) if i.callee else fn.slotof(i)
        if not c: return None
        if any(t[0] in('res','ghost','nul') and t[1]==i.id for t in st):
            st=P.st=frozenset(t for t in st if not(t[0] in('res','ghost','nul') and t[1]==i.id))
        look=c in('cache.find','cache_find_base') or 'hashtable_find' in c
        if look and len(i.o)>1:
            K=s.key(i,c)
            if K is None: return None
            if not s.asked(i): return None
            s.looks+=1
            role='res' if K in s.res else 'ghost'
            now={t[2] for t in st if t[0]=='now' and t[1]==K}
            out=[]
            for b in now or (0,1):
                add={('now',K,b)}
                if not any(t[0]=='first' and t[1]==K for t in st): add.add(('first',K,b))
                add.add((role if b else 'nul',i.id))
                Q=Path(st|add,dict(P.env),dict(P.alias),dict(P.avail)); Q.env[i.id]=NZ if b else 0; Q.alias.pop(i.id,None)
                out.append(Q)
            return out
        if c in('cache.insert','cache.remove','cache.evict','cache.get','cache_insert_base','cache_evict_base','cache_remove_obj_base') or 'hashtable_delete' in c:
            K=s.key(i,c) if not c.startswith('chained') else 'self'
            st=frozenset(t for t in st if not(t[0]=='now' and t[1]==K))
            if c in('cache.insert','cache_insert_base') and K in s.res:
                st|={('res',i.id)}
                if c=='cache.insert': P.env[i.id]=NZ
            P.st=st
        return None
    def flags(s,v,truth,P):
        """one-byte fields of a found entry that the condition tests"""
        for i,tr in s.atoms(v,truth,P):
            if i.op!='icmp' or i.pred not in('eq','ne') or s.val(i.o[1],P)!=0: continue
            s.flag(i.o[0],tr if i.pred=='ne' else not tr,P)
        x=s.canon(v,P)
        if isinstance(x,int): s.flag(x,truth,P)
    def flag(s,v,truth,P):
        fn=s.fn; n=0; bit=''
        while isinstance(v,int) and v>=fn.nargs and n<8:
            j=fn.ins[v]
            if j.op in('zext','sext','trunc','freeze'): pass
            elif j.op in('and','lshr','ashr','shl') and isinstance(j.o[1],list) and j.o[1][0]=='i': bit='%s%d'%({'and':'&','shl':'<'}.get(j.op,'>'),j.o[1][1])+bit
            else: break
            v=s.canon(j.o[0],P); n+=1
        if not isinstance(v,int) or v<fn.nargs: return
        j=fn.ins[v]
        if j.op=='load' and (j.sz==1 or bit):
            p=j.o[0]
            while isinstance(p,int) and p>=fn.nargs and fn.ins[p].op in('getelementptr','bitcast'): p=s.canon(fn.ins[p].o[0],P)
            f=fn.fld(j)
            if f and isinstance(p,int) and any(t[0]=='res' and t[1]==p for t in P.st): P.st|={('flag',f+bit,int(truth))}
    def onedge(s,t,truth,P):
        s.flags(t.o[0],truth,P); return P
    def onexit(s,i,P): s.n+=1; s.out(i,i.o[0],P,0)
    def out(s,i,o,P,d):
        st=P.st; fn=s.fn
        v=s.canon(o,P); x=s.val(v,P) if isinstance(v,int) else constval(v)
        if x is None and isinstance(v,int) and v>=fn.nargs and fn.ins[v].op=='select' and d<4:
            j=fn.ins[v]
            for tr in(True,False):
                Q=Path(st,dict(P.env),dict(P.alias),dict(P.avail))
                if s.assume(j.o[0],tr,Q): s.flags(j.o[0],tr,Q); s.out(i,j.o[1] if tr else j.o[2],Q,d+1)
            return
        first={t[1]:t[2] for t in st if t[0]=='first'}
        fl=frozenset(t[1:] for t in st if t[0]=='flag')
        if x==0:
            for K in s.res:
                if K not in first:
                    if K not in s.arrays: s.err.setdefault(('absent',K),(i,'answers "absent" without asking %s about the object'%name(K)))
                elif first[K]==1:
                    if K=='self' and fl: s.hidden.append((fl,i))
                    else: s.err.setdefault(('absent',K),(i,'answers "absent" although %s has the object'%name(K)))
        else:
            if isinstance(v,int) and v>=fn.nargs and fn.ins[v].op=='load':
                b=fn.ex(fn.ins[v].o[0])
                vals=[fn.ex(j.o[0]) for j in fn.live() if j.op=='store' and fn.ex(j.o[1])==b] if b[0]=='alloca' else []
                c=[e[1] for e in vals if e[0]=='call']
                if vals and len(c)==len(vals) and all(('res',k) in st for k in c): v=c[0]
            if isinstance(v,int) and ('res',v) in st:
                if not any(first.get(K) for K in s.res): s.err.setdefault(('present','none'),(i,'answers "present" although no part counted in the cache has the object'))
                else: s.shown.append((fl,i,v))
            elif isinstance(v,int) and ('ghost',v) in st: s.err.setdefault(('present','ghost'),(i,'answers "present" with an entry of a part that is not counted in the cache'))
            else: s.err.setdefault(('present','other'),(i,'answers "present" with something that is not the result of looking up the object (%s)'%(fn.pp(fn.ex(o)))))
    def finish(s):
        """the flag that hides an entry must be tested the other way on every path that shows one"""
        if not s.hidden: return None
        G=frozenset.intersection(*[h[0] for h in s.hidden])
        if not G: s.err.setdefault(('absent','ghost'),(s.hidden[0][1],'answers "absent" for an entry of its index without a field of the entry that marks it as a ghost')); return None
        return G
    def consistent(s,G):
        for fl,i,v in s.shown:
            if 'self' not in s.res or s.fn.ins[v].op in('call','invoke') and s.fn.slotof(s.fn.ins[v])=='cache.insert': continue
            if not any((f,1-b) in fl for f,b in G): s.err.setdefault(('present','ghostflag'),(i,'answers "present" without testing %s, which marks ghost entries of the index'%'/'.join(sorted(f for f,b in G))))
def name(K): return 'its index' if K=='self' else K.split('.')[-1]
def run(ctx):
    for defs in((),):
        sem=ctx.sem('core',defs); m=sem.m; n=0
        for a in sorted(sem.algos.values(),key=lambda a:a.name):
            if a.name in EXCEPT: continue
            f=m.fns.get(a.slots.get('cache.find') or '')
            if f is None: continue
            res={K for K in residents(sem,a) if K}
            exs=[]; G=None
            for upd in(0,1):
                ex=Find(specialize(f,{2:upd}),res); ex.upd=upd
                for j in f.live():
                    if j.op=='getelementptr' and j.var and 'ptr' in j.ty:
                        K=None
                        for l in f.live():
                            if l.op=='load' and l.o[0]==j.id: K=subkey(f,f.ex(l.id))
                        if K: ex.arrays.add(K)
                try: ex.run()
                except TooManyStates: ctx.notes.append('state bound in %s'%f.src); continue
                exs.append(ex)
            for ex in exs:
                g=ex.finish()
                if g: G=g if G is None else G&g
            for ex in exs:
                if G is not None: ex.consistent(G)
                n+=1
                ctx.count('path exits',ex.n); ctx.count('lookups followed',ex.looks)
                for k,(i,msg) in ex.err.items(): ctx.bad(k[0],'%s %s %s'%(a.name,'find' if ex.upd else 'peek',k[1]),'%s %s'%(f.src,msg),i.where())
                if not ex.err: ctx.ok('lookup','%s %s (%s)'%(a.name,'find' if ex.upd else 'peek',','.join(sorted(map(name,res)))+(' except entries with '+'/'.join('%s=%d'%t for t in sorted(G)) if G else '')))
        ctx.floor('lookups',n,80)
