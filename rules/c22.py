"""Replacement order of the basic policies.  For each policy the functions installed for
lookup (with update), insertion, eviction and candidate are explored path by path; queue
positions are followed by the identity of the loaded values, decisions by the branch facts.
 FIFO, LRU, MRU, LRU-Prob, Clock, Sieve: a new object is put at the head of the queue; a hit
 moves the object to the head (LRU, MRU; LRU-Prob exactly when its random draw says so) or
 leaves the queue as it is (FIFO, Clock, Sieve); the victim is the object at the tail (head for
 MRU) when eviction starts.  Clock: a hit adds one to the counter unless it is at its maximum,
 new objects start at zero, only tail objects with a count are moved to the head, each losing
 one, and the victim is a tail object with none.  Sieve: a hit marks the object, new objects are
 unmarked, the hand starts where it was left (at the tail if nowhere), passes only marked
 objects, unmarking each, wraps from the head to the tail, evicts an unmarked object and stays
 on the one before it. Random: the victim is a
 random pick.  RandomTwo: of two random picks the one used no later, the time of use being set to
 the request count by every insertion and hit (RandomLRU sets it likewise).  Size: every insertion
 queues the object under its id with the size of the request as priority, a hit renews it, and
 the victim is the object named by the first entry of the priority queue.
 FIFO, LRU, MRU, LRU-Prob, Random, RandomTwo and Size report as candidate an object by the same
 rule; reporting changes nothing (Clock, Sieve: nothing else is checked)."""
from lcs.engine import *
from lcs.lin import *
from rules.c10 import referenced
import collections
LEVEL='other'
EXPLAIN=__doc__
ASSUME=['the shared queue operations do what their names say (C07)','the priority queue returns the first element of its order','the index finds the object with the given id (C08)']
SPEC={'FIFO':('keep','tail'),'LRU':('front','tail'),'MRU':('front','head'),'LRU_Prob':('draw','tail'),'Clock':('keep','clock'),'Sieve':('keep','sieve')}
def src(fn,v):
    while isinstance(v,int) and v>=fn.nargs and fn.ins[v].op in('zext','sext','trunc','freeze','bitcast'): v=fn.ins[v].o[0]
    return v
GONE={'cache_evict_base','cache_remove_obj_base'}
class Q(Explorer):
    split=True; max_states=120000
    def __init__(s,fn,pol,op,H,T,freq):
        super().__init__(fn); s.pol=pol; s.op=op; s.H=H; s.T=T; s.freq=freq; s.err={}; s.exits=0; s.hits=0; s.gone=0; s.seen=set()
    def init(s): return frozenset()
    def E(s,k,i,m): s.err.setdefault(k,(i,m))
    def keepids(s,st): return [y for x in st for y in x[1:] if isinstance(y,int) and not isinstance(y,bool)]
    def root(s,v,P):
        for _ in range(20):
            w=src(s.fn,s.canon(v,P)) if isinstance(v,int) else v
            if w==v: break
            v=w
        return v if isinstance(v,int) else tuple(map(str,v))
    def has(s,P,*t): return t in P.st
    def drop(s,P,f): P.st=frozenset(x for x in P.st if not f(x))
    def _redef(s,vid,P):
        """a value computed anew: what is known of the old one stays known under its other names"""
        al=[k for k,a in P.alias.items() if a==vid]; env=P.env.get(vid)
        Explorer._redef(s,vid,P)
        if any(vid in x[1:] for x in P.st):
            if al:
                w=al[0]
                P.st=frozenset((x[0],)+tuple(w if y==vid and not isinstance(y,bool) else y for y in x[1:]) for x in P.st)
            else:
                if s.has(P,'mv',vid) and not s.has(P,'dec',vid): s.E('dec',s.fn.ins[vid],'an object is moved to the head without losing one from its counter')
                P.st=frozenset(x for x in P.st if x[0] in('set','below','draw') and vid not in x[1:2] or not any(y==vid and not isinstance(y,bool) for y in x[1:]))
        if al:
            w=al[0]
            for k in al[1:]: P.alias[k]=w
            if env is not None: P.env[w]=env
    def arms(s,v,P):
        """the values an undecided select can have, each with what is known then"""
        r=s.root(v,P); i=s.fn.ins.get(r) if isinstance(r,int) and r>=s.fn.nargs else None
        if i is None or i.op!='select': yield r,P; return
        for k,tr in((1,True),(2,False)):
            W=Path(P.st,dict(P.env),dict(P.alias),dict(P.avail))
            if s.assume(i.o[0],tr,W): s.learn(i.o[0],tr,W); yield from s.arms(i.o[k],W)
    def own(s,f): return bool(f) and not f.split('.')[0] in('cache','cache_obj','request','reader')
    # ---- facts
    def onedge(s,t,truth,P): return s.learn(t.o[0],truth,P)
    def learn(s,cond,truth,P):
        fn=s.fn
        for i,tr in s.atoms(cond,truth,P):
            if i.op!='icmp': continue
            a,b=s.root(i.o[0],P),s.root(i.o[1],P); c=s.val(i.o[1],P); ca=s.val(i.o[0],P)
            p=i.pred
            L=fn.ins.get(a) if isinstance(a,int) and a>=fn.nargs else None
            R=fn.ins.get(b) if isinstance(b,int) and b>=fn.nargs else None
            # counter of an object against a constant
            if L is not None and L.op=='load' and fn.fld(L)==s.freq and isinstance(c,int) and s.freq:
                o=s.root(s.obase(L.o[0],P),P)
                r=None
                if p in('sgt','ugt','ne') and c==0 or p in('sge','uge') and c==1: r='pos' if tr else 'zero'
                elif p in('eq','sle','ule') and c==0 or p in('slt','ult') and c==1: r='zero' if tr else 'pos'
                if r and s.op in('evict','find'): P.st=frozenset(x for x in P.st if not(x[0]=='fr' and x[1]==o))|{('fr',o,r)}
            # counter against its maximum
            if L is not None and R is not None and L.op=='load' and R.op=='load' and s.freq:
                lf,rf=fn.fld(L),fn.fld(R)
                for x,y,q in((lf,rf,p),(rf,lf,{'slt':'sgt','ult':'ugt','sgt':'slt','ugt':'ult','sle':'sge','ule':'uge','sge':'sle','uge':'ule'}.get(p,p))):
                    if x==s.freq and y in s.maxi:
                        below=(q in('slt','ult','ne'))==tr if q in('slt','ult','ne','sge','uge','eq') else None
                        if below is not None: P.st|={('below',bool(below),y)}
            if s.op=='remove' and p in('eq','ne'):
                for x,y in((a,b),(b,a)):
                    if s.has(P,'hand',x): P.st|={('handis',y,'yes' if (p=='eq')==tr else 'no')}
            # identity with the head
            if p in('eq','ne') and (p=='eq')==tr:
                for x,y in((a,b),(b,a)):
                    if s.has(P,'H',x): P.st|={('athead',y)}
            # random draw
            if L is not None and p in('eq','ne') and c==0 and L.op in('urem','srem'):
                d=L.o[1]; de=src(fn,d)
                if isinstance(de,int) and de>=fn.nargs and fn.ins[de].op=='load' and s.own(fn.fld(fn.ins[de])) and s.random(L.o[0]): P.st|={('draw',(p=='eq')==tr)}
        return P
    def random(s,v):
        v=src(s.fn,v); i=s.fn.ins.get(v) if isinstance(v,int) and v>=s.fn.nargs else None
        for _ in range(12):
            if i is None: return False
            if i.op in('call','invoke'): return 'rand' in s.fn.mod.srcname(i.callee or '')
            if any('rand' in x for x in i.inlined_fns()): return True
            if i.op in('lshr','ashr','and','xor','urem','add','mul'): v=src(s.fn,i.o[0]); i=s.fn.ins.get(v) if isinstance(v,int) and v>=s.fn.nargs else None
            else: return False
        return False
    def obase(s,p,P):
        """object operand an address belongs to"""
        fn=s.fn
        while isinstance(p,int) and p>=fn.nargs and fn.ins[p].op in('getelementptr','bitcast'): p=fn.ins[p].o[0]
        return p
    # ---- steps
    def transfer(s,i,P):
        fn=s.fn
        if i.op=='load':
            f=fn.fld(i)
            r=s.canon(i.id,P)
            if f==s.T:
                if not any(x[0]=='mv' and not s.has(P,'dec',x[1]) for x in P.st) : pass
                else: s.E('dec',i,'an object is moved to the head without losing one from its counter')
                P.st|={('T',r)}
                if s.pol=='sieve' and (any(x[0]=='hand' and s.val(x[1],P)==0 for x in P.st) or any(x[0]=='prev' and s.val(x[1],P)==0 for x in P.st)): P.st|={('ok',r)}
            elif f==s.H: P.st|={('H',r)}
            elif s.pol=='sieve' and s.own(f) and i.ty=='ptr' and f==s.hand: P.st|={('hand',r)}
            elif f and f.endswith('queue.prev') and s.pol=='sieve' and s.op in('evict','remove'):
                o=s.root(s.obase(i.o[0],P),P)
                P.st|={('before',r,o)}
                if s.legit(o,P) and s.has(P,'fr',o,'pos') and s.has(P,'dec',o): P.st|={('prev',r)}
            return None
        if i.op=='store':
            f=fn.fld(i)
            if f is None: return None
            if f==s.freq and s.freq:
                o=s.root(s.obase(i.o[1],P),P); c=s.val(i.o[0],P)
                t,k=lsub(lin(fn.ex(i.o[0])),lin(('ld',fn.ex(i.o[1]),i.sz)))
                t2,k2=s.delta(i,P)
                d=k if not t else k2 if t2 else None
                if c is not None and d is None: P.st=frozenset(x for x in P.st if not(x[0]=='set' and x[1]==o))|{('set',o,'c%s'%c)}
                elif d==-1:
                    if s.has(P,'dec',o): s.E('dec',i,'an object loses more than one from its counter')
                    if not s.has(P,'fr',o,'pos'): s.E('dec',i,'a counter is lowered that is not known to be above zero')
                    P.st|={('dec',o)}
                elif d==1:
                    if s.has(P,'inc',o): s.E('inc',i,'a counter grows by more than one')
                    P.st|={('inc',o)}
                else: s.E('freq',i,'the counter of an object is set to another value')
                return None
            if f in(s.T,s.H): s.unlink(P,None,f); P.st|={('qstore',)}; return None
            if s.pol=='sieve' and f==s.hand:
                r=s.root(i.o[0],P)
                s.drop(P,lambda x:x[0]=='handset')
                b=[x[2] for x in P.st if x[0]=='before' and x[1]==r]
                if not s.has(P,'hand',r): P.st|={('handset',b[0] if b else -1)}
            elif f.startswith('cache_obj.'):
                if 'queue' not in f: P.st|={('touch',)}
            return None
        if i.op in('call','invoke') and i.callee:
            c=fn.mod.srcname(i.callee)
            if (c=='cache_find_base' or 'hashtable_find' in c) and s.op=='find': P.st|={('found',i.id)}
            elif c=='cache_insert_base': P.st|={('new',i.id)}; P.env[i.id]=NZ
            elif c in('move_obj_to_head','prepend_obj_to_head','append_obj_to_tail','remove_obj_from_list'):
                flds=[(fn.fieldinfo(fn.ex(o)) or ('','')) for o in i.o[:2]]
                flds=['.'.join(x[:2]) for x in flds]
                if flds!=[s.H,s.T]: s.E('lists',i,'a queue operation uses %s and %s as head and tail'%tuple(flds))
                o=s.root(i.o[2],P)
                if c=='move_obj_to_head':
                    if s.op=='evict':
                        if s.pol!='clock': s.E('move',i,'eviction moves an object within the queue')
                        else:
                            if not s.has(P,'T',o): s.E('move',i,'the object moved to the head is not the one at the tail')
                            if not s.has(P,'fr',o,'pos'): s.E('move',i,'an object is moved to the head although its counter may be zero')
                        s.drop(P,lambda x:x[0] in('T','H')); P.st|={('mv',o)}
                    else: s.drop(P,lambda x:x[0]=='pos' and x[1]==o); P.st|={('pos',o,'front')}
                elif c=='remove_obj_from_list': s.unlink(P,o,None); s.drop(P,lambda x:x[0]=='pos' and x[1]==o); P.st|={('pos',o,'out')}
                else:
                    if s.op=='evict' and s.pol=='clock' and c[0]=='p' and ('pos',o,'out') in P.st:
                        if not s.has(P,'vic','T',o): s.E('move',i,'the object moved to the head is not the one at the tail')
                        if not s.has(P,'fr',o,'pos'): s.E('move',i,'an object is moved to the head although its counter may be zero')
                        s.drop(P,lambda x:x[0] in('T','H','vic') or x[0]=='pos' and x[1]==o); P.st|={('mv',o)}
                        return None
                    s.drop(P,lambda x:x[0]=='pos' and x[1]==o); P.st|={('pos',o,'front' if c[0]=='p' else 'back')}
                    s.drop(P,lambda x:x[0] in('T','H'))
            elif c in GONE:
                s.gone+=1
                o=s.root(i.o[1],P); P.st|={('gone',o)}
                if s.op!='remove':
                    for o,W in s.arms(i.o[1],P): s.victim(o,i,W)
        return None
    def delta(s,i,P):
        """store of a value derived from a load of the same object's counter through path aliases"""
        fn=s.fn; v=src(fn,i.o[0]); k=0
        while isinstance(v,int) and v>=fn.nargs:
            j=fn.ins[v]
            if j.op in('add','sub') and not isinstance(j.o[1],int): k+=constval(j.o[1])*(1 if j.op=='add' else -1); v=src(fn,j.o[0])
            else: break
        k=(k+128)%256-128 if k>200 else k
        if isinstance(v,int) and v>=fn.nargs and fn.ins[v].op=='load' and fn.fld(fn.ins[v])==s.freq: return True,k
        return False,0
    def legit(s,o,P):
        return s.has(P,'ok',o) or (s.has(P,'hand',o) or s.has(P,'prev',o)) and s.val(o,P) not in(None,0)
    def unlink(s,P,o,f):
        """the ends of the queue change: what was loaded from them stays a possible victim"""
        new=set()
        for x in P.st:
            if x[0] in('T','H') : new.add(('vic',x[0],x[1]))
        P.st=frozenset(x for x in P.st if x[0] not in('T','H'))|(frozenset(new) if not any(x[0]=='vic' for x in P.st) else frozenset())
    def victim(s,o,i,P):
        pol=s.pol
        e='H' if pol=='head' else 'T'
        atend=s.has(P,e,o) or s.has(P,'vic',e,o)
        if pol in('tail','head','clock') and not atend: s.E('victim',i,'the object evicted is not the one at the %s of the queue'%('head' if e=='H' else 'tail'))
        if pol=='clock':
            if not s.has(P,'fr',o,'zero'): s.E('victim',i,'an object is evicted although its counter may be above zero')
            if any(x[0]=='mv' and not s.has(P,'dec',x[1]) for x in P.st): s.E('dec',i,'an object is moved to the head without losing one from its counter')
        if pol=='sieve':
            if not s.legit(o,P): s.E('victim',i,'the object evicted is not where the hand is')
            if not s.has(P,'fr',o,'zero'): s.E('victim',i,'an object is evicted although it may be marked')
    def onexit(s,i,P):
        s.exits+=1; st=P.st; v=s.val(i.o[0],P) if i.o else None
        hit,pol=SPEC[s.name]
        if s.op=='insert':
            new=[x[1] for x in st if x[0]=='new']
            if not new: return
            o=new[0]; s.hits+=1
            if ('pos',o,'front') not in st: s.E('insert',i,'a new object is not put at the head of the queue')
            if s.freq:
                c=[x[2] for x in st if x[0]=='set' and x[1]==o]
                if c!=['c0']: s.E('insert',i,'the counter of a new object does not start at zero')
        elif s.op=='find':
            f=[x[1] for x in st if x[0]=='found' and s.val(x[1],P)!=0]
            if not f: 
                if any(x[0] in('pos','qstore','inc','set') for x in st): s.E('miss',i,'a lookup that finds nothing changes the queue')
                return
            o=f[0]; s.hits+=1
            other=[x for x in st if x[0]=='pos' and x[1]!=o]
            if other or ('qstore',) in st: s.E('hit',i,'a hit changes the place of other objects')
            p=[x[2] for x in st if x[0]=='pos' and x[1]==o]; p=p[0] if p else 'in'
            if ('athead',o) in st and p=='in': p='front'
            if hit=='keep' and p!='in': s.E('hit',i,'a hit moves the object (%s)'%p)
            if hit=='front' and p!='front': s.E('hit',i,'a hit does not move the object to the head of the queue')
            if hit=='draw':
                d=('draw',True) in st
                if d!=(p=='front') or p not in('in','front'): s.E('hit',i,'a hit %s'%('does not move the object although the draw says so' if d else 'moves the object although the draw does not say so'))
                s.seen.add(d)
            if s.name=='Clock':
                inc=('inc',o) in st; below=[x[1] for x in st if x[0]=='below']
                if inc and True not in below: s.E('count',i,'the counter grows although it may be at its maximum')
                if not inc and False not in below: s.E('count',i,'a hit is not counted although the counter is not known to be at its maximum')
                if any(x[0] in('set','dec') for x in st): s.E('count',i,'a hit sets or lowers the counter')
            if s.name=='Sieve':
                m=[x[2] for x in st if x[0]=='set' and x[1]==o]
                if m!=['c1'] and not(not m and ('fr',o,'pos') in st): s.E('count',i,'a hit does not mark the object')
        elif s.op=='evict':
            g=[x[1] for x in st if x[0]=='gone']
            if len(g)!=1: return
            if pol=='sieve':
                h=[x[1] for x in st if x[0]=='handset']
                if h!=g: s.E('hand',i,'the hand is not left on the object before the one evicted')
        elif s.op=='remove':
            for o in [x[1] for x in st if x[0]=='gone']:
                h=[x[1] for x in st if x[0]=='handset']
                if ('handis',o,'yes') in st and h!=[o] and not(h and ('hand',h[0]) in st): s.E('hand',i,'the hand is on the object removed and is not moved to the one before it')
                if ('handis',o,'yes') not in st and h: s.E('hand',i,'the hand is moved although it is not on the object removed')
                if not h and ('handis',o,'no') not in st: s.E('hand',i,'the hand may stay on the object removed')
        elif s.op=='to_evict':
            if any(x[0] in('qstore','pos','inc','dec','set','touch','handset','gone') for x in st): s.E('peek',i,'reporting the candidate changes the queue or an object')
            if pol in('tail','head'):
                e='H' if pol=='head' else 'T'
                for o,W in s.arms(i.o[0],P):
                    if not s.has(W,e,o) and not(s.val(o,W)==0 and any(x[0]==e and s.val(x[1],W)==0 for x in st)): s.E('candidate',i,'the candidate reported is not the object at the %s'%('head' if e=='H' else 'tail'))
def report(ctx,rule,who,ex,ok):
    for k,(i,msg) in ex.err.items(): ctx.bad(rule,'%s %s'%(who,k),'%s: %s'%(who,msg),i.where())
    if not ex.err: ctx.ok(rule,'%s: %s'%(who,ok))
def impure(m,f):
    from rules.c23 import Effects
    e=Effects(m)
    for i in f.live():
        if i.op=='store':
            v=i.o[1]
            while isinstance(v,int) and v>=f.nargs and f.ins[v].op=='getelementptr': v=f.ins[v].o[0]
            if not(isinstance(v,int) and v>=f.nargs and f.ins[v].op=='alloca'): return i
        elif i.op in('call','invoke') and i is not f.exitcall[i.bb] and not e.pure(f,i): return i
def maxima(m,ff):
    """fields that are given the largest number of so many bits: (1<<n)-1"""
    r=set()
    for f in m.repo_fns():
        if f.file!=ff.file: continue
        for i in f.live():
            if i.op!='store' or not f.fld(i): continue
            v=src(f,i.o[0]); j=f.ins.get(v) if isinstance(v,int) and v>=f.nargs else None
            if j is not None and j.op in('add','sub') and not isinstance(j.o[1],int) and constval(j.o[1])==(-1 if j.op=='add' else 1):
                w=src(f,j.o[0]); w=f.ins.get(w) if isinstance(w,int) and w>=f.nargs else None
                if w is not None and w.op=='shl' and not isinstance(w.o[0],int) and constval(w.o[0])==1: r.add(f.fld(i))
    return r
def slotfn(m,a,slot):
    n=a.slots.get('cache.'+slot)
    n=n if isinstance(n,str) else None
    return m.get(n,a.file.split('/')[-1]) if n else None
def queues(ctx,m,sem,name):
    a=ctx.need(sem.algo(name),name)
    fi=ctx.need(slotfn(m,a,'insert'),name+' insert'); ff=ctx.need(slotfn(m,a,'find'),name+' find')
    fe=ctx.need(slotfn(m,a,'evict'),name+' evict'); ft=ctx.need(slotfn(m,a,'to_evict'),name+' to_evict')
    H=T=None
    for f in(fi,fe,ff):
        for i in f.live():
            if i.op=='call' and m.srcname(i.callee or '') in('prepend_obj_to_head','append_obj_to_tail','move_obj_to_head','remove_obj_from_list'):
                x=[f.fieldinfo(f.ex(o)) for o in i.o[:2]]
                if all(x) and H is None: H,T=['.'.join(y[:2]) for y in x]
    ctx.need(H,name+' queue')
    freq=None
    if name in('Clock','Sieve'):
        c=collections.Counter(f.fld(i) for f in(fi,fe,ff) for i in f.live() if i.op=='store' and (f.fld(i) or '').startswith('cache_obj.') and 'queue' not in f.fld(i) and i.sz<=8 and 'freq' in f.fld(i))
        freq=c.most_common(1)[0][0] if c else None
        ctx.need(freq,name+' counter')
    hand=None
    if name=='Sieve':
        st=[f.fld(i) for f in(fe,) for i in f.live() if i.op=='store' and f.fld(i) and not f.fld(i).startswith(('cache','request')) and f.fld(i) not in(H,T)]
        hand=st[0] if st else None; ctx.need(hand,'Sieve hand')
    fr=(('remove',ctx.need(slotfn(m,a,'remove'),name+' remove')),) if name=='Sieve' else ()
    for op,f in(('insert',fi),('find',specialize(ff,{2:1})),('evict',fe),('to_evict',ft))+fr:
        if op=='to_evict' and name in('Clock','Sieve'):
            w=impure(m,f)
            if w: ctx.bad('to_evict','%s peek'%f.src,'%s: reporting the candidate changes the queue or an object'%f.src,w.where())
            else: ctx.ok('to_evict','%s: changes nothing'%f.src)
            continue
        x=Q(f,SPEC[name][1],op,H,T,freq); x.name=name; x.hand=hand; x.maxi=maxima(m,f) if name=='Clock' and op=='find' else (); x.run()
        ctx.count('path exits',x.exits); ctx.need(x.exits,name+' '+op)
        if op=='find':
            ctx.need(x.hits,name+' hits')
            if SPEC[name][0]=='draw' and x.seen!={True,False}: x.E('draw',next(f.live()),'the random draw does not decide whether the object moves')
        if op in('evict','remove'): ctx.need(x.gone,name+' victims')
        report(ctx,op,f.src,x,'by the rule of %s on %d path exits'%(name,x.exits))
class Pick(Explorer):
    """random picks and uses of the time of last access"""
    split=True; max_states=60000
    def __init__(s,fn,op,time): super().__init__(fn); s.op=op; s.time=time; s.err={}; s.exits=0; s.n=0
    def init(s): return frozenset()
    E=Q.E; root=Q.root; arms=Q.arms; keepids=Q.keepids; obase=Q.obase; _redef=Q._redef; has=Q.has
    def pick(s,v,P):
        v=s.root(v,P)
        return v if isinstance(v,int) and ('pick',v) in P.st else None
    def onedge(s,t,truth,P): return s.learn(t.o[0],truth,P)
    def learn(s,cond,truth,P):
        fn=s.fn
        for i,tr in s.atoms(cond,truth,P):
            if i.op!='icmp' or i.pred in('eq','ne'): continue
            ld=[fn.ins.get(x) if isinstance(x,int) and x>=fn.nargs else None for x in(src(fn,i.o[0]),src(fn,i.o[1]))]
            if not all(x is not None and x.op=='load' and fn.fld(x)==s.time for x in ld): continue
            o=[s.pick(s.obase(x.o[0],P),P) for x in ld]
            if None in o: continue
            less=(i.pred[1]=='l')==tr
            P.st|={('le',o[0],o[1]) if less else ('le',o[1],o[0])}
        return P
    def transfer(s,i,P):
        fn=s.fn
        if i.op in('call','invoke') and i.callee:
            c=fn.mod.srcname(i.callee)
            if 'rand_obj' in c: P.st|={('pick',i.id)}
            elif c in GONE: s.check(i.o[1],i,P)
            elif (c=='cache_find_base' or 'hashtable_find' in c) and s.op=='find': P.st|={('found',i.id)}
            elif c=='cache_insert_base' and s.op=='insert': P.st|={('found',i.id)}; P.env[i.id]=NZ
        elif i.op=='store' and s.time and fn.fld(i)==s.time:
            o=s.root(s.obase(i.o[1],P),P); v=src(fn,i.o[0])
            ok=isinstance(v,int) and v>=fn.nargs and fn.ins[v].op=='load' and fn.fld(fn.ins[v])=='cache.n_req'
            if ok: P.st|={('timed',o)}
            else: s.E('time',i,'the time of use is not the request count')
        return None
    def check(s,o,i,P):
        s.n+=1
        for v,W in s.arms(o,P): s.check1(v,i,W)
    def check1(s,v,i,P):
        v=s.pick(v,P)
        if v is None: s.E('victim',i,'the object chosen is not a random pick'); return
        if s.time:
            if not any(x[0]=='le' and x[1]==v and x[2]!=v for x in P.st): s.E('victim',i,'the object chosen is not the one of the two picks used no later than the other')
    def onexit(s,i,P):
        s.exits+=1
        if s.op=='to_evict': s.check(i.o[0],i,P)
        if s.op in('find','insert'):
            for x in P.st:
                if x[0]=='found' and s.val(x[1],P)!=0:
                    s.n+=1
                    if ('timed',x[1]) not in P.st: s.E('time',i,'%s does not set the time of use'%('a hit' if s.op=='find' else 'an insertion'))
def picks(ctx,m,sem,name):
    a=ctx.need(sem.algo(name),name)
    F={k:ctx.need(slotfn(m,a,k),name+' '+k) for k in('insert','find','evict','to_evict')}
    time=None
    if name!='Random':
        st=[F['insert'].fld(i) for i in F['insert'].live() if i.op=='store' and (F['insert'].fld(i) or '').startswith('cache_obj.')]
        ctx.need(st,name+' time of use'); time=st[0]
    ops=('insert','find') if name=='RandomLRU' else ('evict','to_evict') if name=='Random' else ('insert','find','evict','to_evict')
    for op in ops:
        f=F[op]; x=Pick(specialize(f,{2:1}) if op=='find' else f,op,time); x.run()
        ctx.count('path exits',x.exits); ctx.need(x.n,name+' '+op)
        report(ctx,op,f.src,x,'by the rule of %s on %d path exits'%(name,x.exits))
    w=impure(m,F['to_evict']) if name!='RandomLRU' else None
    if w and 'rand_obj' in m.srcname(w.callee or ''): w=None
    if w: ctx.bad('to_evict','%s peek'%F['to_evict'].src,'%s: reporting the candidate changes an object'%F['to_evict'].src,w.where())
class Prio(Explorer):
    """use of the priority queue of Size"""
    split=True; max_states=60000
    def __init__(s,fn,op): super().__init__(fn); s.op=op; s.err={}; s.exits=0; s.n=0
    def init(s): return frozenset()
    E=Q.E; root=Q.root; arms=Q.arms; keepids=Q.keepids; obase=Q.obase; _redef=Q._redef; has=Q.has
    def lsrc(s,v):
        v=src(s.fn,v)
        while isinstance(v,int) and v>=s.fn.nargs and s.fn.ins[v].op in('sitofp','uitofp','fptosi'): v=src(s.fn,s.fn.ins[v].o[0])
        return s.fn.ins[v] if isinstance(v,int) and v>=s.fn.nargs and s.fn.ins[v].op=='load' else None
    def transfer(s,i,P):
        fn=s.fn
        if i.op=='store':
            f=fn.fld(i); l=s.lsrc(i.o[0]); o=s.root(s.obase(i.o[1],P),P)
            w=fn.fld(l) if l is not None else None
            if f and f.endswith('.obj_id') and f.split('.')[0] in('pq_node','node_t','pq_node_t'): P.st=frozenset(x for x in P.st if not(x[0]=='id' and x[1]==o))|{('id',o,w or '')}
            elif f and f.split('.')[0].startswith(('pq_node','pqueue_pri','node_t')) and 'pri' in f: P.st=frozenset(x for x in P.st if not(x[0]=='pri' and x[1]==o))|{('pri',o,w or '')}
            elif f and f.endswith('.pq_node'): P.st|={('link',o,s.root(i.o[0],P))} if s.val(i.o[0],P)!=0 else frozenset()
        elif i.op in('call','invoke') and i.callee:
            c=fn.mod.srcname(i.callee)
            if (c=='cache_find_base' or 'hashtable_find' in c) and s.op=='find': P.st|={('found',i.id)}
            elif c=='cache_insert_base': P.st|={('found',i.id)}; P.env[i.id]=NZ
            elif c=='pqueue_insert': P.st|={('queued',s.root(i.o[1],P))}
            elif c=='pqueue_change_priority':
                n=s.lsrc(i.o[2]); w=s.lsrc(i.o[1])
                if n is None or not (fn.fld(n) or '').endswith('.pq_node'): s.E('renew',i,'the entry renewed is not the one of the object')
                else: P.st|={('renewed',s.root(s.obase(n.o[0],P),P),(fn.fld(w) if w is not None else None) or s.prival(i.o[1],P) or '')}
            elif c in('pqueue_pop','pqueue_peek'): P.st|={('first',i.id)}
            elif 'hashtable_find' in c and s.op in('evict','to_evict'):
                l=s.lsrc(i.o[1])
                if l is not None and (fn.fld(l) or '').endswith('.obj_id') and s.has(P,'first',s.root(s.obase(l.o[0],P),P)): P.st|={('named',i.id)}
            elif c in GONE: s.check(i.o[1],i,P)
        return None
    def prival(s,v,P):
        """priority passed through a local structure"""
        l=s.lsrc(v)
        if l is None: return None
        b=s.obase(l.o[0],P)
        r=[x[2] for x in P.st if x[0]=='pri' and x[1]==b]
        return r[0] if r else None
    def check(s,o,i,P):
        s.n+=1
        if not s.has(P,'named',s.root(o,P)): s.E('victim',i,'the object chosen is not the one named by the first entry of the priority queue')
    def onexit(s,i,P):
        s.exits+=1; st=P.st
        if s.op=='to_evict': s.check(i.o[0],i,P); return
        for x in st:
            if x[0]!='found' or s.val(x[1],P)==0: continue
            s.n+=1; o=x[1]
            if s.op=='find':
                r=[y[2] for y in st if y[0]=='renewed' and y[1]==o]
                if r not in(['request.obj_size'],['cache_obj.obj_size']): s.E('hit',i,'a hit does not renew the priority with the size')
            else:
                l=[y[2] for y in st if y[0]=='link' and y[1]==o]
                if len(l)!=1 or ('queued',l[0]) not in st: s.E('insert',i,'a new object is not entered in the priority queue')
                else:
                    if not any(y[:2]==('id',l[0]) and y[2] in('request.obj_id','cache_obj.obj_id') for y in st): s.E('insert',i,'the entry of a new object does not carry its id')
                    if not any(y[:2]==('pri',l[0]) and y[2] in('request.obj_size','cache_obj.obj_size') for y in st): s.E('insert',i,'the priority of a new object is not its size')
def size(ctx,m,sem,name):
    a=ctx.need(sem.algo(name),name)
    for op in('insert','find','evict','to_evict'):
        f=ctx.need(slotfn(m,a,op),name+' '+op)
        x=Prio(specialize(f,{2:1}) if op=='find' else f,op); x.run()
        ctx.count('path exits',x.exits); ctx.need(x.n,name+' '+op)
        report(ctx,op,f.src,x,'by the rule of %s on %d path exits'%(name,x.exits))
def run(ctx):
    sem=ctx.sem('core'); m=sem.m
    for name in SPEC: queues(ctx,m,sem,name)
    for name in('Random','RandomTwo','RandomLRU'): picks(ctx,m,sem,name)
    size(ctx,m,sem,'Size')
