"""Shape analysis of hash-bucket chains.  A bucket chain of any length is
described by finitely many abstract heaps: the object named by the operation
('T') and the nodes an operation currently points to are explicit, every other
stretch of the chain is an opaque segment of one or more nodes, materialised
when it is entered and folded back when nothing points into it.  A function is
interpreted over these heaps to a fixpoint; at every return the chain is
compared with the expected one."""
from .ir import *
from .engine import evalins, liveness, icmp as icmpv
NULL=('p','null',0); TOP=('top',)
class Fault(Exception):
    def __init__(s,msg,i): s.msg=msg; s.i=i
class Undet(Exception): pass
COMM={'add','and','or','xor','mul'}
def T(*x): return ('t',)+x
def addc(t,c):
    if isinstance(t,int): return t+c
    if t[:2]==('t','+'):
        c+=t[3]; t=t[2]
    return t if c==0 else T('+',t,c)
def deep(v,f):
    r=f(v)
    if r is not None: return r
    if isinstance(v,tuple): return tuple(deep(x,f) for x in v)
    return v

class St:
    """mem: address -> value; order: remaining items of the tracked chain;
    kind: item -> 'n' | 'seg' | 'T'; ev: tuple of events; facts: frozenset"""
    __slots__=('mem','env','order','kind','ev','fresh')
    def __init__(s): s.mem={}; s.env={}; s.order=(); s.kind={}; s.ev=(); s.fresh=0
    def copy(s):
        n=St(); n.mem=dict(s.mem); n.env=dict(s.env); n.order=s.order; n.kind=dict(s.kind); n.ev=s.ev; n.fresh=s.fresh
        return n
    def subst(s,f):
        s.mem={deep(k,f):deep(v,f) for k,v in s.mem.items()}
        s.env={k:deep(v,f) for k,v in s.env.items()}
        s.ev=tuple(deep(e,f) for e in s.ev)

class Chain:
    """args: argument values.  Offsets: NXT (hash_next), ID (obj_id) of an
    object; TAB, NOBJ, HPW, EXT of the table."""
    limit=20000
    def __init__(s,m,fn,setup,onret,calls=None,target=True):
        s.m=m; s.fn=fn; s.onret=onret; s.hook=calls; s.live=liveness(fn); s.faults={}; s.nret=0; s.steps=0; s.slots=set(); s.target=target
        d={x[0]:x[1] for x in m.structs['cache_obj']['members']}; h={x[0]:x[1] for x in m.structs['hashtable']['members']}
        s.NXT=d['hash_next']; s.ID=d['obj_id']; s.TABOFF=next(v for k,v in h.items() if k=='ptr_table' or k=='') if 'ptr_table' in h else 0
        s.NOBJ=h['n_obj']; s.HPW=h['hashpower']; s.EXT=h['external_obj']
        s.loops=fn.loops(); s.seen=[set() for _ in range(fn.n)]
        s.work=[]; s.cmps=set(); s.buckets=set()
        for st in setup(s):
            s.work.append((0,None,st))
        n=0
        while s.work:
            b,prev,st=s.work.pop(); n+=1
            if n>s.limit: raise Undet('too many abstract heaps')
            try: s.block(b,prev,st)
            except RecursionError: raise Undet('terms grow without bound') from None
            except Fault as e: s.faults.setdefault(e.msg,e.i)
    # ---------------- initial heaps
    def table(s,hp=T('HP'),tab='tab',ext=0):
        st=St()
        st.mem[('ht',s.TABOFF)]=('p',tab,0); st.mem[('ht',s.NOBJ)]=T('N'); st.mem[('ht',s.HPW)]=hp; st.mem[('ht',s.EXT)]=ext
        return st
    def chains(s,present):
        side=[[],['n'],['seg']]
        for a in side:
            if not present: yield a; continue
            for b in side: yield a+['T']+b
    def put(s,st,items,head):
        """lay out a chain starting in cell head"""
        names=[]
        for k in items:
            if k=='T': names.append('T')
            else:
                st.fresh+=1; names.append('x%d'%st.fresh)
        st.order=tuple(names)
        prev=head
        for nm,k in zip(names,items):
            st.kind[nm]=k; st.mem[prev]=('p',nm,0); prev=(nm,s.NXT)
            if k=='n': st.mem[(nm,s.ID)]=T('id',nm)
        st.mem[prev]=NULL
        return names
    # ---------------- values
    def v(s,o,st):
        fn=s.fn
        if isinstance(o,int):
            if o<fn.nargs: return s.args.get(o,TOP)
            return st.env.get(o,TOP)
        k=o[0]
        if k=='i': return o[1] if o[2]!=1 else o[1]&1
        if k in('n','z'): return NULL
        if k=='o':
            b=s.v(o[1],st); return ('p',b[1],b[2]+o[2]) if isptr(b) and isinstance(b[2],int) else TOP
        if k in('g','F','s'): return ('p','glob:'+str(o[1]),0)
        return TOP
    def op(s,op,a,b):
        if isinstance(a,int) and isinstance(b,int): return None
        if a==TOP or b==TOP or isptr(a) or isptr(b): return TOP
        if op=='add':
            if isinstance(b,int): return addc(a,b)
            if isinstance(a,int): return addc(b,a)
        if op=='sub' and isinstance(b,int): return addc(a,-b)
        if op=='mul' and b==1: return a
        if op=='mul' and a==1: return b
        if op=='mul' and isinstance(b,int) and b>0 and b&(b-1)==0 and not isinstance(a,int): op='shl'; b=b.bit_length()-1
        if op=='mul' and isinstance(a,int) and a>0 and a&(a-1)==0 and not isinstance(b,int): op='shl'; a,b=b,a.bit_length()-1
        if op=='shl' and isinstance(a,tuple) and a[:2]==('t','shl') and isinstance(b,int): return s.pow2(a[2],addc(a[3],b))
        if op=='shl': return s.pow2(a,b)
        if op=='urem' and isinstance(b,tuple) and b[:3]==('t','shl',1): op='and'; b=addc(b,-1)
        if op in COMM: a,b=sorted((a,b),key=repr)
        return T(op,a,b)
    def pow2(s,a,b):
        if isinstance(a,int) and a>1 and a&(a-1)==0: b=addc(b,a.bit_length()-1); a=1
        return T('shl',a,b)
    def slotterm(s,t):
        """(id term, table-size exponent) when t is a bucket number of an object"""
        ids=[]; hps=[]
        def w(x):
            if isinstance(x,tuple):
                if x[:2]==('t','H'): ids.append(x[2]); return
                if x[:2]==('t','HP') or x[:3]==('t','+',T('HP')): hps.append(x); return
                for y in x: w(y)
        w(t)
        if len(set(ids))!=1 or len(set(hps))>1: return None
        return ids[0],(hps[0] if hps else None)
    def canonslot(s,t,idt,hp):
        return deep(t,lambda x: ('K',) if x==T('H',idt) else ('P',) if x==hp else None)
    def bounded(s,t,hp):
        """t < 2^hp"""
        size=T('shl',1,hp)
        if not isinstance(t,tuple): return False
        if t[:2]==('t','and') and addc(size,-1) in t[2:]: return True
        if t[:2]==('t','urem') and t[3]==size: return True
        return False
    # ---------------- memory
    def cell(s,p,i,st,store=False):
        """memory key of pointer value p"""
        if p==TOP: return None
        if p[1]=='null': raise Fault('dereferences NULL',i)
        if p[1] in st.kind and ('freed',p[1]) in st.ev: raise Fault('touches an object after it was freed',i)
        if isinstance(p[1],str) and p[1]=='oldfreed': raise Fault('touches the old table after it was freed',i)
        if st.kind.get(p[1])=='seg': raise Undet('deref of a segment')
        if p[2]==0 and s.istab(p,st): return (p[1],('ix',0,((0,8),)))
        return (p[1],p[2])
    def load(s,i,st):
        """list of (state, value)"""
        p=s.v(i.o[0],st)
        c=s.cell(p,i,st)
        if c is None: return [(st,TOP)]
        if isinstance(c[1],tuple): return s.loadslot(c,i,st)
        if c[0]=='ht' and i.sz and c not in st.mem: st.mem[c]=TOP
        if c in st.mem: return s.mat(st,st.mem[c])
        if c==('T',s.ID): r=T('KEY')
        elif c[0] in st.kind and c[1]==s.ID: r=T('id',c[0])
        elif c[0] in('req',): r=T('KEY') if c[1]==s.REQID else TOP
        elif c[0]=='opaque': raise Fault('follows a link into another chain',i)
        else: r=TOP
        return [(st,r)]
    def mat(s,st,r):
        if isptr(r) and st.kind.get(r[1])=='seg':
            a=st; b=st.copy(); nm=r[1]
            a.kind[nm]='n'; a.mem[(nm,s.ID)]=T('id',nm)
            b.fresh+=1; x='x%d'%b.fresh
            b.subst(lambda q: ('p',x,0) if q==('p',nm,0) else None)
            k=b.order.index(nm); b.order=b.order[:k]+(x,)+b.order[k:]
            b.kind[x]='n'; b.mem[(x,s.NXT)]=('p',nm,0); b.mem[(x,s.ID)]=T('id',x)
            return [(a,r),(b,('p',x,0))]
        return [(st,r)]
    def loadslot(s,c,i,st):
        tab,off=c
        idx=s.index(off,i)
        sl=s.slotterm(idx)
        cur=st.mem.get(('ht',s.HPW))
        if sl:
            idt,hp=sl
            s.checkslot(idx,idt,hp,tab,i,st)
            k=(tab,('slot',idt))
            if k in st.mem: return s.mat(st,st.mem[k])
            if s.newtab(tab,st):
                a=st.copy(); a.mem[k]=NULL; st.mem[k]=('p','opaque',0)
                return [(a,NULL),(st,('p','opaque',0))]
            return [(st,TOP)]
        # bucket visited by number
        k=(tab,('bucket',idx))
        if k in st.mem: return s.mat(st,st.mem[k])
        if s.pick:
            if idx!=0 and not s.bounded(idx,cur): raise Fault('the bucket number is not reduced to the table size',i)
            a=st.copy(); a.mem[k]=NULL; st.mem[k]=('p','picked',0)
            return [(a,NULL),(st,('p','picked',0))]
        if s.hook and s.iterate:
            if st.order: raise Fault('a bucket is left before all its objects are handled',i)
            out=[]
            for items in s.chains(False):
                n=st.copy(); n.mem={q:w for q,w in n.mem.items() if not(isinstance(q[1],tuple) and q[1][0]=='bucket')}
                n.mem={q:w for q,w in n.mem.items() if q[0] not in n.kind}; n.kind={}
                n.ev=tuple(e for e in n.ev if e[0] not in('done','freed')); 
                s.put(n,items,k); s.buckets.add((idx,i))
                out+=s.mat(n,n.mem[k])
            return out
        return [(st,TOP)]
    iterate=False; pick=False
    def newtab(s,tab,st): return st.mem.get(('ht',s.TABOFF))==('p',tab,0) and tab!='tab'
    def index(s,off,i):
        if off[0]=='ix' and off[1]==0 and len(off[2])==1 and off[2][0][1]==8: return off[2][0][0]
        raise Undet('table addressed in an unexpected way at %s'%i.where())
    def checkslot(s,idx,idt,hp,tab,i,st):
        cur=st.mem.get(('ht',s.HPW))
        if hp!=cur: raise Fault('the bucket is computed for another table size than the current one',i)
        if not s.bounded(idx,hp): raise Fault('the bucket number is not reduced to the table size',i)
        s.slots.add((s.canonslot(idx,idt,hp),i))
    def store(s,i,st):
        p=s.v(i.o[1],st); val=s.v(i.o[0],st)
        c=s.cell(p,i,st,True)
        if c is None: return
        if isinstance(c[1],tuple):
            tab,off=c; idx=s.index(off,i); sl=s.slotterm(idx)
            if not sl: raise Fault('stores into a bucket not chosen by the object id',i)
            s.checkslot(idx,sl[0],sl[1],tab,i,st)
            k=(tab,('slot',sl[0]))
            if s.newtab(tab,st) and isptr(val) and val[1] in st.order:
                n=val[1]
                if sl[0]!=st.mem.get((n,s.ID)): raise Fault("an object is put into a bucket that is not its own",i)
                if k not in st.mem: raise Fault('a bucket is overwritten without keeping its chain',i)
                if st.mem.get((n,s.NXT))!=st.mem[k]: raise Fault('the chain already in the new bucket is lost or an old link is kept',i)
                st.order=tuple(x for x in st.order if x!=n); st.ev+=(('done',n),)
                st.mem={q:w for q,w in st.mem.items() if not(q[0]==tab and isinstance(q[1],tuple))}
                st.mem[(n,s.NXT)]=('p','opaque',0)
                return
            if sl[0]!=T('KEY') and s.target: raise Fault('stores into the bucket of another object',i)
            st.mem[k]=val; return
        if c[0] in st.kind or c[0]=='T':
            if c[1]==s.ID: raise Fault('changes the id of a stored object',i)
        if c[0] in st.kind and ('done',c[0]) in st.ev: raise Fault('changes an object that was already moved',i)
        st.mem[c]=val
    # ---------------- control
    def block(s,b,prev,st):
        fn=s.fn; upd={}
        for i in fn.blocks[b]:
            if i.op=='phi':
                for o,ib in zip(i.o,i.j['in']):
                    if ib==prev: upd[i.id]=s.v(o,st)
        for k,x in upd.items():
            if b in s.loops and prev in s.loops[b] and (isinstance(x,int) and fn.ins[k].ty!='i1' or isinstance(x,tuple) and x[0]=='t' and x[1]!='and'):
                x=T('iv',k)
                st.mem={q:w for q,w in st.mem.items() if not hasname(q,x)}
            st.env[k]=x
        # restrict and canonicalise
        lv=s.live[b]|set(upd)
        st.env={k:x for k,x in st.env.items() if k in lv}
        s.fold(st); s.rename(st)
        key=(prev if any(i.op=='phi' for i in fn.blocks[b]) else None,st.order,frozenset(st.kind.items()),frozenset(st.mem.items()),frozenset(st.env.items()),st.ev)
        if key in s.seen[b]: return
        s.seen[b].add(key)
        s.run(b,0,st)
    def run(s,b,k,st):
        fn=s.fn; bl=fn.blocks[b]
        while k<len(bl):
            i=bl[k]; k+=1; op=i.op
            if op=='phi': continue
            if i is fn.exitcall[b]: return
            if op=='getelementptr':
                p=s.v(i.o[0],st)
                if not isptr(p): st.env[i.id]=TOP; continue
                off=i.off or 0; ix=[]; ok=True
                for a,sc in(i.var or []):
                    x=s.v(a,st)
                    if isinstance(x,int):
                        if s.istab(p,st): ix.append((x,sc))
                        else: off+=x*sc
                    elif x==TOP or isptr(x): ok=False
                    else: ix.append((x,sc))
                if not isinstance(p[2],int): ok=False
                if not ok: st.env[i.id]=TOP
                elif ix and not s.istab(p,st): st.env[i.id]=TOP
                elif ix: st.env[i.id]=('p',p[1],('ix',off+p[2],tuple(ix)))
                else: st.env[i.id]=('p',p[1],p[2]+off)
            elif op=='load':
                r=s.load(i,st)
                for n,x in r[1:]:
                    n.env[i.id]=x
                    try: s.run(b,k,n)
                    except Fault as e: s.faults.setdefault(e.msg,e.i)
                st,x=r[0]; st.env[i.id]=x
            elif op=='store': s.store(i,st)
            elif op=='icmp':
                st.env[i.id]=s.cmp(i,s.v(i.o[0],st),s.v(i.o[1],st))
            elif op in('call','invoke'):
                r=s.call(i,st)
                for n,x in r[1:]:
                    n.env[i.id]=x
                    try: s.run(b,k,n)
                    except Fault as e: s.faults.setdefault(e.msg,e.i)
                if not r: return
                st,x=r[0]; st.env[i.id]=x
            elif op=='ret':
                s.nret+=1; s.onret(s,i,st,s.v(i.o[0],st) if i.o else None); return
            elif op=='select':
                c=s.v(i.o[0],st)
                if isinstance(c,int): st.env[i.id]=s.v(i.o[1] if c else i.o[2],st)
                else:
                    a,d=s.v(i.o[1],st),s.v(i.o[2],st); st.env[i.id]=a if a==d else TOP
            elif op=='alloca': st.env[i.id]=('p','alloca%d'%i.id,0)
            elif op in('br','switch','unreachable'): pass
            elif op in('zext','sext','bitcast','freeze','trunc','ptrtoint','inttoptr'):
                a=s.v(i.o[0],st)
                if isinstance(a,int):
                    r=evalins(i,lambda o:s.v(o,st)); st.env[i.id]=r if isinstance(r,int) else TOP
                elif op=='trunc' and i.ty=='i1' : st.env[i.id]=a if not isptr(a) else TOP
                elif op=='trunc' and isinstance(a,tuple) and a[0]=='t' and s.hasH(a): st.env[i.id]=T('trunc',i.ty,a)
                else: st.env[i.id]=a
            else:
                a=s.v(i.o[0],st) if i.o else TOP; d=s.v(i.o[1],st) if len(i.o)>1 else TOP
                r=s.op(op,a,d) if len(i.o)==2 else TOP
                if r is None:
                    r=evalins(i,lambda o:s.v(o,st)); r=r if isinstance(r,int) else TOP
                st.env[i.id]=r
        t=bl[-1] if bl else None
        if t is None: return
        full=t.j.get('succ') or []
        if t.op=='br' and len(full)==2:
            c=s.v(t.o[0],st)
            if isinstance(c,int): outs=[full[0] if c else full[1]]
            else: outs=full
        else: outs=full
        for k,x in enumerate(outs):
            s.work.append((x,b,st if k==len(outs)-1 else st.copy()))
    def istab(s,p,st): return p[1] in('tab','tab1')
    def hasH(s,t):
        if isinstance(t,tuple): return t[:2]==('t','H') or any(s.hasH(x) for x in t)
        return False
    def ivof(s,x):
        if x[:2]==('t','iv'): return x[2]
        if x[:2]==('t','+'): return s.ivof(x[2])
        return None
    def cmp(s,i,a,b):
        if isinstance(a,int) and isinstance(b,int): return icmpv(i.pred,a,b)
        if isptr(a) and isinstance(b,int) and b==0: b=NULL
        if isptr(b) and isinstance(a,int) and a==0: a=NULL
        for x,y,fl in((a,b,0),(b,a,1)):
            if isinstance(x,tuple) and x[0]=='t' and s.ivof(x): s.cmps.add((i.id,s.ivof(x),x,y,fl))
        if i.pred not in('eq','ne') or TOP in(a,b): return TOP
        e=None
        if isptr(a) and isptr(b):
            if a==b: e=1
            elif 'opaque' in(a[1],b[1]) and NULL not in(a,b): e=None
            else: e=0
        elif a==b and isinstance(a,tuple) and a[0]=='t': e=1
        elif isinstance(a,tuple) and isinstance(b,tuple) and a[0]==b[0]=='t' and {a[1],b[1]}<={'KEY','id'}: e=0
        return TOP if e is None else e if i.pred=='eq' else 1-e
    def call(s,i,st):
        c=s.m.srcname(i.callee) if i.callee else None
        if c and c.startswith('llvm.expect'): return [(st,s.v(i.o[0],st))]
        if c and c.startswith('llvm.') and not c.startswith(('llvm.mem',)): return [(st,TOP)]
        a=[s.v(o,st) for o in i.o]
        # hash of the 8 id bytes
        if c and len(a)>=2 and a[1]==8 and isptr(a[0]) and ('hash' in c.lower() or c.startswith(('XXH','get_hash'))) or c=='get_hash_value_int_64':
            key=s.cell(a[0],i,st)
            x=st.mem.get(key) if key else None
            if x is None and key: x=T('KEY') if key==('T',s.ID) or key==('req',getattr(s,'REQID',None)) else T('id',key[0]) if key[0] in st.kind and key[1]==s.ID else TOP
            return [(st,T('H',x) if x not in(None,TOP) else TOP)]
        r=s.hook(s,c,i,a,st) if s.hook else None
        if r is not None: return r
        for x in a:
            if isptr(x) and x[1] in st.kind and ('freed',x[1]) in st.ev: raise Fault('uses an object after it was freed',i)
        return [(st,TOP)]
    def free(s,st,p,i):
        if p==NULL: return
        if not isptr(p) : raise Fault('frees something that is not a known object',i)
        if ('freed',p[1]) in st.ev: raise Fault('frees an object twice',i)
        st.ev+=(('freed',p[1]),)
    # ---------------- folding
    def refs(s,st,name):
        n=[]
        for k,v in st.mem.items():
            if hasname(v,name) : n.append(k)
        return n
    def fold(s,st):
        live=set()
        for v in st.env.values():
            for x in st.order:
                if hasname(v,x): live.add(x)
        for e in st.ev:
            for x in st.order:
                if hasname(e,x): live.add(x)
        ch=True
        while ch:
            ch=False
            for k in range(len(st.order)-1):
                x,y=st.order[k],st.order[k+1]
                if 'T' in(x,y) or x in live or y in live: continue
                if st.mem.get((x,s.NXT))!=('p',y,0): continue
                if any(q!=(y,s.ID) and q!=(x,s.NXT) for q in s.refs(st,y)): continue
                if any(q[0]!=y and hasname(q,y) for q in st.mem) : continue
                nx=st.mem.get((y,s.NXT),TOP)
                st.mem={q:w for q,w in st.mem.items() if q[0]!=y and q!=(x,s.ID)}
                st.mem[(x,s.NXT)]=nx; st.kind[x]='seg'; del st.kind[y]
                st.order=st.order[:k+1]+st.order[k+2:]
                ch=True; break
        # forget objects that were dealt with and that nothing names any more
        for x in list(st.kind):
            if x not in st.order and x!='T':
                if not any(hasname(v,x) for v in st.env.values()) and not any(q[0]!=x and (hasname(w,x) or hasname(q,x)) for q,w in st.mem.items()):
                    st.mem={q:w for q,w in st.mem.items() if q[0]!=x}; del st.kind[x]
                    st.ev=tuple(e for e in st.ev if not hasname(e,x))
    def rename(s,st):
        mp={}; n=0
        for x in st.order+tuple(sorted(k for k in st.kind if k not in st.order)):
            if x!='T': n+=1; mp[x]='y%d'%n
        mp={a:b for a,b in mp.items()}
        f=lambda q: mp[q] if isinstance(q,str) and q in mp else None
        st.subst(f); st.order=tuple(mp.get(x,x) for x in st.order); st.kind={mp.get(k,k):v for k,v in st.kind.items()}
        g=lambda q: 'x'+q[1:] if isinstance(q,str) and len(q)<5 and q[0]=='y' and q[1:].isdigit() else None
        st.subst(g); st.order=tuple(g(x) or x for x in st.order); st.kind={g(k) or k:v for k,v in st.kind.items()}
        st.fresh=n
    # ---------------- result
    def walk(s,st,i):
        """items reachable from the key's bucket in the current table"""
        tab=st.mem[('ht',s.TABOFF)][1]
        cur=st.mem.get((tab,('slot',T('KEY'))),TOP); out=[]
        while cur!=NULL:
            if not isptr(cur): raise Fault('a link of the chain becomes unknown',i)
            if cur[1] in out: raise Fault('the chain becomes cyclic',i)
            out.append(cur[1]); cur=st.mem.get((cur[1],s.NXT),TOP)
        return tuple(out)
def isptr(v): return isinstance(v,tuple) and len(v)==3 and v[0]=='p'
def hasname(v,n):
    if v==n: return True
    if isinstance(v,tuple): return any(hasname(x,n) for x in v)
    return False
