"""Queue bookkeeping.  In every function of every policy that links objects
into or out of its queues and keeps per-queue byte or object counters, every
path is explored with the objects linked and unlinked per queue (for arrays of
queues per symbolic index, with the segment number stored in the object
followed through its updates) and the terms added to each counter.  At every
exit each counter must have changed by exactly the size and per-object metadata
(or the number) of the objects linked minus those unlinked.  Which counter
belongs to which queue is inferred: the queue whose changes it follows on most
paths of the policy."""
from lcs.resident import *
from rules.c10 import referenced
import collections
LEVEL='other'
EXPLAIN=__doc__
ASSUME=['an inserted object has the size of its request (C05)','functions called keep their own queues and counters in step (each is checked)','GLCache, MClock and QDLPv0 are experimental and exempt']
LINK={'prepend_obj_to_head':1,'append_obj_to_tail':1,'remove_obj_from_list':-1}
class Book(Explorer):
    """state: frozenset of items ((kind, field, index, what), n): kind 'q' links of queue field | 'c' counter terms;
    ('seg', obj, field) -> value and ('lv', load) -> value for segment numbers"""
    max_states=60000
    def __init__(s,fn,pairs=None): super().__init__(fn); s.exits=[]; s.n=0; s.pairs=pairs
    def init(s): return frozenset()
    def add(s,P,key,d):
        m=dict(P.st); n=max(-4,min(4,m.get(key,0)+d))
        if n: m[key]=n
        else: m.pop(key,None)
        P.st=frozenset(m.items())
    def get(s,P,key):
        for k,v in P.st:
            if k==key: return v
        return None
    def put(s,P,key,v):
        P.st=frozenset(x for x in P.st if x[0]!=key)|{(key,v)}
    def vlin(s,v,P,d=0):
        """linear form of an index operand: (frozenset of (leaf,coef), const)"""
        fn=s.fn; v=s.canon(v,P)
        if not isinstance(v,int): 
            c=constval(v); return (frozenset(),c if isinstance(c,int) else 0)
        if v>=fn.nargs and d<8:
            i=fn.ins[v]
            if i.op in('sext','zext','trunc','freeze'): return s.vlin(i.o[0],P,d+1)
            if i.op in('add','sub'):
                a=s.vlin(i.o[0],P,d+1); b=s.vlin(i.o[1],P,d+1); k=1 if i.op=='add' else -1
                t=dict(a[0])
                for x,c in b[0]:
                    t[x]=t.get(x,0)+k*c
                    if not t[x]: del t[x]
                return (frozenset(t.items()),a[1]+k*b[1])
            if i.op=='load':
                lv=s.get(P,('lv',v))
                if lv is not None: return lv
        return (frozenset({(('v',fn.ex(v)),1)}),0)
    def loc(s,p,P):
        """(field, index) of an address operand"""
        fn=s.fn
        f=fn.fieldinfo(fn.ex(p))
        if f and f[0] not in('cache','cache_obj','request'): return (f[0]+'.'+f[1],None)
        t=collections.Counter(); c=0; p=s.canon(p,P)
        while isinstance(p,int) and p>=fn.nargs and fn.ins[p].op in('getelementptr','bitcast'):
            g=fn.ins[p]
            if g.op=='getelementptr':
                c+=g.off or 0
                for a,sc in (g.var or []):
                    x=s.vlin(a,P); c+=x[1]*sc
                    for l,k in x[0]: t[l]+=k*sc
            p=s.canon(g.o[0],P)
        if isinstance(p,int) and p>=fn.nargs and fn.ins[p].op=='load':
            f=fn.fieldinfo(fn.ex(fn.ins[p].o[0]))
            if f and f[0] not in('cache','cache_obj','request'):
                return (f[0]+'.'+f[1],(frozenset((l,k//8) for l,k in t.items() if k),c//8))
        return None
    def obj(s,e):
        if e[0]=='call':
            c=s.fn.mod.srcname(s.fn.ins[e[1]].callee or '')
            if c=='cache_insert_base': return 'REQ'
        return e
    def transfer(s,i,P):
        fn=s.fn
        if i.op=='load' and i.sz<8 and (fn.fld(i) or '').startswith('cache_obj.'):
            b=base_of(fn.ex(i.o[0])); f=fn.fld(i)
            v=s.get(P,('seg',b,f))
            if v is None: v=(frozenset({(('init',b,f),1)}),0)
            s.put(P,('lv',i.id),v); return None
        if i.op=='store':
            f=fn.fld(i) or ''
            if f.startswith('cache_obj.') and i.sz<8:
                b=base_of(fn.ex(i.o[1])); s.put(P,('seg',b,f),s.vlin(i.o[0],P)); return None
            if i.sz!=8: return None
            L=s.loc(i.o[1],P)
            if L is None: return None
            t,c=lsub(lin(fn.ex(i.o[0])),lin(('ld',fn.ex(i.o[1]),i.sz)))
            terms=[]
            for e,k in t.items():
                ff=fn.fieldinfo(e[1]) if e[0]=='ld' else None
                if ff and ff[0]=='cache' and ff[1]=='obj_md_size': terms.append(('md',k))
                elif ff and ff[1]=='obj_size': terms.append((('size','REQ' if ff[0].startswith('request') else s.obj(base_of(e[1]))),k))
                else: return None         # not a counter update
            if abs(c)>1: return None
            if c: terms.append(('n',c))
            if s.pairs is not None:
                q=s.pairs.get(L[0])
                if q: 
                    for w,k in terms: s.add(P,('d',L[0],L[1],w),k)
                return None
            for w,k in terms: s.add(P,('c',L[0],L[1],w),k)
            return None
        if i.op in('call','invoke') and i.callee:
            c=fn.mod.srcname(i.callee)
            if c in LINK:
                L=s.loc(i.o[0],P)
                if L is None: return None
                s.n+=1
                o=s.obj(fn.ex(i.o[2]))
                if s.pairs is not None:
                    for cn,(q,kind) in s.pairs.items():
                        if q!=L[0]: continue
                        for w in (('n',) if kind=='n' else (('size',o),'md')): s.add(P,('d',cn,L[1],w),-LINK[c])
                    return None
                s.add(P,('q',L[0],L[1],o),LINK[c])
        return None
    def onexit(s,i,P): s.exits.append((frozenset(x for x in P.st if x[0][0] in('q','c','d')),i))
def change(st,kind,field):
    """per index: {what: n}"""
    r=collections.defaultdict(dict)
    for (k,f,ix,w),n in st:
        if k==kind and f==field: r[ix][w]=n
    return dict(r)
def want(links,counter):
    """expected counter terms for the links of a queue, by the kind of counter"""
    out={}
    for ix,d in links.items():
        t={}
        tot=sum(d.values())
        if counter=='n': 
            if tot: t['n']=tot
        else:
            for o,n in d.items(): t[('size',o)]=n
            if tot: t['md']=tot
        if t: out[ix]=t
    return out
def show(d):
    if not d: return 'nothing'
    L=[]
    for ix,t in d.items():
        for w,n in t.items(): L.append('%+d %s'%(n,'metadata' if w=='md' else 'object' if w=='n' else 'size'))
    return ', '.join(sorted(L))
def run(ctx):
    sem=ctx.sem('core'); m=sem.m; refd=referenced(m)
    groups=collections.defaultdict(list)
    for f in m.repo_fns():
        if not f.relfile.startswith('libCacheSim/cache/eviction') or '/GLCache/' in f.relfile or 'MClock' in f.relfile or 'QDLPv0' in f.relfile: continue
        if f.internal and f.name not in refd: continue
        groups[f.relfile].append(f)
    nl=npairs=0
    for file,fs in sorted(groups.items()):
        res=[]
        for f in fs:
            ex=Book(f)
            if not any(i.op=='call' and i.callee and m.srcname(i.callee) in LINK for i in f.live()) and not any(i.op=='store' and i.sz==8 for i in f.live()): continue
            try: ex.run()
            except TooManyStates: ctx.notes.append('state bound in '+f.src); continue
            nl+=ex.n; res.append((f,ex))
        counters=collections.Counter(); queues=set(); kinds={}
        for f,ex in res:
            for st,i in ex.exits:
                for (k,fl,ix,w),n in st:
                    if k=='q': queues.add(fl)
                    else:
                        counters[fl]+=1
                        kinds.setdefault(fl,set()).add('n' if w=='n' else 'b')
        if not queues: continue
        pairs={}
        for c in sorted(counters):
            kind='n' if kinds[c]=={'n'} else 'b'
            best=None
            for q in sorted(queues):
                sc=0
                for f,ex in res:
                    for st,i in ex.exits:
                        a=change(st,'c',c); b=want(change(st,'q',q),kind)
                        if a or b:
                            dirn=lambda d:{ix:sum(v for w,v in t.items() if w!='md') for ix,t in d.items()}
                            sc+=1 if dirn(a)==dirn(b) else -1
                if best is None or sc>best[0]: best=(sc,q)
            if best[0]<1: continue
            npairs+=1; pairs[c]=(best[1],kind)
        # second pass: only the difference between each counter and its queue is kept
        for f,ex0 in res:
            touched={k[1] for st,i in ex0.exits for k,n in st}
            if not touched&(set(pairs)|{q for q,k in pairs.values()}): continue
            ex=Book(f,pairs)
            try: ex.run()
            except TooManyStates: ctx.notes.append('state bound in '+f.src); continue
            for c,(q,kind) in sorted(pairs.items()):
                if c not in touched and q not in touched: continue
                errs=[(d,i) for d,i in ((change(st,'d',c),i) for st,i in ex.exits) if d]
                if errs:
                    d,i=min(errs,key=lambda e:repr(e[0]))
                    ctx.bad('queue','%s %s'%(f.src,c.split('.')[-1]),'%s: on a path %s does not follow its queue %s: it is off by %s'%(f.src,c.split('.')[-1],q.split('.')[-1],show(d)),i.where())
                else: ctx.ok('queue','%s: %s follows %s'%(f.src,c.split('.')[-1],q.split('.')[-1]))
    ctx.count('queue operations on paths',nl)
    ctx.floor('counters paired with a queue',npairs,10)
