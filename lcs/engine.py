"""Path-sensitive forward dataflow over the normalised IR (property simulation:
the rule's abstract state, plus constants/null facts of SSA values)."""
import copy
from .ir import *

NZ='nz'

def mask(v,ty):
    try: w=int(ty[1:])
    except Exception: return v
    v&=(1<<w)-1
    if w>1 and v>>(w-1): v-=1<<w
    return v
def u(v,w): return v&((1<<w)-1)

def icmp(pred,a,b,w=64):
    if pred=='eq': return int(u(a,w)==u(b,w))
    if pred=='ne': return int(u(a,w)!=u(b,w))
    if pred[0]=='u': a,b=u(a,w),u(b,w)
    p=pred[1:]
    return int({'gt':a>b,'ge':a>=b,'lt':a<b,'le':a<=b}[p])

def evalins(i, val):
    """value of instruction i (int), NZ or None, given val(operand)"""
    op=i.op
    if op in('zext','sext','trunc','bitcast','freeze','ptrtoint','inttoptr','addrspacecast'):
        a=val(i.o[0])
        if a is None: return None
        if a==NZ: return NZ if op!='trunc' else None
        src=i.fn.ins[i.o[0]].ty if isinstance(i.o[0],int) and i.o[0]>=i.fn.nargs else (i.fn.args[i.o[0]][1] if isinstance(i.o[0],int) else None)
        if op=='zext':
            src=(src or 'i64').split()[0]
            return u(a,int(src[1:])) if src[1:].isdigit() else a
        if op=='sext' and src and src.startswith('i1') and src.split()[0]=='i1': return -(a&1)
        if op=='trunc':
            return (a&1) if i.ty=='i1' else mask(a,i.ty)
        return a
    if op=='icmp':
        a,b=val(i.o[0]),val(i.o[1])
        if a is None or b is None: return None
        if a==NZ or b==NZ:
            if a==NZ and b==0 or b==NZ and a==0:
                if i.pred=='eq': return 0
                if i.pred=='ne': return 1
                if i.pred=='ugt' and a==NZ: return 1
            return None
        return icmp(i.pred,a,b)
    if op in('lshr','ashr'):
        a,b=val(i.o[0]),val(i.o[1])
        if a==0: return 0
        if not isinstance(a,int) or not isinstance(b,int): return None
        try: w=int(i.ty[1:])
        except ValueError: return None
        return mask((u(a,w)>>b) if op=='lshr' else (mask(a,i.ty)>>b),i.ty)
    if op in('xor','and','or','add','sub','mul','shl'):
        a,b=val(i.o[0]),val(i.o[1])
        if op=='and' and (a==0 or b==0): return 0
        if op=='or' and i.ty=='i1' and (a in(1,-1) or b in(1,-1)): return 1
        if a is None or b is None or a==NZ or b==NZ: return None
        r={'xor':a^b,'and':a&b,'or':a|b,'add':a+b,'sub':a-b,'mul':a*b,'shl':a<<(b&63)}[op]
        return (r&1) if i.ty=='i1' else mask(r,i.ty)
    if op=='select':
        c=val(i.o[0])
        if c is None:
            a,b=val(i.o[1]),val(i.o[2])
            return a if a==b else None
        return val(i.o[1]) if c else val(i.o[2])
    if op in('call','invoke') and i.callee and i.callee.startswith('llvm.expect'): return val(i.o[0])
    if op=='getelementptr':
        return None
    if op=='alloca': return NZ
    return None

def constval(v):
    if v[0]=='i': return v[1] if v[2]!=1 else v[1]&1
    if v[0] in('n','z'): return 0
    if v[0] in('s','g','F','o'): return NZ
    return None

def specialize(fn, consts, loads=None):
    """copy of fn with arguments fixed to constants; unreachable edges pruned (SCCP)"""
    BOT=object()
    lat={}
    def val(v):
        if isinstance(v,int):
            if v<fn.nargs: return consts.get(v)
            r=lat.get(v,BOT)
            return BOT if r is BOT else r
        return constval(v)
    edges=set(); reach={0}; work=[0]; users={}
    for i in fn.allins():
        for o in i.o:
            if isinstance(o,int): users.setdefault(o,[]).append(i)
    succ=[[] for _ in range(fn.n)]
    changed=True
    while changed:
        changed=False
        for b in range(fn.n):
            if b not in reach: continue
            for i in fn.blocks[b]:
                if i.op=='phi':
                    vs=[val(o) for o,ib in zip(i.o,i.j['in']) if (ib,b) in edges]
                    vs=[x for x in vs if x is not BOT]
                    if not vs: r=BOT
                    else: r=vs[0] if all(x==vs[0] for x in vs) else None
                elif loads and i.id in loads: r=loads[i.id]
                else:
                    ops=[val(o) for o in i.o]
                    if any(x is BOT for x in ops) and i.op not in('call','invoke'): r=BOT
                    else: r=evalins(i,lambda o:(None if val(o) is BOT else val(o)))
                if lat.get(i.id,BOT) is not r and lat.get(i.id,BOT)!=r:
                    lat[i.id]=r; changed=True
                if i is fn.exitcall[b]: break
            else:
                t=fn.blocks[b][-1] if fn.blocks[b] else None
                if t is None: continue
                full=t.j.get('succ') or []
                outs=full
                if t.op=='br' and len(full)==2:
                    c=val(t.o[0])
                    if c is BOT: outs=[]
                    elif c is not None: outs=[full[0]] if c else [full[1]]
                elif t.op=='switch':
                    c=val(t.o[0])
                    if c is BOT: outs=[]
                    elif c is not None and c!=NZ:
                        outs=[full[0]]
                        for k,x in enumerate(t.cases):
                            if x==c: outs=[full[k+1]]
                for s in outs:
                    if (b,s) not in edges: edges.add((b,s)); changed=True
                    if s not in reach: reach.add(s); changed=True
    g=copy.copy(fn)
    g.succ=[list(dict.fromkeys(s for s in fn.succ[b] if (b,s) in edges)) for b in range(fn.n)]
    g.pred=[[] for _ in range(fn.n)]
    for b in range(fn.n):
        for t in g.succ[b]: g.pred[t].append(b)
    g._reach=None; g._dom=None; g._pdom=None; g._ex={}
    if hasattr(g,'_rev'): del g._rev
    g.consts=dict(consts); g.lat=lat
    # expressions: known constants and single-input phis collapse
    for vid,r in lat.items():
        if isinstance(r,int) and fn.ins[vid].op not in('call','invoke'): g._ex[vid]=('c',r)
    for k,c in consts.items():
        if isinstance(c,int): g._ex[k]=('c',c)
    orig=g._mk
    for bl in fn.blocks:
        for i in bl:
            if i.op=='phi' and i.id not in g._ex:
                ins=[o for o,ib in zip(i.o,i.j['in']) if (ib,i.bb) in edges]
                if len(ins)==1 and (not isinstance(ins[0],int) or ins[0]!=i.id):
                    g._phi1=getattr(g,'_phi1',{}); g._phi1[i.id]=ins[0]
    p1=getattr(g,'_phi1',{})
    def mk(v, self=g):
        if v in p1: return self.ex(p1[v])
        return Fn._mk(self,v)
    g._mk=mk
    return g

# ------------------------------------------------------------------ liveness
def liveness(fn):
    use=[set() for _ in range(fn.n)]; de=[set() for _ in range(fn.n)]
    phiuse={}
    for b,bl in enumerate(fn.blocks):
        for i in bl:
            if i.op=='phi':
                for o,ib in zip(i.o,i.j['in']):
                    if isinstance(o,int): phiuse.setdefault((ib,b),set()).add(o)
            else:
                for o in list(i.o)+([i.fp] if i.fp is not None else [])+[a for a,_ in (i.var or [])]:
                    if isinstance(o,int) and o not in de[b]: use[b].add(o)
            de[b].add(i.id)
    live=[set() for _ in range(fn.n)]
    ch=True
    while ch:
        ch=False
        for b in range(fn.n-1,-1,-1):
            out=set()
            for t in fn.succ[b]:
                out|=live[t]|phiuse.get((b,t),set())
            n=use[b]|(out-de[b])
            if n!=live[b]: live[b]=n; ch=True
    return live

class TooManyStates(Exception): pass

class Path:
    """one abstract execution prefix"""
    __slots__=('st','env','alias','avail')
    def __init__(s,st,env,alias,avail): s.st=st; s.env=env; s.alias=alias; s.avail=avail

class Explorer:
    """subclass: transfer(i,P) -> None or list of states; onexit(ret,P)"""
    max_states=60000
    kill_loads_on_call=True
    track_loads=True
    split=False          # one path per way a conjunction can be false
    def cases(s,v,truth,P,d=0):
        v=s.canon(v,P)
        i=s.fn.ins.get(v) if isinstance(v,int) and v>=s.fn.nargs else None
        if i is not None and d<6 and s.val(v,P) is None and i.ty=='i1':
            a=b=None
            if i.op=='and' and not truth or i.op=='or' and truth: a,b=i.o[0],i.o[1]
            elif i.op=='select' and not truth and s.val(i.o[2],P)==0: a,b=i.o[0],i.o[1]
            elif i.op=='select' and truth and s.val(i.o[1],P) not in(None,0): a,b=i.o[0],i.o[2]
            elif i.op=='xor' and s.val(i.o[1],P) in(1,-1): return s.cases(i.o[0],not truth,P,d+1)
            if i.op=='icmp' and i.pred in('eq','ne'):
                j=s.canon(i.o[0],P); x=s.fn.ins.get(j) if isinstance(j,int) and j>=s.fn.nargs else None
                if x is not None and x.op=='select' and x.ty!='i1' and s.val(i.o[1],P)==0 and s.val(x.o[0],P) is None and s.val(j,P) is None:
                    out=[]
                    for tr in(True,False):
                        Q=Path(P.st,dict(P.env),dict(P.alias),dict(P.avail))
                        if not s.assume(x.o[0],tr,Q): continue
                        arm=s.canon(x.o[1] if tr else x.o[2],Q)
                        if isinstance(arm,int) and arm!=j: Q.alias[j]=arm
                        elif not isinstance(arm,int) and constval(arm) is not None: Q.env[j]=constval(arm)
                        out.append(Q)
                    return out
            if a is not None:
                out=[]
                for Q in s.cases(a,truth,P,d+1):
                    Q=Path(Q.st,dict(Q.env),dict(Q.alias),dict(Q.avail))
                    if s.assume(a,truth,Q): out.append(Q)
                Q=Path(P.st,dict(P.env),dict(P.alias),dict(P.avail))
                if s.assume(a,not truth,Q):
                    for R in s.cases(b,truth,Q,d+1):
                        if s.assume(b,truth,R): out.append(R)
                return out
        return [P]
    def __init__(s, fn):
        s.fn=fn; s.live=liveness(fn); s.visited=0; s._purelive={}
    # hooks
    def init(s): return ()
    def transfer(s,i,P): return None
    def onexit(s,i,P): pass
    def onabort(s,i,P): pass
    def purecall(s,i): return False
    def keepids(s,st): return ()
    # resolution
    def canon(s,v,P):
        n=0
        while isinstance(v,int) and v in P.alias and n<50: v=P.alias[v]; n+=1
        return v
    def val(s,v,P):
        if isinstance(v,int):
            v2=s.canon(v,P)
            if not isinstance(v2,int): return constval(v2)
            if v2 in P.env: return P.env[v2]
            if v2<s.fn.nargs: return getattr(s.fn,'consts',{}).get(v2)
            lat=getattr(s.fn,'lat',None)
            if lat:
                r=lat.get(v2)
                if isinstance(r,int) or r==NZ: return r
            return P.env.get(v)
        return constval(v)
    def assume(s,v,truth,P,d=0):
        """refine P with (v != 0)==truth; False if contradictory"""
        if d>8: return True
        cur=s.val(v,P)
        if cur is not None:
            if cur==NZ or cur!=0: return truth
            return not truth
        if not isinstance(v,int): return True
        v=s.canon(v,P)
        if not isinstance(v,int): return True
        isbool=False
        i=s.fn.ins.get(v) if v>=s.fn.nargs else None
        ty=i.ty if i else s.fn.args[v][1].split()[0]
        P.env[v]=(1 if ty=='i1' or (i is not None and i.op=='zext' and s._i1(i.o[0])) else NZ) if truth else 0
        if i is None: return True
        if i.op=='icmp':
            a,b=i.o; va,vb=s.val(a,P),s.val(b,P)
            pred=i.pred
            if vb==0 and va is None:
                if pred=='eq': return s.assume(a,not truth,P,d+1)
                if pred=='ne': return s.assume(a,truth,P,d+1)
                if pred=='ugt': return s.assume(a,truth,P,d+1)
                if pred=='sgt' and truth: return s.assume(a,True,P,d+1)
                if pred=='slt' and truth: return s.assume(a,True,P,d+1)
                if pred=='sge' and not truth: return s.assume(a,True,P,d+1)
            elif va==0 and vb is None:
                if pred=='eq': return s.assume(b,not truth,P,d+1)
                if pred=='ne': return s.assume(b,truth,P,d+1)
            elif isinstance(vb,int) and va is None and (pred=='eq' and truth or pred=='ne' and not truth):
                ca=s.canon(a,P)
                if isinstance(ca,int): P.env[ca]=vb
            elif va is None and vb is None and (pred=='eq' and truth or pred=='ne' and not truth):
                s.unify(a,b,P)
        elif i.op in('zext','sext','trunc','freeze','ptrtoint','inttoptr','bitcast') :
            if i.op!='trunc' or i.ty=='i1': return s.assume(i.o[0],truth,P,d+1) if (i.op!='trunc' or truth or s._boolish(i.o[0])) else True
        elif i.op in('call','invoke') and i.callee and i.callee.startswith('llvm.expect'):
            return s.assume(i.o[0],truth,P,d+1)
        elif i.op=='xor' and s.val(i.o[1],P) in(1,-1) and i.ty=='i1':
            return s.assume(i.o[0],not truth,P,d+1)
        elif i.op=='and' and truth and i.ty=='i1':
            return s.assume(i.o[0],True,P,d+1) and s.assume(i.o[1],True,P,d+1)
        elif i.ty=='i1' and (i.op=='and' and not truth or i.op=='or' and truth):
            want=0 if i.op=='or' else 1      # one operand known neutral: the other decides
            for a,b in((i.o[0],i.o[1]),(i.o[1],i.o[0])):
                x=s.val(a,P)
                if x is not None and (x!=0)==bool(want): return s.assume(b,truth,P,d+1)
        elif i.op=='or' and not truth and i.ty=='i1':
            return s.assume(i.o[0],False,P,d+1) and s.assume(i.o[1],False,P,d+1)
        elif i.op=='select' and i.ty!='i1':
            c=s.val(i.o[0],P); x,y=s.val(i.o[1],P),s.val(i.o[2],P)
            if c is None and x is not None and y is not None and (x==0)!=(y==0): return s.assume(i.o[0],truth==(x!=0),P,d+1)
        elif i.op=='select' and i.ty=='i1':
            # select c, x, false == c && x ; select c, true, x == c || x
            c=s.val(i.o[0],P)
            if c is not None: return s.assume(i.o[2] if c==0 else i.o[1],truth,P,d+1)
            x,y=s.val(i.o[1],P),s.val(i.o[2],P)
            if x is not None and y is not None and (x==0)!=(y==0): return s.assume(i.o[0],truth==(x!=0),P,d+1)
            if not truth and s.val(i.o[2],P)==0 and s.val(i.o[1],P) not in(None,0): return s.assume(i.o[0],False,P,d+1)
            if truth and s.val(i.o[1],P) not in(None,0) and s.val(i.o[2],P)==0: return s.assume(i.o[0],True,P,d+1)
            if truth and s.val(i.o[2],P)==0: return s.assume(i.o[0],True,P,d+1) and s.assume(i.o[1],True,P,d+1)
            if not truth and s.val(i.o[1],P)==1: return s.assume(i.o[0],False,P,d+1) and s.assume(i.o[2],False,P,d+1)
        return True
    def atoms(s,v,truth,P,d=0):
        """comparison instructions whose value is implied by (v != 0)==truth"""
        if d>8: return
        v=s.canon(v,P)
        if not isinstance(v,int) or v<s.fn.nargs: return
        i=s.fn.ins[v]
        if i.op in('icmp','fcmp'):
            yield i,truth
            if i.op=='icmp' and i.pred in('eq','ne') and s.val(i.o[1],P)==0 and i.o[1] and isinstance(i.o[1],list):
                j=s.canon(i.o[0],P)
                if isinstance(j,int) and j>=s.fn.nargs and s.fn.ins[j].op in('zext','sext','select','phi','icmp','and','or'):
                    yield from s.atoms(j,truth if i.pred=='ne' else not truth,P,d+1)
        elif i.op in('zext','sext','trunc','freeze'): yield from s.atoms(i.o[0],truth,P,d+1)
        elif i.op in('call','invoke') and i.callee and i.callee.startswith('llvm.expect'): yield from s.atoms(i.o[0],truth,P,d+1)
        elif i.op=='xor' and s.val(i.o[1],P) in(1,-1): yield from s.atoms(i.o[0],not truth,P,d+1)
        elif i.op=='and' and truth:
            yield from s.atoms(i.o[0],True,P,d+1); yield from s.atoms(i.o[1],True,P,d+1)
        elif i.op=='or' and not truth:
            yield from s.atoms(i.o[0],False,P,d+1); yield from s.atoms(i.o[1],False,P,d+1)
        elif i.op=='select' and i.ty=='i1' and None not in(s.val(i.o[1],P),s.val(i.o[2],P)) and (s.val(i.o[1],P)==0)!=(s.val(i.o[2],P)==0):
            yield from s.atoms(i.o[0],truth==(s.val(i.o[1],P)!=0),P,d+1)
        elif i.op=='select' and i.ty=='i1':
            if truth and s.val(i.o[2],P)==0:
                yield from s.atoms(i.o[0],True,P,d+1); yield from s.atoms(i.o[1],True,P,d+1)
            elif not truth and s.val(i.o[1],P)==1:
                yield from s.atoms(i.o[0],False,P,d+1); yield from s.atoms(i.o[2],False,P,d+1)
    def _i1(s,v):
        if not isinstance(v,int): return False
        if v<s.fn.nargs: return s.fn.args[v][1].startswith('i1')
        return s.fn.ins[v].ty=='i1'
    def _boolish(s,v):
        if isinstance(v,int):
            if v<s.fn.nargs: return s.fn.args[v][1].startswith('i1')
            i=s.fn.ins[v]
            if i.op=='zext' and isinstance(i.o[0],int):
                return True
            if i.op=='load' and i.sz==1: return True
            if i.op=='phi': return True
        return False
    def unify(s,a,b,P):
        pass
    def run(s):
        fn=s.fn
        seen=[set() for _ in range(fn.n)]
        work=[(0,Path(s.init(),{},{},{}))]
        while work:
            b,P=work.pop()
            k=s._key(b,P)
            if k in seen[b]: continue
            seen[b].add(k); s.visited+=1
            if s.visited>s.max_states: raise TooManyStates(fn.name)
            paths=[P]
            dead=False
            for i in fn.blocks[b]:
                if i.op=='phi': continue
                nxt=[]
                for P in paths:
                    s._redef(i.id,P)
                    if i is fn.exitcall[b]:
                        s.onabort(i,P); continue
                    if i.op=='ret':
                        s.onexit(i,P); continue
                    r=s._step(i,P)
                    outs=s.transfer(i,P)
                    if outs is None: nxt.append(P)
                    else:
                        for st in outs:
                            if isinstance(st,Path): nxt.append(st)
                            else: nxt.append(Path(st,dict(P.env),dict(P.alias),dict(P.avail)))
                paths=nxt
                if not paths: break
            if not paths: continue
            t=fn.blocks[b][-1]
            full=t.j.get('succ') or []
            for P in paths:
                if t.op=='br' and len(full)==2 and full[0]!=full[1]:
                    for tgt,truth in((full[0],True),(full[1],False)):
                        if tgt not in fn.succ[b]: continue
                        Q=Path(P.st,dict(P.env),dict(P.alias),dict(P.avail))
                        for Q in (s.cases(t.o[0],truth,Q) if s.split else (Q,)):
                            if not s.assume(t.o[0],truth,Q): continue
                            Q=s.onedge(t,truth,Q)
                            if Q is not None: s._enter(b,tgt,Q,work)
                elif t.op=='switch':
                    c=s.val(t.o[0],P)
                    for k,tgt in enumerate(full):
                        if tgt not in fn.succ[b]: continue
                        cv=t.cases[k-1] if k else None
                        Q=Path(P.st,dict(P.env),dict(P.alias),dict(P.avail))
                        if isinstance(c,int):
                            if k and cv!=c: continue
                            if not k and c in t.cases: continue
                        elif k:
                            x=s.canon(t.o[0],Q)
                            if isinstance(x,int): Q.env[x]=cv
                        s._enter(b,tgt,Q,work)
                else:
                    for tgt in fn.succ[b]:
                        Q=Path(P.st,dict(P.env),dict(P.alias),dict(P.avail))
                        s._enter(b,tgt,Q,work)
    def onedge(s,t,truth,P): return P
    def _redef(s,vid,P):
        if vid in P.env: del P.env[vid]
        if vid in P.alias: del P.alias[vid]
        if any(a==vid for a in P.alias.values()):
            for k in [k for k,a in P.alias.items() if a==vid]: del P.alias[k]
        if P.avail:
            for k in [k for k,a in P.avail.items() if a==vid]: del P.avail[k]
    def _step(s,i,P):
        if i.op=='load' and s.track_loads:
            a=s._akey(i.o[0],P)
            w=P.avail.get(a)
            if w is not None and (not isinstance(w,int) or w!=i.id): P.alias[i.id]=w
            else: P.avail[a]=i.id
        elif i.op=='store' and s.track_loads:
            a=s._akey(i.o[1],P)
            f=s.fn.fld(i)
            for k in list(P.avail):
                if k!=a and s._mayalias(k,a,f): del P.avail[k]
            v=i.o[0]
            P.avail[a]=s.canon(v,P) if isinstance(v,int) else _hash(v)
        elif i.op in('call','invoke'):
            if s.kill_loads_on_call and P.avail and not s._nowrite(i):
                keep={k:v for k,v in P.avail.items() if k[0]=='local'}
                P.avail.clear(); P.avail.update(keep)
        else:
            v=evalins(i,lambda o:s.val(o,P))
            if v is not None: P.env[i.id]=v
            if i.op=='select':
                c=s.val(i.o[0],P)
                if c is not None:
                    x=s.canon(i.o[1] if c else i.o[2],P)
                    if isinstance(x,int) and x!=i.id: P.alias[i.id]=x
    def _nowrite(s,i):
        c=i.callee
        if c and (c.startswith('llvm.expect') or c.startswith('llvm.dbg') or c.startswith('llvm.umax') or c.startswith('llvm.umin') or c.startswith('llvm.sm')): return True
        if c in('strlen','strcmp','strcasecmp','strncasecmp','printf','fprintf','puts','putchar','fflush','atoi','strtol','strtod'): return True
        return s.purecall(i)
    def _akey(s,p,P):
        """address key with SSA identity of the base"""
        off=0; var=()
        fn=s.fn
        while True:
            p=s.canon(p,P)
            if isinstance(p,int) and p>=fn.nargs and fn.ins[p].op=='getelementptr':
                g=fn.ins[p]; off+=g.off or 0; var+=tuple((_hash(s.canon(a,P)),sc) for a,sc in (g.var or []))
                p=g.o[0]
            else: break
        if isinstance(p,int) and p>=fn.nargs and fn.ins[p].op=='alloca' and not s._escapes(p): return ('local',p,off,var)
        return ('a',_hash(p),off,var)
    def _escapes(s,v):
        c=getattr(s,'_esc',None)
        if c is None: c=s._esc={}
        if v in c: return c[v]
        r=False; st=[v]; seen={v}
        while st and not r:
            x=st.pop()
            for i in s.fn.allins():
                if x in [o for o in i.o if isinstance(o,int)]:
                    if i.op in('load',): continue
                    if i.op=='store' and i.o[1]==x and i.o[0]!=x: continue
                    if i.op=='getelementptr' and i.o[0]==x:
                        if i.id not in seen: seen.add(i.id); st.append(i.id)
                        continue
                    r=True; break
        c[v]=r
        return r
    def _mayalias(s,k,a,f):
        if k[0]=='local' or a[0]=='local': return k[:2]==a[:2]
        if k[1]==a[1] and not k[3] and not a[3]: return k[2]==a[2]
        # different bases: same offset, or unknown -> may alias (type-based refinement by offset only)
        return True
    PURE=('icmp','xor','and','or','zext','sext','trunc','freeze','select')
    def lazy(s,v,P,b,d=0):
        """value of v after facts learned since it was computed. Its block
        dominates b, so it was computed after the last definition of its operands"""
        r=s.val(v,P)
        if r is not None or d>6 or not isinstance(v,int): return r
        v=s.canon(v,P)
        if not isinstance(v,int) or v<s.fn.nargs: return r
        i=s.fn.ins[v]
        if i.op not in s.PURE or (i.bb!=b and i.bb not in s.fn.dom().get(b,())): return r
        return evalins(i,lambda o:s.lazy(o,P,b,d+1))
    def _enter(s,b,tgt,P,work):
        fn=s.fn
        pl=s._purelive.get(tgt)
        if pl is None:
            pl=s._purelive[tgt]=[v for v in s.live[tgt] if v>=fn.nargs and fn.ins[v].op in s.PURE]
            for i in fn.blocks[tgt]:
                if i.op!='phi': break
                pl+=[o for o in i.o if isinstance(o,int) and o>=fn.nargs and fn.ins[o].op in s.PURE]
        for v in pl:
            if v not in P.env and v not in P.alias and (fn.ins[v].bb==b or fn.ins[v].bb in fn.dom().get(b,())):
                r=s.lazy(v,P,b)
                if r is not None: P.env[v]=r
        upd=[]
        for i in fn.blocks[tgt]:
            if i.op!='phi': break
            for o,ib in zip(i.o,i.j['in']):
                if ib==b:
                    upd.append((i.id,o,s.val(o,P),s.canon(o,P) if isinstance(o,int) else o)); break
        for pid,o,v,c in upd: s._redef(pid,P)
        ids={u[0] for u in upd}
        for pid,o,v,c in upd:
            if isinstance(c,int):
                if c not in ids and c!=pid: P.alias[pid]=c
                elif c in ids and v is not None: P.env[pid]=v
            elif v is not None:
                P.env[pid]=v
        P.st=s.onphi(b,tgt,[(u[0],u[3]) for u in upd],P)
        if P.st is None: return
        # drop dead facts
        lv=s.live[tgt]
        keep=set(s.keepids(P.st))
        live=set(lv)|ids|keep
        P.alias={k:a for k,a in P.alias.items() if k in live}
        tl=live|{a for a in P.alias.values() if isinstance(a,int)}
        # a value feeding a live value's recomputation is already in lv (SSA liveness)
        P.env={k:v for k,v in P.env.items() if k in tl}
        P.avail={k:v for k,v in P.avail.items() if (not isinstance(v,int)) or v in P.env or v in tl}
        work.append((tgt,P))
    def onphi(s,b,tgt,upd,P): return P.st
    def _key(s,b,P):
        return (P.st,frozenset(P.env.items()),frozenset((k,_hash(a)) for k,a in P.alias.items()),frozenset(P.avail.items()))

def _hash(v): return tuple(_hash(x) if isinstance(x,list) else x for x in v) if isinstance(v,list) else v
