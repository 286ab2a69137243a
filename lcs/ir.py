"""Normalised-IR model: loading, CFG, access paths, field names, vtable slots."""
import json, re, collections

def _qstrip(n): return n

class Ins:
    __slots__ = ('id','op','ty','o','bb','fn','j','idx')
    def __init__(s, j, fn, bb, idx):
        s.j=j; s.id=j['id']; s.op=j['op']; s.ty=j.get('ty'); s.o=j.get('o',[]); s.fn=fn; s.bb=bb; s.idx=idx
    def __getattr__(s, k):
        if k.startswith('__'): raise AttributeError(k)
        return s.j.get(k)
    @property
    def line(s):
        l=s.j.get('loc')
        return l[0][0] if l else 0
    def where(s):
        l=s.j.get('loc')
        if not l: return '%s:%s (%s)'%(s.fn.file, s.fn.line, s.fn.src)
        t='%s:%d (%s)'%(l[0][2].replace('/repo/',''), l[0][0], l[0][1])
        for x in l[1:]: t+=' <- inlined at %s:%d (%s)'%(x[2].replace('/repo/',''), x[0], x[1])
        return t
    def inlined_fns(s): return [x[1] for x in (s.j.get('loc') or [])]
    def __repr__(s): return '<%s %%%d %s>'%(s.op,s.id,s.j.get('callee',''))

TERMS={'br','switch','ret','unreachable','invoke','resume','indirectbr'}

class Fn:
    def __init__(s, j, mod):
        s.j=j; s.mod=mod; s.name=j['name']; s.src=j.get('src',j['name']); s.file=j.get('file','')
        s.line=j.get('line',0); s.internal=j['internal']; s.args=j['args']; s.nargs=len(s.args)
        s.ditypes=j.get('ditypes',[])
        s.blocks=[]; s.ins={}
        for b,bl in enumerate(j['blocks']):
            L=[]
            for x in bl:
                if x['op']=='nop': continue
                i=Ins(x,s,b,len(L)); L.append(i); s.ins[i.id]=i
            s.blocks.append(L)
        s.n=len(s.blocks)
        s.succ=[list(dict.fromkeys((bl[-1].j.get('succ') or []))) if bl else [] for bl in s.blocks]
        # a call to a noreturn function ends the block
        s.exitcall=[None]*s.n
        for b,bl in enumerate(s.blocks):
            for i in bl:
                if i.op in('call','invoke') and (i.noreturn or mod.is_noreturn(i.callee)):
                    s.exitcall[b]=i; s.succ[b]=[]
                    break
        s.pred=[[] for _ in range(s.n)]
        for b in range(s.n):
            for t in s.succ[b]: s.pred[t].append(b)
        s.dbgname={}
        for d in j['dbg']: s.dbgname.setdefault(d[0],(d[1],d[2],d[3]))
        s._dom=None; s._pdom=None; s._ex={}; s._reach=None
    @property
    def relfile(s): return s.file.replace('/repo/','')
    def __repr__(s): return 'Fn(%s)'%s.name
    def allins(s):
        for bl in s.blocks:
            for i in bl: yield i
    def reachable(s):
        if s._reach is None:
            seen={0}; st=[0]
            while st:
                b=st.pop()
                for t in s.succ[b]:
                    if t not in seen: seen.add(t); st.append(t)
            s._reach=seen
        return s._reach
    def live(s):
        """instructions in reachable blocks, up to a noreturn call"""
        r=s.reachable()
        for b in sorted(r):
            for i in s.blocks[b]:
                yield i
                if i is s.exitcall[b]: break
    def calls(s, name=None):
        for i in s.live():
            if i.op in('call','invoke'):
                if name is None or i.callee==name or (i.callee and s.mod.srcname(i.callee)==name): yield i
    # ---- dominators (iterative, on reachable blocks)
    def dom(s):
        if s._dom is None: s._dom=_domsets(s.n, [0], s.succ, s.pred, s.reachable())
        return s._dom
    def dominates(s, a, b):
        """instruction a dominates instruction b"""
        if a.bb==b.bb: return a.idx<=b.idx
        return a.bb in s.dom().get(b.bb,())
    def rets(s):
        for b in sorted(s.reachable()):
            if s.blocks[b] and s.blocks[b][-1].op=='ret' and s.exitcall[b] is None: yield s.blocks[b][-1]
    def loops(s):
        """natural loops: header -> set of blocks"""
        d=s.dom(); L={}
        for b in s.reachable():
            for t in s.succ[b]:
                if t in d[b]:
                    body=L.setdefault(t,{t}); st=[b]
                    while st:
                        x=st.pop()
                        if x in body: continue
                        body.add(x)
                        for p in s.pred[x]:
                            if p in s.reachable(): st.append(p)
        return L
    # ---- expressions
    def ex(s, v):
        """canonical expression (nested tuples) of an operand"""
        if isinstance(v,int):
            r=s._ex.get(v)
            if r is None:
                r=s._mk(v); s._ex[v]=r
            return r
        k=v[0]
        if k=='i': return ('c',v[1])
        if k=='n': return ('c',0)
        if k=='f': return ('f',float(v[1]))
        if k=='F': return ('fn',v[1])
        if k=='g': return ('glob',v[1])
        if k=='s': return ('str',v[1])
        if k=='o': return mkadr(s.ex(v[1]),v[2],())
        if k=='u': return ('undef',)
        if k=='z': return ('c',0)
        return ('?',str(v))
    def _mk(s, v):
        if v<s.nargs: return ('arg',v)
        i=s.ins[v]; op=i.op
        if op=='getelementptr':
            var=tuple((s.ex(a),sc) for a,sc in (i.var or []))
            return mkadr(s.ex(i.o[0]), i.off or 0, var)
        if op=='load': return ('ld',s.ex(i.o[0]),i.sz)
        if op in('zext','sext','trunc','bitcast','ptrtoint','inttoptr','freeze','addrspacecast'):
            e=s.ex(i.o[0])
            if op in('bitcast','freeze','addrspacecast','ptrtoint','inttoptr'): return e
            if op in('zext','sext'): return (op,i.ty,e)
            # trunc of zext from same type
            if e[0]=='zext' and i.ty=='i1': return e[2]
            return (op,i.ty,e)
        if op in('fptosi','sitofp','uitofp','fptoui','fpext','fptrunc','fneg'): return (op,i.ty,s.ex(i.o[0]))
        if op in('add','sub','mul','and','or','xor','shl','lshr','ashr','udiv','sdiv','urem','srem','fadd','fsub','fmul','fdiv','frem'):
            return (op,s.ex(i.o[0]),s.ex(i.o[1]))
        if op in('icmp','fcmp'): return (op,i.pred,s.ex(i.o[0]),s.ex(i.o[1]))
        if op=='select': return ('sel',s.ex(i.o[0]),s.ex(i.o[1]),s.ex(i.o[2]))
        if op in('call','invoke'):
            if i.callee and i.callee.startswith('llvm.expect'): return s.ex(i.o[0])
            return ('call',v)
        if op=='phi': return ('phi',v)
        if op=='alloca': return ('alloca',v)
        if op=='extractvalue': return ('xv',s.ex(i.o[0]),tuple(i.j.get('idx',())))
        return ('op',op,v)
    # ---- field names
    def ptrtype(s, e, depth=0):
        """struct name pointed to by expression e, or None"""
        if depth>8: return None
        k=e[0]
        m=s.mod
        if k=='arg':
            t=s.ditypes[e[1]+1] if e[1]+1<len(s.ditypes) else ''
            return m.pointee(t)
        if k=='ld':
            f=s.fieldinfo(e[1],depth+1)
            if f:
                t=m.pointee(f[2])
                if t: return t
        if k=='alloca': return _strip(s.ins[e[1]].aty)
        if k=='call':
            c=s.ins[e[1]].callee
            if c and c in m.fns and m.fns[c].ditypes: 
                t=m.pointee(m.fns[c].ditypes[0])
                if t: return t
            elif not c:
                sl=s.slotof(s.ins[e[1]])
                if sl: return m.slot_ret.get(sl)
        # debug-variable types
        for vid in s._vids(e):
            d=s.dbgname.get(vid)
            if d:
                t=m.pointee(d[1])
                if t: return t
        if k=='phi':
            for o in s.ins[e[1]].o:
                x=s.ex(o)
                if x!=e and x[0]!='phi':
                    t=s.ptrtype(x,depth+1)
                    if t: return t
        if k=='sel':
            return s.ptrtype(e[2],depth+1) or s.ptrtype(e[3],depth+1)
        return None
    def _vids(s,e):
        if e[0] in('phi','call','alloca'): return [e[1]]
        if not hasattr(s,'_rev'):
            s._rev=collections.defaultdict(list)
            for vid in s.dbgname:
                if vid in s.ins or vid<s.nargs: s._rev[s.ex(vid)].append(vid)
        return s._rev.get(e,[])
    def fieldinfo(s, a, depth=0):
        """(struct, dotted field, type) of address expression a, or None"""
        base,off,var=a,0,()
        if a[0]=='adr': base,off,var=a[1],a[2],a[3]
        t=s.ptrtype(base,depth)
        if not t or t not in s.mod.structs: return None
        r=s.mod.field_at(t,off,bool(var))
        return (t,)+r if r else None
    def fld(s, i, opidx=None):
        """'struct.field' accessed by load/store i (or passed as call argument opidx)"""
        tag=i.j.get('tag')
        if i.op in('load','store'):
            t=tag[0] if tag else ''
            p=i.o[0] if i.op=='load' else i.o[1]
        else:
            t=tag[opidx] if tag else ''
            p=i.o[opidx]
        if t:
            r=s.mod.tagfield(t)
            if r: return r
        f=s.fieldinfo(s.ex(p))
        if f: return f[0]+'.'+f[1]
        # pointer arg inlined: the gep itself is tagged
        if isinstance(p,int) and p in s.ins:
            g=s.ins[p].gtag
            if g: return s.mod.tagfield(g)
        return None
    def slotof(s, call):
        """vtable slot name ('cache.find') of an indirect call"""
        if call.fp is None: return None
        v=call.fp
        if not isinstance(v,int) or v<s.nargs: return None
        i=s.ins[v]
        if i.op=='load': return s.fld(i)
        return None
    def callee_or_slot(s,i):
        if i.callee: return s.mod.srcname(i.callee)
        return s.slotof(i) or '<indirect>'
    # pretty
    def pp(s,e,d=0):
        k=e[0]
        if d>6: return '...'
        if k=='arg':
            d=s.dbgname.get(e[1])
            return d[0] if d else 'arg%d'%e[1]
        if k=='c': return str(e[1])
        if k=='f': return repr(e[1])
        if k=='str': return '"%s"'%e[1]
        if k in('glob','fn'): return e[1]
        if k=='ld':
            f=s.fieldinfo(e[1]); b=e[1][1] if e[1][0]=='adr' else e[1]
            if f: return '%s->%s'%(s.pp(b,d+1),f[1])
            return '*(%s)'%s.pp(e[1],d+1)
        if k=='adr':
            f=s.fieldinfo(e)
            if f: return '&%s->%s'%(s.pp(e[1],d+1),f[1])
            return '(%s+%d%s)'%(s.pp(e[1],d+1),e[2],''.join('+%s*%d'%(s.pp(a,d+1),c) for a,c in e[3]))
        if k=='call': return '%s()#%d'%(s.callee_or_slot(s.ins[e[1]]),e[1])
        if k in('phi','alloca'):
            n=s.dbgname.get(e[1]); return (n[0]+'~' if n else k)+str(e[1])
        if k in('zext','sext','trunc','fptosi','sitofp','uitofp','fptoui','fpext','fptrunc'): return s.pp(e[2],d+1)
        if k in('icmp','fcmp'): return '(%s %s %s)'%(s.pp(e[2],d+1),e[1],s.pp(e[3],d+1))
        if len(e)==3 and isinstance(e[1],tuple): return '(%s %s %s)'%(s.pp(e[1],d+1),k,s.pp(e[2],d+1))
        return str(e)[:60]

def mkadr(b,off,var):
    if b[0]=='adr':
        off+=b[2]; var=b[3]+var; b=b[1]
    if off==0 and not var: return b
    return ('adr',b,off,var)

def base_of(a):
    while a[0]=='adr': a=a[1]
    return a

def _strip(t):
    if not t: return None
    for p in('struct.','class.','union.'):
        if t.startswith(p): t=t[len(p):]
    t=re.sub(r'\.\d+$','',t)
    if '<' not in t and '::' in t: t=t.split('::')[-1]
    return t

def _domsets(n, roots, succ, pred, reach):
    # simple bitset iteration
    full=0
    for b in reach: full|=1<<b
    d={b:full for b in reach}
    for r in roots: d[r]=1<<r
    order=[]; seen=set()
    def dfs(r):
        st=[(r,iter(succ[r]))]; seen.add(r)
        while st:
            b,it=st[-1]
            for t in it:
                if t not in seen and t in reach:
                    seen.add(t); st.append((t,iter(succ[t]))); break
            else:
                order.append(b); st.pop()
    for r in roots:
        if r not in seen: dfs(r)
    order.reverse()
    ch=True
    while ch:
        ch=False
        for b in order:
            if b in roots: continue
            x=full
            for p in pred[b]:
                if p in reach: x&=d[p]
            x|=1<<b
            if x!=d[b]: d[b]=x; ch=True
    return {b:{i for i in reach if d[b]>>i&1} for b in reach}

class Module:
    def __init__(s, path):
        from . import build
        txt=open(path).read()
        if build.REPO!='/repo': txt=txt.replace(build.REPO.rstrip('/')+'/','/repo/')
        m=json.loads(txt)
        s.structs=m['structs']
        s.decl_noreturn={n for n,nr in m['decls'] if nr}|{'exit','abort','_exit','__assert_fail','__assert_rtn'}
        s.fns={}
        s._nr={f['name'] for f in m['functions'] if f['noreturn']}
        s._src={}
        s.slot_ret={'cache.find':'cache_obj','cache.insert':'cache_obj','cache.to_evict':'cache_obj'}
        for f in m['functions']:
            s._src[f['name']]=f.get('src',f['name'])
        # functions all of whose paths end in exit/abort are noreturn too
        for f in m['functions']: s.fns[f['name']]=Fn(f,s)
        s.globals={g['name']:g for g in m['globals']}
        s.bysrc=collections.defaultdict(list)
        for f in s.fns.values(): s.bysrc[f.src].append(f)
        s._fa={}
    def srcname(s,n):
        r=s._src.get(n)
        return r if r else n
    def is_noreturn(s,n): return n in s._nr or n in s.decl_noreturn
    def get(s, src, file=None):
        L=[f for f in s.bysrc.get(src,[]) if file is None or f.file.endswith(file)]
        if len(L)>1: raise KeyError('ambiguous function %s'%src)
        return L[0] if L else None
    def repo_fns(s):
        for f in s.fns.values():
            if f.file.startswith('/repo/'): yield f
    def pointee(s,t):
        if not t or not t.endswith('*'): return None
        t=t[:-1]
        if t.endswith('*'): return None
        if t.startswith('struct '): return t[7:]
        return None
    def field_at(s, st, off, var=False, want=None, depth=0):
        """(dotted name, type) of the field of struct st at byte offset off"""
        key=(st,off,var,want)
        if key in s._fa: return s._fa[key]
        r=s._field_at(st,off,var,want,depth); s._fa[key]=r
        return r
    def _field_at(s, st, off, var, want, depth):
        d=s.structs.get(st)
        if not d or depth>6: return None
        cands=[]
        for m in d['members']:
            n,o,t,sz=m[0],m[1],m[2],m[3]
            if o<=off<max(o+sz,o+1):
                sub=None
                at=t
                arr=re.match(r'^(.*?)((\[\-?\d+\])+)$',t)
                if arr: at=arr.group(1)
                if at.startswith('struct ') and not at.endswith('*'):
                    rel=off-o
                    ss=s.structs.get(at[7:])
                    if ss:
                        if arr and ss['size']: rel%=ss['size']
                        sub=s.field_at(at[7:],rel,var,want,depth+1)
                if sub:
                    nm=(n+('[]' if arr else '')+'.' if n else '')+sub[0]; cands.append((nm,sub[1],m))
                else:
                    cands.append((n+('[]' if arr else ''),at if arr else t,m))
        if not cands: return None
        if want:
            for c in cands:
                if want in (c[2][2][7:] if c[2][2].startswith('struct ') else ''): return c[:2]
        return cands[0][:2]
    def tagfield(s, tag):
        outer,inner=tag.split('|')
        def sp(x):
            v=x.endswith('[]'); x=x[:-2] if v else x
            n,o=x.rsplit('+',1); return n,int(o),v
        on,oo,ov=sp(outer); inn,io,_=sp(inner)
        on=re.sub(r'\.\d+$','',on); inn=re.sub(r'\.\d+$','',inn)
        if on in s.structs:
            want=inn if (inn!=on and inn in s.structs) else None
            r=s.field_at(on,oo,ov,want)
            if r: return on+'.'+r[0]
        if inn in s.structs:
            r=s.field_at(inn,io,ov)
            if r: return inn+'.'+r[0]
        return None

def subexprs(e):
    st=[e]
    while st:
        x=st.pop()
        if isinstance(x,tuple):
            if x and isinstance(x[0],str): yield x
            for y in x:
                if isinstance(y,tuple): st.append(y)
