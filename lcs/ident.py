"""Exact-copy taint of 64-bit identities and byte quantities.
A value is tagged 'id' (an object id) or 'size' (an object size, or a sum of
sizes) when it is a plain copy of one: through registers, phis, casts that keep
64 bits, struct fields (field-based, flow-insensitive), call arguments and
results, and the keys/values of glib hash tables held in struct fields.
Narrowings of tagged values are reported."""
from .ir import *
from .slice import users
IDF=('request.obj_id','cache_obj.obj_id'); SZF=('request.obj_size','cache_obj.obj_size','cache.cache_size','common_cache_params_t.cache_size','cache.occupied_byte')
KEEP={'zext','sext','bitcast','inttoptr','ptrtoint','freeze','phi','select'}
MIX={'mul','xor','shl','lshr','ashr','and','urem','srem','udiv','sdiv','or','uitofp','sitofp'}
def width(ty):
    if ty=='ptr': return 64
    return int(ty[1:]) if ty and ty[0]=='i' and ty[1:].isdigit() else 0
def fieldname(fn,e):
    """struct.field a value was loaded from"""
    return fn.path(e[1])[1] if False else None
class Ident:
    def __init__(s,m,skip=(),prints=False):
        s.m=m; s.skip=skip; s.prints=prints; s.tag={}; s.why={}; s.ftag={}; s.ptag={}; s.rtag={}; s.ctag={}
        for n in IDF: s.ftag[n]='id'
        for n in SZF: s.ftag[n]='size'
        s.fns=[f for f in m.repo_fns()]
        ch=True; s.rounds=0
        while ch and s.rounds<12:
            s.rounds+=1; ch=False
            for f in s.fns: ch|=s.pass_fn(f)
    def t(s,f,o):
        if isinstance(o,list) or not isinstance(o,int): return None
        return s.tag.get((f.name,o))
    def put(s,d,k,v):
        if v and d.get(k)!=v and k not in d: d[k]=v; return True
        return False
    def table(s,f,o):
        """identity of a glib table: the struct field it is loaded from"""
        seen=set()
        while isinstance(o,int) and o>=f.nargs and o not in seen:
            seen.add(o); i=f.ins[o]
            if i.op=='load': return f.fld(i)
            if i.op in('bitcast','freeze'): o=i.o[0]
            else: break
        return None
    def mem(s,f,a,d=0,seen=None,off=0):
        """keys naming the memory at address a: the field its base pointer was loaded
        from and the constant part of the offset (variable indices are dropped)"""
        seen=set() if seen is None else seen
        if isinstance(a,list) or not isinstance(a,int) or d>8 or a in seen: return set()
        seen.add(a)
        if a<f.nargs: return set()
        i=f.ins[a]
        if i.op=='getelementptr':
            var=[x for x in (i.var or []) ]
            o=off+(i.off or 0)
            return s.mem(f,i.o[0],d+1,seen,o)
        if i.op in('bitcast','freeze'): return s.mem(f,i.o[0],d+1,seen,off)
        if i.op in('phi','select'):
            r=set()
            for o in(i.o if i.op=='phi' else i.o[1:]): r|=s.mem(f,o,d+1,seen,off)
            return r
        if i.op=='alloca': return {('alloca',f.name,a,off)}
        if i.op=='load':
            n=f.fld(i)
            if n in('GArray.data','_GArray.data'):
                g=s.table(f,s.base(f,i.o[0])); n=(g,'data') if g else None
            elif not n or '.' not in n:
                r=set()
                for k in s.mem(f,i.o[0],d+1,seen,0): r.add(('*',)+k)
                return {('at',k,off) for k in r}
            return {('at',n,off)} if n else set()
        return set()
    def base(s,f,a):
        while isinstance(a,int) and a>=f.nargs and f.ins[a].op in('getelementptr','bitcast'): a=f.ins[a].o[0]
        return a
    def pass_fn(s,f):
        ch=False
        for k in range(f.nargs):
            t=f.ditypes[k+1] if len(f.ditypes)>k+1 else ''
            v=s.ptag.get((f.name,k)) or ('id' if t=='obj_id_t' else None)
            if v and width(f.args[k][1].split()[0])==64: ch|=s.put(s.tag,(f.name,k),v)
        for i in f.live():
            r=None; op=i.op
            if op=='load':
                n=f.fld(i)
                if n and n in s.ftag and i.sz==8: r=s.ftag[n]
                elif n in('GList._data','GList.data','_GList.data') and i.sz==8: r=s.ftag.get(('list',f.file))
                elif i.sz==8 and not (n and '.' in n):
                    for k in s.mem(f,i.o[0]): r=r or s.ftag.get(k)
            elif op in KEEP:
                ops=i.o[1:] if op=='select' else i.o
                for o in ops: r=r or s.t(f,o)
            elif op in('add','sub'):
                a,b=s.t(f,i.o[0]),s.t(f,i.o[1])
                if op=='add' and 'size' in(a,b): r='size'
            elif op=='store':
                v=s.t(f,i.o[0])
                if v:
                    n=f.fld(i)
                    if n and '.' in n:
                        if not n.startswith(s.skip): ch|=s.put(s.ftag,n,v)
                    else:
                        for k in s.mem(f,i.o[1]): ch|=s.put(s.ftag,k,v)
            elif op in('call','invoke'):
                c=i.callee; src=s.m.srcname(c) if c else None
                if c in s.m.fns and not s.m.fns[c].decl if hasattr(s.m.fns.get(c),'decl') else c in s.m.fns:
                    for k,o in enumerate(i.o):
                        v=s.t(f,o)
                        if v: ch|=s.put(s.ptag,(c,k),v)
                    r=s.rtag.get(c)
                elif c in('g_hash_table_insert','g_hash_table_replace','g_hash_table_add'):
                    T=s.table(f,i.o[0])
                    if T:
                        v=s.t(f,i.o[1])
                        if v: ch|=s.put(s.ctag,(T,'key'),v)
                        if len(i.o)>2:
                            v=s.t(f,i.o[2])
                            if v: ch|=s.put(s.ctag,(T,'val'),v)
                elif c in('g_list_append','g_list_prepend'):
                    v=s.t(f,i.o[1])
                    if v: ch|=s.put(s.ftag,('list',f.file),v)
                elif c and (c.startswith('llvm.memcpy') or c=='memcpy' or c=='g_array_append_vals'):
                    if c=='g_array_append_vals':
                        T=s.table(f,i.o[0]); dst=[('at',(T,'data'),0)] if T else []
                    else: dst=s.mem(f,i.o[0])
                    for k in s.mem(f,i.o[1]):
                        for q,v in list(s.ftag.items()):
                            if isinstance(q,tuple) and q[:-1]==k[:-1]:
                                for dk in dst: ch|=s.put(s.ftag,dk[:-1]+(dk[-1]+q[-1]-k[-1],),v)
                elif c=='g_hash_table_lookup':
                    T=s.table(f,i.o[0]); r=s.ctag.get((T,'val'))
                elif c in('g_hash_table_foreach','g_hash_table_foreach_remove'):
                    T=s.table(f,i.o[0]); g=i.o[1]
                    if isinstance(g,list) and g[0]=='F' and g[1] in s.m.fns:
                        for k,w in((0,'key'),(1,'val')):
                            v=s.ctag.get((T,w))
                            if v: ch|=s.put(s.ptag,(g[1],k),v)
            elif op=='ret' and i.o:
                v=s.t(f,i.o[0])
                if v: ch|=s.put(s.rtag,f.name,v)
            if r and (width(i.ty)==64): ch|=s.put(s.tag,(f.name,i.id),r)
        return ch
    def narrowings(s):
        """(fn, trunc instruction, tag, use that matters)"""
        for f in s.fns:
            U=users(f)
            for i in f.live():
                if i.op!='trunc': continue
                v=s.t(f,i.o[0])
                if not v: continue
                u=s.kept(f,U,i,0)
                if u is not None: yield f,i,v,u
    def kept(s,f,U,i,d):
        for u in U.get(i.id,[]):
            if u.op in MIX or u.op=='getelementptr': continue
            if u.op=='trunc' or u.op in KEEP or u.op in('add','sub'):
                if d<6:
                    r=s.kept(f,U,u,d+1)
                    if r is not None: return r
                continue
            if u.op in('call','invoke') and (u.callee or '') in('fprintf','snprintf','sprintf')+(() if s.prints else ('printf',)): continue
            return u
        return None
