"""Bit provenance of values: which byte/bit of the trace record each bit of a value comes from."""
from .ir import *
Z,O='0','1'
def W(ty):
    try: return int(ty.split()[0][1:])
    except Exception: return 64
class Rec:
    """recognises addresses inside the current trace record of a reader function"""
    def __init__(s,fn): s.fn=fn; s.memo={}
    def src(s,e,d=0):
        """kinds of source of a record pointer expression; empty set if it is not one"""
        if e in s.memo: return s.memo[e]
        s.memo[e]=frozenset()
        r=s._src(e,d); s.memo[e]=r
        return r
    def _src(s,e,d):
        fn=s.fn
        if d>10: return frozenset()
        if e==('c',0): return frozenset(['null'])
        if e[0]=='adr':
            b=e[1]
            if b[0]=='ld' and e[2]==0 and len(e[3])==1 and e[3][0][1]==1:
                f=fn.fieldinfo(b[1]); v=e[3][0][0]
                g=fn.fieldinfo(v[1]) if v[0]=='ld' else None
                if f and f[1]=='mapped_file' and g and g[1]=='mmap_offset': return frozenset(['map'])
            return frozenset()
        if e[0]=='phi':
            out=set()
            for o in fn.ins[e[1]].o:
                x=fn.ex(o)
                if x==e: continue
                k=s.src(x,d+1)
                if not k: return frozenset()
                out|=k
            return frozenset(out)
        if e[0]=='ld' and e[1][0]=='alloca':
            a=e[1][1]
            for i in fn.live():
                if i.op in('call','invoke') and i.callee and 'zstd' in i.callee and any(fn.ex(o)==e[1] for o in i.o): return frozenset(['zstd'])
            # a local that holds the pointer
            out=set()
            for i in fn.live():
                if i.op=='store' and fn.ex(i.o[1])==e[1]:
                    k=s.src(fn.ex(i.o[0]),d+1)
                    if not k: return frozenset()
                    out|=k
            return frozenset(out)
        if e[0]=='call':
            i=fn.ins[e[1]]; g=fn.mod.fns.get(i.callee) if i.callee else None
            if g is None: return frozenset()
            R=Rec(g); out=set()
            for r in g.rets():
                if not r.o: return frozenset()
                k=R.src(g.ex(r.o[0]),d+1)
                if not k: return frozenset()
                out|=k
            return frozenset(out)
        return frozenset()
    def at(s,a):
        """offset inside the record of address a, or None"""
        off=0
        if a[0]=='adr':
            b,off,var=a[1],a[2],a[3]
            if b[0]=='ld' and var and s.src(('adr',b,0,var))=={'map'}: return off
            if var: return None
            a=b
        if a[0]=='alloca':
            # local copy of (part of) the record
            for i in s.fn.live():
                if i.op in('call','invoke') and (i.callee or '').startswith(('llvm.memcpy','llvm.memmove','memcpy')):
                    d=s.fn.ex(i.o[0]); 
                    if base_of(d)==a:
                        r=s.at(s.fn.ex(i.o[1]))
                        if r is not None: return r+off-(d[2] if d[0]=='adr' else 0)
            return None
        return off if s.src(a)-{'null'} else None
class Bits:
    """bits(v): tuple of w symbols (int: bit position in the record, '0','1', ('old',f,k)),
    or ('sum',{..}) / ('div',bits,c) / ('float',off,w), or None"""
    def __init__(s,fn,old=None): s.fn=fn; s.R=Rec(fn); s.old=old; s.memo={}
    def width(s,v):
        if isinstance(v,int): return W(s.fn.args[v][1]) if v<s.fn.nargs else W(s.fn.ins[v].ty)
        return v[2] if v[0]=='i' else 64
    def bits(s,v):
        if not isinstance(v,int):
            if v[0]=='i': return tuple(O if v[1]>>k&1 else Z for k in range(v[2]))
            if v[0] in('n','z'): return (Z,)*64
            return None
        if v in s.memo: return s.memo[v]
        s.memo[v]=None
        r=s._bits(v); s.memo[v]=r
        return r
    def _bits(s,v):
        fn=s.fn
        if v<fn.nargs: return None
        i=fn.ins[v]; op=i.op
        if op=='load':
            a=fn.ex(i.o[0]); o=s.R.at(a); n=i.sz*8
            if i.ty in('float','double'): return ('float',o,n) if o is not None else None
            if o is not None: return tuple(o*8+k for k in range(n))
            if s.old:
                r=s.old(i,a,n)
                if r is not None: return r
            return None
        if op in('bitcast','freeze'): return s.bits(i.o[0])
        if op in('zext','sext','trunc'):
            a=s.bits(i.o[0]); w=W(i.ty)
            if a is None: return None
            if a[0] in('sum','div','float'): return a if op!='trunc' else None
            if op=='trunc': return a[:w]
            return a+((Z,) if op=='zext' else (a[-1],))*(w-len(a))
        if op in('fptosi','fptoui'):
            a=s.bits(i.o[0]); return a if a and a[0]=='float' else None
        if op=='fpext': return s.bits(i.o[0])
        if op in('and','or','xor','add','shl','lshr','ashr','udiv','urem','mul','sub'):
            a,b=s.bits(i.o[0]),s.bits(i.o[1])
            if a is None or b is None: return None
            isp=lambda x:x[0] in('sum','div','float')
            if op in('shl','lshr','ashr','udiv') or op=='mul':
                c=s.const(b) if not isp(b) else None
                if c is None or isp(a): return None
                if op=='mul':
                    if c&(c-1) or not c: return None
                    op='shl'; c=c.bit_length()-1
                if op=='udiv' and c and not c&(c-1): op='lshr'; c=c.bit_length()-1
                if op=='udiv':
                    return ('div',a,c)
                if c>=len(a): return None
                if op=='shl': return (Z,)*c+a[:len(a)-c]
                return a[c:]+((Z,) if op=='lshr' else (a[-1],))*c
            if op=='urem':
                c=s.const(b) if not isp(b) else None
                if c is None or isp(a) or not c or c&(c-1): return None
                c=c.bit_length()-1
                return a[:c]+(Z,)*(len(a)-c)
            if op=='sub':
                return ('minus',a,b)
            if op=='add':
                if not isp(a) and not isp(b) and all(x==Z or y==Z for x,y in zip(a,b)): return tuple(y if x==Z else x for x,y in zip(a,b))
                A=lambda x: list(x[1]) if x[0]=='sum' else [norm(x)]
                return ('sum',frozenset(A(a)+A(b)))
            if isp(a) or isp(b): return None
            out=[]
            for x,y in zip(a,b):
                if op=='and': r=Z if Z in(x,y) else y if x==O else x if y==O else x if x==y else None
                elif op=='or': r=O if O in(x,y) else y if x==Z else x if y==Z else x if x==y else None
                else: r=y if x==Z else x if y==Z else Z if x==y else None
                if r is None: return None
                out.append(r)
            return tuple(out)
        if op=='select' or op=='phi':
            L=[s.bits(o) for o in (i.o[1:] if op=='select' else i.o)]
            return L[0] if L and all(x==L[0] for x in L) else None
        if op in('call','invoke') and (i.callee or '').startswith('llvm.bswap'):
            a=s.bits(i.o[0])
            if a is None: return None
            return tuple(b for k in range(len(a)-8,-8,-8) for b in a[k:k+8])
        return None
    @staticmethod
    def const(b):
        if any(x not in(Z,O) for x in b): return None
        return sum(1<<k for k,x in enumerate(b) if x==O)
def norm(a):
    """bits without redundant zero extension"""
    if not a or a[0] in('sum','div','float','minus'): return a
    a=list(a)
    while len(a)>1 and a[-1]==Z: a.pop()
    return tuple(a)
def U(off,n): return tuple(range(off*8,(off+n)*8))
def ext(a,w,signed=False):
    if a and a[0] in('sum','div','float','minus'): return a
    a=tuple(a)[:w]
    return a+((a[-1],) if signed else (Z,))*(w-len(a))
def show(a):
    if a is None: return 'a value that is not a fixed slice of the record'
    if a[0]=='sum': return ' + '.join(sorted(show(x) for x in a[1]))
    if a[0]=='div': return '%s / %d'%(show(norm(a[1])),a[2])
    if a[0]=='minus': return '%s - %s'%(show(norm(a[1])),show(norm(a[2])))
    if a[0]=='float': return 'float at byte %s'%a[1]
    if all(x in(Z,O) for x in a): return 'constant %d'%Bits.const(a)
    n=norm(a)
    if all(isinstance(x,int) for x in n) and all(n[k]==n[0]+k for k in range(len(n))):
        if n[0]%8==0 and len(n)%8==0: return 'bytes %d..%d zero-extended'%(n[0]//8,n[0]//8+len(n)//8-1)
        return 'record bits %d..%d'%(n[0],n[-1])
    if all(isinstance(x,int) for x in a) and a[-1]==a[-2]:
        k=len(a)
        while k>1 and a[k-1]==a[k-2]: k-=1
        return 'bytes %d..%d sign-extended'%(a[0]//8,a[k-1]//8)
    return 'a mixture of record bits'
