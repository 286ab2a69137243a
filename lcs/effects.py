"""Transitive side-effect analysis: which stores / external effects can a
function perform on memory it does not own, given constant arguments."""
from .ir import *
from .engine import specialize
PURE_EXT={'strlen','strcmp','strncmp','strcasecmp','strncasecmp','memcmp','bcmp','strchr','strrchr','strstr','abs','labs','llabs','fabs','floor','ceil','round','log','log2','log10','exp','pow','sqrt','fmod','floorf','ceilf','roundf','logf','log2f','powf','lround','llround',
 'printf','fprintf','puts','putchar','fputc','fputs','fwrite','vfprintf','fflush','snprintf','sprintf','toupper','tolower','__ctype_b_loc','strtol','strtoll','strtoul','strtod','atoi','atol','atof','malloc','calloc','strdup','time','gettimeofday','clock','localtime','strftime','pthread_self','pthread_mutex_lock','pthread_mutex_unlock','exit','abort','__errno_location','strerror','g_hash_table_lookup','g_hash_table_contains','g_hash_table_size','g_hash_table_lookup_extended',
 'backtrace','backtrace_symbols','perror','strsep','syscall'}
PURE_LLVM=('llvm.expect','llvm.dbg','llvm.lifetime','llvm.umin','llvm.umax','llvm.smin','llvm.smax','llvm.fabs','llvm.floor','llvm.ceil','llvm.round','llvm.log','llvm.exp','llvm.pow','llvm.fmuladd','llvm.abs','llvm.ctlz','llvm.cttz','llvm.ctpop','llvm.bswap','llvm.fshl','llvm.fshr','llvm.assume','llvm.stacksave','llvm.stackrestore','llvm.sqrt','llvm.trap','llvm.va_','llvm.uadd','llvm.umul','llvm.sadd','llvm.smul','llvm.usub','llvm.ssub','llvm.is.constant','llvm.objectsize','llvm.load.relative','llvm.invariant','llvm.noalias','llvm.experimental','llvm.prefetch','llvm.fptosi','llvm.fptoui')
OUTARG={'snprintf':0,'sprintf':0,'strsep':0,'strtol':1,'strtod':1}
import subprocess
_dm={}
def demangle_all(mod):
    names=sorted({i.callee for f in mod.fns.values() for i in f.allins() if i.op in('call','invoke') and i.callee and i.callee.startswith('_Z')})
    r=subprocess.run(['c++filt'],input='\n'.join(names),capture_output=True,text=True).stdout.split('\n')
    for a,b in zip(names,r): _dm[a]=b
def method(mod,name):
    """(class text, method name) of a mangled C++ name"""
    if name not in _dm: demangle_all(mod)
    d=_dm.get(name,name)
    # strip parameter list and template args at depth 0
    depth=0; out=''
    k=0
    d2=d.replace('operator<','operator@lt').replace('operator>','operator@gt').replace('operator->','operator@arrow').replace('operator()','operator@call')
    for ch in d2:
        if ch in '<': depth+=1
        elif ch=='>': depth-=1
        elif ch=='(' and depth==0: break
        elif depth==0: out+=ch
    out=out.strip()
    if ' ' in out: out=out.split(' ')[-1] if 'operator' not in out.split(' ')[-1] and not out.split(' ')[-1].startswith('&') else out.split(' ')[-1]
    cls,_,m=out.rpartition('::')
    return cls,m
CXX_PURE={'find','end','begin','cend','cbegin','count','size','empty','at','back','front','top','contains','rbegin','rend','operator==','operator!=','operator*','operator@arrow','operator@gt','operator@lt','length','c_str','data'}
def cxx_pure(mod,name):
    cls,m=method(mod,name)
    if m in CXX_PURE: return True
    if m=='operator[]' and ('vector' in cls or 'deque' in cls or 'array' in cls): return True
    if m in('max','min','abs','move','forward','numeric_limits::max'): return True
    return False
def is_local(fn,e):
    """address expression rooted in this function's own stack or fresh heap memory"""
    b=base_of(e)
    if b[0]=='alloca': return True
    if b[0]=='call' and fn.ins[b[1]].callee in('malloc','calloc','strdup'): return True
    return False
def resolve_slot_targets(sem, i): return sem.targets(i)

class Effects:
    """hook(fn,i,consts,val) -> True: call accepted as effect-free;
       list -> replace by these (callee, consts) pairs; None: default handling"""
    def __init__(s, sem, hook=None, okstore=None):
        s.sem=sem; s.m=sem.m; s.hook=hook; s.okstore=okstore; s.memo={}; s.visited=set(); s.ncalls=0
    def run(s, name, consts):
        key=(name,tuple(sorted(consts.items())))
        if key in s.memo: return s.memo[key]
        s.memo[key]=[]   # cycles: optimistic (least fixpoint of 'may have an effect')
        fn=s.m.fns[name]; g=specialize(fn,consts) if consts else fn
        s.visited.add(name)
        out=[]
        def val(v):
            if isinstance(v,int):
                if v<fn.nargs: return consts.get(v)
                r=getattr(g,'lat',{}).get(v)
                return r if isinstance(r,int) else None
            from .engine import constval
            r=constval(v); return r if isinstance(r,int) else None
        for i in g.live():
            if i.op in('store','atomicrmw','cmpxchg'):
                p=g.ex(i.o[1] if i.op=='store' else i.o[0])
                if is_local(g,p): continue
                if s.okstore and s.okstore(g,i,p): continue
                out.append((i,'writes %s'%(g.fld(i) if i.op=='store' and g.fld(i) else g.pp(p)),()))
            elif i.op in('call','invoke'):
                s.ncalls+=1
                if i is g.exitcall[i.bb]: continue
                h=s.hook(g,i,val) if s.hook else None
                if h is True: continue
                if isinstance(h,str): out.append((i,h,())); continue
                if isinstance(h,list): tg=h
                else:
                    c=i.callee
                    if c and c.startswith('llvm.'):
                        if c.startswith(PURE_LLVM): continue
                        if c.startswith(('llvm.memcpy','llvm.memset','llvm.memmove')):
                            if not is_local(g,g.ex(i.o[0])): out.append((i,'writes memory at %s'%g.pp(g.ex(i.o[0])),()))
                            continue
                    if c and c not in s.m.fns:
                        if c in PURE_EXT:
                            if c in OUTARG and len(i.o)>OUTARG[c]:
                                e=g.ex(i.o[OUTARG[c]])
                                if e!=('c',0) and not is_local(g,e): out.append((i,'%s writes %s'%(c,g.pp(e)),()))
                            continue
                        if c=='free' and is_local(g,g.ex(i.o[0])): continue
                        if c.startswith('_Z') and cxx_pure(s.m,c): continue
                        out.append((i,'calls %s()'%s.m.srcname(c),())); continue
                    if not c:
                        t=s.sem.targets(i)
                        if not t: out.append((i,'indirect call of unknown target',())); continue
                    else: t=[c]
                    tg=[(x,{k:val(o) for k,o in enumerate(i.o) if val(o) is not None}) for x in t]
                for x,cs in tg:
                    if x not in s.m.fns: out.append((i,'calls %s()'%x,())); continue
                    # keep only boolean-ish constants (bounds memo size)
                    cs={k:v for k,v in cs.items() if v in(0,1) }
                    for (j,msg,ch) in s.run(x,cs):
                        out.append((j,msg,((i,x),)+ch)); 
        # one report per effect site
        seen=set(); o2=[]
        for e in out:
            k=(id(e[0]),e[1])
            if k not in seen: seen.add(k); o2.append(e)
        s.memo[key]=o2
        return o2
