"""Forward slices: does a value only ever reach diagnostics (prints)?"""
from .ir import *
from .effects import PURE_EXT, PURE_LLVM, is_local, cxx_pure
PRINT={'printf','fprintf','puts','putchar','fputc','fputs','fwrite','vfprintf','fflush','perror','log_header','print_progress'}
FMT={'strftime','localtime','localtime_r','snprintf','sprintf','strerror','g_timer_elapsed','g_timer_stop','g_timer_start','g_timer_destroy','gettimeofday','time','ctime','difftime'}
def users(fn):
    if not hasattr(fn,'_users'):
        u={}
        for i in fn.live():
            for o in list(i.o)+[a for a,_ in (i.var or [])]:
                st=[o]
                while st:
                    x=st.pop()
                    if isinstance(x,int): u.setdefault(x,[]).append(i)
                    elif isinstance(x,list) and x and x[0]=='o': st.append(x[1])
        fn._users=u
    return fn._users
def region(fn,b):
    """blocks executed depending on the branch ending block b, and the join block"""
    pd=ipdom(fn,b); seen=set(); st=list(fn.succ[b])
    while st:
        x=st.pop()
        if x==pd or x in seen: continue
        seen.add(x); st+=fn.succ[x]
    return seen,pd
def ipdom(fn,b):
    if not hasattr(fn,'_ip'):
        n=fn.n; R=fn.reachable()
        # post-dominance relative to normal returns: paths that only abort the program are ignored
        exits=[x for x in R if not fn.succ[x] and fn.exitcall[x] is None and fn.blocks[x] and fn.blocks[x][-1].op=='ret'] or [x for x in R if not fn.succ[x]]
        # post-dominators with a virtual exit n
        succ=[[] for _ in range(n+1)]; pred=[[] for _ in range(n+1)]
        for x in R:
            for y in fn.succ[x]: succ[y].append(x); pred[x].append(y)
        for x in exits: succ[n].append(x); pred[x].append(n)
        reach={n}; st=[n]
        while st:
            x=st.pop()
            for y in succ[x]:
                if y not in reach: reach.add(y); st.append(y)
        from .ir import _domsets
        fn._ip=_domsets(n+1,[n],succ,pred,reach)
    d=fn._ip.get(b)
    if not d: return None
    c=[x for x in d if x!=b]
    # the immediate one has the largest post-dominator set
    c.sort(key=lambda x:-len(fn._ip[x]) if x in fn._ip else 0)
    return c[0] if c else None
def quiet_region(fn,b,mod,okglob=()):
    """True if everything control dependent on block b's branch is diagnostics"""
    blocks,j=region(fn,b)
    for x in blocks:
        for i in fn.blocks[x]:
            if i.op=='store':
                p=fn.ex(i.o[1]); r=base_of(p)
                if is_local(fn,p) or (r[0]=='glob' and r[1] in okglob): continue
                return i
            if i.op in('atomicrmw','cmpxchg','ret'): return i
            if i.op in('call','invoke'):
                c=i.callee or ''
                if c in PRINT or c in FMT or c in PURE_EXT or c.startswith(PURE_LLVM) or cxx_pure(mod,c): continue
                if i is fn.exitcall[x]: continue
                f=mod.fns.get(c)
                if f is not None and prints_only(f,mod): continue
                return i
    return None
def prints_only(f,mod,d=0):
    if d>3: return False
    for i in f.live():
        if i.op=='store' and not is_local(f,f.ex(i.o[1])): return False
        if i.op in('atomicrmw','cmpxchg'): return False
        if i.op in('call','invoke'):
            c=i.callee or ''
            if c in PRINT or c in FMT or c in PURE_EXT or c.startswith(PURE_LLVM): continue
            g=mod.fns.get(c)
            if g is None or not prints_only(g,mod,d+1): return False
    return True
def leaks(fn,starts,mod,okglob=(),okfld=()):
    """first instruction through which the values `starts` influence anything but diagnostics; None if none"""
    st=list(starts); seen=set(st); U=users(fn)
    while st:
        v=st.pop()
        for i in U.get(v,[]):
            if i.op=='store':
                p=fn.ex(i.o[1]); b=base_of(p)
                if b[0]=='alloca':
                    # every load of that local
                    for j in fn.live():
                        if j.op=='load' and base_of(fn.ex(j.o[0]))==b and j.id not in seen: seen.add(j.id); st.append(j.id)
                        if j.op in('call','invoke') and any(base_of(fn.ex(o))==b for o in j.o) and not (j.callee or '').startswith('llvm.lifetime'):
                            c=j.callee or ''
                            if c not in PRINT and c not in FMT: return j
                    continue
                if b[0]=='glob' and b[1] in okglob: continue
                if okfld and fn.fld(i) in okfld: continue
                return i
            if i.op in('br','switch'):
                r=quiet_region(fn,i.bb,mod,okglob)
                if r is not None: return r
                # values merged at the join depend on the branch
                blocks,j=region(fn,i.bb)
                if j is not None and j<fn.n:
                    for k in fn.blocks[j]:
                        if k.op=='phi' and len({str(o) for o,ib in zip(k.o,k.j['in']) if ib in blocks or ib==i.bb})>1 and k.id not in seen: seen.add(k.id); st.append(k.id)
                continue
            if i.op in('call','invoke'):
                c=i.callee or ''
                if c in PRINT or c.startswith('llvm.lifetime') or c.startswith('llvm.dbg'): continue
                if c.startswith(PURE_LLVM) or c in PURE_EXT or c in FMT:
                    if i.id is not None and i.id not in seen: seen.add(i.id); st.append(i.id)
                    if c in('snprintf','sprintf','strftime'):
                        b=base_of(fn.ex(i.o[0]))
                        if b[0]!='alloca':
                            if not(b[0]=='glob'): return i
                    continue
                f=mod.fns.get(c)
                if f is not None and prints_only(f,mod): continue
                return i
            if i.op=='ret': return i
            if i.id is not None and i.id not in seen: seen.add(i.id); st.append(i.id)
    return None
