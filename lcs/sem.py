"""libCacheSim-specific semantics on top of the IR model."""
import collections
from .ir import *
from .engine import *

SLOTS=['cache.cache_init','cache.cache_free','cache.get','cache.find','cache.can_insert','cache.insert','cache.need_eviction','cache.evict','cache.remove','cache.to_evict','cache.get_occupied_byte','cache.get_n_obj','cache.print_cache']

class Algo:
    def __init__(s,init): s.init=init; s.slots={}; s.file=init.file; s.subs=[]
    @property
    def name(s): return s.init.src[:-5] if s.init.src.endswith('_init') else s.init.src
    def fn(s,slot): return s.slots.get('cache.'+slot)

class Sem:
    def __init__(s,mod):
        s.m=mod
        s.slot_targets=collections.defaultdict(set)
        s.algos={}
        for f in mod.repo_fns():
            for i in f.live():
                if i.op=='store' and isinstance(i.o[0],list) and i.o[0][0]=='F':
                    n=f.fld(i)
                    if n: s.slot_targets[n].add(i.o[0][1])
        defaults={}
        csi=mod.get('cache_struct_init')
        if csi:
            for i in csi.live():
                if i.op=='store' and isinstance(i.o[0],list) and i.o[0][0]=='F':
                    n=csi.fld(i)
                    if n and n.startswith('cache.'): defaults[n]=i.o[0][1]
        s.defaults=defaults
        for f in mod.repo_fns():
            if f.src=='cache_struct_init': continue
            if not any(True for _ in f.calls('cache_struct_init')): continue
            a=Algo(f); a.slots=dict(defaults)
            own=next(f.calls('cache_struct_init'))
            for i in f.live():
                if i.op=='store' and isinstance(i.o[0],list) and i.o[0][0]=='F':
                    n=f.fld(i)
                    if n and n.startswith('cache.') and n in SLOTS: a.slots[n]=i.o[0][1]
            s.algos[f.name]=a
        # nested caches: init functions called by this init (direct)
        for a in s.algos.values():
            for i in a.init.live():
                if i.op=='call' and i.callee in s.algos and i.callee!=a.init.name: a.subs.append(i.callee)
    def algo(s,name):
        for a in s.algos.values():
            if a.name==name: return a
    def F(s,name): return s.m.fns.get(name)
    def targets(s,call):
        """functions a call may reach ([] if external/unknown)"""
        if call.callee: return [call.callee]
        sl=call.fn.slotof(call)
        if sl: return sorted(s.slot_targets.get(sl,()))
        return []
    def callgraph(s):
        g={}
        for f in s.m.fns.values():
            t=set()
            for i in f.live():
                if i.op in('call','invoke'): t.update(s.targets(i))
                for o in i.o:
                    if isinstance(o,list) and o[0]=='F': t.add(o[1])
            g[f.name]=t
        return g
    def reach(s,roots):
        g=getattr(s,'_cg',None)
        if g is None: g=s._cg=s.callgraph()
        seen=set(roots); st=list(roots); par={}
        while st:
            x=st.pop()
            for y in g.get(x,()):
                if y not in seen: seen.add(y); par[y]=x; st.append(y)
        return seen,par
def chain(par,x):
    L=[x]
    while x in par: x=par[x]; L.append(x)
    return ' <- '.join(L)
