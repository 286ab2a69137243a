"""Peek lookups are side-effect free.  For every algorithm the function in the
cache's `find` slot is specialised to update_cache=false (sparse conditional
constant propagation) and every store, memory intrinsic, external call and
transitively called function that stays reachable is examined: none may write
memory the call does not own.  Nested caches are handled inductively (a nested
find must itself receive a constant false / the propagated false)."""
from lcs.effects import *
ASSUME=['pointers stored in cache vtable slots only come from the stores seen in the analysed units','log/print functions do not touch cache state']
def run(ctx):
    for defs in ((),('SUPPORT_TTL',)):
        sem=ctx.sem('core',defs); tag='+'.join(defs) or 'default'
        n=0
        def hook(g,i,val):
            sl=g.slotof(i)
            if sl=='cache.find':
                if val(i.o[2])==0: return True     # inductive: checked for every algorithm below
                return 'nested find with update_cache not provably false'
            if sl in('cache.get_n_obj','cache.get_occupied_byte'): return None
            if sl: return 'calls the %s operation'%sl
            if i.callee and sem.m.srcname(i.callee).startswith('XXH3'): return True  # hashing of local key bytes
            return None
        eff=Effects(sem,hook)
        for a in sem.algos.values():
            F=a.slots['cache.find']
            r=eff.run(F,{2:0})
            n+=1
            key='%s find(update=false)%s'%(a.name,'' if not defs else ' ['+tag+']')
            if not r: ctx.ok('no-effect',key)
            for (i,msg,ch) in r:
                path=' -> '.join([sem.m.srcname(F)]+[sem.m.srcname(x) for _,x in ch])
                ctx.bad('no-effect','%s in %s%s'%(msg,i.fn.src,' ['+tag+']' if defs else ''),'%s, on a path reached with update_cache=false (%s)'%(msg,path),i.where())
        ctx.floor('find functions '+tag,n,45)
        ctx.count('functions visited '+tag,len(eff.visited)); ctx.count('calls examined '+tag,eff.ncalls)
