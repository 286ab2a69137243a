"""Access protocol, decided by path-sensitive typestate exploration of every
algorithm's `get` operation (null/boolean facts of the lookup and admission
results are tracked along each path; loops are explored to a fixpoint).
Algorithms whose `get` delegates to the shared access function must do so
exactly once per path with their own arguments and hand its result through."""
from lcs.proto import *
RULES={'count','lookup','insert','result'}
ASSUME=['slot functions are reached through the cache vtable or directly; both forms are resolved']
# algorithms whose access path is intentionally outside the shared protocol
EXCEPT={'LRUv0':'reference implementation on GLib lists, no hash table/vtable protocol; not constructible by name',
        'SR_LRU':'internal building block of Cacheus: its get is only exercised through Cacheus, eviction happens inside insert',}
def explore(ctx):
    sem=ctx.sem(); m=sem.m
    fns=[(None,ctx.need(m.get('cache_get_base'),'cache_get_base'))]
    res=[]
    for a in sem.algos.values():
        if a.name in EXCEPT: continue
        fns.append((a,m.fns[a.slots['cache.get']]))
    for a,f in fns:
        deleg=any(True for _ in f.calls('cache_get_base'))
        ex=GetWrap(sem,f,a) if deleg and a else GetProto(sem,f,a)
        ex.run(); res.append((a,f,ex))
    return res
def run(ctx,rules=RULES):
    res=explore(ctx); n=0
    for a,f,ex in res:
        nm=a.name if a else 'shared access function'
        ctx.count('path exits examined',ex.nexit); ctx.count('operations examined',ex.nev); ctx.count('abstract states',ex.visited)
        if ex.nexit==0 and not a: ctx.need(False,'exit of cache_get_base')
        n+=1
        bad=set()
        for (r,msg),i in ex.err.items():
            if r in rules: bad.add(r); ctx.bad(r,'%s: %s'%(nm,msg),msg+' (in %s)'%f.src,i.where())
        for r in sorted(rules-bad): ctx.ok(r,nm)
    ctx.floor('get functions',n,45)
