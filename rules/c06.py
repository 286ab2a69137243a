"""Deletion.  Every path of every algorithm's delete operation is explored with
the net change of the resident count: a path returning true takes out an object,
a path returning false takes out none; every lookup and nested deletion made on
the way uses the requested id; the object handed to the removal primitives is
the one that was looked up."""
from lcs.resident import *
ASSUME=['an algorithm without deletion support stops the program instead of returning','QDLPv0, myMQv1, SR_LRU (internal to Cacheus, keeps a history entry) and LRUv0 are not offered to users and are exempt']
EXCEPT={'QDLPv0','myMQv1','SR_LRU','LRUv0'}
LOOK={'hashtable_find_obj_id','chained_hashtable_find_obj_id_v2','chained_hashtable_find_obj_id'}
def run(ctx):
    sem=ctx.sem('core'); m=sem.m; n=0
    for a in sem.algos.values():
        if a.name in EXCEPT: continue
        f=m.fns.get(a.slots.get('cache.remove') or '')
        if f is None: continue
        n+=1
        res=residents(sem,a)
        ex=ResEffect(sem,f,a,res,{})
        try: ex.run()
        except TooManyStates: ctx.notes.append('state bound reached in %s'%f.src); continue
        if not ex.exits: ctx.ok('result',a.name+' (stops: unsupported)'); continue
        seen=set()
        for d,rv,ins,v,i in ex.exits:
            if rv in(1,NZ): ok=d<0; msg='deletion reports success on a path that takes no cached object out (resident count %+d)'%d
            elif rv==0: ok=d==0; msg='deletion reports failure although the resident count changes by %+d'%d
            else: ok=d==0 and False; msg='deletion result is not determined by whether the object was cached (resident count %+d)'%d
            k=(d,rv)
            if k in seen and ok: continue
            seen.add(k)
            ctx.check('result',a.name if not ok else '%s %s/%+d'%(a.name,bool(rv),d),ok,msg,i.where())
        ctx.check('result',a.name+' deletes',any(d<0 for d,*_ in ex.exits),'deletion never takes an object out',f.file)
        # the id
        fns=[f]
        for g in fns:
            for i in g.live():
                if i.op not in('call','invoke'): continue
                c=m.srcname(i.callee) if i.callee else g.slotof(i)
                if c in LOOK or c=='cache.remove' and subkey(g,g.ex(i.o[0])) in res:
                    ok=g.ex(i.o[1])==('arg',1) or same_id(g,i)
                    ctx.check('id','%s %s'%(a.name,c),ok,'deletion looks up an id other than the requested one',i.where())
                if c in('cache_remove_obj_base','cache_evict_base') and g.ex(i.o[0])==SELF:
                    b=g.ex(i.o[1])
                    ok=derived(g,b)
                    ctx.check('id','%s removes'%a.name,ok,'the object removed is not the one looked up: '+g.pp(b),i.where())
    ctx.floor('delete operations',n,45)
def same_id(g,i):
    e=g.ex(i.o[1])
    if e[0]=='ld':
        f=g.fieldinfo(e[1])
        return bool(f and f[1]=='obj_id' and derived(g,base_of(e[1])))
    return False
def derived(g,b,d=0):
    if b[0]=='call':
        c=g.mod.srcname(g.ins[b[1]].callee or '') if g.ins[b[1]].callee else g.slotof(g.ins[b[1]])
        return c in LOOK or c=='cache.find' or c=='cache_find_base'
    if d<4 and b[0]=='ld' and b[1][0]=='alloca':
        st=[i for i in g.live() if i.op=='store' and g.ex(i.o[1])==b[1]]
        return bool(st) and all(derived(g,g.ex(i.o[0]),d+1) for i in st)
    if d<4 and b[0]=='phi': return all(derived(g,g.ex(o),d+1) for o in g.ins[b[1]].o)
    if d<4 and b[0]=='sel': return derived(g,b[2],d+1) and derived(g,b[3],d+1)
    return False
