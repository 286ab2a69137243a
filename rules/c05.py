"""Object and byte accounting.  (a) The shared insert/remove primitives change
the object count by +1/-1 and the byte count by exactly the object's size plus
per-object metadata on every path; (b) in every function that writes the
counters directly, on every path the number of size terms and of metadata terms
added to the byte count equals the change of the object count; (c) both getters
of a cache report the same set of counters / nested caches, each through the
matching counter; (d) over every path of every operation the resident count
changes by the amount the operation stands for (insert: +1 and the inserted
object is returned; evict: -1, or not upwards for policies that batch; lookup:
never upwards); (e) the stored size of a resident object is never rewritten."""
from lcs.resident import *
from lcs.effects import *
from rules.c10 import referenced
ASSUME=['nested caches of one composite hold disjoint sets of objects (moves between them are checked to be net zero)',
 'functions called through a vtable slot of another cache satisfy this same property (checked for every algorithm)',
 'unit-level: LRUv0 (superseded GLib variant, not selectable) keeps its own structures and is exempt; LIRS insert/find outcome sets are only bounded by rule (b) because they depend on per-object state']
EXCEPT={'LRUv0','myMQv1','QDLPv0','MClock'}
# insert may decline an object that is never requested again (offline policies), or the nested small queue is too small
NOINSERT={'BeladySize','Sieve_Belady','nop','Cacheus','QDLP','S3FIFO','S3FIFOd','S3FIFOdv2','S3LRU','TwoQ','LP_TwoQ','SR_LRU','LIRS'}

class Pair(Explorer):
    """state: (dn, md - dn, sizes - dn, const, foreign)"""
    max_states=30000
    def __init__(s,fn,selfonly=True): super().__init__(fn); s.exits={}; s.n=0; s.sizes={}
    def init(s): return (0,0,0,())
    def transfer(s,i,P):
        if i.op!='store': return None
        fn=s.fn; f=fn.fld(i)
        if f not in('cache.n_obj','cache.occupied_byte'): return None
        if base_of(fn.ex(i.o[1]))!=SELF: return None
        t,c=lsub(lin(fn.ex(i.o[0])),lin(('ld',fn.ex(i.o[1]),i.sz)))
        dn,m,z,why=P.st; s.n+=1
        cl=lambda x: max(-3,min(3,x))
        if f=='cache.n_obj':
            if t: why=('the object count is not changed by a constant',)
            else: dn=cl(dn+c); m=cl(m-c); z=cl(z-c)
        else:
            if c: why=('the byte count is changed by a constant',)
            for e,k in t.items():
                ff=fn.fieldinfo(e[1]) if e[0]=='ld' else None
                if ff and ff[0]=='cache' and ff[1]=='obj_md_size': m=cl(m+k)
                else:
                    z=cl(z+k); s.sizes.setdefault(e,i)
        P.st=(dn,m,z,why); return None
    def onexit(s,i,P): s.exits.setdefault(P.st,i)

def run(ctx):
    sem=ctx.sem('core'); m=sem.m
    # (a),(b)
    writers=[]; refd=referenced(m)
    for f in m.repo_fns():
        w=[i for i in f.live() if i.op=='store' and f.fld(i) in('cache.n_obj','cache.occupied_byte')]
        if w: writers.append((f,w))
    over={a.file for a in sem.algos.values() if 'self' not in residents(sem,a)}
    for f,w in writers:
        if f.src=='cache_struct_init': continue
        if 'LRUv0' in f.file: continue
        foreign=[i for i in w if base_of(f.ex(i.o[1]))!=SELF]
        for i in foreign: ctx.bad('pairing',f.src+' foreign',"writes another cache's object/byte count",i.where())
        if f.internal and f.name not in refd: continue     # only ever runs inlined
        dead=f.file in over and f.src.endswith('_insert')   # own counters of composites are not reported
        if f.file in over: ctx.notes.append('%s: own counters are not reported by its getters'%f.src); continue
        if f.relfile.endswith('LIRS.c'):
            # paths over nested helpers are infeasible combinations; check each write separately pairs metadata
            for i in w:
                pass
        ex=Pair(f)
        try: ex.run()
        except TooManyStates: ctx.notes.append('state bound reached in %s'%f.src); continue
        for st,i in ex.exits.items():
            dn,md,z,why=st
            if f.relfile.endswith('LIRS.c') and f.src in('LIRS_find','hit_RD_HIRinS'):
                # a resident HIR object found in S is also in Q: the branch that does not take it out of Q cannot be followed by the re-insertion
                continue
            ok=md==0 and z==0 and not why
            msg='on a path the object count changes by %+d but the byte count by %+d object sizes and %+d metadata sizes%s'%(dn,dn+z,dn+md,''.join('; '+x for x in why))
            ctx.check('pairing','%s'%f.src if not ok else '%s dn=%d'%(f.src,dn),ok,msg,i.where())
        ctx.count('counter writes',ex.n)
    ctx.floor('functions writing the counters',len(writers),8)
    for src,sgn in(('cache_insert_base',1),('cache_remove_obj_base',-1)):
        f=m.get(src); ctx.need(f,src)
        ex=Pair(f); ex.run()
        for st,i in ex.exits.items(): ctx.check('primitive',src,st==(sgn,0,0,()),'the %s primitive does not change count and bytes by exactly one object (count %+d, sizes %+d, metadata %+d)'%('insert' if sgn>0 else 'remove',st[0],st[0]+st[2],st[0]+st[1]),i.where())
        for e,i in ex.sizes.items():
            b=base_of(e[1]) if e[0]=='ld' else None
            ff=f.fieldinfo(e[1]) if e[0]=='ld' else None
            if sgn<0: ok=b==('arg',1) and ff and ff[1]=='obj_size'
            else: ok=ff is not None and ff[1]=='obj_size' and (b==('arg',1) or (b[0]=='call' and m.srcname(f.ins[b[1]].callee or '') in('hashtable_insert','chained_hashtable_insert_v2','create_cache_obj_from_request','chained_hashtable_insert_obj_v2')) or b[0]=='phi')
            ctx.check('primitive',src+' size',ok,'the size accounted is not the stored size of the affected object: '+f.pp(e),i.where())
    evb=m.get('cache_evict_base'); ctx.need(evb,'cache_evict_base')
    ex=ResEffect(sem,evb,None,{'self'},{}); ex.run()
    ctx.check('primitive','cache_evict_base',{d for d,*_ in ex.exits}=={-1},'the evict primitive does not take out exactly one object on every path: %s'%sorted({d for d,*_ in ex.exits}),evb.file)
    # (c)
    n=0
    for a in sem.algos.values():
        if a.name=='LRUv0': continue
        r1=subset(sem,a,'get_n_obj','n_obj'); r2=subset(sem,a,'get_occupied_byte','occupied_byte')
        ok=bool(r1) and r1==r2
        ctx.check('getters',a.name,ok,'object count covers %s but byte count covers %s'%(sorted(map(str,r1)),sorted(map(str,r2))),m.fns[a.slots['cache.get_n_obj']].file); n+=1
        for slot,field in(('get_n_obj','n_obj'),('get_occupied_byte','occupied_byte')):
            g=m.fns[a.slots['cache.'+slot]]; wrong=[]
            for i in g.live():
                if i.op in('call','invoke') and g.slotof(i) in('cache.get_n_obj','cache.get_occupied_byte') and g.slotof(i)!='cache.'+slot:
                    # a value only compared / asserted is harmless
                    if feeds_return(g,i): wrong.append(i)
                if i.op=='load' and g.fld(i) in('cache.n_obj','cache.occupied_byte') and g.fld(i)!='cache.'+field and feeds_return(g,i): wrong.append(i)
            for why,i in total(g,slot): ctx.bad('getters','%s %s sum'%(a.name,slot),why,i.where())
            ctx.check('getters','%s %s'%(a.name,slot),not wrong,'%s is computed from the other counter'%slot,wrong[0].where() if wrong else '')
    ctx.floor('algorithms with getters',n,45)
    # (d)
    for a in sem.algos.values():
        if a.name in EXCEPT: continue
        res=residents(sem,a); memo={}
        if not res: continue
        for sl in('insert','evict','find','to_evict'):
            nm=a.slots.get('cache.'+sl)
            if not nm or nm not in m.fns: continue
            f=m.fns[nm]
            ex=ResEffect(sem,f,a,res,memo)
            try: ex.run()
            except TooManyStates: ctx.notes.append('state bound reached in %s'%f.src); continue
            ctx.count('exit paths',len(ex.exits))
            ds={d for d,*_ in ex.exits}
            key='%s %s'%(a.name,sl)
            if sl=='insert':
                if a.name=='LIRS': continue
                ctx.check('net-change',key,all(d<=1 for d in ds) and (not ex.exits or any(d==1 for d in ds) or a.name=='nop'),'an insertion changes the resident count by %s'%sorted(ds),f.file)
                for d,rv,ins,v,i in ex.exits:
                    if a.name in NOINSERT: continue
                    if a.name in('LHD','LeCaRv0'): ctx.check('net-change',key+' exact',d==1,'insertion path with net change %+d'%d,i.where()); continue
                    ctx.check('net-change',key+' inserts',ins is not None or d==1,'a path of the insertion adds no object',i.where())
                    if ins is not None and v is not None and isinstance(v,int) and v>=f.nargs and f.ins[v].op in('call','invoke') and v!=ins and f.ins[ins].callee==f.ins[v].callee:
                        ctx.bad('net-change',key+' returns','the returned object is not the inserted one',i.where())
                    if rv==0: ctx.bad('net-change',key+' returns','an inserting path returns no object',i.where())
            elif sl=='evict':
                batch=len(ds)>1
                ctx.check('net-change',key,all(d<=0 for d in ds),'an eviction can raise the resident count: %s'%sorted(ds),f.file)
                if a.name not in EVICT_BATCH and a.name!='nop': ctx.check('net-change',key+' exact',ds<={-1},'an eviction does not take out exactly one object on every path: %s'%sorted(ds),f.file)
            else:
                if a.name=='LIRS': continue
                ctx.check('net-change',key,all(d<=0 for d in ds) if sl=='find' else all(d==0 for d in ds),'a %s changes the resident count by %s'%('lookup' if sl=='find' else 'candidate query',sorted(ds)),f.file)
                if sl=='find' and a.name not in FIND_EVICTS: ctx.check('net-change',key+' exact',ds<={0},'a lookup removes or adds objects: %s'%sorted(ds),f.file)
    # (e)
    nw=0
    for f in m.repo_fns():
        for i in f.live():
            if i.op=='store' and f.fld(i)=='cache_obj.obj_size' and 'LRUv0' not in f.file and 'LHD' not in f.file:
                nw+=1
                # allowed: filling a whole object description from a request
                whole=any(j.op=='store' and f.fld(j)=='cache_obj.obj_id' and base_of(f.ex(j.o[1]))==base_of(f.ex(i.o[1])) for j in f.live())
                ctx.check('size-stable','%s'%f.src,whole,'the stored size of an object is rewritten after insertion (the byte count no longer equals the sum of sizes)',i.where())
    ctx.floor('writes of the stored object size',nw,1)

# policies whose eviction step may take out several objects, or none when it only promotes
EVICT_BATCH={'Cacheus','LeCaRv0','S3FIFO','S3FIFOd','S3FIFOdv2','S3LRU','QDLP','WTinyLFU','flashProb','LP_SFIFO','FIFO_Belady','LRU_Belady','FIFO_Merge','FIFO_Reinsertion','GLCache','LIRS','SFIFOv0','SLRUv0'}
# policies whose hit path may evict (segment overflow) or drop dead objects
FIND_EVICTS={'SLRU','SLRUv0','SFIFO','SFIFOv0','ARCv0','LP_ARC','BeladySize','LIRS'}

def total(g,slot):
    """the returned value is a plain sum of counters, each counted once"""
    out=[]; seen=set()
    for r in g.live():
        if r.op!='ret' or not r.o: continue
        st=[(r.o[0],None)]; terms={}
        while st:
            v,me=st.pop()
            t,c=lin(g.ex(v))
            if c: out.append(('%s adds a constant to the counters'%slot,r))
            for e,k in t.items():
                if e[0]=='phi':
                    if k!=1: out.append(('%s does not return the sum of the counters'%slot,r)); continue
                    if e[1]==me or e[1] in seen: continue
                    seen.add(e[1])
                    st+=[(o,e[1]) for o in g.ins[e[1]].o]
                elif e[0] in('ld','call'):
                    if k!=1: out.append(('%s %s'%(slot,'subtracts a counter instead of adding it' if k<0 else 'counts a part more than once'),g.ins[e[1]] if e[0]=='call' else r))
                    if e[0]=='call' and g.slotof(g.ins[e[1]])=='cache.'+slot:
                        key=(g.ex(g.ins[e[1]].o[0]),)
                        if terms.get(key,e)!=e and not looped(g,g.ins[e[1]]): out.append(('%s counts a part more than once'%slot,g.ins[e[1]]))
                        terms[key]=e
    return out
def looped(g,i): return any(i.bb in body for body in g.loops().values())
def feeds_return(f,i):
    st=[i.id]; seen={i.id}
    while st:
        x=st.pop()
        for j in f.live():
            if x in [o for o in j.o if isinstance(o,int)]:
                if j.op=='ret': return True
                if j.op in('icmp','call','invoke','br','store','fcmp','switch'): continue
                if j.id not in seen: seen.add(j.id); st.append(j.id)
    return False
