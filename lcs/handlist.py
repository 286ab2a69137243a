"""Shape analysis of policy operations that link objects by hand into the
per-frequency lists (head/tail in a node found through a hash table).  List A is
the one the object is in before the operation, list B another one (of any
length); looked-up nodes are assigned to A, then B, in program order, nodes
looked up inside a loop are other nodes that may only be read."""
from .shape import *
from .engine import liveness
def fieldoffs(m,struct,pre=''):
    out={}
    for x in m.structs.get(struct,{}).get('members',[]):
        out[x[0]]=(x[1],x[2] if len(x)>2 else '')
    return out
def direct(fn,heads):
    """link-field pairs (struct path) fn stores to itself"""
    out=set()
    for i in fn.live():
        if i.op!='store': continue
        f=fn.fld(i) or ''
        for p,n in LINKS:
            if f.endswith((p,n)): out.add((p,n))
    return out
LINKS=[('queue.prev','queue.next'),('LeCaR.lfu_prev','LeCaR.lfu_next')]
def offs(m,pair):
    res={}
    d=m.structs['cache_obj']['members']
    for key,path in (('prev',pair[0]),('next',pair[1])):
        a,b=path.split('.')
        for x in flat(m,'cache_obj',0):
            if x[0].split('.')[-2:]==[a,b]: res[key]=x[1]
    return res if len(res)==2 else None
def flat(m,st,base,pre='',d=0):
    for x in m.structs.get(st,{}).get('members',[]):
        t=x[2] if len(x)>2 else ''
        yield (pre+x[0],base+x[1])
        if d<4 and t.startswith(('struct ','union ')) and not t.endswith('*'):
            sub=t.split(' ',1)[1]
            if sub in m.structs:
                for y in flat(m,sub,base+x[1],(pre+x[0]+'.') if x[0] else pre,d+1): yield y
def incycle(fn):
    out=set()
    for b in range(fn.n):
        seen=set(); w=list(fn.succ[b])
        while w:
            x=w.pop()
            if x in seen: continue
            seen.add(x); w+=fn.succ[x]
        if b in seen: out.add(b)
    return out
SEGN=5   # a segment of unexamined objects counts as five (any length >2 takes the same paths)
def size(items): return sum(1 if isinstance(x,str) else SEGN for x in items)
class HInterp(Interp):
    def __init__(s,fn,heap,args,calls,loadhook,limit):
        s.loopblocks=incycle(fn); s.seen=set(); s.live=liveness(fn)
        super().__init__(fn,heap,args,calls,loadhook,limit)
def hheaps():
    def part(k,c): return [[],[c+'1'],[c+'1',c+'2'],[c+'1',c+'3',('seg',c),c+'4',c+'2']][k]
    for a in range(4):
        for b in range(4):
            yield '%s before, %s after'%(a if a<3 else '3 or more',b if b<3 else '3 or more'),part(a,'b')+['obj']+part(b,'a')
def ren(items): return ['B'+x if isinstance(x,str) else ('seg','B'+x[1]) for x in items]
def check(m,fn,mode,pair,hf,tf,node='freq_node'):
    off=offs(m,pair)
    d={x[0]:x[1] for x in m.structs[node]['members']}
    loops=incycle(fn); other=[o for o in LINKS if o!=pair]
    out=[]
    AH,AT=('A',d[hf]),('A',d[tf]); BH,BT=('B',d[hf]),('B',d[tf]); FH,FT=('F',d[hf]),('F',d[tf])
    if mode=='insert': shapes=[(l,[],it) for l,it in lists()]
    elif mode=='find': shapes=[('%s; other list %s'%(l,l2),it,it2) for l,it in hheaps() for l2,it2 in lists()]
    else: shapes=[(l,it,[]) for l,it in hheaps()]
    calls_=[i for b in fn.rpo() for i in fn.blocks[b] if i.op in('call','invoke')] if hasattr(fn,'rpo') else [i for i in fn.live() if i.op in('call','invoke')]
    for l,ita,itb in shapes:
        itb=ren(itb)
        h=Heap(off).build(ita,AH,AT); h.build(itb,BH,BT)
        if 'n_obj' in d: h.mem[('A',d['n_obj'])]=size(ita); h.mem[('B',d['n_obj'])]=size(itb)
        if mode=='insert': h.mem[('obj',off['prev'])]=NULL; h.mem[('obj',off['next'])]=NULL
        nodes=['obj']+[x for x in ita+itb if isinstance(x,str)]
        def node_for(i,heap):
            if i.bb in loops: return ('other%d'%i.id,0)
            if mode=='insert': return ('B',0)
            if mode!='find': return ('A',0)
            k=heap.mem.get(('#',i.id))
            if k is None:
                n=heap.mem.get(('#',0),0); heap.mem[('#',0)]=n+1
                k='A' if n==0 else 'B'; heap.mem[('#',i.id)]=k
            return (k,0)
        def loadhook(i,p):
            f=fn.fld(i) or ''
            if i.ty=='ptr' and f.endswith('freq_one_node'): return ('B',0) if mode=='insert' else ('A',0) if mode!='find' else ('other',0)
            if i.ty=='ptr' and (f.endswith(('.q_tail','.q_head')) or f=='cache.to_evict_candidate'): return ('obj',0)
            if p[0]=='obj' and i.ty!='ptr' and ('ghost' in f or f.endswith('LeCaR.eviction_vtime')): return 0    # a cached object is no ghost (bit-field word)
            if p[0]=='F': return NULL if i.ty=='ptr' else 0
            return None
        def calls(s,c,i,a,heap):
            if c=='g_hash_table_lookup':
                r=node_for(i,heap)
                return r
            if c in('malloc','my_malloc','calloc','g_malloc'): return ('F',0)
            if c=='cache_find_base' or c and 'hashtable_find' in c: return ('obj',0)
            if c=='cache_insert_base': return ('obj',0)
            if c in('cache_evict_base','cache_remove_obj_base') or c and 'hashtable_delete' in c:
                return ('removed',a[1]) if s.addr(a[1]) and a[1][0] in nodes else None
            if c in EXPECT and pair==LINKS[0]:
                H,T,obj=a[0],a[1],a[2]
                if not s.addr(obj) or not s.addr(H) or H[0] not in('A','B','F'): raise Undet('list primitive on an unknown list')
                w,e=heap.walk(H,T)
                if e: raise Bad(e,i)
                if c in('prepend_obj_to_head','append_obj_to_tail'):
                    if obj[0] in w: raise Bad('the object is put into the same list twice',i)
                    items=['obj' if x==obj[0] else '#obj' if x=='obj' else x for x in w]
                else:
                    if obj[0] not in w: raise Bad('the object is taken out of a list it is not in',i)
                    items=['obj' if x==obj[0] else '#obj' if x=='obj' else x for x in w]
                new=[obj[0] if x=='obj' else 'obj' if x=='#obj' else x for x in EXPECT[c](items)]
                heap.segs=dict(heap.segs); heap.build(new,H,T)
                if obj[0] not in new: heap.mem[(obj[0],off['prev'])]=NULL; heap.mem[(obj[0],off['next'])]=NULL
            return None
        msg=None; at=None
        try:
            r=HInterp(fn,h,{0:('cache',0)},calls,loadhook,limit=60000)
            if not r.results: msg='no path returns'
            for hp,rem,rv,i in r.results:
                names=[x[0] for x in rem if s_addr(x) and x[0] in(['obj']+[y for y in ita if isinstance(y,str)])]
                W=[]
                for nm,H,T in(('its list',AH,AT),('the other list',BH,BT),('a new list',FH,FT)):
                    if nm=='a new list' and H not in hp.mem and T not in hp.mem: W.append([]); continue
                    w,e=hp.walk(H,T)
                    if e: msg='%s: %s'%(nm,e); at=i; break
                    W.append(w)
                    if 'n_obj' in d:
                        c=hp.mem.get((H[0],d['n_obj']),0)
                        if c!=size(w) and (c is TOP or isinstance(c,int)): 
                            if c is TOP: raise Undet('n_obj of a list')
                            msg='%s holds %d objects but its n_obj is %d'%(nm,size(w),c); at=i; break
                if msg: break
                tot=W[0]+W[1]+W[2]; n=tot.count('obj')
                want={'insert':1,'find':1}.get(mode,0 if 'obj' in names else 1)
                if mode in('evict','remove') and not names:
                    if mode=='evict': msg='no object is removed'; at=i; break
                if n!=want: msg='the object is in %d lists after the operation, expected %d'%(n,want); at=i; break
                gone=[x for x in ita+itb if x!='obj' and x not in tot and x not in names]
                if gone: msg='%s falls out of its list'%desc(gone[0]); at=i; break
                dead=[x for x in names if x in tot]
                if dead: msg='%s is removed from the cache while it stays in its list'%desc(dead[0]); at=i; break
                for orig,w in((ita,W[0]),(itb,W[1])):
                    o=[x for x in w if x!='obj']
                    if o!=[x for x in orig if x!='obj' and x not in names]: msg='the order of the other objects changes'; at=i
                if msg: break
        except NullDeref as e: msg='dereferences NULL'; at=e.i
        except Bad as e: msg=e.m; at=e.i
        except (Undet,RecursionError) as e: msg='undetermined: %s'%e
        out.append((l,msg,at))
    return out
class Bad(Exception):
    def __init__(s,m,i): s.m=m; s.i=i
