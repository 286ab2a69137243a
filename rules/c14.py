"""Fixed-layout trace records are decoded as documented.  For every trace type
handled by the dispatch on reader->trace_type:
 size     its setup stores the layout's record size, and the trace type it leaves
          in the reader (used when the reader is cloned) is the one dispatched;
 layout   each request field the layout defines receives exactly the layout's
          bits of the current record (offset, width, zero/sign extension, packing),
          and no other field receives record data;
 last     a stored next-access time of -1 or INT64_MAX becomes "never again",
          any other value is taken unchanged;
 source   the record is the mapped bytes at the current offset or the bytes
          delivered by the decompressor, and the offset advances by one record;
 skip     a record is passed over only if the layout's size in it is zero, zero-size
          requests are ignored, and the reader reads forward;
 generic  (format-string traces) each field is read at its own offset with its own
          format character, each character has its documented width and sign, and
          its offset/format come from the matching field of the parameters."""
from lcs.bits import *
from lcs.slice import *
from lcs.engine import Explorer, constval
from lcs.lin import *
import re, os
from lcs import build
ASSUME=['the machine is little-endian','the tables of this rule are the documented layouts (struct comments in traceReader/customizedReader and doc/)']
I32,I64=4,8
def SUM(*a): return ('sum',frozenset(a))
KV_KEY=tuple(range(12*8+22,12*8+32)); KV_VAL=tuple(range(12*8,12*8+22))
def twr(extra={}): 
    d=dict(clock_time=U(0,4),obj_id=U(4,8),obj_size=SUM(KV_KEY,KV_VAL),op=tuple(range(16*8+24,16*8+32)),ttl=tuple(range(16*8,16*8+24)),
           key_size=ext(KV_KEY,16)+ext(KV_VAL,48)); d.update(extra); return d
def T(**k): return k
OFF=lambda a: a
# field -> (bits, signed)
SPEC={
 'STANDARD_III_TRACE':(12,T(clock_time=U(0,4),obj_id=U(4,4),obj_size=U(8,4))),
 'STANDARD_IQI_TRACE':(16,T(clock_time=U(0,4),obj_id=U(4,8),obj_size=U(12,4))),
 'STANDARD_IQQ_TRACE':(20,T(clock_time=U(0,4),obj_id=U(4,8),obj_size=U(12,8))),
 'STANDARD_IQIBH_TRACE':(19,T(clock_time=U(0,4),obj_id=U(4,8),obj_size=U(12,4),op=U(16,1),ns=U(17,2))),
 'ORACLE_GENERAL_TRACE':(24,T(clock_time=U(0,4),obj_id=U(4,8),obj_size=U(12,4),next_access_vtime=U(16,8))),
 'ORACLE_GENERALOPNS_TRACE':(27,T(clock_time=U(0,4),obj_id=U(4,8),obj_size=U(12,4),op=U(16,1),ns=U(17,2),next_access_vtime=U(19,8))),
 'TWR_TRACE':(20,twr()),
 'TWRNS_TRACE':(22,twr(T(ns=U(20,2)))),
 'CF1_TRACE':(41,T(clock_time=U(0,4),obj_id=U(4,8),obj_size=U(12,8),ttl=('s',U(20,4)),age=U(24,4),hostname=U(28,4),content_type=U(32,2),extension=U(34,2),n_level=U(36,2),n_param=U(38,1),method=U(39,1),colo=U(40,1))),
 'AKAMAI_TRACE':(22,T(clock_time=U(0,4),obj_id=U(4,8),obj_size=U(12,4),tenant_id=U(16,2),bucket_id=U(18,2),content_type=U(20,2))),
 'WIKI16u_TRACE':(14,T(obj_id=U(0,8),obj_size=U(8,4),content_type=U(12,2))),
 'WIKI19u_TRACE':(18,T(clock_time=U(0,4),obj_id=U(4,8),obj_size=U(12,4),content_type=U(16,2))),
 'WIKI19t_TRACE':(16,T(clock_time=U(0,4),obj_id=U(4,8),obj_size=U(12,4))),
 'ORACLE_SYS_TWRNS_TRACE':(34,T(clock_time=U(0,4),obj_id=U(4,8),key_size=U(12,2)+ext(U(14,4),48),obj_size=SUM(U(12,2),U(14,4)),op=U(18,2),ns=U(20,2),ttl=U(22,4),next_access_vtime=U(26,8))),
 'ORACLE_SIM_TWRNS_TRACE':(30,T(clock_time=U(0,4),obj_id=U(4,8),obj_size=U(12,4),ttl=U(16,4),ns=U(20,2),next_access_vtime=U(22,8))),
 'ORACLE_CF1_TRACE':(49,T(clock_time=U(0,4),obj_id=U(4,8),obj_size=U(12,8),ttl=U(20,4),age=U(24,4),hostname=U(28,4),next_access_vtime=U(32,8),content_type=U(40,2),extension=U(42,2),n_level=U(44,2),n_param=U(46,1),method=U(47,1),colo=U(48,1))),
 'ORACLE_AKAMAI_TRACE':(30,T(clock_time=U(0,4),obj_id=U(4,8),obj_size=U(12,4),tenant_id=U(16,2),bucket_id=U(18,2),content_type=U(20,2),next_access_vtime=U(22,8))),
 'ORACLE_WIKI16u_TRACE':(22,T(obj_id=U(0,8),obj_size=U(8,4),content_type=U(12,2),next_access_vtime=U(14,8))),
 'ORACLE_WIKI19u_TRACE':(26,T(clock_time=U(0,4),obj_id=U(4,8),obj_size=U(12,4),content_type=U(16,2),next_access_vtime=U(18,8))),
 'VALPIN_TRACE':(8,T(obj_id=U(0,8))),
}
DYNAMIC={'CSV_TRACE','PLAIN_TXT_TRACE','BIN_TRACE','LCS_TRACE','VSCSI_TRACE'}
ABORTS={'ORACLE_SIM_TWR_TRACE','ORACLE_SYS_TWR_TRACE'}
def enumerators():
    t=open(os.path.join(build.REPO,'libCacheSim/include/libCacheSim/enum.h')).read()
    t=re.sub(r'/\*.*?\*/|//[^\n]*','',t,flags=re.S)
    m=re.search(r'enum\s+(?:class\s+)?\w*\s*\{([^}]*\bCSV_TRACE\b[^}]*)\}',t)
    if not m: return {}
    out={}; v=0
    for x in m.group(1).split(','):
        x=x.strip()
        if not x: continue
        n,_,c=x.partition('=')
        if c.strip(): v=int(c.strip(),0)
        out[n.strip()]=v; v+=1
    return out
def dispatch(fn):
    """constant -> case target block of the dispatch on reader.trace_type"""
    for i in fn.live():
        if i.op=='switch' and len(i.cases)>=5:
            e=fn.ex(i.o[0])
            while e[0] in('zext','sext','trunc'): e=e[2]
            if e==('arg',1): return i
            f=fn.fieldinfo(e[1]) if e[0]=='ld' else None
            if f and f[1]=='trace_type': return i
def region_of(fn,t,sw):
    d=fn.dom()
    return [b for b in fn.reachable() if t in d[b]]
class View:
    """instructions of a case: a region of the dispatcher or the function it calls"""
    def __init__(s,fn,blocks): s.fn=fn; s.blocks=blocks
    def live(s):
        for b in sorted(s.blocks):
            for i in s.fn.blocks[b]:
                yield i
                if i is s.fn.exitcall[b]: break
def view_of(fn,t,sw,pred):
    bl=region_of(fn,t,sw)
    v=View(fn,bl)
    if any(pred(v,i) for i in v.live()): return v
    for i in v.live():
        if i.op=='call' and i.callee in fn.mod.fns and i.o:
            g=fn.mod.fns[i.callee]; w=View(g,sorted(g.reachable()))
            if any(pred(w,j) for j in w.live()): return w
    return None
def stores(v,struct):
    for i in v.live():
        if i.op=='store':
            f=v.fn.fld(i)
            if f and f.startswith(struct+'.'): yield i,f[len(struct)+1:]
def guards(fn,ins):
    """comparisons known to hold whenever ins executes: (icmp, truth)"""
    out=[]; d=fn.dom()
    for b in fn.reachable():
        t=fn.blocks[b][-1] if fn.blocks[b] else None
        if t is None or t.op!='br' or len(t.j.get('succ') or [])!=2 or t.succ[0]==t.succ[1]: continue
        for tgt,truth in((t.succ[0],True),(t.succ[1],False)):
            if tgt in d[ins.bb] and fn.pred[tgt]==[b] : out+=atoms(fn,t.o[0],truth)
    return out
def atoms(fn,v,truth,d=0):
    if d>8 or not isinstance(v,int) or v<fn.nargs: return []
    i=fn.ins[v]
    if i.op in('icmp','fcmp'):
        r=[(i,truth)]
        if i.pred in('eq','ne') and isinstance(i.o[1],list) and i.o[1][0]=='i' and i.o[1][1]==0: r+=atoms(fn,i.o[0],truth==(i.pred=='ne'),d+1)
        return r
    if i.op in('zext','sext','trunc','freeze') : return [(i,truth)]+atoms(fn,i.o[0],truth,d+1)
    if i.op=='load': return [(i,truth)]
    if i.op=='xor': return atoms(fn,i.o[0],not truth,d+1)
    if i.op=='and' and truth or i.op=='or' and not truth: return atoms(fn,i.o[0],truth,d+1)+atoms(fn,i.o[1],truth,d+1)
    if i.op=='select':
        if truth and i.o[2]==['i',0,1]: return atoms(fn,i.o[0],True,d+1)+atoms(fn,i.o[1],True,d+1)
        if not truth and isinstance(i.o[1],list) and i.o[1][0]=='i' and i.o[1][1]&1: return atoms(fn,i.o[0],False,d+1)+atoms(fn,i.o[2],False,d+1)
    return []
def fname(fn,e):
    while e[0] in('zext','sext','trunc'): e=e[2]
    if e[0]!='ld': return None
    f=fn.fieldinfo(e[1]); return f[0]+'.'+f[1] if f else None
NEVER=(1<<63)-1
class Last(Explorer):
    """value left in next_access_vtime when the record holds `raw`"""
    max_states=4000
    def __init__(s,fn,blocks,raw,israw): super().__init__(fn); s.blocks=blocks; s.raw=raw; s.israw=israw; s.out=set(); s.seen=False
    def init(s): return 'unset'
    def transfer(s,i,P):
        if i.bb not in s.blocks: return None
        if i.op=='load' and s.israw(i): P.env[i.id]=s.raw
        if i.op=='load' and isinstance(P.st,int) and s.fn.fld(i)=='request.next_access_vtime': P.env[i.id]=P.st
        if i.op=='store' and s.fn.fld(i)=='request.next_access_vtime':
            v=s.val(i.o[0],P); P.st=v if isinstance(v,int) else 'unknown'
        return None
    def onexit(s,i,P):
        if P.st!='unset': s.out.add(P.st)
def run(ctx):
    m=ctx.module(); en=ctx.need(enumerators(),'enum trace_type_e'); byv={v:k for k,v in en.items()}
    rd=ctx.need(m.get('read_one_req','reader.c'),'read_one_req')
    if dispatch(rd) is None: rd=next((f for f in m.repo_fns() if f.file==rd.file and f.src!='setup_reader' and len(f.ditypes)>2 and 'struct request*' in f.ditypes[2] and dispatch(f) is not None),rd)
    st=ctx.need(m.get('setup_reader','reader.c'),'setup_reader')
    ds=ctx.need(dispatch(st),'trace type dispatch in setup_reader'); dr=ctx.need(dispatch(rd),'trace type dispatch in read_one_req')
    S=dict(zip(ds.cases,ds.j['succ'][1:])); Rr=dict(zip(dr.cases,dr.j['succ'][1:]))
    rq={x[0]:(x[1],x[3]) for x in m.structs['request']['members']}
    nl=0
    for name,(size,lay) in sorted(SPEC.items()):
        c=ctx.need(name in en and en[name]+1,'enumerator '+name)-1
        if not ctx.check('dispatch',name,c in S and c in Rr,'trace type %s has no %s case'%(name,'setup' if c not in S else 'read'),st.relfile): continue
        v=view_of(st,S[c],ds,lambda v,i:i.op=='store' and v.fn.fld(i)=='reader.item_size')
        if v is None: ctx.bad('size',name,'setup of %s stores no record size'%name,st.relfile); continue
        for i,f in stores(v,'reader'):
            if f=='item_size':
                e=v.fn.ex(i.o[0]); ctx.check('size',name,e==('c',size),'record size set to %s, the layout has %d bytes'%(v.fn.pp(e),size),i.where())
            if f=='trace_type':
                e=v.fn.ex(i.o[0]); ctx.check('type',name,e==('c',c),'setup leaves trace type %s in the reader: a clone would use another layout'%byv.get(e[1] if e[0]=='c' else None,v.fn.pp(e)),i.where())
        v=view_of(rd,Rr[c],dr,lambda v,i:i.op=='store' and v.fn.fld(i)=='request.obj_id')
        if v is None: ctx.bad('layout',name,'no reader for %s stores an object id'%name,rd.relfile); continue
        nl+=1; layout(ctx,m,name,size,lay,v,rq)
    ctx.floor('fixed layouts decoded',nl,15)
    vscsi(ctx,m)
    generic(ctx,m)
def resolver(fn,view):
    """last store to the same request address that dominates the load"""
    B=None
    def old(i,a,n):
        best=None
        for j in view.live():
            if j.op=='store' and j is not i and fn.ex(j.o[1])==a and fn.dominates(j,i) and (best is None or fn.dominates(best,j)): best=j
        if best is not None: return B[0].bits(best.o[0])
        f=fn.fld(i)
        if f and f.startswith('request.'): return tuple(('old',f,k) for k in range(n))
        return None
    B=[None]
    return old,B
def layout(ctx,m,name,size,lay,v,rq):
    fn=v.fn
    old,box=resolver(fn,v); B=box[0]=Bits(fn,old)
    got={}
    for i,f in stores(v,'request'):
        b=B.bits(i.o[0])
        if fn.ins.get(i.o[0]) is not None and i.o[0] in fn.ins and fn.ins[i.o[0]].op=='phi' if isinstance(i.o[0],int) else False: pass
        got.setdefault(f,[]).append((i,b))
    for f,L in sorted(got.items()):
        if f in lay: continue
        for i,b in L:
            if b is not None and any(isinstance(x,int) for x in b): ctx.bad('layout','%s.%s'%(name,f),'receives %s, but the layout has no such field'%show(b),i.where())
    for f,want in sorted(lay.items()):
        sg=want[0]=='s'
        if sg: want=want[1]
        w=rq[f][1]*8 if f!='key_size' else 64
        exp=ext(want,w,sg)
        L=got.get(f)
        if not L: ctx.bad('layout','%s.%s'%(name,f),'field is never read from the record',fn.relfile); continue
        good=[i for i,b in L if same(b,exp,w)]
        ctx.check('layout','%s.%s'%(name,f),good,'receives %s; the layout says %s'%(show(L[0][1]),show(exp)),L[0][0].where())
        if not good: continue
        for i,b in L:
            if i in good: continue
            if f=='next_access_vtime' and sentinel(fn,B,i.o[0],exp,w): continue       # decided below from the values delivered
            if f=='key_size' and b is not None and b[0] not in('sum','div','float','minus'): continue   # first half of a packed word
            if f=='obj_size' and name=='ORACLE_CF1_TRACE': continue                      # documented 32-bit wrap repair
            ctx.bad('layout','%s.%s'%(name,f),'is overwritten with %s'%show(b),i.where())
    if 'next_access_vtime' in lay:
        off=lay['next_access_vtime'][0]//8
        R=B.R
        israw=lambda i: R.at(fn.ex(i.o[0]))==off and i.sz==8
        for raw,exp in((-1,NEVER),(NEVER,NEVER),(7,7),(0,0)):
            x=Last(fn,v.blocks,raw,israw); x.run()
            ctx.check('last','%s(%d)'%(name,raw),x.out=={exp},'a stored next access time of %d is delivered as %s'%(raw,sorted(map(str,x.out))),fn.relfile)
    # where the record comes from, and the advance
    srcs=set(); 
    for i in v.live():
        if i.op=='load':
            a=fn.ex(i.o[0]); o=B.R.at(a)
            if o is not None:
                srcs|=B.R.src(a[1] if a[0]=='adr' and not a[3] else a)-{'null'} or {'map'}
                ctx.check('bounds','%s+%d'%(name,o),0<=o and o+i.sz<=size,'reads bytes %d..%d of a %d-byte record'%(o,o+i.sz-1,size),i.where())
    ctx.check('source',name,'map' in srcs,'the record is not the mapped bytes at the current offset',fn.relfile)
    advance(ctx,name,fn,v)
    # records passed over
    size_off=set()
    w=lay.get('obj_size'); zero=set()
    for i in v.live():
        if i.op in('call','invoke') and i.callee==fn.name:
            skip(ctx,name,fn,B,lay,i)
    L=fn.loops()
    for h,body in L.items():
        if not any(B.R.at(fn.ex(i.o[0])) is not None for b in body for i in fn.blocks[b] if i.op=='load'): continue
        for b in body:
            if h in fn.succ[b] and b in v.blocks and fn.blocks[b]:
                t=fn.blocks[b][-1]
                own=atoms(fn,t.o[0],t.succ[0]==h) if t.op=='br' and len(t.j.get('succ') or [])==2 and t.succ[0]!=t.succ[1] else []
                skip(ctx,name,fn,B,lay,t,own)
def sentinel(fn,B,v,exp,w,d=0):
    """every value v can take is a constant or the stored next access time"""
    b=B.bits(v)
    if b is not None and b[0] not in('sum','div','float','minus') and all(x in(Z,O) for x in b) or same(b,exp,w): return True
    if d<6 and isinstance(v,int) and v>=fn.nargs and fn.ins[v].op in('select','phi'):
        i=fn.ins[v]
        return all(o==v or sentinel(fn,B,o,exp,w,d+1) for o in (i.o[1:] if i.op=='select' else i.o))
    return False
def same(b,exp,w):
    if b is None: return False
    if b[0] in('sum','div','minus','float') or exp[0] in('sum','div','minus'):
        if b[0]=='minus' and b[2] and Bits.const(b[2])==1: return norm(b[1][:len(norm(exp))])==norm(exp)  # documented: stored value + 1
        return b==exp
    return tuple(b)==tuple(exp[:len(b)]) and all(x==Z or x==exp[len(b)-1] for x in exp[len(b):]) if len(b)<w else tuple(b)==tuple(exp)
def advance(ctx,name,fn,v):
    n=0
    def scan(g,live):
        nonlocal n
        for i in live:
            if i.op=='store' and g.fld(i)=='reader.mmap_offset':
                n+=1
                t,c=lsub(lin(g.ex(i.o[0])),lin(('ld',g.ex(i.o[1]),i.sz)))
                ok=c==0 and len(t)==1 and [fname(g,k)=='reader.item_size' and q==1 for k,q in t.items()][0]
                ctx.check('advance',name,ok,'the offset does not advance by one record',i.where())
            if i.op in('call','invoke') and i.callee:
                if i.callee=='zstd_reader_read_bytes': ctx.check('advance',name+':zstd',fname(g,g.ex(i.o[1]))=='reader.item_size','the decompressor is not asked for one record',i.where())
                elif i.callee in g.mod.fns and g.mod.fns[i.callee].src in('read_bytes','_read_bytes','_read_bytes_zstd'): scan(g.mod.fns[i.callee],list(g.mod.fns[i.callee].live()))
    scan(fn,list(v.live()))
    ctx.check('advance',name+':present',n>=1,'the offset is not advanced past the record',fn.relfile)
def skip(ctx,name,fn,B,lay,at,own=()):
    G=guards(fn,at)+list(own)
    fwd=ign=zero=False; other=[]
    for i,t in G:
        if i.op=='icmp':
            a,b=fn.ex(i.o[0]),fn.ex(i.o[1]); n=fname(fn,a)
            if n=='reader.read_direction' and b==('c',0) and t==(i.pred=='eq'): fwd=True
            bb=B.bits(i.o[0])
            if b==('c',0) and t==(i.pred=='eq') and bb is not None and a[0]!='call':
                sz=lay.get('obj_size')
                if sz is not None and (same(bb,ext(sz,64),64) or norm(bb)==norm(sz)): zero=True
                if norm(bb)==norm(KV_VAL) or norm(bb)==norm(U(14,4)) and name=='ORACLE_SYS_TWRNS_TRACE': zero=True
                if sz is not None and bb[0]=='sum' and bb==sz: zero=True
        n=fname(fn,fn.ex(i.id)) if i.op in('load','trunc','zext') else fname(fn,fn.ex(i.o[0])) if i.op=='icmp' else None
        if n=='reader.ignore_size_zero_req' and (t if i.op!='icmp' else True): ign=True
    ctx.check('skip',name+':zero',zero,'a record may be passed over although its size field is not known to be zero',at.where())
    ctx.check('skip',name+':option',ign,'a record may be passed over although zero-size requests are to be kept',at.where())
    ctx.check('skip',name+':direction',fwd,'a record is passed over by reading on also when the reader moves backward',at.where())
VS={'v1':T(obj_size=U(4,4),obj_id=U(16,8),clock_time=('div',U(24,8),1000000)),'v2':T(obj_size=U(8,4),obj_id=U(16,8),clock_time=('div',U(24,8),1000000))}
def vscsi(ctx,m):
    # two record versions, told apart at setup
    n=0
    for f in m.repo_fns():
        if not f.file.endswith('vscsi.h'): continue
        v=View(f,sorted(f.reachable())); S=list(stores(v,'request'))
        if not any(x=='obj_id' for _,x in S): continue
        ver='v1' if 'ver1' in f.src else 'v2' if 'ver2' in f.src else None
        if ver is None: continue
        n+=1
        old,box=resolver(f,v); B=box[0]=Bits(f,old)
        for fl,want in VS[ver].items():
            L=[(i,B.bits(i.o[0])) for i,x in S if x==fl]
            exp=want if want[0]=='div' else ext(want,64)
            ok=L and all((b==exp) if want[0]!='div' else (b is not None and b[0]=='div' and b[2]==want[2] and norm(b[1])==norm(want[1])) for _,b in L)
            ctx.check('layout','VSCSI %s.%s'%(ver,fl),ok,'receives %s; the layout says %s'%(show(L[0][1]) if L else 'nothing',show(exp)),L[0][0].where() if L else f.relfile)
        advance(ctx,'VSCSI '+ver,f,v)
    ctx.floor('vscsi record versions',n,2)
FMT={'b':(1,1),'B':(1,0),'c':(1,1),'h':(2,1),'H':(2,0),'i':(4,1),'I':(4,0),'l':(4,1),'L':(4,0),'q':(8,1),'Q':(8,1)}
FL={'f':4,'d':8}
PF={'obj_id':'obj_id','clock_time':'time','obj_size':'obj_size','op':'op','next_access_vtime':'next_access_vtime','ttl':'ttl'}
def generic(ctx,m):
    fn=ctx.need(m.get('binary_read_one_req'),'binary_read_one_req')
    su=ctx.need(m.get('binaryReader_setup'),'binaryReader_setup')
    v=View(fn,sorted(fn.reachable()))
    done=set()
    for i,f in stores(v,'request'):
        if f=='valid' : continue
        if f not in PF: ctx.bad('generic',f,'field %s is not part of a format string'%f,i.where()); continue
        done.add(f); p=PF[f]
        for g,t in guards(fn,i):
            for o in (g.o[:1] if g.op=='icmp' else []):
                n=fname(fn,fn.ex(o)) or ''
                if n.endswith('_field_idx') and g.op=='icmp' and t==(g.pred in('sgt','ne','sge','ugt')): ctx.check('generic',f+':guard',n.endswith('.'+p+'_field_idx'),'is read only if %s is given'%n,i.where())
        one(ctx,m,fn,i,f,p)
    for f in ('obj_id','clock_time','obj_size','op','ttl','next_access_vtime'): 
        if f not in done: ctx.bad('generic',f+':read','field is never read from the record',fn.relfile)
    advance(ctx,'BIN_TRACE',fn,v)
    # offsets and formats come from the matching field of the parameters
    for i,f in stores(View(su,sorted(su.reachable())),'binary_params_t') if any(True for _ in stores(View(su,sorted(su.reachable())),'binary_params_t')) else stores(View(su,sorted(su.reachable())),'binary_params'):
        for suf in('_offset','_format','_field_idx'):
            if f.endswith(suf):
                p=f[:-len(suf)]; e=su.ex(i.o[0])
                if e[0]=='c': break
                used={x for x in deps(su,i) if x.endswith(('_field','_field_idx'))}
                used={re.sub(r'_(field|field_idx)$','',x.split('.')[-1]) for x in used}
                ctx.check('generic','setup:'+f,used<={p} and used,'%s is derived from the parameters of %s'%(f,sorted(used) or 'nothing'),i.where())
                break
    offsets(ctx,m,su)
    # widths used for offsets agree with widths read
    for g in m.bysrc.get('format_to_size',[])[:1]:
        sw=[i for i in g.live() if i.op=='switch']
        if not sw: ctx.notes.append('format_to_size is not a switch'); continue
        for c,t in zip(sw[0].cases,sw[0].j['succ'][1:]):
            r=retconst(g,t,sw[0].bb)
            ch=chr(c); w=FMT[ch][0] if ch in FMT else FL.get(ch)
            if w is None or r is None: continue
            ctx.check('generic','width:'+ch,r==w,'format character %s is taken to be %s bytes wide'%(ch,r),sw[0].where())
def offsets(ctx,m,su):
    """the offset of a field is the total width of the fields before it, the record size that of all fields, and a
    field's format is the character at its own place"""
    n=0
    for i in su.live():
        if i.op!='store': continue
        f=su.fld(i) or ''; st,_,f=f.partition('.')
        if st in('binary_params','binary_params_t'):
            if f.endswith('_offset'): what=f[:-len('_offset')]
            elif f=='item_size': what=None
            elif f.endswith('_format'):
                p=f[:-len('_format')]; v=su.canon(i.o[0]) if hasattr(su,'canon') else i.o[0]
                if isinstance(v,int) and v>=su.nargs and su.ins[v].op=='load':
                    r=fmtpos(su,su.ins[v].o[0])
                    if r is not None:
                        t,c=r; names=[fname(su,x) or '' for x in t]
                        ctx.check('generic','setup:'+f+':place',len(t)==1 and idxname(names[0],p) and list(t.values())==[1] and c==-1,'the format of %s is taken from another place of the format string'%p,i.where())
                continue
            else: continue
        elif st=='reader' and f=='item_size': what=None
        else: continue
        v=i.o[0]
        while isinstance(v,int) and v>=su.nargs and su.ins[v].op in('sext','zext','trunc','freeze'): v=su.ins[v].o[0]
        if isinstance(v,list) or (isinstance(v,tuple)): 
            c=constval(v)
            if what is not None: ctx.check('generic','setup:%s:sum'%f,c==-1,'the offset of %s is the constant %s'%(what,c),i.where())
            continue
        if v<su.nargs: continue
        x=su.ins[v]
        if x.op=='load': continue
        r=running_sum(su,x)
        if r is None: ctx.notes.append('the computation of %s is not recognised'%f); continue
        msg,at=r(what); n+=1
        ctx.check('generic','setup:%s:sum'%f,not msg,msg,at.where())
    ctx.count('field offsets computed by a running sum',n)
def idxname(n,p): return n.endswith('.'+p+'_field_idx') or n.endswith('.'+p+'_field')
def fmtpos(fn,addr):
    """linear form (terms, const) of a position within the format string (without its leading '<')"""
    t,c=lin(fn.ex(addr)); e=fn.ex(addr); base=e; c=0
    if e[0]=='adr': base=e[1]; c=e[2]; t={x:k for x,k in e[3]} if len(e)>3 else {}
    else: t={}
    T={}; 
    for x,k in t.items():
        a=lin(x)
        c+=a[1]*k
        for y,z in a[0].items(): T[y]=T.get(y,0)+k*z
    n=fname(fn,base) or ''
    if n.endswith('.fmt_str'): return T,c
    if n.endswith('.binary_fmt_str'): return T,c-1
    if base[0]=='call' and fn.mod.srcname(fn.ins[base[1]].callee or '')=='strdup':
        r=fmtpos(fn,fn.ins[base[1]].o[0])
        if r and not r[0]: return T,c+r[1]
    return None
def cv(o): return None if isinstance(o,int) else constval(o)
def running_sum(fn,phi):
    """a function that judges phi as the sum of field widths before a field (or None: not recognised)"""
    if phi.op!='phi': return None
    body=fn.loops().get(phi.bb)
    if body is None: return None
    init=[o for o,b in zip(phi.o,phi.j['in']) if b not in body]; back=[o for o,b in zip(phi.o,phi.j['in']) if b in body]
    if len(back)!=1: return None
    d,c=lsub(lin(fn.ex(back[0])),lin(fn.ex(phi.id)))
    h=fn.blocks[phi.bb][-1]
    def judge(what):
        name='the record size' if what is None else 'the offset of '+what
        if any(cv(o)!=0 for o in init): return '%s does not start from 0'%name,phi
        if c or len(d)!=1 or list(d.values())!=[1]: return '%s is not the sum of the widths of the fields before it'%name,phi
        x=list(d)[0]
        if x[0]!='call' or fn.mod.srcname(fn.ins[x[1]].callee or '')!='format_to_size': return '%s is not the sum of the widths of the fields before it'%name,phi
        ci=fn.ins[x[1]]; a=ci.o[0]
        while isinstance(a,int) and a>=fn.nargs and fn.ins[a].op in('sext','zext','trunc'): a=fn.ins[a].o[0]
        ld=fn.ins.get(a) if isinstance(a,int) else None
        if ld is None or ld.op!='load': return None,phi
        r=fmtpos(fn,ld.o[0])
        if r is None: return None,phi
        t,k=r; iv=[y for y in t if y[0]=='phi' and fn.ins[y[1]].bb==phi.bb]
        if len(t)!=1 or len(iv)!=1 or t[iv[0]]!=1: return None,phi
        q=fn.ins[iv[0][1]]
        for o,b in zip(q.o,q.j['in']):
            if b in body:
                dd,cc=lsub(lin(fn.ex(o)),lin(fn.ex(q.id)))
                if dd or cc!=1: return None,q
            elif not isinstance(cv(o),int): return None,q
            elif cv(o)+k!=0: return '%s does not count the fields from the first one'%name,q
        if h.op!='br' or not h.o: return None,phi
        cmp=fn.ins.get(h.o[0]); succ=h.j['succ']; stay=succ[0] in body
        if cmp is None or cmp.op!='icmp' or (succ[0] in body)==(succ[1] in body): return None,phi
        P=({iv[0]:1},k)
        if cmp.pred in('eq','ne'):
            D=lsub(lin(fn.ex(cmp.o[0])),lin(fn.ex(cmp.o[1])))
            if D[0].get(iv[0],0)<0: D=({y:-z for y,z in D[0].items()},-D[1])
            D=(D[0],D[1]+1)
        else: D=leq0(fn,cmp,stay)
        if D is None: return None,phi
        R=lsub(D,P)     # continue iff position + R <= 0
        names=[fname(fn,y) or ('strlen' if y[0]=='call' and fn.mod.srcname(fn.ins[y[1]].callee or '')=='strlen' else '') for y in R[0]]
        if list(R[0].values())!=[-1]: return None,phi
        nm=names[0]
        if what is None: good=(nm=='strlen' or nm.endswith('.n_fields')) and R[1]==1
        else: good=idxname(nm,what) and R[1]==2
        if not good: return '%s does not add up exactly the fields before %s'%(name,'the end' if what is None else 'its own'),phi
        return None,phi
    return judge
def retconst(g,t,frm):
    seen=0; prev=frm
    while seen<20:
        seen+=1
        for i in g.blocks[t]:
            if i.op=='phi':
                for o,ib in zip(i.o,i.j['in']):
                    if ib==prev and isinstance(o,list) and o[0]=='i': val=o[1]; pid=i.id
            if i.op=='ret':
                o=i.o[0]
                if isinstance(o,list): return o[1] if o[0]=='i' else None
                return val if 'pid' in dir() and o==pid else None
        if len(g.succ[t])!=1: return None
        prev,t=t,g.succ[t][0]
def deps(fn,ins,d=0):
    """struct fields the stored value depends on (data)"""
    out=set(); seen=set(); st=[ins.o[0]]
    while st:
        x=st.pop()
        if not isinstance(x,int) or x in seen or x<fn.nargs: continue
        seen.add(x); i=fn.ins[x]
        if i.op=='load':
            f=fn.fld(i)
            if f: out.add(f)
            # look through to stores of the same location only for parameters of this reader
        for o in list(i.o)+[a for a,_ in (i.var or [])]: st.append(o)
        if i.op=='phi':
            # loop bounds steer the value: comparisons in the loop
            for h,body in fn.loops().items():
                if i.bb in body:
                    for b in body:
                        t=fn.blocks[b][-1]
                        if t.op=='br' and t.o: st.append(t.o[0])
    return out
def one(ctx,m,fn,i,f,p):
    """store i of request field f in the generic reader: format switch with correct widths at the right offset"""
    def strip(v):
        while isinstance(v,int) and v>=fn.nargs and fn.ins[v].op in('trunc','zext','sext','freeze'): v=fn.ins[v].o[0]
        return v
    v=strip(i.o[0])
    if isinstance(v,int) and v>=fn.nargs and fn.ins[v].op in('call','invoke'):
        c=fn.ins[v]; g=m.fns.get(c.callee)
        if g is None: ctx.bad('generic',f,'is not read by format',i.where()); return
        A=[fn.ex(o) for o in c.o]; fm=[fname(fn,a) for a in A]
        ctx.check('generic',f+':format',any((x or '').endswith('.'+p+'_format') for x in fm),'is decoded with the format of another field',c.where())
        ptr=[a for a in A if a[0]=='adr']; ctx.check('generic',f+':offset',ptr and any((fname(fn,t) or '').endswith('.'+p+'_offset') for t,_ in ptr[0][3]),'is read at the offset of another field',c.where())
        conv(ctx,g,None,f); return
    if not(isinstance(v,int) and v>=fn.nargs and fn.ins[v].op=='phi'): ctx.bad('generic',f,'is not read by format',i.where()); return
    conv(ctx,fn,fn.ins[v],f,p)
def conv(ctx,fn,phi,f,p=None):
    def sw_for(b):
        for x in fn.live():
            if x.op=='switch' and b in x.j['succ']: return x
    if phi is None:
        r=list(fn.rets()); 
        if len(r)!=1: ctx.notes.append('conversion not recognised in '+fn.name); return
        v=r[0].o[0]; phi=fn.ins.get(v) if isinstance(v,int) else None
        if phi is None or phi.op!='phi': ctx.notes.append('conversion not recognised in '+fn.name); return
    seen=set()
    for o,ib in zip(phi.o,phi.j['in']):
        s=sw_for(ib)
        if s is None: continue
        if p is not None:
            n=fname(fn,fn.ex(s.o[0]))
            ctx.check('generic',f+':format',n is not None and n.endswith('.'+p+'_format'),'is decoded with the format %s'%n,s.where())
        chars=[chr(c) for c,t in zip(s.cases,s.j['succ'][1:]) if t==ib]
        x=o; chain=[]
        while isinstance(x,int) and x>=fn.nargs and fn.ins[x].op in('sext','zext','fptosi','fpext'): chain.append(fn.ins[x].op); x=fn.ins[x].o[0]
        ld=fn.ins.get(x) if isinstance(x,int) else None
        if ld is None or ld.op!='load': ctx.bad('generic','%s:%s'%(f,''.join(chars)),'value is not read from the record',phi.where()); continue
        if p is not None:
            a=fn.ex(ld.o[0]); names=[fname(fn,t) or '' for t,_ in (a[3] if a[0]=='adr' else ())]
            rec=a[0]=='adr' and (any(n.endswith('mmap_offset') for n in names) or bool(Rec(fn).src(a[1])-{'null'}))
            ctx.check('generic',f+':offset',[n for n in names if not n.endswith('mmap_offset')]==[n for n in names if n.endswith('.'+p+'_offset')]!=[] and rec and a[2]==0,'is read at %s'%fn.pp(a),ld.where())
        for ch in chars:
            seen.add(ch)
            if ch in FMT:
                w,sg=FMT[ch]; k='sext' if 'sext' in chain else 'zext' if 'zext' in chain else None
                ok=ld.sz==w and (w==8 or k==('sext' if sg else 'zext'))
                ctx.check('generic','%s:%s'%(f,ch),ok,"format character '%s' is read as %d byte(s), %s; it is %d byte(s), %s"%(ch,ld.sz,'sign-extended' if k=='sext' else 'zero-extended',w,'signed' if sg else 'unsigned'),ld.where())
            elif ch in FL:
                ctx.check('generic','%s:%s'%(f,ch),ld.sz==FL[ch] and 'fptosi' in chain,"format character '%s' is not read as a %d-byte float"%(ch,FL[ch]),ld.where())
    miss=set(FMT)|set(FL); miss-=seen
    ctx.check('generic',f+':characters',not miss,'format character(s) %s are not decoded'%''.join(sorted(miss)),phi.where())
