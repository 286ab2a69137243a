"""Rewinding, cloning and repositioning a trace reader.
 rewind   every piece of reader, decompressor and sampler state that reading a
          request changes is put back by reset_reader to the value set-up gave it
          (on every path on which that state is in use), and the underlying file
          and decompressor are rewound;
 clone    a clone is set up from the same path, trace type and parameters, is
          positioned by set-up alone, and never unmaps the mapping it shares;
 config   each option of the reader comes from the same-named parameter;
 align    every assignment of the read offset leaves it on a record boundary
          relative to the start of the requests;
 peek     looking at the first or last request changes nothing in the reader."""
from rules.c14 import guards,fname,View
from lcs.bits import *
from lcs.slice import *
from lcs.engine import Explorer,NZ,Path
from lcs.lin import *
ASSUME=['all reader operations are those in libCacheSim/traceReader','repositioning while a sampler or a repeated request is active is reset by reset_reader only']
EXEMPT={'reader.sampler':'taken out and put back within the call','csv_params_t.request':'set at the start of every read','csv_params_t.curr_field_idx':'reset at the end of every row','csv_params.request':'','csv_params.curr_field_idx':'',
 'reader.line_buf':'buffer','reader.line_buf_size':'buffer'}
STATE=('reader.','zstd_reader.')
def reach_readers(sem,root):
    seen,_=sem.reach([root])
    return [sem.m.fns[n] for n in seen if n in sem.m.fns and '/traceReader/' in sem.m.fns[n].file]
def mutated(sem,root):
    out={}
    for f in reach_readers(sem,root):
        if f.src in('setup_reader','clone_reader','close_reader') or f.src.endswith('_setup') : continue
        for i in f.live():
            if i.op=='store':
                n=f.fld(i)
                if n and n.startswith(STATE): out.setdefault(n,i)
            if i.op in('call','invoke') and (i.callee or '').startswith('ZSTD_decompressStream'):
                for k in('output','input'):
                    out.setdefault('zstd_reader.%s.pos'%k,i)
    return out
def initial(m):
    """field -> constant stored by set-up (None if several or not constant)"""
    out={}
    for f in m.repo_fns():
        if f.src not in('setup_reader','create_zstd_reader'): continue
        for i in f.live():
            if i.op=='store':
                n=f.fld(i)
                if n and n.startswith(STATE):
                    e=f.ex(i.o[0]); out.setdefault(n,set()).add(e if e[0]=='c' else '?')
    return out
class Reset(Explorer):
    max_states=60000
    def __init__(s,fn,sem,sub): super().__init__(fn); s.sem=sem; s.sub=sub; s.exits=[]
    def init(s): return frozenset()
    def transfer(s,i,P):
        fn=s.fn
        if i.op=='store':
            n=fn.fld(i)
            if n and n.startswith(STATE):
                e=fn.ex(i.o[0]); v=s.val(i.o[0],P)
                t=('c',v) if isinstance(v,int) else (fname(fn,e) or ('call:'+callname(fn,e)) )
                P.st=frozenset(x for x in P.st if x[0]!=n)|{(n,t)}
        if i.op in('call','invoke'):
            c=i.callee or fn.slotof(i) or ''
            if c=='fseek':
                w=fname(fn,fn.ex(i.o[0])) or '?'; o=fn.ex(i.o[1]); wh=fn.ex(i.o[2])
                if wh==('c',0) and (o==('c',0) or fname(fn,o)=='reader.trace_start_offset'): P.st|={('seek',w)}
            elif c=='rewind': P.st|={('seek',fname(fn,fn.ex(i.o[0])) or '?')}
            elif c in('ZSTD_initDStream','ZSTD_DCtx_reset','ZSTD_resetDStream'): P.st|={('decoder','reset')}
            elif i.callee in s.sub and s.sub[i.callee]: P.st|=s.sub[i.callee]
        return None
    def onexit(s,i,P): s.exits.append((P.st,P))
    def onedge(s,t,truth,P):
        for v,tr in flags(s.fn,t.o[0],truth):
            n=fname(s.fn,v)
            if n in('reader.is_zstd_file','reader.sampler','reader.trace_type','reader.trace_format'):
                if n!='reader.sampler':
                    # these are not changed here: contradictory tests mean the path cannot be taken
                    for _,k,o in [c for c in P.st if c[0]=='cond' and c[1]==n]:
                        if o[0]=='eq' and tr[0]=='eq' and o[1]!=tr[1] or o[0]!=tr[0] and o[1]==tr[1]: return None
                P.st|={('cond',n,tr)}
        return P
def flags(fn,v,truth,d=0):
    """(load expression, truth/equality constant) implied by the branch value"""
    if d>8 or not isinstance(v,int) or v<fn.nargs: return
    i=fn.ins[v]; e=fn.ex(v)
    if i.op=='icmp':
        a=fn.ex(i.o[0]); b=fn.ex(i.o[1])
        while a[0] in('zext','sext','trunc'): a=a[2]
        if i.pred in('eq','ne') and b[0]=='c':
            eq=truth==(i.pred=='eq')
            if fname(fn,a): yield a,(('eq' if eq else 'ne'),b[1])
            if b[1]==0: yield from flags(fn,i.o[0],not eq,d+1)
        return
    if i.op in('zext','sext','trunc','freeze'):
        yield from flags(fn,i.o[0],truth,d+1); return
    if i.op=='load': yield e,('ne' if truth else 'eq',0)
    if i.op=='xor': yield from flags(fn,i.o[0],not truth,d+1)
def callname(fn,e):
    if e[0]=='call': return fn.callee_or_slot(fn.ins[e[1]])
    return '?'
def must(sem,fn,sub):
    x=Reset(fn,sem,sub); x.run()
    if not x.exits: return frozenset()
    r=None
    for st,_ in x.exits:
        k=frozenset(y for y in st if y[0]!='cond'); r=k if r is None else r&k
    return r
def run(ctx):
    sem=ctx.sem(); m=sem.m
    rs=ctx.need(m.get('reset_reader'),'reset_reader'); rd=ctx.need(m.get('read_one_req','reader.c'),'read_one_req')
    M=mutated(sem,rd.name); init=initial(m)
    sub={}
    for f in m.repo_fns():
        if '/traceReader/' in f.file and f is not rs and any(i.callee==f.name for i in rs.live() if i.op=='call'): sub[f.name]=must(sem,f,{})
    x=Reset(rs,sem,sub); x.run(); ctx.need(x.exits,'exits of reset_reader')
    from rules.c14 import enumerators
    en=enumerators(); txt={en.get('CSV_TRACE'),en.get('PLAIN_TXT_TRACE')}
    n=0
    for f,site in sorted(M.items()):
        if f in EXEMPT: continue
        n+=1; bad=None
        for st,P in x.exits:
            cond=[(c[1],c[2]) for c in st if c[0]=='cond']
            z=[c for k,c in cond if k=='reader.is_zstd_file']
            istxt=any(k=='reader.trace_type' and c[0]=='eq' and c[1] in txt for k,c in cond) or any(k=='reader.trace_format' and c[0]=='eq' and c[1]==en.get('TXT_TRACE_FORMAT',1) for k,c in cond)
            if f.startswith('zstd_reader.') and ('eq',0) in z: continue
            if f=='reader.mmap_offset' and istxt: continue
            if f=='zstd_reader.status' and not init.get(f): continue
            v=[t for k,t in [y for y in st if y[0]!='cond' and y[0]!='seek'] if k==f]
            want=init.get(f,set())
            ok=bool(v) and (v[0] in want or f=='reader.mmap_offset' and v[0]=='reader.trace_start_offset')
            if not ok: bad='is changed by reading (%s) but %s'%(site.where(),'reset_reader leaves it' if not v else 'reset_reader sets it to %s, not to its initial value'%(v[0],))
        ctx.check('rewind',f,bad is None,bad or '',rs.relfile)
    ctx.floor('state changed by reading',n,6)
    for st,P in x.exits:
        cond=[(c[1],c[2]) for c in st if c[0]=='cond']; seeks={y[1] for y in st if y[0]=='seek'}
        istxt=any(k=='reader.trace_type' and c[0]=='eq' and c[1] in txt for k,c in cond)
        if istxt: ctx.check('rewind','file','reader.file' in seeks,'the text file is not rewound',rs.relfile)
        if ('reader.is_zstd_file',('ne',0)) in cond:
            ctx.check('rewind','compressed file','zstd_reader.ifile' in seeks,'the compressed file is not rewound',rs.relfile)
            ctx.check('rewind','decompressor',('decoder','reset') in st,'the decompressor keeps the state of the previous pass',rs.relfile)
        if ('reader.sampler',('ne',0)) in cond or not any(k=='reader.sampler' for k,_ in cond):
            v=[t for k,t in [y for y in st if len(y)==2] if k=='reader.sampler']
            ctx.check('rewind','sampler',bool(v) and v[0]=='call:sampler.clone','the sampler keeps the counters of the previous pass',rs.relfile)
    # the sampler is put back within a read
    sampler_back(ctx,m,rd)
    clone(ctx,m); config(ctx,m); align(ctx,m); peek(ctx,m)
class Back(Explorer):
    max_states=200000
    def __init__(s,fn): super().__init__(fn); s.bad=None; s.n=0
    def init(s): return 'in'
    def transfer(s,i,P):
        if i.op=='store' and s.fn.fld(i)=='reader.sampler':
            s.n+=1
            P.st='out' if s.val(i.o[0],P)==0 else 'in' if fname(s.fn,s.fn.ex(i.o[0]))=='reader.sampler' else 'other'
        return None
    def onexit(s,i,P):
        if P.st!='in': s.bad=i
def sampler_back(ctx,m,rd):
    x=Back(rd); x.run()
    ctx.check('rewind','reader.sampler',x.bad is None,'reading can end with the sampler taken out of the reader',x.bad.where() if x.bad else '')
def clone(ctx,m):
    cl=ctx.need(m.get('clone_reader'),'clone_reader')
    cs=[i for i in cl.live() if i.op=='call' and m.srcname(i.callee or '')=='setup_reader']
    ctx.need(len(cs)==1,'set-up call in clone_reader'); c=cs[0]
    for k,want in((0,'reader.trace_path'),(1,'reader.trace_type')):
        e=cl.ex(c.o[k]); ok=fname(cl,e)==want and from_arg(e)
        ctx.check('clone',want,ok,'the clone is set up with %s instead of the original\'s %s'%(cl.pp(e),want.split('.')[1]),c.where())
    e=cl.ex(c.o[2]); f=cl.fieldinfo(e)
    ctx.check('clone','reader.init_params',bool(f) and f[0]=='reader' and f[1].startswith('init_params') and base_of(e)==('arg',0),'the clone is not set up with the original\'s parameters',c.where())
    for i in cl.rets(): ctx.check('clone','result',cl.ex(i.o[0])==('call',c.id),'the reader returned is not the one set up',i.where())
    shared=None; marked=[]
    for i in cl.live():
        if i.op!='store': continue
        n=cl.fld(i); b=base_of(cl.ex(i.o[1]))
        if not n or not n.startswith('reader.') or b!=('call',c.id):
            if n and n.startswith('reader.'): ctx.bad('clone','original','cloning writes %s of the original reader'%n,i.where())
            continue
        if n=='reader.mapped_file': shared=i
        elif n=='reader.cloned': marked.append(i)
        elif n=='reader.n_total_req': ctx.check('clone','reader.n_total_req',fname(cl,cl.ex(i.o[0]))=='reader.n_total_req','the number of requests is not the original\'s',i.where())
        elif n in('reader.mmap_offset','reader.n_read_req','reader.n_req_left','reader.last_req_clock_time','reader.item_size','reader.trace_type'): ctx.bad('clone',n,'the clone does not start at the first request',i.where())
    if shared is not None:
        ok=[i for i in marked if cl.ex(i.o[0])==('c',1) and (cl.dominates(i,shared) or post(cl,shared,i))]
        ctx.check('clone','cloned',ok,'a clone sharing the mapping is not marked: closing it unmaps the original\'s trace',shared.where())
    cr=ctx.need(m.get('close_reader'),'close_reader')
    n=0
    for i in cr.live():
        if i.op=='call' and i.callee=='munmap':
            n+=1
            ok=False
            for b in cr.reachable():
                t=cr.blocks[b][-1]
                if t.op!='br' or len(t.j.get('succ') or [])!=2: continue
                for tgt,tr in((t.succ[0],True),(t.succ[1],False)):
                    if tgt in cr.dom()[i.bb] and cr.pred[tgt]==[b]:
                        if any(fname(cr,v)=='reader.cloned' and c==('eq',0) for v,c in flags(cr,t.o[0],tr)): ok=True
            ctx.check('clone','munmap',ok,'closing a clone unmaps the mapping it shares with the original',i.where())
    ctx.floor('unmapping sites',n,1)
def from_arg(e):
    return e[0]=='ld' and base_of(e[1])==('arg',0) or e[0] in('zext','sext','trunc') and from_arg(e[2])
def post(fn,a,b):
    """b executes on every path after a"""
    if a.bb==b.bb: return b.idx>a.idx
    x=a.bb; seen=set()
    while x is not None and x not in seen and x<fn.n:
        if x==b.bb: return True
        seen.add(x); x=ipdom(fn,x)
    return False
CONFIG=('ignore_obj_size','ignore_size_zero_req','obj_id_is_num','cap_at_n_req','trace_start_offset')
def config(ctx,m):
    st=ctx.need(m.get('setup_reader'),'setup_reader')
    seen=set()
    for i in st.live():
        if i.op=='store':
            n=st.fld(i)
            if n and n.split('.')[0]=='reader' and n[7:] in CONFIG+('mmap_offset',):
                e=st.ex(i.o[0])
                src=fname(st,strip(e))
                if src and 'init_param' in src:
                    want='trace_start_offset' if n[7:]=='mmap_offset' else n[7:]
                    seen.add(n[7:]); ctx.check('config',n,src.split('.')[-1]==want,'is set from the parameter %s'%src,i.where())
            if n=='reader.sampler' and st.ex(i.o[0])[0]=='call':
                seen.add('sampler'); ctx.check('config',n,callname(st,st.ex(i.o[0]))=='sampler.clone','the reader shares the sampler with its creator',i.where())
    for c in CONFIG+('mmap_offset','sampler'): ctx.check('config','reader.%s:set'%c,c in seen,'the parameter %s is not honoured'%c,st.relfile)
def strip(e):
    while e[0] in('zext','sext','trunc') or e[0]=='icmp' and e[1]=='ne' and e[3]==('c',0): e=e[2]
    if e[0]=='sel': e=e[1]
    return e
def align(ctx,m):
    n=0
    for f in m.repo_fns():
        for i in f.live():
            if i.op!='store' or f.fld(i)!='reader.mmap_offset': continue
            n+=1
            e=f.ex(i.o[0]); base=base_of(f.ex(i.o[1]))
            ok=aligned(f,e,base,i) or f.src=='setup_reader' and e==('c',0)
            ctx.check('align','%s:%s'%(f.src,i.inlined_fns()[0] if i.inlined_fns() else ''),ok,'the offset is set to %s, which need not be a record boundary'%f.pp(e),i.where())
    ctx.floor('assignments of the read offset',n,8)
def aligned(f,e,base,at,d=0):
    if d>12: return False
    while e[0] in('zext','sext','trunc'): e=e[2]
    n=fname(f,e)
    if n and n.split('.')[-1]=='trace_start_offset': return True
    if n=='reader.mmap_offset': return True
    if e[0]=='phi':
        i=f.ins[e[1]]; return all(f.ex(o)==e or aligned(f,f.ex(o),base,at,d+6) for o in i.o)
    if e[0]=='sel': return aligned(f,e[2],base,at,d+1) and aligned(f,e[3],base,at,d+1)
    if e[0] in('add','sub'):
        if aligned(f,e[1],base,at,d+1) and step(f,e[2],d+1): return True
        if e[0]=='add' and aligned(f,e[2],base,at,d+1) and step(f,e[1],d+1): return True
        # x - (x - start) % size
        if e[0]=='sub' and e[2][0]=='urem' and fname(f,e[2][2])=='reader.item_size':
            t,c=lsub(lin(e[1]),lin(e[2][1]))
            nm=[((fname(f,strip(k)) or '').split('.')[-1],v) for k,v in t.items()]
            if c==0 and nm==[('trace_start_offset',1)]: return True
    return False
def step(f,e,d):
    """multiple of the record size"""
    while e[0] in('zext','sext','trunc'): e=e[2]
    if fname(f,e)=='reader.item_size' or e==('c',0): return True
    if e[0]=='mul': return step(f,e[1],d+1) or step(f,e[2],d+1)
    if e[0] in('add','sub'): return step(f,e[1],d+1) and step(f,e[2],d+1)
    if e[0]=='sub': return False
    return False
def writes(m,f,k,memo,depth=0):
    key=(f.name,k)
    if key in memo: return memo[key]
    memo[key]=None
    if depth>6: return None
    for i in f.live():
        if i.op=='store' and base_of(f.ex(i.o[1]))==('arg',k): memo[key]=i; return i
        if i.op in('call','invoke'):
            for q,o in enumerate(i.o):
                if f.ex(o)==('arg',k) and i.callee in m.fns:
                    r=writes(m,m.fns[i.callee],q,memo,depth+1)
                    if r is not None: memo[key]=r; return r
                e=f.ex(o)
                if i.callee in('fseek','rewind','fread','getline','fgets','fsetpos') and e[0]=='ld' and base_of(e[1])==('arg',k): memo[key]=i; return i
    return None
def peek(ctx,m):
    n=0
    for name in('read_first_req','read_last_req'):
        f=m.get(name)
        if f is None: continue
        n+=1; r=writes(m,f,0,{})
        ctx.check('peek',name,r is None,'looking at a request changes the reader%s'%(' (%s)'%(r.fn.fld(r) if r.op=='store' else r.callee) if r else ''),r.where() if r else '')
    ctx.floor('peeking functions',n,2)
