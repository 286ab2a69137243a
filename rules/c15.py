"""End of trace.  In the request readers (functions taking a reader and a request):
 valid    every path returning non-zero leaves the request marked invalid, and every
          path returning zero through read_one_req leaves it valid (or, for repeated
          requests, untouched);
 bounds   the address of a mapped record is formed only where the whole record lies
          inside the file (dominating comparison), and the decompressor hands out
          bytes only when it holds as many as were asked for;
 cap      no record is decoded once the number of requests read has reached a
          positive cap, and reading a record counts exactly one request;
 tail     the decompressor reports end of file only after asking the library for
          output it may still hold."""
from rules.c14 import guards,atoms,fname,View,dispatch
from lcs.bits import *
from lcs.engine import Explorer,NZ,Path
from lcs.lin import *
from lcs import build
import re, os
ASSUME=['mmap_offset + item_size does not wrap','getline and the zstd library behave as documented']
def readers(m):
    out=[]
    for f in m.repo_fns():
        if '/traceReader/' not in f.file or len(f.ditypes)<3: continue
        if 'struct reader*' in f.ditypes[1] and 'struct request*' in f.ditypes[2] and f.ditypes[0] in('int','_Bool','bool','enum rstatus','rstatus'): out.append(f)
    return out
class Valid(Explorer):
    max_states=200000
    def __init__(s,fn,names): super().__init__(fn); s.names=names; s.bad=[]; s.nret=0
    def init(s): return 'U'
    def transfer(s,i,P):
        fn=s.fn
        if i.op=='store' and fn.fld(i)=='request.valid':
            v=s.val(i.o[0],P); P.st='F' if v==0 else 'T' if v in(1,-1,NZ) else '?'
            return None
        if i.op in('call','invoke') and s.isreader(i):
            a=Path(P.st,dict(P.env),dict(P.alias),dict(P.avail)); a.env[i.id]=0
            if i.callee in s.names and s.fn.mod.fns[i.callee].src in('read_one_req','read_one_req_above'): a.st='T' if a.st!='T' else 'T'
            b=Path('F',dict(P.env),dict(P.alias),dict(P.avail)); b.env[i.id]=NZ
            return [a,b]
        return None
    def isreader(s,i):
        if i.callee: return i.callee in s.names
        t=s.tg(i)
        return bool(t) and all(x in s.names for x in t)
    def tg(s,i):
        # indirect call of one of several readers through a local function pointer
        out=set(); st=[i.fp]; seen=set()
        while st:
            v=st.pop()
            if isinstance(v,list):
                if v[0]=='F': out.add(v[1])
                continue
            if not isinstance(v,int) or v in seen or v<s.fn.nargs: continue
            seen.add(v); j=s.fn.ins[v]
            if j.op=='phi': st+=j.o
            elif j.op in('select',): st+=j.o[1:]
        return out
    def onexit(s,i,P):
        s.nret+=1
        v=s.val(i.o[0],P) if i.o else None
        if v==0:
            if P.st=='F': s.bad.append(('returns success with the request marked invalid',i))
            elif P.st=='?': s.bad.append(('returns success with unknown validity',i))
        elif v is None: s.bad.append(('return value is not determined by end of trace' if P.st!='F' else None,i))
        elif P.st!='F': s.bad.append(('reports the end of the trace without marking the request invalid',i))
class Cap(Explorer):
    """read_one_req: cap test before decoding, one count per record"""
    max_states=200000
    def __init__(s,fn,names,start=(False,0),depth=0): super().__init__(fn); s.names=names; s.err={}; s.n=0; s.start=start; s.outs=set(); s.depth=depth; s.memo={}
    def init(s): return s.start
    def onexit(s,i,P): s.outs.add(P.st)
    def onedge(s,t,truth,P):
        for i,tr in s.atoms(t.o[0],truth,P):
            if i.op!='icmp': continue
            d=leq0(s.fn,i,tr)
            if d is None: continue
            T=[(fname(s.fn,k),c) for k,c in d[0].items()]
            nm=dict((n,c) for n,c in T if n)
            if set(nm)=={'reader.cap_at_n_req'} and len(T)==1 and nm['reader.cap_at_n_req']>0 and d[1]>=0: P.st=(True,P.st[1])
            if set(nm)=={'reader.n_read_req','reader.cap_at_n_req'} and len(T)==2 and nm['reader.n_read_req']==1 and nm['reader.cap_at_n_req']==-1 and d[1]>=1: P.st=(True,P.st[1])
        return P
    def transfer(s,i,P):
        fn=s.fn
        if i.op=='store' and fn.fld(i)=='reader.n_read_req':
            t,c=lsub(lin(fn.ex(i.o[0])),lin(('ld',fn.ex(i.o[1]),i.sz)))
            if t or c!=1: s.err.setdefault('count',('the number of requests read changes by something other than one',i))
            P.st=(P.st[0],min(2,P.st[1]+1))
        if i.op in('call','invoke') and i.callee in s.names and s.depth<3:
            g=fn.mod.fns[i.callee]
            if g.src not in('read_one_req','read_one_req_above') and dispatch(g) is not None:     # part of the same operation
                if (g.name,P.st) not in s.memo:
                    x=Cap(g,s.names,P.st,s.depth+1); x.run(); s.n+=x.n
                    for k,v in x.err.items(): s.err.setdefault(k,v)
                    s.memo[g.name,P.st]=sorted(x.outs)
                return [Path(st,dict(P.env),dict(P.alias),dict(P.avail)) for st in s.memo[g.name,P.st]]
        dec=(i.op in('call','invoke') and i.callee in s.names and fn.mod.fns[i.callee].src not in('read_one_req','read_one_req_above')) or (i.op=='load' and Rec.cached(fn).at(fn.ex(i.o[0])) is not None)
        if dec:
            s.n+=1
            if not P.st[0]: s.err.setdefault('cap',('a record is decoded although the cap may have been reached',i))
            if P.st[1]!=1: s.err.setdefault('once',('a record is decoded with %s counted'%('nothing' if P.st[1]==0 else 'more than one request'),i))
        return None
def _cached(fn):
    if not hasattr(fn,'_rec'): fn._rec=Rec(fn)
    return fn._rec
Rec.cached=staticmethod(_cached)
def run(ctx):
    m=ctx.module(); L=readers(m); names={f.name for f in L}
    ctx.floor('request readers',len(L),20)
    for f in sorted(L,key=lambda f:f.name):
        x=Valid(f,names); x.run()
        x.bad=[b for b in x.bad if b[0]]
        ctx.check('valid',f.src,not x.bad,x.bad[0][0] if x.bad else '',x.bad[0][1].where() if x.bad else '')
    ng=0
    for f in m.repo_fns():
        if '/traceReader/' not in f.file: continue
        for i in f.live():
            if i.op!='getelementptr': continue
            if Rec.cached(f).src(f.ex(i.id))!={'map'}: continue
            if not used_as_record(f,i): continue
            ng+=1
            ok=any(inside(f,g,t) for g,t in guards(f,i)) or callers_inside(m,f)
            ctx.check('bounds','%s:%s'%(f.src,i.inlined_fns()[0] if i.inlined_fns() else ''),ok,'a record is addressed although part of it may lie beyond the end of the file',i.where())
    ctx.floor('mapped record addresses',ng,15)
    for f in m.bysrc.get('read_one_req',[]):
        x=Cap(f,names); x.run()
        for k in('cap','once','count'):
            e=x.err.get(k); ctx.check('cap',k,e is None,e[0] if e else '',e[1].where() if e else '')
        ctx.floor('decoding points after the cap test',x.n,10)
    z=m.get('zstd_reader_read_bytes')
    if z is None: ctx.notes.append('built without zstd'); return
    zstd(ctx,m,z)
def targets_of(fn,i):
    out=set(); st=[i.fp]; seen=set()
    while st:
        v=st.pop()
        if isinstance(v,list):
            if v[0]=='F': out.add(v[1])
            continue
        if not isinstance(v,int) or v in seen or v<fn.nargs: continue
        seen.add(v); j=fn.ins[v]
        if j.op=='phi': st+=j.o
        elif j.op=='select': st+=j.o[1:]
    return out
def callers_inside(m,f):
    n=0
    for g in m.repo_fns():
        for i in g.live():
            if i.op not in('call','invoke'): continue
            if i.callee==f.name or (i.callee is None and i.fp is not None and f.name in targets_of(g,i)):
                n+=1
                if not any(inside(g,a,t) for a,t in guards(g,i)): return False
    return n>0
def used_as_record(f,i):
    from lcs.slice import users
    return bool(users(f).get(i.id))
def inside(f,g,t):
    if g.op!='icmp': return False
    d=leq0(f,g,t)
    if d is None: return False
    nm={}
    for k,c in d[0].items():
        n=fname(f,k)
        if n is None and k[0]=='mul':
            a,b=fname(f,k[1]),fname(f,k[2])
            n='n*size' if {a,b}=={'reader.n_total_req','reader.item_size'} else '?'
        nm[n]=c
    off,it,fs=nm.get('reader.mmap_offset'),nm.get('reader.item_size'),nm.get('reader.file_size')
    if set(nm)=={'reader.mmap_offset','reader.item_size','reader.file_size'} and (off,it,fs)==(1,1,-1) and d[1]>=0: return True
    if set(nm)=={'reader.mmap_offset','n*size'} and off==1 and nm['n*size']==-1 and d[1]>=1: return True
    return False
def status_values():
    t=open(os.path.join(build.REPO,'libCacheSim/include/libCacheSim/enum.h')).read()
    t=re.sub(r'/\*.*?\*/|//[^\n]*','',t,flags=re.S)
    mm=re.search(r'enum\s*\w*\s*\{([^}]*\bMY_EOF\b[^}]*)\}',t)
    out={}; v=-1
    for e in (mm.group(1) if mm else 'ERR,OK,MY_EOF').split(','):
        e=e.strip()
        if not e: continue
        k=e.split('=')
        v=int(k[1],0) if len(k)>1 else v+1
        out[k[0].strip()]=v
    return out
def zstd(ctx,m,z):
    n=0; RST=status_values()
    for i in z.live():
        if i.op=='store' and z.ex(i.o[1])==('arg',2):
            n+=1
            ok=False
            for g,t in guards(z,i):
                if g.op!='icmp': continue
                d=leq0(z,g,t)
                if d is None: continue
                nm={('n' if k==('arg',1) else (fname(z,k) or '?').split('.',1)[-1]):c for k,c in d[0].items()}
                if nm.get('n')==1 and nm.get('buff_out_read_pos')==1 and nm.get('output.pos')==-1 and len(nm)==3 and d[1]>=0: ok=True
            ctx.check('bounds','zstd_reader_read_bytes',ok,'bytes are handed out although fewer than requested may be buffered',i.where())
    ctx.floor('decompressor outputs',n,1)
    # nothing is given up before the decompressor reported the end (or an error)
    step=m.get('_decompress_from_buff'); lost=[]; nd=[0]
    class Loss(Explorer):
        max_states=60000
        def init(s): return 'none'
        def onedge(s,t,truth,P):
            # whether enough bytes are buffered is decided by comparisons in normal form
            for i,tr in s.atoms(t.o[0],truth,P):
                if i.op!='icmp': continue
                for w in(True,False):
                    d=leq0(s.fn,i,w)
                    if d is None: continue
                    nm={('n' if k==('arg',1) else (fname(s.fn,k) or '?').split('.',1)[-1]):c for k,c in d[0].items()}
                    if len(nm)==3 and nm.get('n')==1 and nm.get('buff_out_read_pos')==1 and nm.get('output.pos')==-1 and d[1]==0:
                        enough=(w==tr)
                        if P.st in('enough','short') and (P.st=='enough')!=enough: return None
                        if P.st in('none','ok'): P.st='enough' if enough else 'short'
            return P
        def transfer(s,i,P):
            if i.op in('call','invoke') and step is not None and i.callee==step.name:
                nd[0]+=1
                out=[]
                for k,v in RST.items():
                    a=Path('ok' if k=='OK' else 'fail',dict(P.env),dict(P.alias),dict(P.avail)); a.env[i.id]=v; out.append(a)
                return out
            if i.op=='store' and s.fn.ex(i.o[1])==('arg',2): P.st='fail'
            return None
        def onabort(s,i,P):
            if P.st!='fail': lost.append(i)
        def onexit(s,i,P):
            if P.st!='fail': lost.append(i)
    if step is not None and step is not z:
        Loss(z).run(); ctx.floor('decompression steps',nd[0],1)
        ctx.check('loss','zstd_reader_read_bytes',not lost,'the request for bytes is given up although the decompressor has not reported the end of the data',lost[0].where() if lost else '')
    # end of file is reported only after the library was asked for pending output
    d=ctx.need(m.get('_decompress_from_buff') or z,'decompression step')
    calls=[i for i in d.live() if i.op=='call' and (i.callee or '').startswith('ZSTD_decompressStream')]
    ctx.need(calls,'call of the decompressor')
    bad=None; nr=0
    EOFV={2}
    class Tail(Explorer):
        def init(s): return False
        def transfer(s,i,P):
            if i.op=='call' and (i.callee or '').startswith('ZSTD_decompressStream'): P.st=True
            return None
        def onexit(s,i,P):
            nonlocal bad,nr
            nr+=1
            v=s.val(i.o[0],P) if i.o else None
            if v==MYEOF and not P.st: bad=bad or i
    MYEOF=RST.get('MY_EOF',2)
    Tail(d).run()
    ctx.check('tail','_decompress_from_buff',bad is None,'end of file is reported although the decompressor may still hold output',bad.where() if bad else '')
