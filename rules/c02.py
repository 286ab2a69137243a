"""Object ids and byte quantities keep 64 bits.  Values that are plain copies of an
object id, an object size, a sum of object sizes or a cache size are followed
through registers, structure fields, arguments, results, local arrays and glib
containers of the whole program; no copy may be narrowed to fewer bits and then
stored, compared, passed on or widened again (hashing and index arithmetic may
use any part), and an id or size is never produced from a narrower number
(integer parsing functions returning int, truncated 64-bit parses)."""
from lcs.ident import *
from lcs.slice import *
from rules.c14 import guards,fname
ASSUME=['glib hash tables, arrays and lists return what was put in','containers of the C++ library keep the type they are declared with']
# records of on-disk formats whose documented size field has 32 bits
RECORDS=('oracleGeneral_req','output_format')
def recordstore(f,u):
    if u.op!='store': return False
    n=f.fld(u) or ''
    return any(r in n for r in RECORDS) or any(isinstance(k,tuple) and any(r in str(k) for r in RECORDS) for k in [])
def asked32(f,i):
    """the narrowing is what the user asked for"""
    for g,t in guards(f,i):
        for o in g.o:
            n=fname(f,f.ex(o)) if isinstance(o,int) else None
            if n and '32bit' in n: return True
    return False
def structof(f,u):
    return f.fld(u) or ''
def run(ctx):
    for grp,least in(('core',900),('bin_cachesim',5),('bin_traceUtils',5)):
        m=ctx.module(grp); I=Ident(m,prints=grp=='bin_traceUtils')
        ctx.count('copies followed '+grp,len(I.tag)); ctx.count('fields carrying ids or sizes '+grp,len(I.ftag))
        ctx.floor('copies followed '+grp,len(I.tag),least)
        bad=set()
        for f,i,v,u in I.narrowings():
            if recordstore(f,u) or asked32(f,i): continue
            what='an object id' if v=='id' else 'a byte quantity'
            fn=i.inlined_fns()[0] if i.inlined_fns() else f.src
            key='%s narrowed to %s in %s'%(v,i.ty,fn)
            bad.add((f.name,fn))
            ctx.bad('narrow',key,'%s is cut to %s bits and then %s'%(what,i.ty[1:],{'store':'stored','icmp':'compared','call':'passed on','invoke':'passed on','ret':'returned'}.get(u.op,'used')),i.where())
        for f in I.fns:
            if any(k[0]==f.name for k in I.tag) and not any(b[0]==f.name for b in bad): ctx.ok('narrow','%s (%s)'%(f.src,grp))
        for f in I.fns:
            for i in f.live():
                if i.op!='store': continue
                n=f.fld(i)
                if n not in IDF+SZF: continue
                e=narrowsource(f,i.o[0])
                ctx.check('source','%s in %s'%(n,i.inlined_fns()[0] if i.inlined_fns() else f.src),e is None,'%s is produced from a %s'%(n,e),i.where())
DISTINCT=('g_quark_from_string',)  # numbers the distinct strings
def narrowsource(f,v,seen=None):
    seen=set() if seen is None else seen
    if not isinstance(v,int) or v<f.nargs or v in seen: return None
    seen.add(v); i=f.ins[v]
    if i.op in('phi','select'):
        for o in(i.o if i.op=='phi' else i.o[1:]):
            r=narrowsource(f,o,seen)
            if r: return r
    if i.op in('zext','sext'):
        j=f.ins[i.o[0]] if isinstance(i.o[0],int) and i.o[0]>=f.nargs else None
        if j is not None and j.op in('call','invoke') and j.callee and j.callee not in f.mod.fns and j.callee not in DISTINCT: return '%s-bit result of %s'%(j.ty[1:],j.callee)
        if j is not None and j.op=='trunc':
            k=f.ins[j.o[0]] if isinstance(j.o[0],int) and j.o[0]>=f.nargs else None
            if k is not None and k.op in('call','invoke') and k.callee and k.callee not in f.mod.fns and not k.callee.startswith('llvm.'): return 'truncated result of %s'%k.callee
    if i.op in('freeze','bitcast'): return narrowsource(f,i.o[0],seen)
    return None
