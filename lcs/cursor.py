"""Cursors: object pointers a policy keeps across operations besides queue ends.
When an object leaves the cache each cursor must be known to differ from it or
be re-assigned on that path."""
from .link import *
ENDS=('head','tail','heads','tails')
def cursors(sem,a):
    """cursor fields written or read by the functions of an algorithm's file"""
    m=sem.m; out=set()
    for st,d in m.structs.items():
        if st in('cache','cache_obj','freq_node') or st.startswith('anon') : continue
        for x in d['members']:
            if x[2]=='struct cache_obj*' and not x[0].endswith(ENDS) and not x[0].startswith('_') and 'param' in st: out.add(st+'.'+x[0])
    used=set()
    for f in m.repo_fns():
        if f.file!=a.file: continue
        for i in f.live():
            if i.op in('load','store') and f.fld(i) in out: used.add(f.fld(i))
    return used
class Cursor(LinkEffect):
    """state: (link state, facts)"""
    def __init__(s,sem,fn,curs): super().__init__(sem,fn,{},()); s.curs=curs; s.n=0; s.bad={}
    def init(s): return frozenset()
    def keepids(s,st): return [x[2] for x in st if x[0] in('ne','gone') and isinstance(x[2],int)]
    def onedge(s,t,truth,P):
        for i,tr in s.atoms(t.o[0],truth,P):
            if i.op!='icmp' or i.pred not in('eq','ne'): continue
            if (i.pred=='eq')==tr: continue
            for a,b in((i.o[0],i.o[1]),(i.o[1],i.o[0])):
                e=s.fn.ex(a)
                if e[0]=='ld':
                    f=s.fn.fieldinfo(e[1])
                    if f and f[0]+'.'+f[1] in s.curs:
                        tk=s.tok(b,P)
                        if tk is not None: P.st|={('ne',f[0]+'.'+f[1],tk)}
        return P
    def transfer(s,i,P):
        fn=s.fn
        if i.op=='store':
            f=fn.fld(i)
            if f in s.curs:
                v=s.tok(i.o[0],P)
                P.st=frozenset(x for x in P.st if not(x[0]=='gone' and x[1]==f and x[2]!=v)|(x[0]=='ne' and x[1]==f))
                P.st|={('set',f,v)}
            return None
        if i.op not in('call','invoke'): return None
        c=fn.mod.srcname(i.callee) if i.callee else fn.slotof(i)
        if c in TABLE_DEL:
            if s.val(i.o[-1],P)==0: return None
            t=s.tok(i.o[1],P); s.n+=1
            for C in s.curs:
                if ('ne',C,t) in P.st: continue
                if any(x[0]=='set' and x[1]==C and x[2]!=t for x in P.st): continue
                P.st|={('gone',C,t)}; s.bad.setdefault((C,t),i)
            return None
        return None
    def onexit(s,i,P):
        for x in P.st:
            if x[0]=='gone': s.err.setdefault(x[1],s.bad[(x[1],x[2])])
    def onphi(s,b,tgt,upd,P): return P.st
