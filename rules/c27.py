"""Parameter strings.  Parsers are found in the code: functions that split a string with
strsep and compare the part before '=' with names.  Each is explored path by path; one
round is what happens between two splits at '='.
 sets     the round of a known name stores something that comes from the value (or that
          is chosen by comparing the value), on every path that goes on;
 refuse   a round whose name equals none of the known names does not go on;
 own      two different names (other than synonyms, which share their stores) do not set
          the same field, and a field whose name is that of one parameter is not set by
          another one that has a different name;
 exact    a parameter stored as a fraction is not converted as an integer, one stored
          with 64 bits is not converted with 32;
 user     component set-up parses the user's string whenever there is one, after the
          defaults; it reads no parameter before, and overwrites none afterwards;
 used     the field of a parameter is read somewhere beyond parsing and printing;
 handed   a parameter copied to a field of another structure goes to the field that has its
          name, where there is one."""
import re
from lcs.engine import *
from rules.c10 import referenced
LEVEL='other'
EXPLAIN=__doc__
ASSUME=['strsep, strcasecmp and the number conversion functions behave as documented']
CMP=('strcasecmp','strcmp')
INT32={'atoi'}
INTS={'atoi','atol','atoll','strtol','strtoll','strtoul','strtoull','strtoimax','strtoumax','__isoc23_strtol','__isoc23_strtoll','__isoc23_strtoul','__isoc23_strtoull'}
STOP={'print','default','help'}
def cname(m,i): return m.srcname(i.callee) if i.callee else ''
def cstr(o): return o[1] if isinstance(o,list) and o and o[0]=='s' else None
def iscmp(m,i): return i.op=='call' and cname(m,i) in CMP and len(i.o)>1
def issep(m,i): return i.op in('call','invoke') and cname(m,i)=='strsep'
def canonv(fn,v):
    while isinstance(v,int) and v>=fn.nargs and fn.ins[v].op in('zext','sext','trunc','fptosi','fptoui','sitofp','uitofp','fpext','fptrunc','bitcast','freeze'): v=fn.ins[v].o[0]
    return v
class Flow:
    """which values come from the name part and which from the value part"""
    def __init__(s,fn):
        s.fn=fn; m=fn.mod; s.key=set(); s.val=set(); mem={'k':set(),'v':set()}
        for i in fn.allins():
            if issep(m,i) and len(i.o)>1:
                (s.key if cstr(i.o[1])=='=' else s.val).add(i.id)
        ch=True
        while ch:
            ch=False
            for i in fn.allins():
                for nm,S in(('k',s.key),('v',s.val)):
                    M=mem[nm]; r=False
                    if i.op=='store':
                        if i.o[0] in S if isinstance(i.o[0],int) else False:
                            b=s.root(i.o[1])
                            if b is not None and b not in M: M.add(b); ch=True
                        continue
                    if i.id in S: continue
                    if i.op=='load': 
                        b=s.root(i.o[0]); r=b in M or isinstance(i.o[0],int) and i.o[0] in S
                    elif i.op in('call','invoke'):
                        if issep(m,i): 
                            continue
                        args=[o for o in i.o if isinstance(o,int)]
                        r=any(o in S for o in args) or cname(m,i) not in('strdup',) and any(s.root(o) in M for o in args if s.root(o) is not None and s.isalloca(o))
                        if r:
                            for o in args:
                                b=s.root(o)
                                if b is not None and s.isalloca(o) and b not in M and o not in S: M.add(b); ch=True
                    elif i.op!='alloca': r=any(isinstance(o,int) and o in S for o in i.o)
                    if r: S.add(i.id); ch=True
        s.mem=mem['v']
    def root(s,p):
        while isinstance(p,int) and p>=s.fn.nargs and s.fn.ins[p].op in('getelementptr','bitcast'): p=s.fn.ins[p].o[0]
        return p if isinstance(p,int) and p>=s.fn.nargs and s.fn.ins[p].op=='alloca' else None
    def isalloca(s,p): return s.root(p) is not None
def target(fn,p):
    """the parameter field a pointer refers to"""
    while isinstance(p,int) and p>=fn.nargs and fn.ins[p].op in('bitcast','freeze'): p=fn.ins[p].o[0]
    e=fn.ex(p); f=fn.fieldinfo(e)
    if f and f[1]: return '.'.join(f[:2])
    b=e[1] if e[0]=='adr' else e
    if b[0]=='ld':
        f=fn.fieldinfo(b[1])
        if f and f[1]: return '.'.join(f[:2])
    return None
class Round(Explorer):
    """state: ('in',) in a round | ('key',K) | ('not',K) | ('set',field) | ('ctl',)"""
    max_states=60000
    def __init__(s,fn,flow):
        super().__init__(fn); s.flow=flow; s.err={}; s.sets={}; s.by={}; s.rounds=0; s.keys=set()
        m=fn.mod; s.cmpkey={}
        for i in fn.allins():
            if iscmp(m,i):
                for a,b in((0,1),(1,0)):
                    k=cstr(i.o[b])
                    if k is not None and isinstance(i.o[a],int) and i.o[a] in flow.key: s.cmpkey[i.id]=k; s.keys.add(k)
        s.where={}
    def init(s): return frozenset()
    def onedge(s,t,truth,P):
        fn=s.fn
        for i,tr in s.atoms(t.o[0],truth,P):
            v=i.id; z=None
            if i.op=='icmp' and i.pred in('eq','ne'):
                for a,b in((0,1),(1,0)):
                    x=canonv(fn,s.canon(i.o[a],P)) if isinstance(i.o[a],int) else None
                    if x in s.cmpkey and s.val(i.o[b],P)==0:
                        k=s.cmpkey[x]; eq=(i.pred=='eq')==tr
                        if eq: P.st|={('key',k)}
                        else: P.st|={('not',k)}
                        z=1
            if z is None and i.op in('icmp','fcmp') and any(isinstance(o,int) and o in s.flow.val for o in i.o):
                if not any(isinstance(o,int) and o>=fn.nargs and fn.ins[canonv(fn,o)].op=='call' and cname(fn.mod,fn.ins[canonv(fn,o)])=='strlen' for o in i.o if isinstance(canonv(fn,o),int) and canonv(fn,o)>=fn.nargs): P.st|={('ctl',)}
        v=canonv(fn,t.o[0])
        x=s.fn.ins.get(v) if isinstance(v,int) and v>=fn.nargs else None
        if x is not None and x.id in s.cmpkey: P.st|={('not' if truth else 'key',s.cmpkey[x.id])}
        return P
    def put(s,f,i,P,ok):
        ks=frozenset(x[1] for x in P.st if x[0]=='key')
        if not ks: return
        if ok: P.st|={('set',f)}
        for k in ks: s.by.setdefault(k,{}).setdefault(f,set()).add(i.id); s.where[(k,f)]=i
    def close(s,i,P):
        st=P.st
        if ('in',) not in st: return
        s.rounds+=1
        ks=sorted(x[1] for x in st if x[0]=='key')
        if not ks:
            if s.keys: s.err.setdefault(('refuse',''),(i,'a name that is none of the known parameters is passed over silently'))
            return
        fs={x[1] for x in st if x[0]=='set'}
        if not fs and not set(ks)&STOP: s.err.setdefault(('sets',ks[0]),(i,'on a path the parameter %s sets nothing'%ks[0]))
    def transfer(s,i,P):
        fn=s.fn; m=fn.mod
        if i.id in s.flow.key and issep(m,i):
            s.close(i,P); P.st=frozenset({('in',)}); return None
        if i.op=='store':
            f=target(fn,i.o[1])
            if f and s.flow.root(i.o[1]) is None:
                ok=isinstance(i.o[0],int) and i.o[0] in s.flow.val or ('ctl',) in P.st
                s.put(f,i,P,ok)
        elif i.op in('call','invoke') and i.o:
            c=cname(m,i)
            if c in('free','printf','fprintf','snprintf') or c in CMP: return None
            val=any(isinstance(o,int) and (o in s.flow.val or s.flow.root(o) in s.flow.mem and s.flow.root(o) is not None) for o in i.o)
            if val:
                for o in i.o:
                    if isinstance(o,int) and o not in s.flow.val and s.flow.root(o) is None:
                        f=target(fn,o)
                        if f: s.put(f,i,P,True)
        return None
    def onexit(s,i,P): s.close(i,P)
def norm(x): return ['field' if w=='col' else w[:-1] if w.endswith('s') and len(w)>2 else w for w in re.split(r'[-_]',x.lower()) if w]
def fits(k,f):
    a=norm(k); b=norm(f)
    return all(w in b for w in a) or ''.join(a)==''.join(b)
class Unset(Explorer):
    """state: ('raw',) the block has unset contents | ('w',field)"""
    max_states=60000
    def __init__(s,fn,fields,inpar,defset,prints,defkeys,keys):
        super().__init__(fn); s.defkeys=defkeys; s.keys=keys; s.lost={}; s.inpar=inpar; s.defset=defset; s.prints=prints; s.fields=fields; s.err={}; s.allocs=set(); s.st={f.rsplit('.',1)[0] for f in fields}
        # allocations that hold the parameters: parsed fields are accessed relative to them
        m=fn.mod
        for i in fn.allins():
            if i.op=='call' and cname(m,i) in('malloc','calloc','g_malloc','g_malloc0','realloc'): s.allocs.add(i.id)
        s.zeroed={i.id for i in fn.allins() if i.op=='call' and cname(m,i) in('calloc','g_malloc0')}
        s.cmp={}; s.nul={}; s.users=usersof(fn)
        for i in fn.allins():
            if i.id in s.inpar and iscmp(m,i):
                for a,b in((0,1),(1,0)):
                    if cstr(i.o[b]) is not None: s.cmp[i.id]=cstr(i.o[b]).lower()
    def init(s): return frozenset()
    def onedge(s,t,truth,P):
        """a name the defaults do not contain is not found in them"""
        fn=s.fn
        for i,tr in s.atoms(t.o[0],truth,P):
            if i.op=='icmp' and i.pred in('eq','ne') and s.val(i.o[1],P)==0 and (i.pred=='ne')==tr:
                x=i.o[0]; x=fn.ins.get(x) if isinstance(x,int) and x>=fn.nargs else None
                if x is not None and x.op=='load' and x.ty=='ptr':
                    f=target(fn,x.o[0])
                    if f and '.'.join(f.split('.')[:-1]) in s.st: P.st|={('w',f)}
        pend=[x[1] for x in P.st if x[0]=='pend']
        if not pend or pend[0] not in s.defkeys: return P
        for i,tr in s.atoms(t.o[0],truth,P):
            if i.op=='icmp' and i.pred in('eq','ne') and s.val(i.o[1],P)==0:
                x=canonv(fn,s.canon(i.o[0],P))
                if x in s.cmp and (i.pred=='eq')==tr and s.cmp[x] in s.keys and s.cmp[x] not in s.defkeys[pend[0]]: return None
        x=canonv(fn,t.o[0])
        if x in s.cmp and not truth and s.cmp[x] in s.keys and s.cmp[x] not in s.defkeys[pend[0]]: return None
        return P
    def base(s,v,P,d=0):
        """the allocation a pointer comes from"""
        fn=s.fn
        while d<30:
            d+=1; v=s.canon(v,P)
            if not isinstance(v,int) or v<fn.nargs: return None
            i=fn.ins[v]
            if i.op in('getelementptr','bitcast','freeze'): v=i.o[0]; continue
            if i.id in s.allocs: return i.id
            if i.op=='load' and (fn.fld(i) or '').endswith('.eviction_params'): return 'p'
            return None
    def keepids(s,st): return list(s.allocs)
    def transfer(s,i,P):
        fn=s.fn; m=fn.mod
        if i.id not in s.inpar and any(x[0]=='pend' for x in P.st):
            P.st=frozenset({x for x in P.st if x[0]!='pend'}|{('w',f) for x in P.st if x[0]=='pend' for f in s.defset.get(x[1],())})
        if i.id in s.defset:
            P.st=frozenset({x for x in P.st if x[0]!='pend'}|{('w',f) for x in P.st if x[0]=='pend' for f in s.defset.get(x[1],())}|{('pend',i.id)})
            return None
        if i.op=='store' and (fn.fld(i) or '')=='cache.eviction_params':
            v=s.canon(i.o[0],P)
            P.st={x for x in P.st if x[0]!='raw'}|({('raw',)} if isinstance(v,int) and v in s.allocs-s.zeroed and ('zero',v) not in P.st else set()); P.st=frozenset(P.st|{('is',v if isinstance(v,int) else None)})
            return None
        if i.op in('call','invoke'):
            c=cname(m,i)
            if c.startswith(('llvm.memset','memset')) or c.startswith(('llvm.memcpy','memcpy')):
                b=s.base(i.o[0],P)
                if b=='p' or b is not None and ('is',b) in P.st: P.st=frozenset(P.st-{('raw',)})
                if b is not None and b!='p': P.st|={('zero',b)}
            return None
        if i.op not in('load','store'): return None
        f=target(fn,i.o[0] if i.op=='load' else i.o[1])
        if i.op=='load' and i.id in s.inpar and i.ty=='ptr' and f and '.'.join(f.split('.')[:-1]) in s.st and fn.fld(i)==f and ('w',f) not in P.st and s.base(i.o[0],P) is not None and s.val(i.id,P) is None:
            for x in s.users.get(i.id,()):
                if x.op in('load','getelementptr') or x.op=='store' and x.o[1]==i.id: s.nul.setdefault(f,(i,'%s is used while the parameters are parsed, before it is set up'%last(f)))
        if i.op=='store' and f and '.'.join(f.split('.')[:-1]) in s.st and f not in s.fields and s.base(i.o[1],P) is not None: P.st|={('w',f)}
        if i.id in s.prints: return None
        if f not in s.fields or '.'.join(f.split('.')[:-1]) not in s.st: return None
        p=i.o[0] if i.op=='load' else i.o[1]
        b=s.base(p,P)
        if b is None or b!='p' and ('is',b) not in P.st: return None
        if i.op=='store': P.st|={('w',f)}
        elif ('raw',) in P.st and ('w',f) not in P.st: s.err.setdefault(f,(i,'%s is read before it has a value'%last(f)))
        return None
    def onexit(s,i,P):
        s.n=getattr(s,'n',0)+1
        w={x[1] for x in P.st if x[0]=='w'}|{f for x in P.st if x[0]=='pend' for f in s.defset.get(x[1],())}
        for f in set().union(*s.defset.values()) if s.defset else ():
            if f not in w: s.lost.setdefault(f,(i,'on a path %s gets no default value: the defaults are not parsed and nothing else sets it'%last(f)))
class Setup(Explorer):
    """state: ('def',) defaults parsed | ('user',) | ('read',f) | ('null',)"""
    max_states=60000
    def __init__(s,fn,arg,starts,fields,inpar): super().__init__(fn); s.arg=arg; s.starts=starts; s.fields=fields; s.inpar=inpar; s.err={}; s.n=0
    def init(s): return frozenset()
    def keepids(s,st): return [s.arg]
    def onedge(s,t,truth,P):
        fn=s.fn
        for i,tr in s.atoms(t.o[0],truth,P):
            if i.op!='icmp' or i.pred not in('eq','ne','ugt','sgt'): continue
            x=canonv(fn,s.canon(i.o[0],P)); x=fn.ins.get(x) if isinstance(x,int) and x>=fn.nargs else None
            if x is None or not x.o or s.val(i.o[1],P)!=0: continue
            zero=tr if i.pred=='eq' else not tr
            p=x.o[0]
            while isinstance(p,int) and p>=fn.nargs and fn.ins[p].op=='getelementptr' and not fn.ins[p].off: p=fn.ins[p].o[0]
            if zero and (x.op=='load' and x.sz==1 or x.op=='call' and cname(fn.mod,x)=='strlen') and s.canon(p,P)==s.arg: P.st|={('user',)}
        return P
    def transfer(s,i,P):
        fn=s.fn
        if i.id in s.starts:
            v=s.canon(s.starts[i.id],P)
            if isinstance(v,int) and v==s.arg:
                for x in P.st:
                    if x[0]=='read': s.err.setdefault(('read',x[1]),(i,'%s is used before the parameters the user gave are parsed'%x[1]))
                P.st|={('user',)}
            elif ('user',) in P.st: s.err.setdefault(('order',''),(i,'the defaults are parsed after the parameters the user gave'))
            return None
        if i.op in('load','store') and i.id not in s.inpar:
            f=target(fn,i.o[0] if i.op=='load' else i.o[1])
            if f in s.fields:
                if i.op=='load' and ('user',) not in P.st and s.val(s.arg,P)!=0: P.st|={('read',f)}
                if i.op=='store' and ('user',) in P.st and not isinstance(i.o[0],int): s.err.setdefault(('over',f),(i,'%s is overwritten after the parameters the user gave were parsed'%f))
        return None
    def onexit(s,i,P):
        s.n+=1
        if ('user',) not in P.st and s.val(s.arg,P)!=0: s.err.setdefault(('user',''),(i,'on a path the parameters the user gave are not parsed'))
PRINT=('printf','fprintf','snprintf','sprintf','puts','llvm.dbg.value')
def usedload(fn,users,i,d=0,seen=None):
    seen=seen if seen is not None else set()
    for u_ in users.get(i.id,()):
        if u_.id in seen: continue
        seen.add(u_.id)
        if u_.op in('call','invoke') and cname(fn.mod,u_) in PRINT: continue
        if u_.op in('sext','zext','trunc','fpext','fptrunc','sitofp','uitofp','fptosi','fptoui','bitcast','freeze','select','phi') and d<8:
            if usedload(fn,users,u_,d+1,seen): return True
            continue
        return True
    return False
def onlyto(fn,users,i,fields,d=0):
    """a default that is computed from another default"""
    for x in users.get(i.id,()):
        if x.op=='store' and x.o[0]==i.id and target(fn,x.o[1]) in fields: continue
        if x.op in('store','call','invoke','br','switch','ret','icmp','fcmp','getelementptr') or d>4 or not onlyto(fn,users,x,fields,d+1): return False
    return True
def usersof(fn):
    r=getattr(fn,'_users27',None)
    if r is None:
        r=fn._users27={}
        for i in fn.allins():
            for o in i.o:
                if isinstance(o,int): r.setdefault(o,[]).append(i)
            if i.op=='getelementptr' or i.var:
                for a,_ in(i.var or []):
                    if isinstance(a,int): r.setdefault(a,[]).append(i)
            if i.fp is not None and isinstance(i.fp,int): r.setdefault(i.fp,[]).append(i)
    return r
def reach(fn,users,i,ok,seen=None):
    seen=seen if seen is not None else set()
    for x in users.get(i.id,()):
        if x.id in seen and x.op!='store': continue
        if ok(x): return True
        seen.add(x.id)
        if x.op not in('store','call','invoke','br','switch','ret') and reach(fn,users,x,ok,seen): return True
    return False
def parsers(m):
    by={}
    for f in m.repo_fns():
        if not any(issep(m,i) and len(i.o)>1 and cstr(i.o[1])=='=' for i in f.allins()): continue
        by.setdefault(f.file,[]).append(f)
    out=[]
    for k in sorted(by):
        l=by[k]; f=min(l,key=lambda f:sum(len(b) for b in f.blocks)); fl=Flow(f); ex=Round(f,fl)
        if ex.keys: out.append((f,fl,ex,l))
    return out
def last(f): return f.split('.')[-1].replace('[]','')
def conv(fn,v,d=0):
    """(conversion call, arithmetic on the way) a value comes from"""
    v=canonv(fn,v)
    if not isinstance(v,int) or v<fn.nargs or d>6: return None
    i=fn.ins[v]
    if i.op=='call': return (cname(fn.mod,i),i,None)
    if i.op in('add','sub','mul','sdiv','udiv','shl','lshr','ashr','fadd','fsub','fmul','fdiv','xor','and','or'):
        for o in i.o:
            r=conv(fn,o,d+1)
            if r: return (r[0],r[1],i)
    return None
def overlap(k,f):
    a=norm(k); b=norm(f)
    return sum(1 for w in a if w in b)
def run(ctx):
    npar=nkey=nset=0
    for grp in('core','bin_common'):
        m=ctx.module(grp); ref=referenced(m)
        ps=parsers(m); allfields={}; where={}
        for f,fl,ex,others in ps:
            name=f.src; npar+=1
            try: ex.run()
            except TooManyStates: ctx.notes.append('state bound in '+name); continue
            keys=sorted(k for k in ex.keys if k not in STOP)
            for (r,k),(i,msg) in sorted(ex.err.items()):
                ctx.bad(r,'%s %s'%(name,k),'%s: %s'%(name,msg),i.where())
            if not any(r=='refuse' for r,_ in ex.err): ctx.ok('refuse','%s refuses unknown names'%name)
            for k in keys:
                nkey+=1
                if not any(kk==k for _,kk in ex.err):
                    if k in ex.by: ctx.ok('sets','%s: %s sets %s'%(name,k,', '.join(sorted(last(x) for x in ex.by[k]))))
                    elif not [x for x in ex.by if x==k]: ctx.notes.append('%s: %s never goes on'%(name,k))
            # groups of synonyms share their stores
            grps=[]
            for k in keys:
                ids=frozenset(x for v in ex.by.get(k,{}).values() for x in v)
                g=next((g for g in grps if g[0]==ids and ids),None)
                if g: g[1].append(k)
                else: grps.append((ids,[k],set(ex.by.get(k,{}))))
            setters={}
            for g in grps:
                for fd in g[2]: setters.setdefault(fd,[]).append(g)
            badg=set()
            for g in grps:
                if not g[2]: continue
                own=[fd for fd in g[2] if len(setters[fd])==1 or any(fits(k,last(fd)) for k in g[1])]
                w=ex.where[(g[1][0],sorted(g[2])[0])]
                if not own:
                    badg.add(id(g)); ctx.bad('own','%s %s'%(name,g[1][0]),'%s: %s sets only %s, which other parameters set'%(name,g[1][0],', '.join(sorted(last(x) for x in g[2]))),w.where()); continue
                for h in grps:
                    if h is g or not h[2]: continue
                    for fd in sorted(g[2]-h[2]):
                        if any(fits(k,last(fd)) for k in h[1]) and not any(fits(k,last(fd)) for k in g[1]) and not any(fits(k,last(x)) for x in h[2] for k in h[1]):
                            badg.add(id(g)); ctx.bad('own','%s %s'%(name,g[1][0]),'%s: %s sets %s, which is the field of %s'%(name,g[1][0],last(fd),h[1][0]),ex.where[(g[1][0],fd)].where())
                    for k in g[1]:
                        for fd in sorted(h[2]-g[2]):
                            if fits(k,last(fd)) and not any(fits(k,last(x)) for x in g[2]):
                                badg.add(id(g)); ctx.bad('own','%s %s'%(name,k),'%s: %s sets %s instead of %s'%(name,k,', '.join(sorted(last(x) for x in g[2])),last(fd)),ex.where[(k,sorted(g[2])[0])].where())
                    a=[last(x) for x in g[2] if len(setters[x])==1]; b=[last(x) for x in h[2] if len(setters[x])==1]
                    if a and b:
                        o=lambda G,F:max(overlap(k,x) for k in G[1] for x in F)
                        if o(g,b)+o(h,a)>o(g,a)+o(h,b):
                            badg.add(id(g)); ctx.bad('own','%s %s'%(name,g[1][0]),'%s: %s and %s set each other\'s fields'%(name,g[1][0],h[1][0]),w.where())
                if id(g) not in badg: ctx.ok('own','%s: %s has its own field'%(name,g[1][0]))
            for k in keys:
                for fd,ids in sorted(ex.by.get(k,{}).items()):
                    allfields.setdefault(fd,(f,k)); where.setdefault(fd,ex.where[(k,fd)].where()); nset+=len(ids)
                    consts={}
                    for x in sorted(ids):
                        i=f.ins[x]
                        if i.op!='store': continue
                        c=conv(f,i.o[0])
                        if c is None: continue
                        if c[0] in INTS|{'strtod','atof','strtof'} :
                            ty=f.ins[i.o[0]].ty if isinstance(i.o[0],int) and i.o[0]>=f.nargs else ''
                            e=None
                            if ty in('double','float') and c[0] in INTS: e='a fraction is read with an integer conversion'
                            base=constval(c[1].o[2]) if len(c[1].o)>2 and not isinstance(c[1].o[2],int) else None
                            if c[0] in INTS and len(c[1].o)>2 and base not in(0,10): e='the number is not read as a decimal number'
                            if c[2] is not None and ''.join(norm(k))==''.join(norm(last(fd))): e='the number is changed before it is stored'
                            if c[1].o and not(isinstance(c[1].o[0],int) and c[1].o[0] in fl.val): e='the number does not come from the value'
                            if e: ctx.bad('exact','%s %s'%(name,k),'%s: %s: %s'%(name,k,e),i.where())
                            else: ctx.ok('exact','%s: %s is stored as given'%(name,k))
            # set-up
            fields=set().union(*[set(d) for d in ex.by.values()]) if ex.by else set()
            ns=0
            for g in m.repo_fns():
                if g is f or g.internal and g.name not in ref: continue
                starts={}; inpar=set()
                for i in g.allins():
                    ch=i.inlined_fns()
                    if f.src in ch or f.name in ch:
                        inpar.add(i.id)
                        if i.op=='call' and cname(m,i)=='strdup' and isinstance(i.o[0],(int,list)): starts[i.id]=i.o[0]
                    elif i.op=='call' and i.callee==f.name:
                        p=[a for a in range(f.nargs) if any(j.op=='call' and cname(m,j)=='strdup' and j.o[0]==a for j in f.allins())]
                        if p: starts[i.id]=i.o[p[0]]
                if not starts: continue
                def plain(o):
                    if not isinstance(o,int): return True
                    e=g.ex(o)
                    return o<g.nargs or e[0]=='arg' or e[0]=='ld' and (e[1][0]=='glob' or g.fieldinfo(e[1]) is not None)
                if not all(plain(o) for o in starts.values()):
                    ctx.notes.append('%s: which string is parsed is not determined'%g.src); ns+=1; continue
                us=usersof(g); inpar0=set(inpar); prints={i.id for i in g.allins() if i.op=='load' and not usedload(g,us,i)}; defset={}; defkeys={}
                for x,o in sorted(starts.items()):
                    defset[x]=set(); d=cstr(o)
                    if d is None and isinstance(o,int) and o>=g.nargs:
                        e=g.ex(o)
                        if e[0]=='ld' and e[1][0]=='glob': d=cstr((m.globals.get(e[1][1]) or {}).get('init'))
                    if d is None: continue
                    defkeys[x]={part.strip().partition('=')[0].lower() for part in d.split(',')}
                    low={k.lower() for k in ex.keys}
                    for part in d.split(','):
                        k,eq,v=part.strip().partition('=')
                        for kk in ex.by:
                            if kk.lower()==k.lower(): defset[x]|=set(ex.by[kk])
                        if not eq or k.lower() not in low: ctx.bad('default','%s %s'%(g.src,k),'%s: the default parameters "%s" contain "%s", which %s does not know'%(g.src,d[:60],part[:40],name),g.ins[x].where())
                        else: ctx.ok('default','%s: %s'%(g.src,k))
                arg=g.nargs-1
                cand={o for o in starts.values() if isinstance(o,int) and o<g.nargs}
                if len(cand)==1: arg=cand.pop()
                sx=Setup(g,arg,starts,fields,inpar); ns+=1
                # current_params and other printing do not count as use
                us=usersof(g); sx.inpar|={i.id for i in g.allins() if i.op=='load' and (not usedload(g,us,i) or onlyto(g,us,i,fields))}
                try: sx.run()
                except TooManyStates: ctx.notes.append('state bound in '+g.src); continue
                for (r,k),(i,msg) in sorted(sx.err.items()): ctx.bad('user','%s %s %s'%(g.src,r,k),'%s: %s'%(g.src,msg),i.where())
                un=Unset(g,fields,inpar0,defset,prints,defkeys,{k.lower() for k in ex.keys})
                try: un.run()
                except TooManyStates: ctx.notes.append('state bound in '+g.src); un=None
                if un is not None and any(defset.values()):
                    for fd,(i,msg) in sorted(un.lost.items()): ctx.bad('complete','%s %s'%(g.src,fd),'%s: %s'%(g.src,msg),i.where())
                    if not un.lost: ctx.ok('complete','%s: every parameter has its default'%g.src)
                if un is not None:
                    for fd,(i,msg) in sorted(un.nul.items()): ctx.bad('early','%s %s'%(g.src,fd),'%s: %s'%(g.src,msg),i.where())
                    if not un.nul: ctx.ok('early','%s uses nothing it has not set up while it parses'%g.src)
                if un is not None and un.allocs:
                    for fd,(i,msg) in sorted(un.err.items()): ctx.bad('unset','%s %s'%(g.src,fd),'%s: %s'%(g.src,msg),i.where())
                    if not un.err: ctx.ok('unset','%s reads no parameter before it has a value'%g.src)
                if not sx.err and sx.n: ctx.ok('user','%s parses what the user gave, after the defaults'%g.src)
            if not ns: ctx.notes.append('no set-up function found for '+name)
        # use
        used=set(); pn={f.src for f,_,_,_ in ps}
        for g in m.repo_fns():
            if g.src in pn or g.internal and g.name not in ref: continue
            us=None
            for i in g.allins():
                if set(i.inlined_fns())&pn: continue
                if i.op=='load':
                    fd=target(g,i.o[0])
                    if fd in allfields and fd not in used:
                        if us is None: us=usersof(g)
                        if usedload(g,us,i): used.add(fd)
                elif i.op in('call','invoke') and cname(m,i) not in PRINT:
                    for o in i.o:
                        if isinstance(o,int) and o>=g.nargs and g.ins[o].op=='getelementptr':
                            fd=target(g,o)
                            if fd in allfields: used.add(fd)
                            elif fd and fd+'[]' in allfields: used.add(fd+'[]')
        # a parameter that is copied on to a field of the same name in another structure
        for g in m.repo_fns():
            if g.src in pn or g.internal and g.name not in ref: continue
            for i in g.allins():
                if i.op!='store' or not isinstance(i.o[0],int): continue
                v=i.o[0]
                while isinstance(v,int) and v>=g.nargs and g.ins[v].op in('sext','zext','trunc','fpext','fptrunc','sitofp','uitofp','fptosi','fptoui','bitcast','freeze'): v=g.ins[v].o[0]
                if not isinstance(v,int) or v<g.nargs or g.ins[v].op!='load': continue
                x=target(g,g.ins[v].o[0])
                if x not in allfields or '.' not in x: continue
                y=target(g,i.o[1])
                if not y or '.' not in y or y.rpartition('.')[0]==x.rpartition('.')[0]: continue
                same=x.rpartition('.')[0]+'.'+y.rpartition('.')[2]
                if same not in allfields: continue
                if same==x: ctx.ok('handed','%s: %s'%(g.src,last(x)))
                else: ctx.bad('handed','%s %s'%(g.src,last(y)),'%s: %s is set from the parameter %s, not from %s'%(g.src,last(y),last(x),last(same)),i.where())
        for f,fl,ex,others in ps:
            # parameters other parameters are computed from while parsing
            us=usersof(f)
            for i in f.allins():
                if i.op=='load' and target(f,i.o[0]) in allfields and reach(f,us,i,lambda x:x.op=='store' and target(f,x.o[1]) in allfields and target(f,x.o[1])!=target(f,i.o[0])):
                    used.add(target(f,i.o[0]))
        if grp=='core':
            for fd,(f,k) in sorted(allfields.items()):
                if fd in used: ctx.ok('used','%s: %s'%(f.src,last(fd)))
                else: ctx.bad('used','%s %s'%(f.src,last(fd)),'%s: %s is stored in %s, which nothing but printing reads'%(f.src,k,last(fd)),where[fd])
    ctx.floor('parsers',npar,25); ctx.floor('parameter names',nkey,70); ctx.floor('stores of parameters',nset,70)
