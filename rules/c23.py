"""Progress of loops.  For every loop of every reachable function, each way round the loop is
followed (branch decisions on it consistent with each other).  A round is stuck if nothing it
decides by can be different the next time: the branch conditions on the round depend only on
values from outside the loop, on loop variables that the round leaves as they are (or sets from
such values), on memory that nothing on the round writes, and on calls without effect.  A stuck
round, once taken, is taken for ever.  A loop is also reported if nothing anywhere in it changes
what any of the ways out of it is decided by."""
from lcs.engine import *
LEVEL='other'
EXPLAIN=__doc__
ASSUME=['a loop that sleeps waits for another thread to change memory','fields of different structures or at different offsets do not overlap','a call to code outside the repository other than known pure functions may change any memory']
PURE={'strlen','strcmp','strcasecmp','strncmp','strncasecmp','strchr','strstr','memcmp','abs','log','log2','pow','sqrt','exp','floor','ceil','round','fabs','__ctype_b_loc','isdigit','isalpha','ispunct','tolower','toupper','__ctype_tolower_loc','__ctype_toupper_loc','__errno_location','feof','ferror'}
LOGS={'printf','fprintf','puts','putchar','fflush','fputs','fputc','fwrite','putc','gettimeofday','localtime','localtime_r','strftime','strrchr','pthread_self','pthread_mutex_lock','pthread_mutex_unlock','time','clock_gettime','usleep','sleep'}
WAITS={'sleep','usleep','nanosleep','sched_yield','pthread_cond_wait','pthread_join','poll','select'}
MATH={'abs','log','log2','pow','sqrt','exp','floor','ceil','round','fabs'}
PURESLOT={'get_occupied_byte','get_n_obj','can_insert'}
class Effects:
    def __init__(s,m): s.m=m; s.memo={}
    def pure(s,fn,i):
        c=i.callee
        if c:
            n=s.m.srcname(c)
            if n.startswith('llvm.') and not n.startswith(('llvm.mem','llvm.va')) : return True
            if n in PURE or n in LOGS: return True
            f=s.m.fns.get(c)
            return f is not None and s.fpure(f)
        sl=fn.slotof(i)
        return bool(sl) and sl.split('.')[-1] in PURESLOT
    def stored(s,f):
        """the constants stored in a field, or None if other values are stored"""
        if not hasattr(s,'st'):
            s.st={}
            for g in s.m.repo_fns():
                for i in g.live():
                    if i.op=='store' and g.fld(i): s.st.setdefault(g.fld(i),set()).add(None if isinstance(i.o[0],int) else str(constval(i.o[0])))
        r=s.st.get(f,set())
        return None if None in r else r
    def fpure(s,f):
        if f.name in s.memo: return s.memo[f.name]
        s.memo[f.name]=False     # recursion: not known to be pure
        r=True
        for i in f.live():
            if i.op=='store':
                v=i.o[1]
                while isinstance(v,int) and v>=f.nargs and f.ins[v].op=='getelementptr': v=f.ins[v].o[0]
                if not(isinstance(v,int) and v>=f.nargs and f.ins[v].op=='alloca'): r=False; break
            elif i.op in('atomicrmw','cmpxchg','fence'): r=False; break
            elif i.op in('call','invoke') and not s.pure(f,i): r=False; break
        s.memo[f.name]=r
        return r
class Round:
    """search the ways round one loop"""
    LIMIT=40000
    def __init__(s,fn,eff,h,body): s.fn=fn; s.eff=eff; s.h=h; s.body=body; s.n=0; s.bad=None; s.over=False
    def run(s):
        fn=s.fn
        pre,dec=s.before()
        st=[(s.h,(s.h,),s.pass_(s.h,pre),dec)]       # block, path, values of phis and loads, decisions
        while st and s.bad is None:
            b,path,pm,dec=st.pop()
            s.n+=1
            if s.n>s.LIMIT: s.over=True; return
            t=fn.blocks[b][-1]; full=t.j.get('succ') or []
            if any(i is fn.exitcall[b] for i in fn.blocks[b]): continue
            opts=[]
            if t.op=='br' and len(full)==2 and full[0]!=full[1]:
                k=s.key(t.o[0],pm)
                for tgt,tr in((full[0],True),(full[1],False)):
                    if k in dec and dec[k]!=tr: continue
                    opts.append((tgt,{**dec,k:tr}))
            else: opts=[(x,dec) for x in dict.fromkeys(full)]
            for tgt,d in opts:
                if tgt not in s.body or tgt not in fn.succ[b]: continue
                m2=dict(pm)
                new={}
                for i in fn.blocks[tgt]:
                    if i.op!='phi': break
                    for v,src in zip(i.o,i.j['in']):
                        if src==b: new[i.id]=m2.get(v,v) if isinstance(v,int) else tuple(v)
                if tgt==s.h:
                    if s.stuck(path,pm,new,d): s.bad=(path,t); return
                    continue
                if tgt in path: continue
                m2.update(new); m2=s.pass_(tgt,m2)
                # decisions on loop variables of an inner loop do not carry over
                st.append((tgt,path+(tgt,),m2,d))
    def frozen(s):
        """nothing in the loop changes anything that any way out of it is decided by"""
        fn=s.fn; conds=[]
        for b in s.body:
            t=fn.blocks[b][-1]
            if t.op in('br','switch') and any(x not in s.body for x in(t.j.get('succ') or [])) and len(set(t.j['succ']))>1: conds.append((t,t.o[0]))
            elif t.op in('ret','unreachable'): return None
        if not conds: return None
        stores=[]; calls=False; waits=False
        for b in s.body:
            waits=waits or any(fn.mod.srcname(i.callee or '') in WAITS for i in fn.blocks[b] if i.op in('call','invoke'))
            for i in fn.blocks[b]:
                if i.op=='store': stores.append(s.mem(i))
                elif i.op in('atomicrmw','cmpxchg') or i.op in('call','invoke') and not s.eff.pure(fn,i): calls=True
        seen=set(); work=[v for _,v in conds if isinstance(v,int)]
        while work:
            v=work.pop()
            if not isinstance(v,int) or v<fn.nargs or v in seen: continue
            seen.add(v); i=fn.ins[v]
            if i.bb not in s.body: continue
            if i.op=='phi':
                if i.bb==s.h:
                    if any(src in s.body and w!=v for w,src in zip(i.o,i.j['in'])): return None
                    continue
                # which arm is taken is decided by branches in the loop
                return None
            if i.op=='load' and ((calls or waits) and not s.local(i) or any(s.alias(s.mem(i),x) for x in stores)): return None
            if i.op in('call','invoke') and not(s.eff.pure(fn,i) and (fn.mod.srcname(i.callee or '') in MATH or not(calls or stores))): return None
            work+=[o for o in i.o if isinstance(o,int)]+[a for a,_ in(i.j.get('var') or []) if isinstance(a,int)]
        return conds[0][0]
    def before(s):
        """what was decided on every way to the loop"""
        fn=s.fn; dom=[d for d in sorted(fn.reachable()) if d!=s.h and d not in s.body and d in fn.dom().get(s.h,())]
        pm={}; dec={}
        for d in dom: pm=s.pass_(d,pm); pm[()]=0
        for d in dom:
            t=fn.blocks[d][-1]; full=t.j.get('succ') or []
            if t.op!='br' or len(full)!=2 or full[0]==full[1]: continue
            for tgt,tr in((full[0],True),(full[1],False)):
                if fn.pred[tgt]==[d] and (tgt==s.h or tgt in fn.dom().get(s.h,())) or tgt==s.h and [p for p in fn.pred[tgt] if p not in s.body]==[d]: dec[s.key(t.o[0],pm)]=tr
        return pm,dec
    def pass_(s,b,pm):
        """note what each load of the block reads: address and number of writes before it on the path (kept under (load,))"""
        fn=s.fn; pm=dict(pm); n=pm.get((),0)
        for i in fn.blocks[b]:
            if i.op=='load': pm[(i.id,)]=('ld',s.addr(i.o[0],pm),i.sz,n)
            elif i.op in('store','atomicrmw','cmpxchg') or i.op in('call','invoke') and not s.eff.pure(fn,i): n+=1
        pm[()]=n
        return pm
    def addr(s,p,pm,d=0):
        fn=s.fn; off=0; var=()
        while True:
            p=pm.get(p,p) if isinstance(p,int) else tuple(map(str,p))
            if isinstance(p,int) and p>=fn.nargs and fn.ins[p].op=='getelementptr':
                g=fn.ins[p]; off+=g.off or 0; var+=tuple((str(a),sc) for a,sc in (g.var or [])); p=g.o[0]
            else: break
        if isinstance(p,int) and (p,) in pm: p=pm[(p,)]
        return (p,off,var)
    def key(s,v,pm,d=0):
        v=pm.get(v,v) if isinstance(v,int) else v
        if not isinstance(v,int): return ('c',)+tuple(map(str,v))
        if v<s.fn.nargs: return v
        i=s.fn.ins[v]
        if i.op=='icmp' and d<4: return (i.op,i.pred)+tuple(s.key(o,pm,d+1) for o in i.o)
        if i.op in('trunc','zext','sext') and d<4: return s.key(i.o[0],pm,d+1)
        if i.op=='load': return pm[(v,)]+(s.fn.fld(i),) if (v,) in pm else v
        return v
    def infeasible(s,dec):
        """a field is different from every value that is ever stored in it"""
        ex={}
        for k,tr in dec.items():
            if isinstance(k,tuple) and k[0]=='icmp' and k[1] in('eq','ne') and (k[1]=='eq')!=tr and isinstance(k[2],tuple) and k[2][0]=='ld' and isinstance(k[3],tuple) and k[3][0]=='c':
                if k[2][-1]: ex.setdefault((k[2],k[2][-1]),set()).add(k[3][2] if len(k[3])>2 else '0')
        for (v,f),c in ex.items():
            st=s.eff.stored(f)
            if st and st<=c: return True
        return False
    def stuck(s,path,pm,new,dec):
        fn=s.fn
        if s.infeasible(dec): return False
        stores=set(); calls=False
        for b in path:
            calls=calls or any(fn.mod.srcname(i.callee or '') in WAITS for i in fn.blocks[b] if i.op in('call','invoke'))
            for i in fn.blocks[b]:
                if i.op=='store': stores.add(s.mem(i))
                elif i.op in('atomicrmw','cmpxchg'): calls=True
                elif i.op in('call','invoke') and not s.eff.pure(fn,i): calls=True
        conds=[]
        for b in path:
            t=fn.blocks[b][-1]
            if t.op in('br','switch') and len(set(t.j.get('succ') or []))>1: conds.append(t.o[0])
        seen={}; work=[pm.get(v,v) for v in conds if isinstance(v,int)]
        hphis=[i.id for i in fn.blocks[s.h] if i.op=='phi']
        while work:
            v=work.pop()
            if not isinstance(v,int) or v<fn.nargs or v in seen: continue
            seen[v]=1; i=fn.ins[v]
            if i.bb not in s.body: continue
            if i.op=='phi':
                if v in hphis:
                    w=new.get(v)
                    if w==v: continue
                    if not isinstance(w,int): continue          # set to a constant
                    work.append(w)
                    # a value that depends on the variable itself changes it
                    if s.depends(w,v,pm,set()): return False
                    continue
                w=pm.get(v)
                if w is None or w==v: return False
                work.append(w); continue
            if i.op=='load':
                mm=s.mem(i)
                if calls and not s.local(i) or any(s.alias(mm,x) for x in stores): return False
            elif i.op in('call','invoke'):
                if not s.eff.pure(fn,i): return False
                n=fn.mod.srcname(i.callee or '')
                # its result may depend on any memory
                if n not in MATH and not n.startswith('llvm.') and (calls or stores): return False
            for o in i.o:
                if isinstance(o,int): work.append(pm.get(o,o))
            for a,_ in(i.j.get('var') or []):
                if isinstance(a,int): work.append(pm.get(a,a))
        return True
    def depends(s,w,p,pm,seen):
        fn=s.fn
        st=[w]
        while st:
            v=st.pop()
            if v==p: return True
            if not isinstance(v,int) or v<fn.nargs or v in seen: continue
            seen.add(v); i=fn.ins[v]
            if i.bb not in s.body: continue
            if i.op=='phi':
                if i.bb==s.h: return True          # another loop variable: taken as changing
                st.append(pm.get(v)); continue
            st+=[pm.get(o,o) for o in i.o if isinstance(o,int)]
            st+=[pm.get(a,a) for a,_ in(i.j.get('var') or []) if isinstance(a,int)]
        return False
    def base(s,v):
        fn=s.fn
        while isinstance(v,int) and v>=fn.nargs and fn.ins[v].op in('getelementptr','bitcast'): v=fn.ins[v].o[0]
        return v
    def local(s,i):
        v=s.base(i.o[0] if i.op=='load' else i.o[1]); fn=s.fn
        return isinstance(v,int) and v>=fn.nargs and fn.ins[v].op=='alloca' and not any(j.op in('call','invoke') and v in j.o or j.op=='store' and j.o[0]==v for j in fn.live())
    def mem(s,i):
        p=i.o[0] if i.op=='load' else i.o[1]
        v=s.base(p); fn=s.fn
        if isinstance(v,int) and v>=fn.nargs and fn.ins[v].op=='alloca': return ('a',v)
        if not isinstance(v,int): return ('g',str(v))
        return ('f',fn.fld(i)) if fn.fld(i) else ('?',i.sz)
    def alias(s,a,b):
        if a[0]!=b[0]: return '?' in(a[0],b[0]) and not 'f' in(a[0],b[0])
        if a[0]=='?': return True
        return a==b
GROUPS=('core','bin_common','bin_cachesim','bin_traceUtils','bin_traceAnalyzer')
def run(ctx):
    from rules.c10 import referenced
    nl=0; nf=0; ng=0
    for grp in GROUPS:
        m=ctx.module(grp)
        ng+=1; ref=referenced(m); eff=Effects(m); over=0
        for f in m.repo_fns():
            if f.internal and f.name not in ref: continue
            lp=f.loops()
            if not lp: continue
            nf+=1
            for h,body in lp.items():
                r=Round(f,eff,h,body); r.run(); nl+=1
                w=f.blocks[h][-1].where()
                fz=None if r.bad else r.frozen()
                if fz is not None: ctx.bad('progress','%s %s'%(f.src,w.split(' (')[0].split(':')[0]),'%s: nothing in the loop changes what any way out of it is decided by'%f.src,fz.where())
                elif r.bad: ctx.bad('progress','%s %s'%(f.src,w.split(' (')[0].split(':')[0]),'%s: the loop can go round without changing anything it decides by'%f.src,w)
                elif r.over: ctx.count('loops too large to follow')
                else: ctx.ok('progress','%s: loop at %s'%(f.src,w))
    ctx.count('functions with loops',nf); ctx.count('loops',nl); ctx.floor('loops',nl,400)
