"""Text traces.  The functions the csv parser calls back (found as the callback
operands of csv_parse) and the csv/plain-text readers are explored path by path:
 column   a request field is written exactly on the paths where the current
          column is the one configured for it, with the whole column as number or
          as a hash of all its bytes; a count column yields count - 1 repetitions;
          the column number grows by one per column and restarts at one per row;
 setup    each column number comes from the parameter of that column; the parser is
          initialised and gets the configured or detected delimiter, at set-up and
          again at every rewind; the header line is consumed exactly when there is
          one, at set-up and at every rewind;
 line     each read takes one line, hands all of it to the parser with the reader and
          the request, finishes the row, and ends exactly when no line is left; a
          request is passed over only if its size is zero, such requests are ignored;
 text     plain-text traces: only empty lines are passed over, only a line end is cut
          off, and the id is the number or name of the whole line;
 size     when object sizes are ignored every delivered request gets size one;
 repeat   while repetitions are left a read delivers the same request again with the
          time kept for it, reads nothing and lowers the number left by one; only
          when none is left is a new record read."""
from rules.c14 import fname
from rules.c10 import referenced
from lcs.engine import *
from lcs.lin import *
from lcs.bits import *
LEVEL='other'
EXPLAIN=__doc__
ASSUME=['the bundled csv parser calls back once per column and once per row','getline and the number conversion functions behave as documented']
COL={'obj_id':'obj_id','time':'clock_time','obj_size':'obj_size','cnt':None}
NUM={'strtoull','strtoll','strtoul','strtol','strtoumax','strtoimax','atof','strtod','atol','atoll','__isoc23_strtoull','__isoc23_strtoll','__isoc23_strtoul','__isoc23_strtol','__isoc99_strtoull'}
def strip(e):
    while e[0] in('zext','sext','trunc','fptoui','fptosi','bitcast','cast'): e=e[2] if len(e)>2 else e[1]
    return e
def src(fn,v):
    while isinstance(v,int) and v>=fn.nargs and fn.ins[v].op in('zext','sext','trunc','fptoui','fptosi','bitcast','freeze','fpext','fptrunc'): v=fn.ins[v].o[0]
    return v
def fld(fn,i): return (fn.fld(i) or '').split('.',1)[-1] if i.op in('load','store') else ''
class Cell(Explorer):
    """state: ('is'|'not', column) | ('num',b) | ('put',field) | ('inc',) | ('rep',)"""
    split=True; max_states=100000
    def __init__(s,fn): super().__init__(fn); s.err={}; s.exits=0; s.puts=set(); s.rep=0
    def init(s): return frozenset()
    def onedge(s,t,truth,P):
        fn=s.fn
        for i,tr in s.atoms(t.o[0],truth,P):
            if i.op!='icmp' or i.pred not in('eq','ne'): continue
            a=fname(fn,fn.ex(i.o[0])) or ''; b=fname(fn,fn.ex(i.o[1])) or ''
            for x,y in((a,b),(b,a)):
                if x.endswith('.curr_field_idx') and y.endswith('_field_idx'):
                    P.st|={('is' if (i.pred=='eq')==tr else 'not',y.split('.')[-1][:-len('_field_idx')])}
        v=t.o[0]; s.num(v,truth,P)
        for i,tr in s.atoms(t.o[0],truth,P):
            if i.op=='icmp' and i.pred in('eq','ne') and s.val(i.o[1],P)==0: s.num(i.o[0],tr if i.pred=='ne' else not tr,P)
        return P
    def num(s,v,truth,P):
        v=src(s.fn,v)
        if isinstance(v,int) and v>=s.fn.nargs and s.fn.ins[v].op=='load' and (s.fn.fld(s.fn.ins[v]) or '').endswith('.obj_id_is_num'): P.st|={('num',int(truth))}
    def transfer(s,i,P):
        fn=s.fn
        if i.op!='store': return None
        f=fn.fld(i) or ''; st,_,f=f.partition('.')
        if st.startswith('request'):
            cols=[c for c,r in COL.items() if r==f]
            if not cols: s.err.setdefault(('column',f),(i,'column data is written to request field %s'%f)); return None
            c=cols[0]; s.puts.add(f)
            if ('is',c) not in P.st: s.err.setdefault(('column',f),(i,'%s is written although the current column is not known to be the %s column'%(f,c)))
            v=src(fn,i.o[0]); ok=False
            if isinstance(v,int) and v>=fn.nargs and fn.ins[v].op=='call':
                ci=fn.ins[v]; n=fn.mod.srcname(ci.callee or '') if ci.callee else ''
                if n in NUM or fn.mod.fns.get(ci.callee) is None and n.startswith(('strto','ato','__isoc')):
                    ok=ci.o[0]==0
                    base=constval(ci.o[2]) if len(ci.o)>2 and not isinstance(ci.o[2],int) else None
                    if len(ci.o)>2 and n!='strtod' and base not in(0,10): ok=False
                    if f=='obj_id' and ('num',1) not in P.st: s.err.setdefault(('id','num'),(i,'the id column is read as a number although ids are not known to be numeric'))
                elif f=='obj_id':
                    ok=0 in ci.o and any(src(fn,o)==1 for o in ci.o if isinstance(o,int))
                    if ('num',0) not in P.st: s.err.setdefault(('id','hash'),(i,'the id column is hashed although ids may be numeric'))
            if not ok: s.err.setdefault(('value',f),(i,'%s is not the whole column (%s)'%(f,fn.pp(fn.ex(i.o[0])))))
            P.st|={('put',f)}
        elif f=='n_req_left':
            s.rep+=1
            if ('is','cnt') not in P.st: s.err.setdefault(('column','cnt'),(i,'the repetition count is set although the current column is not the count column'))
            t,c=lin(fn.ex(i.o[0])); x=list(t)[0] if len(t)==1 else ('?',)
            if not(len(t)==1 and t[x]==1 and c==-1 and x[0]=='call' and fn.ins[x[1]].o[0]==0): s.err.setdefault(('value','cnt'),(i,'the number of repetitions left is not the count column minus one'))
            P.st|={('rep',)}
        elif f=='curr_field_idx':
            t,c=lsub(lin(fn.ex(i.o[0])),lin(('ld',fn.ex(i.o[1]),i.sz)))
            if t or c!=1 or ('inc',) in P.st: s.err.setdefault(('count','col'),(i,'the column number does not grow by one per column'))
            P.st|={('inc',)}
        return None
    def onexit(s,i,P):
        s.exits+=1; st=P.st
        isn=[x[1] for x in st if x[0]=='is']; put={x[1] for x in st if x[0]=='put'}
        if ('inc',) not in st: s.err.setdefault(('count','col'),(i,'on a path the column number does not grow'))
        for c in isn:
            if COL.get(c) and COL[c] not in put: s.err.setdefault(('missed',c),(i,'on a path the %s column is not stored'%c))
            if c=='cnt' and ('rep',) not in st: s.err.setdefault(('missed',c),(i,'on a path the count column is not stored'))
        if not isn:
            miss=[c for c in COL if ('not',c) not in st]
            if miss: s.err.setdefault(('missed',miss[0]),(i,'a column is passed over without comparing it with the %s column'%miss[0]))
class Row(Explorer):
    def __init__(s,fn): super().__init__(fn); s.bad=None; s.n=0
    def init(s): return 0
    def transfer(s,i,P):
        if i.op=='store' and fld(s.fn,i)=='curr_field_idx': P.st=1 if s.val(i.o[0],P)==1 else 2
        return None
    def onexit(s,i,P):
        s.n+=1
        if P.st!=1: s.bad=i
def lineptr(fn,v):
    """does operand v point to the start of reader.line_buf"""
    e=fn.ex(v)
    if e[0]=='ld':
        f=fn.fieldinfo(e[1])
        return bool(f) and f[1]=='line_buf'
    return False
def isread(fn,i):
    """getline on the reader's own file into its line buffer"""
    if i.op not in('call','invoke') or fn.mod.srcname(i.callee or '') not in('getline','getdelim','__getdelim'): return False
    return (fname(fn,fn.ex(i.o[-1])) or '').endswith('reader.file')
class Line(Explorer):
    """each getline has the outcomes end, one character, more, many more; state: ('got',id) last getline | ('eof',) | ('some',) | ('parsed',) | ('fini',) | ('req',) | ('zero',) | ('ign',)"""
    split=True; max_states=100000
    def __init__(s,fn,names): super().__init__(fn); s.names=names; s.err={}; s.exits=0; s.reads=0; s.skips=0; s.parses=[]
    def init(s): return frozenset()
    def keepids(s,st): return [x[1] for x in st if x[0]=='got']
    def E(s,k,i,m): s.err.setdefault(k,(i,m))
    def onedge(s,t,truth,P):
        fn=s.fn
        for i,tr in s.atoms(t.o[0],truth,P):
            if i.op!='icmp': continue
            v=src(fn,s.canon(i.o[0],P)); c=s.val(i.o[1],P)
            if c==0 and i.pred in('eq','ne') and isinstance(v,int) and v>=fn.nargs and fn.ins[v].op=='load':
                f=fld(fn,fn.ins[v]); z=(i.pred=='eq')==tr
                if f=='obj_size' and z: P.st|={('zero',)}
                s.flag(v,not z,P)
            if c==10 and i.pred in('eq','ne') and (i.pred=='eq')==tr and isinstance(v,int) and v>=fn.nargs and fn.ins[v].op=='load' and fn.ins[v].sz==1:
                e=fn.ex(fn.ins[v].o[0])
                b=e[1] if e[0]=='adr' else e
                if b[0]=='ld' and (fn.fieldinfo(b[1]) or ('',''))[1]=='line_buf':
                    var=e[3] if e[0]=='adr' else (); off=e[2] if e[0]=='adr' else 0
                    P.st|={('nl',var,off)}
        s.flag(src(fn,t.o[0]),truth,P)
        return P
    def flag(s,v,truth,P):
        fn=s.fn
        if isinstance(v,int) and v>=fn.nargs and fn.ins[v].op=='load':
            f=fld(fn,fn.ins[v])
            if f=='ignore_size_zero_req' and truth: P.st|={('ign',)}
            if f=='obj_id_is_num': P.st|={('num',int(truth))}
    def cases(s,v,truth,P,d=0): return super().cases(v,truth,P,d)
    def transfer(s,i,P):
        fn=s.fn
        if i.op in('call','invoke') and isread(fn,i):
            s.reads+=1
            if any(x[0]=='got' for x in P.st) and ('eof',) not in P.st: s.again(i,P)
            if not(fn.fieldinfo(fn.ex(i.o[0])) or ('',''))[1]=='line_buf': s.E('buf',i,'the line is not read into the line buffer')
            out=[]
            for v,k in((-1,'eof'),(1,'one'),(2,'some'),(1<<20,'some')):
                Q=Path(frozenset(x for x in P.st if x[0]=='req')|{('got',i.id),(k,)}|({('some',)} if v>0 else set()),dict(P.env),dict(P.alias),dict(P.avail))
                Q.env[i.id]=v; out.append(Q)
            return out
        return s.step(i,P)
class Csv(Line):
    def onedge(s,t,truth,P):
        b=leftof(s,t,truth,P)
        if b is not None: P.st|={('left',b)}
        return super().onedge(t,truth,P)
    def again(s,i,P):
        s.E('twice',i,'a second line is read for one request')
    def step(s,i,P):
        fn=s.fn; m=fn.mod
        if i.op=='store':
            f=fld(fn,i)
            if f=='request' and (fn.fld(i) or '').startswith('csv_params'):
                P.st=frozenset(x for x in P.st if x!=('req',))|({('req',)} if fn.ex(i.o[0])==('arg',1) else set())
            elif f=='last_req_clock_time':
                if not (fname(fn,fn.ex(i.o[0])) or '').endswith('.clock_time'): s.E('repeat',i,'the time of repeated requests is not the time of this request')
                P.st|={('time',)}
            return None
        if i.op not in('call','invoke') or not i.callee: return None
        c=m.srcname(i.callee)
        if c=='csv_parse':
            s.parses.append(i)
            if ('parsed',) in P.st: s.E('parse',i,'a line is parsed twice')
            if ('some',) not in P.st: s.E('eofparse',i,'a line is parsed although none may have been read')
            if not lineptr(fn,i.o[1]) and not(fn.ex(i.o[1])[0]=='ld' and fn.fieldinfo(fn.ex(i.o[1])[1]) is None): s.E('whole',i,'the text parsed is not the line from its start (%s)'%fn.pp(fn.ex(i.o[1])))
            n=src(fn,s.canon(i.o[2],P))
            if ('got',n) not in P.st: s.E('whole',i,'the text parsed is not the whole line')
            if fn.ex(i.o[5])!=('arg',0): s.E('reader',i,'the parser does not hand the reader to the callbacks')
            if ('req',) not in P.st: s.E('request',i,'the line is parsed before the request to fill is set')
            P.st=frozenset(x for x in P.st if x[0]!='left')|{('parsed',)}
        elif c=='csv_fini':
            if ('parsed',) not in P.st: s.E('fini',i,'the row is finished before the line is parsed')
            P.st|={('fini',)}
        elif i.callee in s.names:
            s.skips+=1
            if ('fini',) not in P.st or ('zero',) not in P.st or ('ign',) not in P.st: s.E('skip',i,'a request is passed over although it is not an ignored zero-size request')
        return None
    def onexit(s,i,P):
        s.exits+=1; v=s.val(i.o[0],P); st=P.st
        if v==0:
            if ('parsed',) not in st: s.E('noparse',i,'a request is delivered without parsing a line')
            elif ('fini',) not in st: s.E('fini',i,'a request is delivered although the row was not finished (its last column is lost)')
            if ('time',) not in st and ('left',0) not in st: s.E('repeat',i,'the time of a request that is to be repeated is not kept')
        elif v is not None and ('eof',) not in st: s.E('end',i,'the end of the trace is reported although a line was read')
class Txt(Line):
    def again(s,i,P):
        empty=('one',) in P.st and any(x[0]=='nl' and x[2]==0 and not x[1] for x in P.st)
        if not empty: s.E('skip',i,'a line is passed over that is not known to be empty')
        s.skips+=1
    def step(s,i,P):
        fn=s.fn; m=fn.mod
        if i.op=='store':
            f=fld(fn,i); F=fn.fld(i) or ''
            if F.startswith('request') and f=='obj_id':
                v=src(fn,i.o[0]); ok=False
                if isinstance(v,int) and v>=fn.nargs and fn.ins[v].op=='call':
                    ci=fn.ins[v]; n=m.srcname(ci.callee or '')
                    ok=any(lineptr(fn,o) for o in ci.o)
                    isnum=n.startswith(('strto','ato','__isoc'))
                    if isnum!=(('num',1) in P.st): s.E('id',i,'the line is read as a %s although ids are %snumeric'%('number' if isnum else 'name','not ' if isnum else ''))
                    if isnum and len(ci.o)>2 and (isinstance(ci.o[2],int) or constval(ci.o[2]) not in(0,10)): ok=False
                if not ok: s.E('value',i,'the id is not the whole line')
                if ('some',) not in P.st: s.E('eof',i,'an id is taken although no line may have been read')
                P.st|={('put',)}
            elif F.startswith('request') and f not in('valid',): s.E('field',i,'field %s is written although a plain-text line only holds an id'%f)
            elif i.sz==1 and not F:
                e=fn.ex(i.o[1]); b=e[1] if e[0]=='adr' else e
                if b[0]=='ld' and (fn.fieldinfo(b[1]) or ('',''))[1]=='line_buf':
                    if ('nl',e[3] if e[0]=='adr' else (),e[2] if e[0]=='adr' else 0) not in P.st: s.E('cut',i,'a character is cut off the line that is not known to be its line end')
        return None
    def onexit(s,i,P):
        s.exits+=1; v=s.val(i.o[0],P); st=P.st
        if v==0:
            if ('put',) not in st: s.E('noid',i,'a request is delivered without an id')
        elif v is not None and ('eof',) not in st: s.E('end',i,'the end of the trace is reported although a line was read')
class Init(Explorer):
    """set-up and rewind: parser initialisation, delimiter and header line"""
    split=True; max_states=100000
    def __init__(s,fn,reset): super().__init__(fn); s.reset=reset; s.err={}; s.exits=0
    def init(s): return frozenset()
    def E(s,k,i,m): s.err.setdefault(k,(i,m))
    def onedge(s,t,truth,P):
        fn=s.fn
        P.st=s.facts(t.o[0],truth,P); return P
    def root(s,v,P):
        for _ in range(20):
            w=src(s.fn,s.canon(v,P)) if isinstance(v,int) else v
            j=s.fn.ins.get(w) if isinstance(w,int) and w>=s.fn.nargs else None
            if j is not None and j.op=='icmp' and j.pred=='ne' and constval(j.o[1])==0 and not isinstance(j.o[1],int): w=j.o[0]
            if w==v: break
            v=w
        return v
    def keepids(s,st): return [x[1] for x in st if x[0]=='hv']
    def facts(s,c,truth,P):
        fn=s.fn; st=P.st
        L=[(s.root(c,P),truth)]
        for i,tr in s.atoms(c,truth,P):
            if i.op=='icmp' and i.pred in('eq','ne') and s.val(i.o[1],P)==0: L.append((s.root(i.o[0],P),tr if i.pred=='ne' else not tr))
        for v,tr in L:
            if ('hv',v) in st: st=frozenset(x for x in st if x[0]!='hdr')|{('hdr',int(tr))}
            if isinstance(v,int) and v>=fn.nargs and fn.ins[v].op=='load':
                F=fn.fld(fn.ins[v]) or ''; f=F.split('.')[-1]
                own=F.startswith('csv_params')
                if f=='has_header':
                    k='hdr' if own else 'ihdr'
                    st=frozenset(x for x in st if x[0]!=k)|{(k,int(tr))}
                if f=='has_header_set': st|={('hset',int(tr))}
                if f=='delimiter': st|={('dl' if own else 'idl',int(tr))}
        return st
    def arms(s,v,P,d=0):
        """(value, facts) for each way v is chosen"""
        fn=s.fn; v=s.root(v,P)
        i=fn.ins.get(v) if isinstance(v,int) and v>=fn.nargs else None
        if i is not None and i.op=='select' and d<4:
            for k,tr in((1,True),(2,False)):
                Q=Path(s.facts(i.o[0],tr,P),P.env,P.alias,P.avail)
                yield from s.arms(i.o[k],Q,d+1)
        else: yield v,P.st
    def transfer(s,i,P):
        fn=s.fn; m=fn.mod
        if i.op=='store':
            F=fn.fld(i) or ''; st,_,f=F.partition('.')
            if st.startswith('csv_params'):
                n=fname(fn,fn.ex(i.o[0])) or ''
                if f.endswith('_field_idx') and f!='curr_field_idx':
                    if not n.endswith('.'+f[:-4]) : s.E(f,i,'%s is set from %s'%(f,n or fn.pp(fn.ex(i.o[0]))))
                    P.st|={('col',f)}
                elif f=='delimiter':
                    for v,st in s.arms(i.o[0],P):
                        n=fname(fn,fn.ex(v)) or '' if isinstance(v,int) else ''
                        if n:
                            if not n.endswith('.delimiter'): s.E(f,i,'the delimiter is set from %s'%n)
                            elif ('idl',1) not in st: s.E(f,i,'the configured delimiter is used although none may be configured')
                        elif ('idl',0) not in st: s.E(f,i,'a detected delimiter is used although one may be configured')
                    P.st|={('dset',)}
                elif f=='has_header':
                    for v,st in s.arms(i.o[0],P):
                        n=fname(fn,fn.ex(v)) or '' if isinstance(v,int) else ''
                        if n:
                            if not n.endswith('.has_header'): s.E(f,i,'has_header is set from %s'%n)
                            elif ('hset',1) not in st: s.E(f,i,'the configured header choice is used although none was made')
                        elif ('hset',0) not in st: s.E(f,i,'a detected header choice is used although one was configured')
                    P.st=frozenset(y for y in P.st if y[0]!='hv')|{('hv',r) for r in[s.root(i.o[0],P)] if isinstance(r,int)}
                    x=s.val(i.o[0],P)
                    P.st=frozenset(y for y in P.st if y[0]!='hdr')|({('hdr',int(x!=0))} if x is not None else set())
            return None
        if i.op not in('call','invoke') or not i.callee: return None
        c=m.srcname(i.callee)
        if c=='csv_init': P.st=frozenset(x for x in P.st if x[0]!='delim')|{('init',)}
        elif c=='csv_set_delim':
            if ('init',) not in P.st: s.E('order',i,'the delimiter is set before the parser is initialised (which resets it)')
            if not (fname(fn,fn.ex(i.o[1])) or '').endswith('.delimiter'):
                d=[fn.ex(j.o[0]) for j in fn.live() if j.op=='store' and fld(fn,j)=='delimiter']
                if fn.ex(i.o[1]) not in d and fn.ex(i.o[1])[0]!='phi': s.E('delim',i,'the parser gets another delimiter')
            P.st|={('delim',)}
        elif isread(fn,i):
            n=[x[1] for x in P.st if x[0]=='lines']; n=min(n[0]+1 if n else 1,3)
            P.st=frozenset(x for x in P.st if x[0]!='lines')|{('lines',n)}
        elif c in('fseek','fseeko','rewind') and (fname(fn,fn.ex(i.o[0])) or '').endswith('reader.file'):
            P.st=frozenset(x for x in P.st if x[0]!='lines')
            if c=='rewind' or s.val(i.o[1],P)==0 and s.val(i.o[2],P)==0: P.st|={('rew',)}
        return None
    def onexit(s,i,P):
        s.exits+=1; st=P.st
        if ('init',) not in st: s.E('init',i,'the parser is not initialised%s'%(' again: what it kept of the previous pass is added to the first row' if s.reset else ''))
        elif ('delim',) not in st and ('dl',0) not in st: s.E('delim',i,'the parser is left with its default delimiter')
        n=([x[1] for x in st if x[0]=='lines'] or [0])[0]
        h=[x[1] for x in st if x[0]=='hdr']
        if n>1: s.E('header',i,'more than the header line is passed over')
        elif n==1 and h!=[1]: s.E('header',i,'a line is passed over although the trace is not known to have a header')
        elif n==0 and h!=[0]: s.E('header',i,'the header line is not passed over')
        if not s.reset:
            for c in COL:
                if ('col',c+'_field_idx') not in st: s.E(c,i,'the %s column is not configured'%c)
        elif ('rew',) not in st: s.E('rewind',i,'the file is not rewound')
class Size(Explorer):
    """state: ('ign',b) | ('one',) request.obj_size set to one | ('any',) request touched since"""
    max_states=200000
    def __init__(s,fn): super().__init__(fn); s.err={}; s.n=0; s.stores=0
    def init(s): return frozenset()
    def onedge(s,t,truth,P):
        fn=s.fn; L=[(src(fn,t.o[0]),truth)]
        for i,tr in s.atoms(t.o[0],truth,P):
            if i.op=='icmp' and i.pred in('eq','ne') and s.val(i.o[1],P)==0: L.append((src(fn,i.o[0]),tr if i.pred=='ne' else not tr))
        for v,tr in L:
            if isinstance(v,int) and v>=fn.nargs and fn.ins[v].op=='load' and fld(fn,fn.ins[v])=='ignore_obj_size': P.st|={('ign',int(tr))}
        return P
    def transfer(s,i,P):
        fn=s.fn
        if i.op=='store' and (fn.fld(i) or '').startswith('request') and fld(fn,i)=='obj_size':
            s.stores+=1
            if s.val(i.o[0],P)==1: P.st|={('one',)}
            else: P.st=frozenset(x for x in P.st if x!=('one',))
        elif i.op in('call','invoke') and any(isinstance(o,int) and fn.ex(o)==('arg',1) for o in i.o) and not fn.mod.srcname(i.callee or '').startswith('llvm') and fn.slotof(i)!='sampler.sample':
            P.st=frozenset(x for x in P.st if x!=('one',))
        return None
    def onexit(s,i,P):
        v=s.val(i.o[0],P)
        if v==NZ or isinstance(v,int) and v!=0: return
        s.n+=1
        if ('ign',0) in P.st: return
        if ('one',) not in P.st: s.err.setdefault('one',(i,'a request can be delivered with its own size although sizes are ignored'))
def leftof(s,t,truth,P):
    """what a branch says about repetitions being left: 1, 0 or None"""
    fn=s.fn; L=[(src(fn,t.o[0]),truth)]; r=None
    for i,tr in s.atoms(t.o[0],truth,P):
        if i.op!='icmp': continue
        pr=i.pred; a,b=i.o
        if not isinstance(a,int): a,b=b,a; pr=pr.translate(str.maketrans('gl','lg')) if pr not in('eq','ne') else pr
        c=s.val(b,P); v=src(fn,a)
        if not isinstance(v,int) or v<fn.nargs or fn.ins[v].op!='load' or fld(fn,fn.ins[v])!='n_req_left': continue
        k={('sgt',0):1,('ugt',0):1,('ne',0):1,('sge',1):1,('uge',1):1,('sle',0):0,('ule',0):0,('eq',0):0,('slt',1):0,('ult',1):0}.get((pr,c))
        if k is not None: r=k if tr else 1-k
    v=L[0][0]
    if isinstance(v,int) and v>=fn.nargs and fn.ins[v].op=='load' and fld(fn,fn.ins[v])=='n_req_left': r=int(truth)
    return r
class Rep(Explorer):
    """state: ('left',b) | ('dec',) | ('time',)"""
    max_states=200000
    def __init__(s,fn,names): super().__init__(fn); s.names=names; s.err={}; s.n=0; s.reads=0
    def init(s): return frozenset()
    def E(s,k,i,m): s.err.setdefault(k,(i,m))
    def onedge(s,t,truth,P):
        b=leftof(s,t,truth,P)
        if b is not None and ('dec',) not in P.st:
            if ('left',1-b) in P.st: return None
            P.st|={('left',b)}
        return P
    def transfer(s,i,P):
        fn=s.fn
        if i.op=='store':
            f=fn.fld(i) or ''
            if f.endswith('.n_req_left'):
                e=strip(fn.ex(i.o[0])); ok=False
                v=src(fn,i.o[0])
                if isinstance(v,int) and v>=fn.nargs and fn.ins[v].op in('add','sub'):
                    o=fn.ins[v].o; l=src(fn,o[0]); c=s.val(o[1],P)
                    if isinstance(c,int) and isinstance(l,int) and l>=fn.nargs and fn.ins[l].op=='load' and fld(fn,fn.ins[l])=='n_req_left':
                        w=1<<32 if fn.ins[v].ty=='i32' else 1<<64
                        ok=(c if fn.ins[v].op=='add' else -c)%w==w-1
                if not ok: s.E('dec',i,'the repetitions left are not lowered by one')
                elif ('dec',) in P.st: s.E('dec',i,'the repetitions left are lowered twice for one request')
                elif ('left',1) not in P.st: s.E('dec',i,'the repetitions left are lowered although none may be left')
                P.st|={('dec',)}
            elif f.startswith('request') and ('left',1) in P.st:
                g=fld(fn,i)
                if g=='clock_time':
                    if not (fname(fn,fn.ex(i.o[0])) or '').endswith('last_req_clock_time'): s.E('time',i,'a repeated request gets another time than the request it repeats')
                    P.st|={('time',)}
                elif g=='obj_id' or g=='obj_size' and s.val(i.o[0],P)!=1: s.E('same',i,'a repeated request gets another '+g)
        elif i.op in('call','invoke'):
            if fn.slotof(i)=='sampler.sample': s.fin(i,P); return []
            elif i.callee in s.names:
                s.reads+=1
                if ('left',1) in P.st: s.E('read',i,'a new record is read although the request is to be repeated')
                elif ('left',0) not in P.st: s.E('read',i,'a new record is read without looking whether the request is to be repeated')
                return []
        return None
    def fin(s,i,P):
        s.n+=1
        if ('left',1) in P.st:
            if ('dec',) not in P.st: s.E('dec',i,'a request is repeated without lowering the repetitions left')
            if ('time',) not in P.st: s.E('time',i,'a repeated request does not get the time of the request it repeats')
    def onexit(s,i,P):
        v=s.val(i.o[0],P)
        if v==0: s.fin(i,P)
        elif ('left',1) in P.st: s.E('end',i,'the end is reported although the request is to be repeated')
def s_const(fn,v): return v[1] if isinstance(v,list) and v[0]=='i' else None
def report(ctx,rule,who,ex,ok):
    for k,(i,msg) in ex.err.items(): ctx.bad(rule,'%s %s'%(who,k if isinstance(k,str) else ' '.join(k)),'%s: %s'%(who,msg),i.where())
    if not ex.err: ctx.ok(rule,'%s: %s'%(who,ok))
def run(ctx):
    sem=ctx.sem('core'); m=sem.m
    rd=None; cb=set(); row=set(); names=set()
    for f in m.repo_fns():
        if '/traceReader/' not in f.file: continue
        if len(f.ditypes)>2 and 'struct reader*' in f.ditypes[1] and 'struct request*' in f.ditypes[2]: names.add(f.name)
        for i in f.live():
            if i.op=='call' and m.srcname(i.callee or '')=='csv_parse' and f.src!='csv_fini':
                for o,S in((i.o[3],cb),(i.o[4],row)):
                    if isinstance(o,list) and o[0]=='F': S.add(o[1])
                rd=f if rd is None or f.name in names else rd
    ctx.need(rd,'csv reader')
    ctx.floor('column callbacks',len(cb),1); ctx.floor('row callbacks',len(row),1)
    for n in sorted(cb):
        f=m.fns[n]; x=Cell(f); x.run(); ctx.count('paths',x.exits)
        report(ctx,'column',f.src,x,'%d columns, on %d path exits'%(len(COL),x.exits))
        ctx.check('column',f.src+' fields',x.puts=={v for v in COL.values() if v} and x.rep,'%s never stores %s'%(f.src,sorted({v for v in COL.values() if v}-x.puts) or 'the count'),f.relfile)
    for n in sorted(row):
        f=m.fns[n]; x=Row(f); x.run()
        ctx.check('column',f.src,x.n and x.bad is None,'%s does not restart the column number at one'%f.src,x.bad.where() if x.bad else f.relfile)
    # csv reader: every function that reads a line and parses it
    for f in [rd]:
        x=Csv(f,names); x.run(); ctx.count('paths',x.exits); ctx.need(x.parses and x.exits,'parsed lines')
        report(ctx,'line',f.src,x,'one whole line per request on %d path exits'%x.exits)
    FS=('fseek','fseeko','rewind')
    # set-up and rewind of the parser: functions that work on the csv parameters and store the column numbers or seek
    own={}
    for f in m.repo_fns():
        if '/traceReader/' not in f.file or f.name in cb|row|names: continue
        sites=[i for i in f.live() if i.op=='call' and m.srcname(i.callee or '')=='csv_init' or i.op in('load','store') and (f.fld(i) or '').startswith('csv_params')]
        isset=any(i.op=='store' and fld(f,i)=='obj_id_field_idx' for i in sites)
        if sites and (isset or any(i.op=='call' and m.srcname(i.callee or '') in FS for i in f.live())): own[f]=(isset,sites)
    cand={f.src for f in own}
    for f,(isset,sites) in list(own.items()):
        if {n for i in sites for n in i.inlined_fns()}-{f.src}&cand: del own[f]
    for k,w in((True,'set up'),(False,'rewound')):
        ctx.check('setup',w,any(x[0]==k for x in own.values()),'no function is found in which the csv parser is '+w,m.get('csv_setup_reader').relfile if m.get('csv_setup_reader') else '')
    for f,(isset,sites) in own.items():
        x=Init(f,not isset); x.run(); ctx.count('paths',x.exits)
        report(ctx,'setup',f.src,x,('set-up' if isset else 'rewind')+' leaves parser, delimiter and header position right')
    t=ctx.need(m.get('txt_read_one_req'),'txt_read_one_req')
    x=Txt(t,names); x.run(); ctx.count('paths',x.exits); ctx.need(x.exits and x.reads,'lines')
    report(ctx,'text',t.src,x,'one id per non-empty line on %d path exits'%x.exits)
    r=ctx.need(m.get('read_one_req','reader.c'),'read_one_req')
    x=Size(r); x.run(); ctx.count('paths',x.n); sz=x.stores
    report(ctx,'size',r.src,x,'sizes are one when ignored on %d path exits'%x.n)
    # repetitions: every function that counts them down
    nr=0; ref=referenced(m)
    for f in m.repo_fns():
        if f.name in cb or f.internal and f.name not in ref: continue
        L=[i for i in f.live() if i.op=='store' and (f.fld(i) or '').endswith('reader.n_req_left') and not isinstance(s_const(f,i.o[0]),int)]
        if not L and f.src not in('read_one_req','read_one_req_above'): continue
        if f.name not in names:
            ctx.bad('repeat','%s'%f.src,'%s changes the repetitions left although it delivers no request'%f.src,L[0].where()); continue
        x=Rep(f,names); x.run(); ctx.count('paths',x.n); nr+=1
        report(ctx,'repeat',f.src,x,'repeats the request while repetitions are left, on %d path exits'%x.n)
    ctx.floor('functions that count repetitions',nr,1)
    ctx.floor('places where the size is ignored',sz,1)
