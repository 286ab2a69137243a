"""Compile /repo's current sources to normalised facts (nothing is executed)."""
import json, os, shlex, subprocess, hashlib, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('LCS_REPO','/repo')
BUILD=os.path.join(VERIF,'build')
TOOL=os.path.join(BUILD,'irdump')
LLVMBIN='/usr/lib/llvm-18/bin'

class AnalysisBroken(Exception): pass

def build_tool():
    src=os.path.join(VERIF,'tool','irdump.cpp')
    os.makedirs(BUILD,exist_ok=True)
    h=hashlib.sha256(open(src,'rb').read()).hexdigest()
    stamp=TOOL+'.sha'
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read()==h: return
    cfg=lambda *a: subprocess.run([LLVMBIN+'/llvm-config',*a],capture_output=True,text=True,check=True).stdout.split()
    cxx=[f for f in cfg('--cxxflags') if not f.startswith('-std')]
    tmp=TOOL+'.%d'%os.getpid()
    cmd=[LLVMBIN+'/clang++','-O2','-fno-rtti',*cxx,'-std=c++17',src,'-o',tmp,*cfg('--ldflags'),*cfg('--libs','--link-shared'),'-Wl,-rpath,/usr/lib/llvm-18/lib']
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: raise AnalysisBroken('cannot build irdump:\n'+r.stderr[-3000:])
    os.rename(tmp,TOOL)
    open(stamp,'w').write(h)

def tree_hash(extra):
    h=hashlib.sha256()
    for d,dn,fn in os.walk(REPO):
        rel=os.path.relpath(d,REPO)
        dn[:]=sorted(x for x in dn if not (rel=='.' and x in('.git','_build','data','doc','scripts','.github','test','example','random')))
        for f in sorted(fn):
            if f.endswith(('.c','.cpp','.h','.hpp','.cc','.in','.cmake','.txt')):
                p=os.path.join(d,f)
                if not os.path.isfile(p): continue
                h.update(os.path.relpath(p,REPO).encode()+b'\0'+open(p,'rb').read()+b'\0')
    for e in extra: h.update(e.encode()+b'\0')
    return h.hexdigest()[:24]

def cmake_db(work):
    env=dict(os.environ,CC='gcc',CXX='g++',CFLAGS='',CXXFLAGS='',LC_ALL='C')
    # the build directory is a scratch one; /repo itself is not written
    cmd=['cmake','-S',REPO,'-B',work,'-G','Ninja','-DCMAKE_BUILD_TYPE=Release','-DENABLE_TESTS=ON','-DENABLE_GLCACHE=ON','-DENABLE_LRB=OFF','-DOPT_SUPPORT_ZSTD_TRACE=ON','-DCMAKE_EXPORT_COMPILE_COMMANDS=ON']
    r=subprocess.run(cmd,capture_output=True,text=True,env=env)
    if r.returncode: raise AnalysisBroken('cmake failed:\n'+r.stdout[-1500:]+r.stderr[-1500:])
    return json.load(open(os.path.join(work,'compile_commands.json')))

def group_of(rel):
    if rel.startswith('libCacheSim/bin/'):
        p=rel.split('/')
        if len(p)==3: return 'bin_common'
        if p[2] in('customized','priv'): return 'bin_'+p[-2]
        return 'bin_'+p[2]
    return 'core'

def facts(group='core', defines=(), log=None):
    """path of the JSON facts for one program group of the current tree"""
    build_tool()
    toolsha=open(TOOL+'.sha').read(); voc=open(os.path.join(VERIF,'vocab.txt')).read()
    key=tree_hash([toolsha,voc,REPO,open(__file__).read()])
    cache=os.path.join(BUILD,'facts-'+key)
    name=group+''.join('+'+d for d in defines)
    out=os.path.join(cache,name.replace('/','_')+'.json'); info=out[:-5]+'.units'
    if os.path.exists(out) and os.path.exists(info):
        return out,json.load(open(info))
    os.makedirs(cache,exist_ok=True)
    # keep the scratch area small
    for d in sorted((x for x in os.listdir(BUILD) if x.startswith('facts-')),key=lambda x: os.path.getmtime(os.path.join(BUILD,x)))[:-4]:
        # (a directory touched lately may belong to another run)
        if d!='facts-'+key and time.time()-os.path.getmtime(os.path.join(BUILD,d))>1200: shutil.rmtree(os.path.join(BUILD,d),ignore_errors=True)
    work=tempfile.mkdtemp(prefix='lcs-',dir=BUILD)
    try:
        db=cmake_db(os.path.join(work,'b'))
        units={}
        for e in db:
            rel=os.path.relpath(e['file'],REPO)
            if rel.startswith('test/'): continue
            if group_of(rel)==group: units.setdefault(rel,e)
        if not units: raise AnalysisBroken('no translation unit in group '+group)
        def comp(item):
            rel,e=item
            a=shlex.split(e['command']); cxx=rel.endswith(('.cpp','.cc'))
            args=[x for x in a[1:] if x.startswith(('-D','-I','-std','-isystem'))]
            o=os.path.join(work,rel.replace('/','__')+'.bc')
            std=[] if any(x.startswith('-std') for x in args) else ['-std=gnu++17' if cxx else '-std=gnu17']
            if '-DNDEBUG' not in args: args.append('-DNDEBUG')
            m='main_'+''.join(c if c.isalnum() else '_' for c in os.path.splitext(os.path.basename(rel))[0])+'__'+group
            cmd=[LLVMBIN+('/clang++' if cxx else '/clang'),'-w','-g','-O1','-Xclang','-disable-llvm-passes','-emit-llvm','-c',e['file'],'-o',o,*args,*std,*['-D'+d for d in defines]]
            if group!='core': cmd.append('-Dmain='+m)
            r=subprocess.run(cmd,capture_output=True,text=True,cwd=e['directory'])
            return rel,o,r
        bcs=[]
        with ThreadPoolExecutor(8) as ex:
            for rel,o,r in ex.map(comp,sorted(units.items())):
                if r.returncode: raise AnalysisBroken('clang cannot compile %s:\n%s'%(rel,r.stderr[-2000:]))
                bcs.append(o)
        tmp=out+'.%d'%os.getpid()
        r=subprocess.run([TOOL,'-o',tmp,'--root',REPO.rstrip('/')+'/','--vocab',os.path.join(VERIF,'vocab.txt'),*bcs],capture_output=True,text=True)
        if r.returncode: raise AnalysisBroken('irdump failed:\n'+r.stderr[-2000:])
        json.dump(sorted(units),open(info,'w'))
        os.rename(tmp,out)
        return out,sorted(units)
    finally:
        shutil.rmtree(work,ignore_errors=True)

if __name__=='__main__':
    build_tool()
    if len(sys.argv)>1: print(facts(sys.argv[1],tuple(sys.argv[2:])))
