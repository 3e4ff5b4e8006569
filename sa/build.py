"""Compile /repo's current sources to LLVM IR and dump compact facts.
Everything is cached in /verif/_build under a key that hashes every input, so a stale cache can never be used."""
import os, re, sys, json, hashlib, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__))
VERIF=os.path.dirname(HERE)
REPO=os.environ.get("GKC_REPO","/repo")
BUILD=os.path.join(VERIF,"_build")
class AnalysisBroken(Exception): pass

def tool(*names):
    for n in names:
        for d in ("/usr/bin","/usr/lib/llvm-18/bin"):
            p=os.path.join(d,n)
            if os.path.exists(p): return p
        p=shutil.which(n)
        if p: return p
    raise AnalysisBroken("tool not found: %s"%(names,))
def run(cmd,**kw):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**kw)
    if r.returncode!=0: raise AnalysisBroken("command failed: %s\n%s"%(" ".join(map(str,cmd)),r.stdout[-3000:]))
    return r.stdout
def hash_files(files,*extra):
    h=hashlib.sha256()
    for e in extra: h.update(str(e).encode()+b"\0")
    for f in sorted(files):
        h.update(os.path.relpath(f,REPO).encode()+b"\0")
        with open(f,"rb") as fh: h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:24]
def build_irx():
    os.makedirs(BUILD,exist_ok=True)
    src=os.path.join(HERE,"irx.cpp")
    key=hash_files([src],"irx")
    out=os.path.join(BUILD,"irx-"+key)
    if os.path.exists(out): return out
    cfg=tool("llvm-config-18","llvm-config")
    flags=[f for f in run([cfg,"--cxxflags"]).split() if not f.startswith("-O")]
    ld=run([cfg,"--ldflags"]).split()
    tmp=out+".tmp%d"%os.getpid()
    run([tool("clang++-18","clang++","g++"),"-O1"]+flags+["-std=c++17",src,"-o",tmp]+ld+["-lLLVM-18"])
    os.rename(tmp,out)
    return out
def sources():
    txt=open(os.path.join(REPO,"compile.sh")).read()
    s=set()
    for l in txt.splitlines():
        if l.startswith("#"): continue
        s.update(re.findall(r"[A-Za-z0-9_]+/[A-Za-z0-9_.]+\.c",l))
    return sorted(s)
def all_inputs():
    r=[]
    for root,dirs,files in os.walk(REPO):
        rel=os.path.relpath(root,REPO)
        if rel=="." : dirs[:]=[d for d in dirs if d not in (".git","_build","Doc","Examples","Test","Tests")]
        for f in files:
            if f.endswith((".c",".h",".y",".l")) or (rel=="." and f=="compile.sh"): r.append(os.path.join(root,f))
    return r
def gen_bison(gd):
    os.makedirs(gd,exist_ok=True)
    P=os.path.join(REPO,"Parser")
    for b in ("dbotter","dbprolog"):
        run([tool("bison"),"-Wnone","-pwg_yy"+b[2:],"-d","Parser/%s.y"%b,"-o",os.path.join(gd,b+".tab.c")],cwd=REPO)
        run([tool("flex"),"-Pwg_yy"+b[2:],"-o"+os.path.join(gd,b+".yy.c"),"Parser/%s.l"%b],cwd=REPO)
def facts(variant="gkc",inline=True,fold=()):
    """returns path of the facts file for the current tree; fold: functions inlined although they are known"""
    irx=build_irx()
    knownf=os.path.join(HERE,"known_functions.txt")
    key=hash_files(all_inputs(),variant,inline,os.path.basename(irx),open(knownf).read() if inline and os.path.exists(knownf) else "",*sorted(fold))
    tag=variant+("+"+hashlib.sha256(" ".join(sorted(fold)).encode()).hexdigest()[:6] if fold else "")
    out=os.path.join(BUILD,"facts-%s-%s.jsonl"%(tag,key))
    if os.path.exists(out): return out
    wd=tempfile.mkdtemp(prefix="b-",dir=BUILD)
    try:
        clang=tool("clang-18","clang")
        srcs=sources()
        if len(srcs)<30: raise AnalysisBroken("source list of compile.sh has only %d files"%len(srcs))
        jobs=[]
        for s in srcs:
            if variant=="bison" and s.startswith("Builtparser/"): continue
            jobs.append((os.path.join(REPO,s),[]))
        if variant=="bison":
            gd=os.path.join(wd,"gen"); gen_bison(gd)
            for f in ("dbparse.c","dbclausify.c","jsparse.c"): jobs.append((os.path.join(REPO,"Parser",f),[]))
            for b in ("dbotter","dbprolog"):
                for k in ("tab","yy"):
                    jobs.append((os.path.join(gd,"%s.%s.c"%(b,k)),["-iquote",gd,"-iquote",os.path.join(REPO,"Parser"),"-I",os.path.join(REPO,"Parser")]))
        def comp(j):
            s,fl=j
            o=os.path.join(wd,re.sub(r"[^A-Za-z0-9]","_",os.path.relpath(s,REPO))+".bc")
            rel=os.path.relpath(s,REPO) if s.startswith(REPO+"/") else s
            run([clang,"-O0","-g","-w","-fno-inline","-fno-builtin","-Xclang","-disable-O0-optnone","-emit-llvm","-c"]+fl+[rel,"-o",o],cwd=REPO)
            return o
        with ThreadPoolExecutor(8) as ex: objs=list(ex.map(comp,jobs))
        bc=os.path.join(wd,"all.bc")
        run([tool("llvm-link-18","llvm-link")]+objs+["-o",bc])
        kf=knownf
        if not inline or not os.path.exists(knownf):
            kf=os.path.join(wd,"empty"); open(kf,"w").close()
        elif fold:
            kf=os.path.join(wd,"known"); open(kf,"w").write("".join(l for l in open(knownf) if l.strip() not in fold))
        t=os.path.join(wd,"f.jsonl")
        run([irx,bc,t,kf])
        # drop superseded facts
        for f in os.listdir(BUILD):
            if f.startswith("facts-%s-"%tag):
                try: os.unlink(os.path.join(BUILD,f))
                except OSError: pass
        os.rename(t,out)
    finally: shutil.rmtree(wd,ignore_errors=True)
    return out
_MC={}
def macros(names,header):
    """values of object-like macros, evaluated by the preprocessor of the current tree"""
    key=(tuple(names),header)
    if key in _MC: return _MC[key]
    src="#include \"%s\"\n"%header+"".join('@@"%s" %s\n'%(n,n) for n in names)
    r=subprocess.run([tool("clang-18","clang"),"-E","-w","-P","-I.","-x","c","-"],input=src,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,cwd=REPO)
    if r.returncode!=0: raise AnalysisBroken("preprocessing %s failed: %s"%(header,r.stderr[-500:]))
    out={}
    for m in re.finditer(r'@@\s*"(\w+)"\s*(.*)',r.stdout):
        e=re.sub(r"\((?:\s*(?:unsigned|signed|long|int|gint|char|void|const|\*)\s*)+\)","",m.group(2).strip())
        e=re.sub(r"\b(0x[0-9a-fA-F]+|\d+)[uUlL]+\b",r"\1",e)
        try: out[m.group(1)]=int(eval(e,{"__builtins__":{}},{}))
        except Exception: pass
    _MC[key]=out
    return out
if __name__=="__main__":
    import time; t=time.time()
    for v in sys.argv[1:] or ["gkc","bison"]:
        p=facts(v); print(v,p,os.path.getsize(p),"%.1fs"%(time.time()-t))
