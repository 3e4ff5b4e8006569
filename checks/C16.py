#!/usr/bin/env python3
"""C16: parallel workers neither lose nor invent a result."""
import sys, os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","sa"))
import sccp, check
from core import *
ECHILD=10; EINTR=4; MARK=77
SEARCH="wr_genloop"
FAIL=(1,2,-1,-2)
PRINT=("printf","puts","wr_printf","putchar","fprintf")
def natloops(f):
    out={}
    for b in f.rpo():
        for x in f.blocks[b].succs:
            if x in f.dom[b]:
                body={x,b}; w=[b]
                while w:
                    y=w.pop()
                    if y==x: continue
                    for p in f.blocks[y].preds:
                        if p not in body: body.add(p); w.append(p)
                out.setdefault(x,set()).update(body)
    return out
def inner(f,i,loops=None):
    ls=[(len(b),h,b) for h,b in (loops or natloops(f)).items() if i.bb in b]
    return min(ls)[1:] if ls else (None,None)
def calls(f,*names): return [c for c in f.instrs() if c.op=="call" and c.callee in names]
def fieldload(i,name):
    if i.op!="load": return False
    a=addr(i.fn,i.ops[0]); return a[0]=="field" and a[2]==name
def counters(f,h,body):
    """loop counters: start from a constant, go up by one every round on some way"""
    out=[]
    for p in f.blocks[h].instrs:
        if p.op!="phi": break
        ini=[o for o,b in zip(p.ops,p.x) if b not in body]; nxt=[o for o,b in zip(p.ops,p.x) if b in body]
        if not ini or not all(cint(o)==0 for o in ini): continue
        if nxt and all(step(f,o,p.id,1) for o in nxt): out.append(p)
    return out
def step(f,o,p,k,d=0):
    """is o always p or p+k, and sometimes p+k"""
    vs=variants(f,o,p,d)
    return vs is not None and k in vs and vs<={0,k}
def variants(f,o,p,d=0,edges=None):
    o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) else None
    if o==p: return {0}
    if i is None or d>8: return None
    if i.op in("add","sub") and cint(i.ops[1]) is not None:
        v=variants(f,i.ops[0],p,d+1,edges); k=cint(i.ops[1])
        return None if v is None else {x+(k if i.op=="add" else -k) for x in v}
    if i.op=="phi":
        out=set()
        for x,b in zip(i.ops,i.x):
            if edges is not None and (b,i.bb) not in edges: continue
            if strip(f,x)==i.id: continue
            v=variants(f,x,p,d+1,edges)
            if v is None: return None
            out|=v
        return out
    return None
def root(f,o):
    """the object an address belongs to"""
    while isinstance(o,int):
        i=f.defs.get(o)
        if i is None: return o
        if i.op in("getelementptr","bitcast"): o=i.ops[0]; continue
        return i.id
    return o if isinstance(o,str) else str(o)
def errno(f,i):
    if i.op!="load": return False
    o=strip(f,i.ops[0]); d=f.defs.get(o) if isinstance(o,int) else None
    return d is not None and d.op=="call" and d.callee=="__errno_location"
def asize(ty):
    """[64 x i32]"""
    t=(ty or "").strip("[]").split(" x ")
    return int(t[0]) if len(t)==2 and t[0].isdigit() else None
class Pool:
    """the function which starts the workers"""
    def __init__(s,P,f):
        s.P=P; s.f=f; s.loops=natloops(f)
        s.forks=calls(f,"fork"); s.waits=calls(f,"waitpid","wait"); s.kills=calls(f,"kill"); s.search=calls(f,SEARCH)
        s.fc=s.forks[0]; s.fh,s.fb=inner(f,s.fc,s.loops)
        s.nr=counters(f,s.fh,s.fb) if s.fh is not None else []
        s.stat={root(f,c.ops[1]) for c in s.waits if c.callee=="waitpid"}|{root(f,c.ops[0]) for c in s.waits if c.callee=="wait"}
        s.pids=set()
        for st in f.instrs():
            if st.op=="store" and strip(f,st.ops[0])==s.fc.id: s.pids.add(root(f,st.ops[1]))
        # the loop over the runs: the outermost loop around the search which does not contain the fork
        s.rh=s.rb=None; best=-1
        for h,b in s.loops.items():
            if any(c.bb in b for c in s.search) and s.fc.bb not in b and len(b)>best: best=len(b); s.rh=h; s.rb=b
        s.it=counters(f,s.rh,s.rb) if s.rh is not None else []
    def oracle(s,fork=None,forks=None,k=None,it=None,wait=None,stat=None,eno=None,pid=None,extra=None):
        f=s.f; nr={p.id for p in s.nr}; its={p.id for p in s.it}; w={c.id for c in s.waits}
        def o(i):
            if fork is not None and i.op=="call" and i.callee=="fork": return fork
            if forks is not None and fieldload(i,"max_forks"): return forks
            if k is not None and i.id in nr: return k
            if it is not None and i.id in its: return it
            if wait is not None and i.id in w: return wait
            if stat is not None and i.op=="load" and root(f,i.ops[0]) in s.stat: return stat
            if eno is not None and errno(f,i): return eno
            if pid is not None and i.op=="load" and root(f,i.ops[0]) in s.pids: return pid
            if extra: return extra(i)
            return None
        return o
    def sol(s,**k): return sccp.solve(s.f,s.oracle(**k))
def share(R,p):
    f=p.f
    bad=None; n=0
    if not p.search or not p.it or not p.nr:
        R.bad("share","%s:loops"%f.name,p.fc.loc(),"the runs are not divided by counting workers and runs: no loop counter, or no search, in %s"%f.name); return
    for it in range(7):
        who=[]
        for k in range(3):
            r=p.sol(fork=0,forks=3,k=k,it=it); n+=1
            if any(r.reaches(c) for c in p.search): who.append(k)
        if len(who)!=1: bad=(it,who)
    if bad: R.bad("share","%s:share"%f.name,p.search[0].loc(),"of 3 workers, %s make run %d: every run must be made by exactly one worker"%(bad[1] or "none",bad[0]))
    else: R.good("share","%s %s: 3 workers x 7 runs"%(f.name,p.search[0].loc()),n)
    for fk,lab in((None,"no worker is wanted"),(-1,"no worker could be started")):
        n=0; bad=None
        for it in range(4):
            r=p.sol(fork=fk,forks=0 if fk is None else 3,it=it)
            if not any(r.reaches(c) for c in p.search): bad=it
            if fk is None and r.reaches(p.fc): bad=it
        if bad is not None: R.bad("share","%s:alone:%s"%(f.name,fk),p.search[0].loc(),"when %s, run %d is not made"%(lab,bad))
        else: R.good("share","%s: %s"%(f.name,lab))
    # the runs end with the list
    ids={c.id for c in p.search}
    def one(i): return 1 if i.id in ids else 3 if i.op=="call" and i.callee=="wr_parse_guide_section" else ANSWER.get(i.callee) if i.op=="call" else None
    for forks,lab in((0,"the only process"),(3,"a worker")):
        bad=None
        for it in range(6):
            r=refined(p,one,fork=0 if forks else None,forks=forks,k=it%3 if forks else None,it=it)
            back=any(b==p.rh and a in p.rb for a,b in r.edges)
            if back and it+1>=3: bad=(it,"goes on after the last run of the list")
            if not back and it+1<3: bad=(it,"ends before the last run of the list")
        if bad: R.bad("share","%s:end:%d"%(f.name,forks),p.search[0].loc(),"%s %s (run %d of 3)"%(lab,bad[1],bad[0]))
        else: R.good("share","%s: %s makes the runs of the list"%(f.name,lab))
    r=p.sol(fork=MARK,forks=3,k=3)
    c=next((c for c in p.search if r.reaches(c)),None)
    if c: R.bad("share","%s:parent"%f.name,c.loc(),"the parent makes runs itself although workers were started")
    else: R.good("share","%s: parent"%f.name)
def start(R,p):
    f=p.f
    # a worker starts no further workers
    r=p.sol(fork=0,forks=3)
    back=[(a,b) for a,b in r.edges if b==p.fh and a in p.fb]
    if back: R.bad("start","%s:nested"%f.name,p.fc.loc(),"a worker goes on in the loop which starts workers, and starts workers of its own")
    else: R.good("start","%s: no nested workers"%f.name)
    for k in range(3):
        r=p.sol(fork=0,forks=3,k=k)
        c=next((c for c in p.waits+p.kills if r.reaches(c)),None)
        if c: R.bad("start","%s:waits"%f.name,c.loc(),"a worker waits for the other workers, or kills them, like the parent"); break
    else: R.good("start","%s: workers do not wait for workers"%f.name)
    # room for the numbers of the workers
    size=[asize(f.defs[x].x[0] if isinstance(f.defs[x].x,list) else "") for x in p.pids if x in f.defs and f.defs[x].op=="alloca"]
    ids={q.id for q in p.nr}; lim=None
    for i in f.instrs():
        if i.op=="icmp" and i.bb in p.fb and strip(f,i.ops[0]) in ids and i.x[0] in("slt","ult") and f.dominates(i,p.fc):
            vs=[p.sol(forks=n).val(i.ops[1]) for n in(65,66,127,1000,100000)]
            if None not in vs: lim=max(vs) if lim is None else min(lim,max(vs))
    if not size or size[0] is None: R.note("pids","not an array of the function")
    elif lim is None or lim>min(size): R.bad("start","%s:room"%f.name,p.fc.loc(),"the number of workers is not limited to the %s process numbers there is room for"%min(size))
    else: R.good("start","%s: at most %d workers, room for %d"%(f.name,lim,min(size)))
    # only a started worker is noted down
    for v in(0,-1):
        r=p.sol(fork=v,forks=3)
        st=[s for s in f.instrs() if s.op=="store" and root(f,s.ops[1]) in p.pids and strip(f,s.ops[0])==p.fc.id and r.reaches(s)]
        if st: R.bad("start","%s:note:%d"%(f.name,v),st[0].loc(),"the result %d of fork() is noted down as the number of a worker, and would be killed later"%v)
        else: R.good("start","%s: fork()==%d is not noted down"%(f.name,v))
    r=p.sol(fork=MARK,forks=3)
    st=[s for s in f.instrs() if s.op=="store" and root(f,s.ops[1]) in p.pids and strip(f,s.ops[0])==p.fc.id and r.reaches(s)]
    if not st: R.bad("start","%s:lost"%f.name,p.fc.loc(),"the process number of a started worker is not noted down")
    else: R.good("start","%s: worker noted down"%f.name)
def orphan(R,p):
    """a worker asks to be ended with its parent, before it does anything else, and looks whether the parent is still there"""
    f=p.f; r=p.sol(fork=0,forks=3,extra=lambda i:0 if i.op=="call" and i.callee=="prctl" else None)
    pr=[c for c in calls(f,"prctl") if r.reaches(c) and cint(c.ops[0])==1 and cint(c.ops[1])]
    if not pr: R.bad("orphan","%s:prctl"%f.name,p.fc.loc(),"a worker does not ask to be ended when its parent ends"); return
    r=p.sol(fork=0,forks=3,extra=lambda i:-1 if i.op=="call" and i.callee=="prctl" else None)
    if any(r.reaches(c) for c in p.search): R.bad("orphan","%s:refused"%f.name,pr[0].loc(),"a worker goes on searching although it could not ask to be ended with its parent")
    else: R.good("orphan","%s: refused"%f.name)
    r=p.sol(fork=0,forks=3,extra=lambda i:0 if i.op=="call" and i.callee=="prctl" else 1 if i.op=="call" and i.callee=="getppid" else None)
    if any(r.reaches(c) for c in p.search): R.bad("orphan","%s:gone"%f.name,pr[0].loc(),"a worker whose parent is gone already goes on searching")
    else: R.good("orphan","%s: parent gone"%f.name)
    b=p.fc.bb; w=[b]; seen=set(); bad=None; first=True
    r=p.sol(fork=0,forks=3)
    while w:
        b=w.pop()
        if b in seen: continue
        seen.add(b); stop=False
        for i in f.blocks[b].instrs:
            if first:
                if i is p.fc: first=False
                continue
            if i in pr: stop=True; break
            if i.op=="call" and i.callee and i.callee in p.P.fns and not i.callee.startswith("llvm."): bad=i
        if stop: continue
        w+=[x for x in f.blocks[b].succs if (b,x) in r.edges]
    if bad: R.bad("orphan","%s:late"%f.name,bad.loc(),"a worker calls %s() before it has asked to be ended with its parent"%bad.callee)
    else: R.good("orphan","%s %s"%(f.name,pr[0].loc()))
def reap(R,p):
    f=p.f; r=p.sol(fork=MARK,forks=3,k=3)
    if not any(r.reaches(c) for c in p.waits): R.bad("reap","%s:never"%f.name,p.fc.loc(),"the parent does not wait for the workers it started"); return
    for c in p.waits:
        h,body=inner(f,c,p.loops)
        if h is None: R.bad("reap","%s:once"%f.name,c.loc(),"only one worker is waited for"); continue
        live=[q for q in f.blocks[h].instrs if q.op=="phi"]
        for v,lab in((0x100,"ended with status 1"),(0xff00,"ended with status 255"),(9,"was killed"),(139,"crashed")):
            r=p.sol(fork=MARK,forks=3,wait=MARK,stat=v)
            back=[(a,b) for a,b in r.edges if b==h and a in body]
            ok=False
            for q in live:
                vs=set()
                for o,b in zip(q.ops,q.x):
                    if (b,h) in back:
                        x=variants(f,o,q.id,0,r.edges); vs|={None} if x is None else x
                if vs=={-1}: ok=True
            k=next((x for x in p.kills if r.reaches(x)),None)
            e=next((x for x in calls(f,"exit","_exit") if r.reaches(x) and x.bb in after(f,c,r) and cint(x.ops[0])==0),None)
            if k: R.bad("reap","%s:kill:%d"%(f.name,v),k.loc(),"the other workers are killed although the worker %s without a proof"%lab)
            elif e: R.bad("reap","%s:exit:%d"%(f.name,v),e.loc(),"the parent reports success although the worker %s without a proof"%lab)
            elif not back: R.bad("reap","%s:left:%d"%(f.name,v),c.loc(),"the parent stops waiting for the other workers when one %s"%lab)
            elif not ok: R.bad("reap","%s:count:%d"%(f.name,v),c.loc(),"a worker which %s is not counted as ended: the parent goes on waiting for it"%lab)
            else: R.good("reap","%s: worker %s"%(f.name,lab))
        if c.callee=="waitpid" and (cint(c.ops[0])!=-1 or cint(c.ops[2])!=0): R.bad("reap","%s:any"%f.name,c.loc(),"the parent does not wait for whichever worker ends next")
        else: R.good("reap","%s %s"%(f.name,c.loc()))
        # a signal is no reason to stop waiting
        r=p.sol(fork=MARK,forks=3,wait=-1,eno=EINTR)
        if not any(b==h and a in body for a,b in r.edges): R.bad("reap","%s:signal"%f.name,c.loc(),"the parent stops waiting for the workers when a signal arrives")
        else: R.good("reap","%s: interrupted"%f.name)
        # nobody left to wait for
        r=p.sol(fork=MARK,forks=3,wait=-1,eno=ECHILD)
        if any(b==h and a in body for a,b in r.edges): R.bad("reap","%s:none"%f.name,c.loc(),"the parent goes on waiting when there is no worker left")
        else: R.good("reap","%s: none left"%f.name)
        # a proof
        r=p.sol(fork=MARK,forks=3,wait=MARK,stat=0)
        if any(b==h and a in body for a,b in r.edges): R.bad("proof","%s:on"%f.name,c.loc(),"the parent goes on waiting after a worker has found a proof")
        elif not any(r.reaches(k) for k in p.kills): R.bad("proof","%s:kill"%f.name,c.loc(),"the other workers are not stopped after a proof")
        else: R.good("proof","%s %s"%(f.name,c.loc()))
        ex=[x for x in calls(f,"exit","_exit") if r.reaches(x) and x.bb in after(f,c,r)]
        bad=next((x for x in ex if cint(x.ops[0])!=0),None)
        rets=[t for v,t,b in r.returns() if t.bb in after(f,c,r)]
        if bad: R.bad("proof","%s:status"%f.name,bad.loc(),"the parent ends with an error status although a worker found a proof")
        elif rets and any(v!=0 for v,t,b in r.returns() if t.bb in after(f,c,r)): R.bad("proof","%s:status"%f.name,rets[0].loc(),"the parent does not return success although a worker found a proof")
        else: R.good("proof","%s: success reported"%f.name)
        # who is killed
        r=p.sol(fork=MARK,forks=3,wait=MARK,stat=0,pid=0)
        k=next((x for x in p.kills if r.reaches(x)),None)
        if k: R.bad("victim","%s:zero"%f.name,k.loc(),"kill() is called for a cleared process number: it would hit the whole process group")
        else: R.good("victim","%s: cleared numbers are passed over"%f.name)
        for k in p.kills:
            o=strip(f,k.ops[0]); d=f.defs.get(o) if isinstance(o,int) else None
            if d is None or d.op!="load" or root(f,d.ops[0]) not in p.pids: R.bad("victim","%s:who"%f.name,k.loc(),"kill() is called for something else than a noted worker")
            elif cint(k.ops[1]) not in(9,15): R.bad("victim","%s:signal"%f.name,k.loc(),"the signal does not end a worker")
            else: R.good("victim","%s %s"%(f.name,k.loc()))
        for k in p.kills: scan(R,p,k,"stop",(0,MARK+1))
        wi={x.id for x in p.waits}
        for z in f.instrs():
            if z.op=="icmp" and z.bb in body and any(strip(f,o) in wi for o in z.ops if isinstance(o,int)):
                for o in z.ops:
                    d=f.defs.get(strip(f,o)) if isinstance(o,int) else None
                    if d is not None and d.op=="load" and root(f,d.ops[0]) in p.pids: scan(R,p,z,"note as ended",(0,MARK+1))
        zero=lambda r:[s for s in f.instrs() if s.op=="store" and cint(s.ops[0])==0 and root(f,s.ops[1]) in p.pids and s.bb in body and r.reaches(s)]
        for v in(0,0x100,9):
            if not zero(p.sol(fork=MARK,forks=3,wait=MARK,stat=v,pid=MARK)): R.bad("victim","%s:reaped:%d"%(f.name,v),c.loc(),"the number of an ended worker stays noted down: a new process which got the same number would be killed")
            else: R.good("victim","%s: ended worker removed (status %#x)"%(f.name,v))
            z=zero(p.sol(fork=MARK,forks=3,wait=MARK,stat=v,pid=MARK+1))
            if z: R.bad("victim","%s:other:%d"%(f.name,v),z[0].loc(),"the number of a worker which has not ended is removed: it would not be stopped after a proof")
            else: R.good("victim","%s: running worker kept (status %#x)"%(f.name,v))
def scan(R,p,i,what,pids):
    """the loop around i looks at the slots of all workers: from the first, one by one, to the number of those started"""
    f=p.f; h,body=inner(f,i,p.loops)
    if h is None or any(c.bb in body for c in p.waits): R.bad("victim","%s:all:%s"%(f.name,what),i.loc(),"not all noted workers are looked at to %s"%what); return
    cs=[c for c in counters(f,h,body) if all(variants(f,o,c.id)=={1} for o,b in zip(c.ops,c.x) if b in body)]
    ids={c.id for c in cs}; bad=None; lim=None
    for pid in pids:
        for v in range(4):
            r=p.sol(fork=MARK,forks=3,k=3,wait=MARK,stat=0,pid=pid,extra=lambda x:v if x.id in ids else None)
            if h not in r.blocks: continue
            out=[f.blocks[x].term for x in body for y in f.blocks[x].succs if y not in body and (x,y) in r.edges]
            if v<3 and out: bad=out[0]
            if v==3 and (not out or i.bb in r.blocks): bad=i
            lim=3
    if not cs or bad or lim is None: R.bad("victim","%s:all:%s"%(f.name,what),(bad or i).loc(),"the search for workers to %s can end before all noted workers were looked at"%what)
    else: R.good("victim","%s: all are looked at to %s"%(f.name,what))
def after(f,c,r):
    seen=set(); w=[c.bb]
    while w:
        b=w.pop()
        if b in seen: continue
        seen.add(b); w+=[x for x in f.blocks[b].succs if (b,x) in r.edges]
    return seen
ANSWER={"wr_have_answers":0,"wr_prop_solve_current":1}
def values(f,o,r,edges=None,seen=None):
    """every value o can have on the executable edges, None when one is not known"""
    seen=set() if seen is None else seen
    v=r.val(o)
    if v is not None: return {v}
    o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) else None
    if i is None: return None
    if i.id in seen: return set()
    seen.add(i.id)
    if i.op=="phi": ops=[x for x,b in zip(i.ops,i.x) if (b,i.bb) in (edges if edges is not None and any((q,i.bb) in edges for q in i.x) else r.edges)]
    elif i.op=="select": ops=i.ops[1:]
    else: return None
    out=set()
    for x in ops:
        z=values(f,x,r,edges,seen)
        if z is None: return None
        out|=z
    return out
CMP={"eq":lambda a,b:a==b,"ne":lambda a,b:a!=b,"slt":lambda a,b:a<b,"sle":lambda a,b:a<=b,"sgt":lambda a,b:a>b,"sge":lambda a,b:a>=b}
def refined(p,extra,**k):
    """solve again with the comparisons settled whose operand has only values on one side"""
    forced={}
    def o(i):
        if i.op=="icmp" and i.id in forced: return forced[i.id]
        return extra(i) if extra else None
    for _ in range(8):
        r=p.sol(extra=o,**k); new={}
        for i in p.f.instrs():
            if i.op!="icmp" or i.bb not in r.blocks or i.id in forced or r.val(i.id) is not None or i.x[0] not in CMP: continue
            c=cint(i.ops[1])
            if c is None: continue
            z=values(p.f,i.ops[0],r)
            if not z: continue
            t={CMP[i.x[0]](a,c) for a in z}
            if len(t)==1: new[i.id]=int(t.pop())
        if not new: break
        forced.update(new)
    return r
def result(R,p):
    """what a run without a proof returns"""
    f=p.f; ids={c.id for c in p.search}
    for v in FAIL:
        def o(i):
            if i.id in ids: return v
            if i.op=="call" and i.callee in ANSWER: return ANSWER[i.callee]
            if fieldload(i,"proof_found"): return 0
            return None
        r=refined(p,o,fork=0,forks=3)
        bad=[f.blocks[b].term for b in r.blocks if f.blocks[b].term.op=="ret" and not(lambda z:z is not None and 0 not in z)(values(f,f.blocks[b].term.ops[0],r))]
        sh=[c for c in calls(f,"wr_show_result") if r.reaches(c)]
        if bad: R.bad("result","%s:%d"%(f.name,v),bad[0].loc(),"%s() can return 0, the mark of a proof, when the search gave %d"%(f.name,v))
        elif sh: R.bad("result","%s:shown:%d"%(f.name,v),sh[0].loc(),"a result is shown when the search gave %d"%v)
        else: R.good("result","%s: search gave %d"%(f.name,v))
    # a proof is shown before 0 is returned
    for c in p.search:
        r=sccp.Onward(f,c,0,p.oracle(fork=0,forks=3,extra=lambda i:0 if i.id in ids or fieldload(i,"errflag") else None))
        bad=r.must(lambda i:i.op=="call" and i.callee=="wr_show_result")
        if bad: R.bad("result","%s:silent"%f.name,c.loc(),"%s() can end after a search which found a proof without showing it"%f.name)
        else: R.good("result","%s %s: shown"%(f.name,c.loc()))
    # answers found by a search which ended otherwise (fewer than asked for) are shown as well; the exit says that not as many were found as asked for
    for c in p.search:
        for v in (1,2):
            def o(i):
                if i.id in ids: return v
                if i.op=="call" and i.callee=="wr_have_answers": return 1
                if i.op=="call" and i.callee=="wr_prop_solve_current": return 1
                if i.op=="call" and i.callee.startswith("wr_glb_init_"): return 0      # memory does not run out
                if fieldload(i,"errflag"): return 0
                return None
            r=sccp.Onward(f,c,v,p.oracle(fork=0,forks=3,extra=o))
            bad=r.must(lambda i:i.op=="call" and i.callee=="wr_show_result")
            if bad: R.bad("result","%s:answers lost:%d"%(f.name,v),c.loc(),"answers found by a search which ended with %d (its time or clauses ran out before as many were found as asked for) can be lost: %s() ends without showing them"%(v,f.name))
            else: R.good("result","%s %s: answers with %d"%(f.name,c.loc(),v))
def status(R,P,pool):
    """the exit status of a worker is what the parent takes it for"""
    for f in P.fns.values():
        for c in calls(f,pool.f.name):
            if not f.file or not f.file.endswith("gkc.c"): continue
            gp=calls(f,"getpid"); pre=[g for g in gp if f.dominates(g,c) or c.bb not in reach(f,g.bb,g,c)]
            pre=[g for g in gp if before(f,g,c)]
            for v in FAIL:
                r=sccp.solve(f,orc(c,v,gp,pre,True))
                A=after(f,c,r)
                bad=[t for x,t,b in r.returns() if b in A and t.bb in A and (x is None or x&0xff==0)]
                pr=first_print(f,c,r)
                if bad: R.bad("status","%s|%s:%d"%(f.name,site(c),v),bad[0].loc(),"a worker without a proof (%d) can end with the status 0, which the parent takes for a proof: it stops the other workers"%v)
                else: R.good("status","%s %s: %d"%(f.name,c.loc(),v))
                if pr: R.bad("report","%s|%s:%d"%(f.name,site(c),v),pr.loc(),"a worker without a proof reports the result of the whole search")
                else: R.good("report","%s %s: %d"%(f.name,c.loc(),v))
            for other in(True,False):
                r=sccp.solve(f,orc(c,0,gp,pre,other)); A=after(f,c,r)
                bad=[t for x,t,b in r.returns() if b in A and t.bb in A and x!=0]
                pr=first_print(f,c,r)
                if bad: R.bad("status","%s|%s:found:%d"%(f.name,site(c),other),bad[0].loc(),"the process ends with an error status after a proof")
                elif pr: R.bad("report","%s|%s:found:%d"%(f.name,site(c),other),pr.loc(),"a message is printed after a proof was shown")
                else: R.good("status","%s %s: proof"%(f.name,c.loc()))
            r=sccp.solve(f,orc(c,1,gp,pre,False))
            if not first_print(f,c,r): R.bad("report","%s|%s:silent"%(f.name,site(c)),c.loc(),"nobody reports that no proof was found")
            else: R.good("report","%s %s: by the parent"%(f.name,c.loc()))
def orc(c,v,gp,pre,other):
    ids={g.id for g in gp}; pi={g.id for g in pre}
    def o(i):
        if i.id==c.id and i.bb==c.bb: return v
        if i.id in ids and i.op=="call": return 100 if i.id in pi or not other else 200
        return None
    return o
def before(f,g,c):
    """g is executed before c, not after it"""
    if g.bb==c.bb: return g.idx<c.idx
    return not (g.bb in rs(f,c.bb))
def rs(f,b):
    seen=set(); w=list(f.blocks[b].succs)
    while w:
        x=w.pop()
        if x in seen: continue
        seen.add(x); w+=f.blocks[x].succs
    return seen
def reach(f,b,g,c): return rs(f,b)
def site(c): return "%s"%(c.callee)+("@%s"%field0(c))
def field0(c):
    """which of the calls: by the number of the call in the function"""
    return [x for x in c.fn.instrs() if x.op=="call" and x.callee==c.callee].index(c)
def first_print(f,c,r):
    A=after(f,c,r)
    for b in A:
        for i in f.blocks[b].instrs:
            if b==c.bb and i.idx<=c.idx: continue
            if i.op=="call" and i.callee in PRINT: return i
    return None
def deadline(R,P):
    """the time limit given ends everything"""
    for f in P.fns.values():
        for c in calls(f,"signal"):
            if cint(c.ops[0])!=14 or not f.file or f.file.split("/")[0]!="Main": continue
            h=c.ops[1][1:] if isinstance(c.ops[1],str) else None
            g=P.fns.get(h)
            if g is None: R.bad("deadline","%s:handler"%f.name,c.loc(),"the handler of the time limit is not a function of the program"); continue
            r=sccp.solve(g)
            ends=lambda b:any(i.op=="call" and i.callee in("exit","_exit","abort") for i in g.blocks[b].instrs)
            w=[0]; seen=set(); bad=None
            while w:
                b=w.pop()
                if b in seen or ends(b): continue
                seen.add(b); t=g.blocks[b].term
                if t.op=="ret": bad=t
                w+=[x for x in g.blocks[b].succs if (b,x) in r.edges]
            if bad: R.bad("deadline","%s:returns"%g.name,bad.loc(),"the handler of the time limit can return: the search would go on after the limit")
            else: R.good("deadline","%s ends the process"%g.name)
            al=[a for a in calls(f,"alarm") if a.bb in rs(f,c.bb)|{c.bb}]
            run=[x for x in f.instrs() if x.op=="call" and x.callee in("wg_run_reasoner",)]
            if not al: R.bad("deadline","%s:alarm"%f.name,c.loc(),"no alarm is set for the time limit")
            else:
                o=strip(f,al[0].ops[0])
                d=f.defs.get(o) if isinstance(o,int) else None; at=d.ops[0] if d is not None and d.op=="load" else None
                r=sccp.solve(f,lambda i:5 if i.id==o or at is not None and i.op=="load" and i.ops[0]==at else None)
                miss=None; w=[0]; seen=set()
                while w:
                    b=w.pop()
                    if b in seen or any(a.bb==b for a in al): continue
                    seen.add(b)
                    if any(x.bb==b for x in run): miss=next(x for x in run if x.bb==b)
                    w+=[x for x in f.blocks[b].succs if (b,x) in r.edges]
                if miss: R.bad("deadline","%s:unset"%f.name,miss.loc(),"a search can be started without an alarm although a time limit was given")
                else: R.good("deadline","%s %s"%(f.name,al[0].loc()))
def run(R):
    P=Prog("gkc")
    R.rule("share","every run of the strategy is made by exactly one process: one of the workers, or the only process",3)
    R.rule("start","workers are started by the parent only, at most as many as there is room to note down, and each started one is noted down",4)
    R.rule("orphan","a worker ends with its parent",1)
    R.rule("reap","a worker which ended without a proof, in whatever way, is counted as ended, and the others go on",4)
    R.rule("proof","after a proof the parent stops waiting, stops the others and reports success",2)
    R.rule("victim","only workers which are still running are killed",4)
    R.rule("result","a run returns 0 exactly when it has shown a proof",3)
    R.rule("status","a worker ends with the status 0 exactly when it found a proof",4)
    R.rule("report","a worker without a proof leaves it to the parent to say so",2)
    R.rule("deadline","a time limit ends the process which waits for the workers, and with it the workers",2)
    ws=[f for f in P.fns.values() if calls(f,"fork") and calls(f,SEARCH)]
    for f in ws:
        p=Pool(P,f)
        share(R,p); start(R,p); orphan(R,p); reap(R,p); result(R,p); status(R,P,p)
    if not ws:
        g=next((f for f in P.fns.values() if calls(f,SEARCH)),None)
        if g: R.bad("start","%s:none"%g.name,calls(g,SEARCH)[0].loc(),"no worker is ever started")
    deadline(R,P)
    R.note("functions which start workers",[f.name for f in ws])
    R.assume.append("waitpid, kill, fork, prctl and exit behave as POSIX and Linux specify them")
    R.assume.append("the interleaving of the workers themselves does not matter: they share no memory they write (C01)")
if __name__=="__main__": check.main("C16","conditional constant propagation over the process-control code",run)
