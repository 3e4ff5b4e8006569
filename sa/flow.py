"""Path-sensitive interprocedural typestate engine (property-simulation style).

A client supplies   event(instr) -> bool          : does the instruction change/inspect the state
                    step(instr,state,ctx) -> list of (newstate, retfact or None)   for event instructions
                    (retfact: known value class of the instruction result: int, or 'nz')
Branch facts: for SSA values that feed branch conditions we remember 'equal k' / 'non-zero' along a path, so that
correlated tests (status flags, result variables, nested checks of the same option) do not create infeasible paths.
Option fields that a function (with everything it calls) never writes are treated as one value per function."""
from core import *
class TooBig(Exception): pass
FACTOPS={"icmp","zext","sext","trunc","phi","xor","select","freeze","and","or","load","call","add","sub"}
class Summary: pass
def written_fields(prog):
    """fn -> set of (struct,field) stored to by fn or anything it may call; '*' elements ignored"""
    direct={}
    for f in prog.fns.values():
        s=set()
        for i in f.instrs():
            if i.op=="store":
                a=addr(f,i.ops[1])
                if a[0]=="field": s.add((a[1],a[2]))
            elif i.op=="getelementptr":
                # address of a field that escapes (passed on / stored): treat as written
                a=addr(f,i.id)
                if a[0]=="field":
                    for u in f.uses.get(i.id,()):
                        if u.op in("load","getelementptr","icmp"): continue
                        if u.op=="store" and u.ops[1]==i.id and u.ops[0]!=i.id: continue
                        s.add((a[1],a[2])); break
        direct[f.name]=s
    cg=prog.callgraph
    # transitive closure by iterating over SCC-free worklist
    rev=defaultdict(set)
    for f,m in cg.items():
        for c in m: rev[c].add(f)
    full={f:set(s) for f,s in direct.items()}
    w=list(full)
    while w:
        x=w.pop()
        for p in rev.get(x,()):
            if not full[x]<=full[p]:
                full[p]|=full[x]; w.append(p)
    return full
def stable_loads(prog,f,wf):
    """map load id -> canonical id for loads of never-written scalar fields of a struct reached from the same base"""
    canon={}; first={}
    def root(o,d=0):
        o=strip(f,o,("bitcast","ptrtoint","inttoptr"))
        if isinstance(o,int) and o>=len(f.args):
            i=f.defs[o]
            if i.op=="load":
                a=addr(f,i.ops[0])
                if a[0]=="field" and (a[1],a[2]) not in wf and not a[4][1:-1]:
                    r=root(a[3],d+1)
                    return None if r is None else ("ld",r,a[1],a[2])
                return ("v",o)
            return ("v",o)
        return ("v",o)
    order=f.rpo()
    for b in order:
        for i in f.blocks[b].instrs:
            if i.op!="load": continue
            a=addr(f,i.ops[0])
            if a[0]!="field" or (a[1],a[2]) in wf: continue
            if any(not (isinstance(z,str) and z.startswith("c:")) for z in a[4]): continue
            r=root(a[3])
            k=(r,a[1],a[2],tuple(a[4]))
            if r[0]=="v" and isinstance(r[1],int) and r[1]>=len(f.args):
                # base must dominate all uses: it is an SSA value, fine, but may be redefined in a loop
                if f.defs[r[1]].bb in f.reach()[f.defs[r[1]].bb]: continue
            if k in first: canon[i.id]=first[k]
            else: first[k]=i.id
    return canon
class FnInfo:
    def __init__(s,prog,f,wf):
        s.f=f
        s.canon=stable_loads(prog,f,wf.get(f.name,set()))
        # ids relevant to branch outcomes / returns
        rel=set(); w=[]
        def push(o):
            if isinstance(o,int):
                o=s.canon.get(o,o)
                if o not in rel: rel.add(o); w.append(o)
        for b in f.blocks:
            t=b.term
            if t.op in("br","switch") and t.ops: push(t.ops[0])
            if t.op=="ret" and t.ops and f.ret in("i1","i8","i16","i32","i64","ptr"): push(t.ops[0])
        while w:
            o=w.pop()
            i=f.defs.get(o)
            if i is None: continue
            if i.op in("icmp","zext","sext","trunc","phi","xor","freeze","and","select"):
                for z in i.ops: push(z)
        s.rel=rel
        # block-level liveness of relevant ids
        use=[set() for _ in f.blocks]; df=[set() for _ in f.blocks]; phiuse=defaultdict(set)
        cset=set(s.canon.values())
        # values reached through operand chains stay interesting: when an icmp on v is evaluated v must be live
        for b in f.blocks:
            for i in b.instrs:
                if i.op=="phi":
                    for o,p in zip(i.ops,i.x):
                        if isinstance(o,int): phiuse[p].add(s.canon.get(o,o))
                else:
                    for o in flat_ops(i):
                        o=s.canon.get(o,o)
                        if o not in df[b.n]: use[b.n].add(o)
                    if i.id in s.canon:
                        c=s.canon[i.id]
                        if c not in df[b.n]: use[b.n].add(c)
                df[b.n].add(i.id)
        live=[set() for _ in f.blocks]
        ch=True
        while ch:
            ch=False
            for b in reversed(f.blocks):
                out=set(phiuse[b.n])
                for x in b.succs: out|=live[x]
                n=use[b.n]|(out-df[b.n])
                if b.n==0: pass
                if n!=live[b.n]: live[b.n]=n; ch=True
        s.live=[l&rel for l in live]
class Engine:
    MAXSTEPS=400000
    WIDTH=12   # distinct fact sets kept per (block,state) before they are joined
    def __init__(s,prog,client,wf=None):
        s.prog=prog; s.client=client; s.wf=wf if wf is not None else written_fields(prog)
        s.info={}; s.memo={}; s.deps=defaultdict(set); s.queue=[]; s.curkey=None; s.steps=0; s.runs=0
        # functions that transitively contain an event
        ev=set()
        for f in prog.fns.values():
            for i in f.instrs():
                if client.event(i): ev.add(f.name); break
        rev=defaultdict(set)
        for f,m in prog.callgraph.items():
            for c in m: rev[c].add(f)
        w=list(ev)
        while w:
            x=w.pop()
            for p in rev.get(x,()):
                if p not in ev: ev.add(p); w.append(p)
        s.eventful=ev-set(getattr(client,"opaque",()))
    def fi(s,f):
        if f.name not in s.info: s.info[f.name]=FnInfo(s.prog,f,s.wf)
        return s.info[f.name]
    # ---- value facts
    def val(s,fi,o,env):
        c=cint(o)
        if c is not None: return c
        if isinstance(o,str):
            if o[0] in "&@": return "nz"
            return None
        if isinstance(o,list): return "nz" if o[0]=="getelementptr" else None
        o=fi.canon.get(o,o)
        return env.get(o)
    def evalop(s,fi,i,env):
        op=i.op
        if op in("zext","sext","trunc","freeze","ptrtoint","inttoptr","bitcast"):
            v=s.val(fi,i.ops[0],env)
            if op=="trunc" and v=="nz": return None
            if op=="zext" and i.x=="i1" and v==-1: return 1
            if op=="sext" and i.x=="i1" and v in(1,-1): return -1
            return v
        if op=="icmp":
            a=s.val(fi,i.ops[0],env); b=s.val(fi,i.ops[1],env); p=i.x[0]
            if isinstance(a,int) and isinstance(b,int):
                r={"eq":a==b,"ne":a!=b,"sgt":a>b,"sge":a>=b,"slt":a<b,"sle":a<=b}.get(p)
                if r is None and a>=0 and b>=0: r={"ugt":a>b,"uge":a>=b,"ult":a<b,"ule":a<=b}.get(p)
                return None if r is None else int(r)
            if (a=="nz" and b==0) or (b=="nz" and a==0):
                return {"eq":0,"ne":1}.get(p)
            if i.ops[0]==i.ops[1]: return {"eq":1,"ne":0}.get(p)
            return None
        if op=="xor":
            v=s.val(fi,i.ops[0],env); c=cint(i.ops[1])
            if i.ty=="i1" and isinstance(v,int) and c in(1,-1): return 0 if v else 1
            return None
        if op=="and":
            a=s.val(fi,i.ops[0],env); b=s.val(fi,i.ops[1],env)
            if a==0 or b==0: return 0
            if isinstance(a,int) and isinstance(b,int): return a&b
            return None
        if op=="select":
            c=s.val(fi,i.ops[0],env)
            if c==0: return s.val(fi,i.ops[2],env)
            if c is not None: return s.val(fi,i.ops[1],env)
            a=s.val(fi,i.ops[1],env); b=s.val(fi,i.ops[2],env)
            return a if a==b else None
        if op in("add","sub"):
            a=s.val(fi,i.ops[0],env); b=s.val(fi,i.ops[1],env)
            if isinstance(a,int) and isinstance(b,int): return a+b if op=="add" else a-b
            return None
        if op in("alloca","getelementptr"): return "nz" if op=="alloca" else None
        return None
    def refine(s,fi,o,truth,env,d=0):
        """assume operand o is nonzero(truth)/zero; returns new env or None if contradictory"""
        if d>8: return env
        c=cint(o)
        if c is not None: return env if bool(c)==truth else None
        if not isinstance(o,int): return env
        o=fi.canon.get(o,o)
        k=env.get(o)
        i=fi.f.defs.get(o)
        if k is not None:
            t=(k=="nz") or k!=0
            if t!=truth: return None
        if o in fi.rel and (k is None):
            env=dict(env); env[o]=(1 if (i is not None and i.ty=="i1") else "nz") if truth else 0
        if i is None: return env
        if i.op in("zext","sext","freeze") or (i.op in("bitcast","ptrtoint","inttoptr")): return s.refine(fi,i.ops[0],truth,env,d+1)
        if i.op=="trunc" and truth: return s.refine(fi,i.ops[0],truth,env,d+1)
        if i.op=="xor" and i.ty=="i1" and cint(i.ops[1]) in(1,-1): return s.refine(fi,i.ops[0],not truth,env,d+1)
        if i.op=="icmp":
            p=i.x[0]; a,b=i.ops
            ca=s.val(fi,a,env); cb=s.val(fi,b,env)
            if isinstance(ca,int) and not isinstance(cb,int): a,b,ca,cb=b,a,cb,ca; p={"sgt":"slt","slt":"sgt","sge":"sle","sle":"sge"}.get(p,p)
            if isinstance(cb,int):
                eq=(p=="eq" and truth) or (p=="ne" and not truth)
                ne=(p=="ne" and truth) or (p=="eq" and not truth)
                if eq: return s.seteq(fi,a,cb,env,d+1)
                if ne:
                    if ca==cb: return None
                    if cb==0: return s.refine(fi,a,True,env,d+1)
                    return env
                gt0=(p=="sgt" and truth and cb>=0) or (p=="slt" and truth and cb<=0) or (p=="sge" and truth and cb>0) or (p=="sle" and truth and cb<0) or (p=="sle" and not truth and cb>=0) or (p=="sge" and not truth and cb<=0)or (p=="ugt" and truth)
                if isinstance(ca,int):
                    r={"sgt":ca>cb,"sge":ca>=cb,"slt":ca<cb,"sle":ca<=cb}.get(p)
                    if r is not None and r!=truth: return None
                if gt0 and ca is None: return s.refine(fi,a,True,env,d+1)
                if gt0 and ca==0: return None
        return env
    def seteq(s,fi,o,k,env,d=0):
        if k==0: return s.refine(fi,o,False,env,d)
        c=cint(o)
        if c is not None: return env if c==k else None
        if not isinstance(o,int): return env
        o=fi.canon.get(o,o)
        v=env.get(o)
        if isinstance(v,int) and v!=k: return None
        if o in fi.rel: env=dict(env); env[o]=k
        i=fi.f.defs.get(o)
        if i is not None and i.op in("sext","zext") and d<8: return s.seteq(fi,i.ops[0],k,env,d+1)
        return env
    # ---- summaries: global worklist fixpoint over (function, entry state, known arguments)
    def call(s,name,state,argfacts=()):
        """query from inside run(): current summary of the callee (registers the dependency)"""
        if name not in s.eventful: return None
        key=(name,state,argfacts)
        s.deps[key].add(s.curkey)
        if key not in s.memo:
            s.memo[key]=frozenset(); s.queue.append(key)
        return s.memo[key]
    def solve(s,name,state,argfacts=()):
        """summary of function `name` entered in `state`: set of (exitstate, retfact)"""
        if name not in s.eventful: return None
        root=(name,state,argfacts)
        if root not in s.memo: s.memo[root]=frozenset(); s.queue.append(root)
        inq=set(s.queue)
        while s.queue:
            key=s.queue.pop(); inq.discard(key)
            s.curkey=key
            r=frozenset(s.run(s.prog.fns[key[0]],key[1],dict(key[2])))|s.memo[key]
            s.runs+=1
            for k in s.queue: inq.add(k)
            if r!=s.memo[key]:
                s.memo[key]=r
                for d in s.deps[key]:
                    if d is not None and d not in inq: s.queue.append(d); inq.add(d)
        s.curkey=None
        return s.memo[root]
    def run(s,f,state,args=None,trace=False):
        fi=s.fi(f); cl=s.client
        env0={k:v for k,v in (args or {}).items() if k in fi.rel}
        exits=set(); seen=set(); cnt=defaultdict(int); joined={}
        w=[(0,state,frozenset(env0.items()),None)]
        parents={} if trace else None
        n=0
        while w:
            bb,st,envf,par=w.pop()
            key=(bb,st,envf)
            if key in seen: continue
            if cnt[(bb,st)]>=s.WIDTH:
                j=joined.get((bb,st)); j2=envf if j is None else j&envf
                if j==j2: continue
                joined[(bb,st)]=j2; envf=j2; key=(bb,st,envf)
                if key in seen: continue
            cnt[(bb,st)]+=1
            seen.add(key)
            if trace: parents[key]=par
            n+=1
            if n>s.MAXSTEPS: raise TooBig(f.name)
            b=f.blocks[bb]
            cur=[(st,dict(envf))]
            for i in b.instrs:
                if i.op=="phi": continue
                if i.op in TERMS: break
                nxt=[]
                if cl.event(i):
                    for (q,env) in cur:
                        for q2,rf in cl.step(i,q,CallCtx(s,fi,f,i,env,key,parents)):
                            e=env
                            if i.id in fi.rel:
                                e=dict(env); e.pop(i.id,None)
                                if rf is not None: e[i.id]=rf
                            nxt.append((q2,e))
                    cur=dedupe(nxt); continue
                if i.op=="call":
                    c=i.callee
                    tg=[c] if c else [t for t in s.prog.callgraph[f.name] if i in s.prog.callgraph[f.name][t]]
                    tg=[t for t in tg if t in s.eventful]
                    if tg:
                        for (q,env) in cur:
                            for t in tg:
                                g=s.prog.fns[t]; gi=s.fi(g)
                                af=[]
                                for k,o in enumerate(i.ops[:len(g.args)]):
                                    if k in gi.rel:
                                        v=s.val(fi,o,env)
                                        if v is not None: af.append((k,v if v in(0,1,-1,'nz') else 'nz'))
                                for q2,rf in s.call(t,q,tuple(af)):
                                    e=env
                                    if i.id in fi.rel:
                                        e=dict(env); e.pop(i.id,None)
                                        if rf is not None: e[i.id]=rf
                                    nxt.append((q2,e))
                        cur=dedupe(nxt); continue
                    if i.id in fi.rel:
                        rf=None
                        if hasattr(cl,"retfact"): rf=cl.retfact(i)
                        for (q,env) in cur:
                            e=dict(env); e.pop(i.id,None)
                            if rf is not None: e[i.id]=rf
                            nxt.append((q,e))
                        cur=nxt
                    if c in NORETURN: cur=[]; break
                    continue
                if i.id in fi.rel and i.id not in fi.canon:
                    for k,(q,env) in enumerate(cur):
                        v=s.evalop(fi,i,env)
                        if i.op=="load" and i.id in fi.canon.values() and i.id in env: continue
                        if v!=env.get(i.id):
                            env=dict(env); env.pop(i.id,None)
                            if v is not None: env[i.id]=v
                            cur[k]=(q,env)
            t=b.term
            for (q,env) in cur:
                if t.op=="ret":
                    rf=s.val(fi,t.ops[0],env) if t.ops else None
                    ex=(q,rf)
                    if hasattr(cl,"on_exit"): cl.on_exit(f,t,q,rf,key,parents)
                    exits.add(ex); continue
                outs=[]
                if t.op=="br":
                    if len(t.x)==1: outs=[(t.x[0],env)]
                    else:
                        e=s.refine(fi,t.ops[0],True,env)
                        if e is not None: outs.append((t.x[0],e))
                        e=s.refine(fi,t.ops[0],False,env)
                        if e is not None: outs.append((t.x[1],e))
                        if hasattr(cl,"branch"):
                            outs2=[]
                            for d,e in outs:
                                q2=cl.branch(t,d==t.x[0],q,fi)
                                if q2 is not None: outs2.append((d,e,q2))
                            outs=outs2
                elif t.op=="switch":
                    v=s.val(fi,t.ops[0],env)
                    byd=defaultdict(list)
                    for k,d in t.x[1]: byd[d].append(k)
                    if isinstance(v,int):
                        d=[d for k,d in t.x[1] if k==v]
                        outs=[(d[0] if d else t.x[0],env)]
                    else:
                        for d,ks in byd.items():
                            e=env
                            if len(ks)==1 and d!=t.x[0]: e=s.seteq(fi,t.ops[0],ks[0],env)
                            if e is not None: outs.append((d,e))
                        if t.x[0] not in byd: outs.append((t.x[0],env))
                for o in outs:
                    d,e=o[0],o[1]; q2=o[2] if len(o)>2 else q
                    # phi
                    ne=None
                    for ph in f.blocks[d].instrs:
                        if ph.op!="phi": break
                        if ph.id not in fi.rel: continue
                        k=ph.x.index(bb)
                        v=s.val(fi,ph.ops[k],e)
                        if ne is None: ne=dict(e)
                        ne.pop(ph.id,None)
                        if v is not None: ne[ph.id]=v
                    if ne is None: ne=e
                    lv=fi.live[d]; phis={p.id for p in f.blocks[d].instrs if p.op=="phi"}
                    ef=frozenset((k,v) for k,v in ne.items() if k in lv or k in phis)
                    w.append((d,q2,ef,key))
        s.steps+=n
        return exits
NORETURN={"exit","abort","_exit","__assert_fail"}
def dedupe(l):
    seen=set(); r=[]
    for q,e in l:
        k=(q,frozenset(e.items()))
        if k not in seen: seen.add(k); r.append((q,e))
    return r
class CallCtx:
    __slots__=("eng","fi","f","i","env","key","parents")
    def __init__(s,eng,fi,f,i,env,key,parents): s.eng=eng; s.fi=fi; s.f=f; s.i=i; s.env=env; s.key=key; s.parents=parents
    def val(s,o): return s.eng.val(s.fi,o,s.env)
def path_lines(f,key,parents):
    """source lines of the blocks on the recorded path to key"""
    r=[]; k=key; n=0
    while k is not None and n<400:
        b=f.blocks[k[0]]
        l=[i.line for i in b.instrs if i.line]
        if l: r.append(l[-1])
        k=parents.get(k); n+=1
    r=r[::-1]; o=[]
    for x in r:
        if not o or o[-1]!=x: o.append(x)
    return o
