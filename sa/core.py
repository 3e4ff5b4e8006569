"""In-memory IR model, CFG utilities, value provenance."""
import json, sys, os, re, time
from collections import defaultdict
import build
from build import AnalysisBroken
sys.setrecursionlimit(20000)
TERMS={"br","switch","ret","unreachable","indirectbr"}
class Instr:
    __slots__=("id","op","ty","ops","x","line","file","name","bb","fn","idx")
    def __init__(s,fn,bb,idx,a):
        s.fn=fn; s.bb=bb; s.idx=idx
        s.id,s.op,s.ty,s.ops,s.x,s.line,s.file,s.name=a
    @property
    def callee(s):
        if s.op!="call": return None
        return s.x[1:] if isinstance(s.x,str) and s.x.startswith("&") else None
    def loc(s):
        l=s.line
        if not l:
            b=s.fn.blocks[s.bb]
            for i in b.instrs[s.idx:]+b.instrs[:s.idx][::-1]:
                if i.line: l=i.line; break
        return "%s:%d"%(s.file or s.fn.file,l)
    def __repr__(s): return "<%s#%d %s %s>"%(s.fn.name,s.id,s.op,s.loc())
class Block:
    __slots__=("n","instrs","succs","preds")
    def __init__(s,n): s.n=n; s.instrs=[]; s.succs=[]; s.preds=[]
    @property
    def term(s): return s.instrs[-1]
def cint(o):
    """constant integer value of operand or None"""
    if isinstance(o,str) and o.startswith("c:"): return int(o[2:])
    if o=="null": return 0
    return None
class Fn:
    _hdr=None
    def __init__(s,d,prog):
        s.prog=prog; s.name=d["name"]; s.file=d["file"]; s.line=d["line"]; s.ret=d["ret"]; s.args=d["args"]; s.local=d["local"]; s.va=d["va"]
        s._raw=d["blocks"]; s._b=None; s._dom=None; s._pdom=None; s._uses=None; s._defs=None; s._reach=None
    @property
    def blocks(s):
        if s._b is None: s._mk()
        return s._b
    @property
    def defs(s):
        if s._b is None: s._mk()
        return s._defs
    def _mk(s):
        bs=[]; defs={}
        for n,b in enumerate(s._raw):
            B=Block(n)
            for k,a in enumerate(b):
                i=Instr(s,n,k,a); B.instrs.append(i); defs[i.id]=i
            bs.append(B)
        for B in bs:
            t=B.term
            if t.op=="br": B.succs=list(t.x)
            elif t.op=="switch":
                B.succs=[t.x[0]]+[c[1] for c in t.x[1]]
            seen=[]
            for x in B.succs:
                if x not in seen: seen.append(x)
            for x in seen: bs[x].preds.append(B.n)
        s._b=bs; s._defs=defs; s._raw=None
    def instrs(s):
        for b in s.blocks:
            for i in b.instrs: yield i
    def calls(s,name=None):
        for i in s.instrs():
            if i.op=="call" and (name is None or i.callee==name or (isinstance(name,(set,frozenset,tuple,list,dict)) and i.callee in name)): yield i
    @property
    def uses(s):
        if s._uses is None:
            u=defaultdict(list)
            for i in s.instrs():
                for o in flat_ops(i):
                    u[o].append(i)
            s._uses=u
        return s._uses
    # dominators (simple iterative over RPO)
    def rpo(s):
        seen=set(); order=[]
        st=[(0,iter(s.blocks[0].succs))]; seen.add(0)
        while st:
            n,it=st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); st.append((x,iter(s.blocks[x].succs))); break
            else:
                order.append(n); st.pop()
        return order[::-1]
    @property
    def dom(s):
        """dom[b] = set of blocks dominating b"""
        if s._dom is None:
            order=s.rpo(); allb=set(order)
            dom={b:set(allb) for b in order}; dom[0]={0}
            ch=True
            while ch:
                ch=False
                for b in order:
                    if b==0: continue
                    ps=[dom[p] for p in s.blocks[b].preds if p in dom]
                    n=set.intersection(*ps) if ps else set()
                    n=n|{b}
                    if n!=dom[b]: dom[b]=n; ch=True
            s._dom=dom
        return s._dom
    def dominates(s,a,b):
        """instr a dominates instr b"""
        if a.bb==b.bb: return a.idx<b.idx
        return a.bb in s.dom.get(b.bb,())
    def reach(s):
        """reach[b] = set of blocks reachable from b by >=1 edges"""
        if s._reach is None:
            r={}
            for b in range(len(s.blocks)):
                seen=set(); w=list(s.blocks[b].succs)
                while w:
                    x=w.pop()
                    if x in seen: continue
                    seen.add(x); w.extend(s.blocks[x].succs)
                r[b]=seen
            s._reach=r
        return s._reach
    def edge_conds(s,bb):
        """conditions that must hold on entry of bb: list of (cond operand id, truth) from dominating branches
           (an edge p->t such that t is only entered through that edge, and t dominates bb)."""
        out=[]
        for d in s.dom[bb]:
            ps=s.blocks[d].preds
            if len(ps)!=1: continue
            t=s.blocks[ps[0]].term
            if t.op=="br" and len(t.x)==2 and t.x[0]!=t.x[1]:
                out.append((t.ops[0],t.x[0]==d,t))
            elif t.op=="switch":
                vals=[c[0] for c in t.x[1] if c[1]==d]
                if t.x[0]!=d and vals: out.append((("sw",t.ops[0],tuple(vals)),True,t))
                elif t.x[0]==d and not vals: out.append((("sw",t.ops[0],tuple(c[0] for c in t.x[1])),False,t))
        return out
def flat_ops(i):
    r=[]
    def g(o):
        if isinstance(o,int): r.append(o)
        elif isinstance(o,list):
            for z in o[1]: g(z)
    for o in i.ops: g(o)
    if i.op=="call" and not isinstance(i.x,str): g(i.x)
    return r
class Prog:
    def __init__(s,variant="gkc",inline=True,fold=()):
        t=time.time()
        s.variant=variant
        s.fns={}; s.structs={}; s.globals={}; s.decls={}; s.enums={}
        p=build.facts(variant,inline,fold)
        for l in open(p):
            d=json.loads(l); k=d["k"]
            if k=="fn": s.fns[d["name"]]=Fn(d,s)
            elif k=="struct": s.structs[d["name"]]=d
            elif k=="global": s.globals[d["name"]]=d
            elif k=="decl": s.decls[d["name"]]=d
            elif k=="enum": s.enums[d["name"]]=d["vals"]
        s.load_s=time.time()-t
        s._cg=None
    def fn(s,n):
        f=s.fns.get(n)
        if f is None: raise AnalysisBroken("function %s not found in the program"%n)
        return f
    def field(s,sname,idx):
        d=s.structs.get(sname)
        if not d: return "f%d"%idx
        return d["fields"][idx][1] or "f%d"%idx
    @property
    def callgraph(s):
        """direct call graph: name -> {callee: [call instr]}; indirect calls resolved to every address-taken function of the
        same arity (over-approximation), under callee key"""
        if s._cg is None:
            cg={}; taken=set()
            def tk(o):
                if isinstance(o,str) and o.startswith("&"): taken.add(o[1:])
                elif isinstance(o,list):
                    for z in o[1]: tk(z)
            for f in s.fns.values():
                for i in f.instrs():
                    for o in i.ops: tk(o)
            def tki(o):
                if isinstance(o,str) and o.startswith("&"): taken.add(o[1:])
                elif isinstance(o,list):
                    for z in o: tki(z)
            for g in s.globals.values(): tki(g["init"])
            s.taken=taken
            for f in s.fns.values():
                m=defaultdict(list)
                for i in f.instrs():
                    if i.op!="call": continue
                    c=i.callee
                    if c: m[c].append(i)
                    elif i.x!="asm":
                        for t in taken:
                            g=s.fns.get(t)
                            if g and len(g.args)==len(i.ops): m[t].append(i)
                cg[f.name]=m
            s._cg=cg
        return s._cg
    def reachable(s,roots,stop=()):
        seen=set(); w=list(roots)
        while w:
            x=w.pop()
            if x in seen or x in stop or x not in s.fns: continue
            seen.add(x); w.extend(s.callgraph[x].keys())
        return seen
    def callers(s,name):
        r=[]
        for f in s.fns.values():
            for i in s.callgraph[f.name].get(name,()): r.append(i)
        return r
def sname(ty):
    m=re.match(r"(?:struct|union)\.(.*?)(\.\d+)?$",ty)
    return m.group(1) if m else ty
def gep_last(prog,x):
    """(struct,field) of the last struct step of a GEP, or None; and whether array indices follow"""
    src,steps=x
    last=None; after=0
    for st in steps:
        if st[0]=="s": last=(sname(st[1]),prog.field(st[1],st[2])); after=0
        elif st[0] in("a","i"): after+=1
    return last,after
def addr(fn,o):
    """classify a pointer operand: ('field',struct,field,base,indices) | ('elem',base,idx) | ('alloca',instr) | ('global',name) | ('val',o)"""
    if isinstance(o,str):
        if o.startswith("@"): return ("global",o[1:])
        return ("val",o)
    if isinstance(o,list):
        if o[0]=="getelementptr":
            last,after=gep_last(fn.prog,o[2])
            if last: return ("field",last[0],last[1],o[1][0],o[1][1:])
            return ("elem",o[1][0],o[1][-1])
        return ("val",o)
    i=fn.defs.get(o)
    if i is None: return ("val",o)
    if i.op=="alloca": return ("alloca",i)
    if i.op=="getelementptr":
        last,after=gep_last(fn.prog,i.x)
        if last: return ("field",last[0],last[1],i.ops[0],i.ops[1:])
        return ("elem",i.ops[0],i.ops[-1])
    if i.op in("bitcast","addrspacecast"): return addr(fn,i.ops[0])
    return ("val",o)
def strip(fn,o,ops=("zext","sext","trunc","bitcast","ptrtoint","inttoptr","freeze")):
    while isinstance(o,int):
        i=fn.defs.get(o)
        if i is None or i.op not in ops: break
        o=i.ops[0]
    return o
def load_of_field(fn,o):
    """if operand o is (a cast of) a load of struct field: (struct,field,base) else None"""
    o=strip(fn,o)
    i=fn.defs.get(o) if isinstance(o,int) else None
    if i is None or i.op!="load": return None
    a=addr(fn,i.ops[0])
    if a[0]=="field": return a[1:4]
    return None
def gstring(prog,o):
    """string constant behind operand"""
    if isinstance(o,list) and o[0]=="getelementptr": o=o[1][0]
    if isinstance(o,str) and o.startswith("@"):
        g=prog.globals.get(o[1:])
        if g and isinstance(g["init"],str) and g["init"].startswith("s:"): return g["init"][2:]
        if g and g["init"]=="zero" and g["const"]: return ""
    return None
def show(fn,o,d=0):
    """readable expression for diagnostics"""
    if isinstance(o,str): return o[2:] if o.startswith("c:") else o.lstrip("&@")
    if isinstance(o,list): return "(%s)"%o[0]
    if o<len(fn.args): return fn.args[o][1] or "arg%d"%o
    i=fn.defs[o]
    if i.name and d>0: return i.name
    if d>4: return i.name or "%%%d"%o
    if i.op=="load":
        a=addr(fn,i.ops[0])
        if a[0]=="field": return "%s->%s"%(show(fn,a[3],d+1),a[2])
        if a[0]=="alloca": return a[1].x[1] or "tmp"
        if a[0]=="global": return a[1]
        return "*(%s)"%show(fn,i.ops[0],d+1)
    if i.op=="call": return "%s(%s)"%(i.callee or "*fp",",".join(show(fn,z,d+2) for z in i.ops[:4]))
    if i.op=="getelementptr":
        a=addr(fn,o)
        if a[0]=="field": return "&%s->%s"%(show(fn,a[3],d+1),a[2])
        if a[0]=="elem": return "%s+%s"%(show(fn,a[1],d+1),show(fn,a[2],d+1))
    if i.op in("zext","sext","trunc","bitcast","ptrtoint","inttoptr"): return show(fn,i.ops[0],d)
    if i.op=="icmp": return "%s %s %s"%(show(fn,i.ops[0],d+1),i.x[0],show(fn,i.ops[1],d+1))
    if i.op=="phi": return i.name or "phi%d"%o
    if i.op=="alloca": return i.x[1] or "local"
    return "%s(%s)"%(i.op,",".join(show(fn,z,d+1) for z in i.ops))
