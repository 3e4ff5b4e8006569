"""Sparse conditional constant propagation over one function under assumptions about runtime values.

solve(f, oracle) -> Result with .edges (executable CFG edges), .blocks (reachable blocks), .val(o) -> int|None.
oracle(instr) -> int to force the result of an instruction, or None. args: {index:int} known argument values.
start/stop: begin at an edge (pred,block) and do not go past the blocks in stop."""
from core import *
BITS={"i1":1,"i8":8,"i16":16,"i32":32,"i64":64}
TOP="T"   # not yet known
class Result:
    def __init__(s,f,vals,edges,blocks): s.f=f; s.vals=vals; s.edges=edges; s.blocks=blocks
    def val(s,o):
        c=cint(o)
        if c is not None: return c
        if isinstance(o,int):
            v=s.vals.get(o); return v if isinstance(v,int) else None
        return None
    def reaches(s,i): return i.bb in s.blocks
    def returns(s):
        """list of (ret value or None, ret instr, source block) of executable returns; phis at the return are split by edge"""
        out=[]
        for b in s.blocks:
            t=s.f.blocks[b].term
            if t.op!="ret": continue
            o=t.ops[0] if t.ops else None
            out+=[(v,t,p) for v,p in s.split(o,b)]
        return out
    def split(s,o,b,d=0):
        i=s.f.defs.get(o) if isinstance(o,int) else None
        while i is not None and i.op in("sext","zext","trunc","bitcast"):
            o=i.ops[0]; i=s.f.defs.get(o) if isinstance(o,int) else None
        if i is not None and i.op=="phi" and d<6:
            r=[]
            for z,p in zip(i.ops,i.x):
                if (p,i.bb) in s.edges: r+=s.split(z,p,d+1)
            return r or [(s.val(o),b)]
        return [(s.val(o),b)]
FL=("sitofp","uitofp","fptosi","fptoui","fpext","fptrunc","fadd","fsub","fmul","fdiv","fneg","fcmp")
def fconst(o):
    if isinstance(o,str) and o.startswith("f:"):
        try: return float(o[2:])
        except ValueError: return None
    return None
def fl(i,v):
    """floating point: values are kept as Python floats"""
    op=i.op; a=v[0]; b=v[1] if len(v)>1 else None
    try:
        if op in("sitofp","uitofp","fpext","fptrunc"): return float(a)
        if op in("fptosi","fptoui"): return int(a)
        if op=="fneg": return -float(a)
        if op=="fcmp":
            p=i.x[0].lstrip("ou") or i.x[0]
            if i.x[0] in("ord","uno"): return int(i.x[0]=="ord")
            return int({"gt":a>b,"ge":a>=b,"lt":a<b,"le":a<=b,"eq":a==b,"ne":a!=b}[p])
        return {"fadd":lambda:a+b,"fsub":lambda:a-b,"fmul":lambda:a*b,"fdiv":lambda:a/b if b else None}[op]()
    except Exception: return None
def solve(f,oracle=None,args=None,start=None,stop=(),seed=None,init=None):
    vals=dict(init or {}); edges=set(); blocks=set(); work=[]; sw=[]
    if args: vals.update(args)
    if seed: vals.update(seed)
    fixed=set(vals)
    nargs=len(f.args)
    region=None
    def get(o):
        c=cint(o)
        if c is not None: return c
        if isinstance(o,int):
            if o in vals: return vals[o]
            if o<nargs: return None
            d=f.defs.get(o)
            if d is None: return None
            # defined outside of the explored region: unknown
            if start is not None and d.bb not in reach0: return None
            return TOP
        return None
    reach0=None
    if start is not None:
        reach0=set(); w=[start[1]]
        while w:
            x=w.pop()
            if x in reach0 or x in stop: continue
            reach0.add(x); w.extend(f.blocks[x].succs)
    def meet(a,b):
        if a==TOP: return b
        if b==TOP: return a
        return a if a==b else None
    def ev(i):
        if i.id in fixed: return vals[i.id]
        if oracle:
            r=oracle(i)
            if r is not None: return r
        op=i.op
        if op=="phi":
            v=TOP
            for z,p in zip(i.ops,i.x):
                if (p,i.bb) in edges: v=meet(v,get(z))
            return v
        if op in("zext","sext","trunc","freeze","bitcast","ptrtoint","inttoptr"):
            v=get(i.ops[0])
            if not isinstance(v,int): return v
            if op=="trunc":
                n=BITS.get(i.ty)
                if n and n>1:
                    v&=(1<<n)-1
                    if v>>(n-1): v-=1<<n
                elif n==1: v&=1
            elif op=="zext":
                n=BITS.get(i.x if isinstance(i.x,str) else "",None)
                if n: v&=(1<<n)-1
            elif op=="sext" and i.x=="i1" and v: v=-1
            return v
        if op=="select":
            c=get(i.ops[0])
            if c==TOP: return TOP
            if c==0: return get(i.ops[2])
            if c is not None: return get(i.ops[1])
            return meet(get(i.ops[1]),get(i.ops[2]))
        if op in FL:
            v=[fconst(o) if fconst(o) is not None else get(o) for o in i.ops]
            if any(isinstance(x,str) for x in v): return TOP
            if any(x is None for x in v): return None
            return fl(i,v)
        if op in("and","or","xor","add","sub","mul","shl","lshr","ashr","icmp","srem","sdiv"):
            a,b=get(i.ops[0]),get(i.ops[1])
            if op=="and" and (a==0 or b==0): return 0
            if op=="icmp" and i.ops[0]==i.ops[1] and isinstance(i.ops[0],int): return 1 if i.x[0] in("eq","sge","sle","uge","ule") else 0
            if a==TOP or b==TOP: return TOP
            if a is None or b is None: return None
            if op=="icmp":
                p=i.x[0]
                u=lambda z:z if z>=0 else z+(1<<64)
                return int({"eq":a==b,"ne":a!=b,"sgt":a>b,"sge":a>=b,"slt":a<b,"sle":a<=b,"ugt":u(a)>u(b),"uge":u(a)>=u(b),"ult":u(a)<u(b),"ule":u(a)<=u(b)}[p])
            try: v={"and":lambda:a&b,"or":lambda:a|b,"xor":lambda:a^b,"add":lambda:a+b,"sub":lambda:a-b,"srem":lambda:(abs(a)%abs(b))*(-1 if a<0 else 1) if b else None,"sdiv":lambda:(abs(a)//abs(b))*(1 if (a<0)==(b<0) else -1) if b else None,"mul":lambda:a*b,"shl":lambda:a<<b if 0<=b<64 else None,"lshr":lambda:a>>b if a>=0 and b>=0 else None,"ashr":lambda:a>>b if b>=0 else None}[op]()
            except Exception: return None
            if v is None: return None
            n=BITS.get(i.ty,64)
            if n==1: return v&1
            v&=(1<<n)-1
            if v>>(n-1): v-=1<<n
            return v
        return None
    uses=f.uses
    def visit(i):
        if i.op in TERMS: 
            term(i); return
        n=ev(i); o=vals.get(i.id,TOP)
        if n!=o and i.id not in fixed:
            if o is None: return
            if o!=TOP and n!=TOP: n=None
            if n==TOP: return
            vals[i.id]=n
            for u in uses.get(i.id,()):
                if u.bb in blocks: sw.append(u)
    def edge(p,b):
        if b in stop: edges.add((p,b)); return
        if (p,b) in edges: return
        edges.add((p,b)); work.append(b)
    def term(t):
        if t.op=="br":
            if len(t.x)==1: edge(t.bb,t.x[0])
            else:
                c=get(t.ops[0])
                if c==TOP: return
                if c is None: edge(t.bb,t.x[0]); edge(t.bb,t.x[1])
                else: edge(t.bb,t.x[0] if c else t.x[1])
        elif t.op=="switch":
            c=get(t.ops[0])
            if c==TOP: return
            if c is None:
                for d in [t.x[0]]+[k[1] for k in t.x[1]]: edge(t.bb,d)
            else:
                d=[k[1] for k in t.x[1] if k[0]==c]; edge(t.bb,d[0] if d else t.x[0])
    if start is None: blocks.add(0); w0=[0]
    else: edges.add(start); blocks.add(start[1]); w0=[start[1]]
    for b in w0:
        for i in f.blocks[b].instrs: visit(i)
    while work or sw:
        if sw:
            visit(sw.pop()); continue
        b=work.pop()
        if b in blocks:
            for i in f.blocks[b].instrs:
                if i.op!="phi": break
                visit(i)
        else:
            blocks.add(b)
            for i in f.blocks[b].instrs: visit(i)
    return Result(f,vals,edges,blocks)

class Onward:
    """What can run after an instruction: the rest of its round of the loops around it, then the rounds after it.
    result: the value of the instruction; what was computed before it in this round is unknown."""
    def __init__(s,f,c,result=None,oracle=None,limit=24):
        s.f=f; s.c=c; s.parts=[]; s.starts=[None]
        s.fr={}; done=set()
        heads=Onward.heads(f,c.bb)
        seed={}
        for b in f.dom[c.bb]:
            if b==c.bb: continue
            for i in f.blocks[b].instrs:
                if i.id is not None: seed[i.id]=None
        for i in f.blocks[c.bb].instrs:
            if i is c: break
            if i.id is not None: seed[i.id]=None
        if result is not None: seed[c.id]=result
        def first(i):
            return oracle(i) if oracle else None
        r=solve(f,first,start=(-1,c.bb),stop=tuple(heads),seed=seed)
        s.parts.append(r)
        todo=[(p,b,r) for p,b in r.edges if b in heads]
        while todo and limit:
            p,h,r0=todo.pop(); limit-=1
            if (p,h) in done: continue
            done.add((p,h))
            init={}
            for i in f.blocks[h].instrs:
                if i.op!="phi": break
                for z,q in zip(i.ops,i.x):
                    if q==p and isinstance(z,int) and z>=len(f.args): init[z]=r0.val(z)
            seed={}
            for b in f.dom[h]:
                if b==h: continue
                for i in f.blocks[b].instrs:
                    if i.id is not None: seed[i.id]=None
            hs=Onward.heads(f,h)-{h}
            for k in list(init):
                if k in seed: init.pop(k)
            q=solve(f,oracle,start=(p,h),stop=tuple(hs),seed=seed,init=init)
            s.parts.append(q); s.starts.append((p,h))
            todo+=[(a,b,q) for a,b in q.edges if b in hs]
    @staticmethod
    def heads(f,b):
        """the heads of the loops a block is in"""
        seen=set(); w=list(f.blocks[b].succs)
        while w:
            x=w.pop()
            if x in seen: continue
            seen.add(x); w+=f.blocks[x].succs
        r=set()
        for h in f.dom[b]:
            if h in seen and h in f.dom[b]:
                # a loop head has an edge from a block it dominates
                if any(h in f.dom[p] for p in f.blocks[h].preds): r.add(h)
        return r
    def reaches(s,i):
        for k,r in enumerate(s.parts):
            if i.bb in r.blocks and not(k==0 and i.bb==s.c.bb and i.idx<=s.c.idx): return True
        return False
    def returns(s): return [x for r in s.parts for x in r.returns()]
    def must(s,pred):
        """None when an instruction with pred runs before each return, else a return reached without it"""
        seen=set(); w=[(0,s.c.bb,s.c.idx+1)]
        while w:
            n,b,k=w.pop()
            if (n,b,k) in seen: continue
            seen.add((n,b,k)); r=s.parts[n]; hit=False
            for i in s.f.blocks[b].instrs[k:]:
                if pred(i): hit=True; break
                if i.op=="ret": return i
            if hit: continue
            for x in s.f.blocks[b].succs:
                if (b,x) not in r.edges: continue
                if x in r.blocks and not(n==0 and x in Onward.heads(s.f,s.c.bb)): w.append((n,x,0))
                for m,q in enumerate(s.parts):
                    if m and m!=n and s.starts[m]==(b,x): w.append((m,x,0))
        return None
    def calls(s,*names):
        return [i for i in s.f.instrs() if i.op=="call" and i.callee in names and s.reaches(i)]
