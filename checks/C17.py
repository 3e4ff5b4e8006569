#!/usr/bin/env python3
"""C17: every piece of text written into a buffer has room there."""
import sys, os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","sa"))
import room, check, sccp
from core import *
SKIP=("cjson","json")                      # third party libraries
GUIDE={"make_auto_guide"}                  # strategy text of bounded shape in one large block; its loop counts are not derived
FMT={"printf":0,"fprintf":1,"snprintf":2,"sprintf":1,"wr_printf":0}
def txt(L):
    if L is None: return "an unknown amount"
    return " + ".join(str(c) if q==1 else "%slength of %s"%("" if c==1 else "%d times the "%c,describe(q)) if isinstance(q,tuple) and q[0]=="len" else "%s%s"%("" if c==1 else "%d*"%c,"a number") for q,c in sorted(L.items(),key=str) if c)
def describe(q):
    x=q[1]
    if isinstance(x,tuple):
        if x[0]=="fld": return x[1]
        if x[0]=="call": return "an atom's text"
        return "a string"
    return "a string"
def consts(P,f,o,d=0):
    """all format strings a format operand can be, None when one is not constant"""
    if gstring(P,o) is not None: return [gstring(P,o)]
    o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) else None
    if i is None or d>6 or i.op not in("phi","select"): return None
    out=[]
    for x in (i.ops if i.op=="phi" else i.ops[1:]):
        c=consts(P,f,x,d+1)
        if c is None: return None
        out+=c
    return out
def globtype(P,o):
    g=P.globals.get(o[1:]) or P.globals.get(o)
    if g is None: return None
    return g.get("ty") if isinstance(g,dict) else (g[0] if isinstance(g,(list,tuple)) else str(g))
def fromstrlen(f,o,d=0):
    o=strip(f,o,("zext","sext","trunc")) if not isinstance(o,list) else o
    i=f.defs.get(o) if isinstance(o,int) else None
    if i is None or d>8: return False
    if i.op=="call": return i.callee=="strlen"
    if i.op in("phi","add","sub","select"): return any(fromstrlen(f,x,d+1) for x in (i.ops[1:] if i.op=="select" else i.ops))
    return False
def ended(P,A,f,i,n):
    """is the copied text ended; None when the copy is not of text with a limit"""
    src=strip(f,i.ops[1]) if not isinstance(i.ops[1],list) else i.ops[1]
    k=cint(n); b=A.S.bound(f,i.ops[1])
    if i.callee!="strncpy":
        if k is not None or not fromstrlen(f,n): return None
    if k is not None and b is not None and b<k: return True
    N=A.lin(f,n)
    if any(s.callee=="strlen" and A.S.canon(f,s.ops[0])==A.S.canon(f,i.ops[1]) for s in f.instrs() if s.op=="call"):
        D=room.ladd(N,{("len",A.S.canon(f,i.ops[1])):1},-1)
        if set(D)<={1} and D.get(1,0)>=1: return True
        o=strip(f,n,("zext","sext","trunc")); ph=f.defs.get(o) if isinstance(o,int) else None
        alts=[A.lin(f,x) for x in ph.ops] if ph is not None and ph.op=="phi" else [N]
        if all(A.nonneg(f,A.settlelen(f,room.ladd(room.ladd(x,{("len",A.S.canon(f,i.ops[1])):1},-1),{1:1},-1),i.bb)) for x in alts): return True
    # a terminator stored into the destination at or before the limit, after the copy and on every path from it
    o=i.ops[0]
    if isinstance(o,list): o=next((x for x in o if isinstance(x,str) and x.startswith("@")),o)
    if isinstance(o,str) and o.startswith("@") and k is not None:
        m=re.match(r"\[(\d+) x i8\]",globtype(P,o) or "")
        if m and int(m.group(1))>k: return True        # a zero-initialised array, whose last byte is not reached
    dst=place(f,i.ops[0])
    if dst is None: return None if i.callee!="strncpy" else False
    stores=[]
    for s in f.instrs():
        if s.op=="store" and s.x=="i8" and cint(s.ops[0])==0:
            q=place(f,s.ops[1])
            if q is None or q[0]!=dst[0]: continue
            D=room.ladd(room.ladd(lins(A,f,q[1]),lins(A,f,dst[1]),-1),N,-1)      # position after the copy's start minus limit
            if D=={} or set(D)=={1} and D[1]<0 and k is not None or D.get(1,0)<=0 and set(D)<={1}: stores.append(s)
    if not stores: 
        return False if i.callee=="strncpy" or A.region(f,i.ops[0]) is None and dst[0][0]=="field" else None
    sb={}
    for s in stores: sb.setdefault(s.bb,[]).append(s.idx)
    if any(x>i.idx for x in sb.get(i.bb,())): return True
    seen=set(); w=list(f.blocks[i.bb].succs)
    if not w: return False
    while w:
        x=w.pop()
        if x in seen or x in sb: continue
        seen.add(x)
        if not f.blocks[x].succs: return False
        w+=f.blocks[x].succs
    return True
def lins(A,f,ix):
    L={}
    for x in ix: L=room.ladd(L,A.lin(f,x))
    return L
def place(f,o):
    """(object, index operands) of an address inside a local array, a field array or a block"""
    ix=[]
    while isinstance(o,int):
        g=f.defs.get(o)
        if g is None: return (("arg",o),ix)
        if g.op=="bitcast": o=g.ops[0]; continue
        if g.op=="getelementptr":
            st=g.x[1]
            if any(z[0]=="s" for z in st):
                a=addr(f,o)
                if a[0]!="field": return None
                rest=[x for z,x in zip(st,g.ops[1:]) if z[0]!="s"]
                return (("field",a[1],a[2],str(a[3])),ix+[x for x in rest if cint(x) is None]+[x for x in (a[4] or ()) if 0])
            ix+=[x for x in g.ops[1:] if cint(x)!=0]; o=g.ops[0]; continue
        if g.op=="alloca": return (("alloca",o),ix)
        if g.op=="load":
            a=addr(f,g.ops[0])
            if a[0]=="field": return (("ld",a[1],a[2]),ix)
            return (("val",o),ix)
        return (("val",o),ix)
    return None
def unbounded(P,f,c):
    """can the text be longer than the limit: a %s in the format, or a format that is not known"""
    o=c.ops[2]; fs=consts(P,f,o)
    return fs is None or any("%s" in x or "%f" in x or "%.*s" in x for x in fs)
def depends(f,o,c,d=0):
    o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) else None
    if o==c.id: return True
    if i is None or d>10 or i.op not in("phi","select","add","sub","mul"): return False
    return any(depends(f,x,c,d+1) for x in (i.ops[1:] if i.op=="select" else i.ops))
def sources(f,o,seen):
    """the values an unchanged value may be: through casts and phis"""
    o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) else None
    if i is None or o in seen: return set()
    seen.add(o)
    if i.op!="phi": return {o}
    return set().union(*[sources(f,x,seen) for x in i.ops])
def advance(R,P,fns):
    for f in fns:
        cs=[c for c in f.instrs() if c.op=="call" and c.callee in("snprintf","vsnprintf")]
        for c in cs:
            n=cint(c.ops[1])
            if n is None or not(c.callee=="vsnprintf" or f.va and unbounded(P,f,c)): continue
            us=[g for g in f.instrs() if g.op=="getelementptr" and any(depends(f,x,c) for x in g.ops[1:])]
            if not us: continue
            bad=None; same={c.id}
            for p in f.instrs():
                if p.op=="phi":
                    q=sources(f,p.id,set())
                    if c.id in q: same|=q
            ids={x.id for x in cs}
            for v in(-1,n,n+1,1000000):
                r=sccp.solve(f,lambda i:v if i.id in same and i.id in ids else 0 if i.id in ids else None)
                for g in us:
                    if g.bb not in r.blocks: continue
                    x=next(x for x in g.ops[1:] if depends(f,x,c)); k=r.val(x)
                    if k is None or k<0 or k>n-1: bad=g
            if bad: R.bad("advance","%s|%s"%(f.name,c.callee),bad.loc(),"%s() goes on writing at the position %s() gave, which is past the end when the text was longer than the limit of %d"%(f.name,c.callee,n))
            else: R.good("advance","%s %s"%(f.name,c.loc()))
def kept(f,o):
    """the static variable a position is loaded from"""
    o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) else None
    if i is not None and i.op=="load" and isinstance(i.ops[0],str) and i.ops[0].startswith("@"): return i.ops[0],i
    return None
def walk(R,P,fns):
    for f in fns:
        moved={}
        for s in f.instrs():
            if s.op=="store" and isinstance(s.ops[1],str) and s.ops[1].startswith("@"):
                v=strip(f,s.ops[0]); d=f.defs.get(v) if isinstance(v,int) else None
                if d is not None and d.op in("getelementptr","add") and cint(d.ops[-1]) is not None and cint(d.ops[-1])>0:
                    k=kept(f,d.ops[0])
                    if k and k[0]==s.ops[1]: moved.setdefault(k[0],[]).append(s)
        if not moved: continue
        for s in f.instrs():
            if s.op!="store" or s.x!="i8": continue
            k=kept(f,s.ops[1])
            if k is None:
                g=f.defs.get(s.ops[1]) if isinstance(s.ops[1],int) else None
                if g is None or g.op!="getelementptr": continue
                k=kept(f,g.ops[-1]) or kept(f,g.ops[0])
            if k is None or k[0] not in moved: continue
            ok=False
            for t in f.instrs():
                if t.op=="icmp" and any(kept(f,x) and kept(f,x)[0]==k[0] for x in t.ops) and not any(x=="null" or cint(x)==0 for x in t.ops) and f.dominates(t,s): ok=True
            if ok: R.good("walk","%s %s"%(f.name,s.loc()))
            else: R.bad("walk","%s|%s"%(f.name,k[0][1:]),s.loc(),"%s() stores text through the kept position %s without comparing it with the end of the buffer"%(f.name,k[0][1:]))
def run(R):
    P=Prog("gkc"); A=room.Room(P); A.solve()
    fns=[f for f in P.fns.values() if f.file and f.file.split("/")[0] not in SKIP and f.name not in A.grow and f.name not in GUIDE]
    R.rule("append","text appended to a buffer that grows fits into the room asked for before, on every path, whatever the length of the names in it",100)
    R.rule("entry","a printing function is entered with the room it relies on, and returns with the room its caller relies on",30)
    R.rule("quote","a name written with quoting has room for every character to be doubled",5)
    R.rule("array","text written into an array of fixed size stays inside it",15)
    R.rule("whole","text limited to the size of an array is never longer than that, so it is never cut",6)
    R.rule("join","strings joined into an allocated or fixed block fit into it",3)
    R.rule("size","a buffer handed on with its size is at least that large",2)
    R.rule("ended","text copied up to a limit is ended inside the limit",12)
    R.rule("format","the format of printed text is a constant of the program, never text from the input",100)
    R.rule("advance","the length a limited print would have needed is not used as a position unless it was cut back to the limit",3)
    R.rule("walk","text stored character by character through a kept position is compared with the end of its buffer before each store",1)
    advance(R,P,fns); walk(R,P,fns)
    unknown={}
    cats=("cat",)
    def rep(f,i,key,ok,gap,cost,kind):
        if kind=="byte" and (key is None or key[0]!="slot"): return
        if kind=="unknown" or key is None:
            unknown.setdefault(f.name,[]).append(i); return
        if kind=="opaque writer": rid="append"
        elif kind=="call": rid="entry"
        elif kind=="fits": rid="whole"
        elif key[0]=="cat": rid="join"
        elif kind in("wg_print_quoted","wg_print_quoted2","wg_print_dquoted"): rid="quote"
        elif key[0]=="slot": rid="append"
        else: rid="array"
        if ok: R.good(rid,"%s %s"%(f.name,i.loc())); return
        if rid=="join" and gap is None and cost is not None and f.defs.get(key[1]) is not None and f.defs[key[1]].op=="call":
            unknown.setdefault(f.name,[]).append(i); return        # started by a copying loop
        w=i.callee or "a store"
        R.bad(rid,"%s|%s|%s"%(f.name,kind,key0(P,f,i)),i.loc(),{
          "append":"%s() appends %s characters with %s where that much room was not asked for on some path"%(f.name,txt(cost),w),
          "entry":"%s() calls %s() with less room left in the buffer than %s() relies on"%(f.name,w,w),
          "quote":"%s() writes a name with %s() where room for the name with every character doubled was not asked for"%(f.name,w),
          "array":"%s() writes up to %s characters into an array that is not that large"%(f.name,txt(cost)),
          "whole":"%s() cuts text of up to %s characters to the size of its array"%(f.name,txt(cost)),
          "join":"%s() joins strings in a block that is not known to be large enough (%s)"%(f.name,w)}[rid])
    for f in fns: A.analyse(f,rep)
    for f in fns: A.cats(f,rep)
    # buffers handed on with their size
    done=set()
    def sized(f,b,l,i):
        """parameters b (buffer) and l (its size) of f: every caller gives a buffer of that size"""
        if (f.name,b,l) in done: return
        done.add((f.name,b,l))
        for c in P.callers(f.name):
            g=c.fn
            if b>=len(c.ops) or l>=len(c.ops) or g.file.split("/")[0] in SKIP: continue
            p=strip(g,c.ops[b]); n=strip(g,c.ops[l],("zext","sext","trunc"))
            al=g.defs.get(p) if isinstance(p,int) else None
            if cint(c.ops[b])==0 or p=="null": continue
            if isinstance(p,int) and p<len(g.args) and isinstance(n,int) and n<len(g.args): sized(g,p,n,i); continue
            if al is not None and al.op=="alloca":
                ok=cint(n) is not None and cint(n)<=al.x[2]
                (R.good if ok else R.bad)(*(("size","%s %s"%(g.name,c.loc())) if ok else ("size","%s|%s"%(g.name,f.name),c.loc(),"%s() hands an array of %s bytes to %s() as one of %s"%(g.name,al.x[2],f.name,n))))
            elif al is not None and al.op=="call" and al.callee in("malloc","wr_malloc","wg_alloc_mpool","calloc"):
                Z=A.region(g,p); D=room.ladd(Z,A.lin(g,c.ops[l]),-1) if Z else None
                if D is not None and D.get(1,0)>=0 and all(k==1 for k in D): R.good("size","%s %s"%(g.name,c.loc()))
    for n,L in sorted(unknown.items()):
        f=P.fns[n]
        for i in L:
            if i.callee!="snprintf": continue
            b=strip(f,i.ops[0]); l=strip(f,i.ops[1],("zext","sext","trunc"))
            if isinstance(b,int) and b<len(f.args) and isinstance(l,int):
                d=f.defs.get(l) if l>=len(f.args) else None
                if d is not None and d.op in("add","sub") and cint(d.ops[1]) is not None and (cint(d.ops[1])<=0)==(d.op=="add"): l=strip(f,d.ops[0],("zext","sext","trunc"))
                if isinstance(l,int) and l<len(f.args): sized(f,b,l,i)
    for f in fns:
        for i in f.instrs():
            if i.op!="call" or i.callee not in FMT: continue
            o=i.ops[FMT[i.callee]]
            if consts(P,f,o) is not None: R.good("format","%s %s"%(f.name,i.loc()))
            elif f.name not in("wr_printf",): R.bad("format","%s|%s"%(f.name,i.callee),i.loc(),"%s() prints with %s() using a format that is not a constant"%(f.name,i.callee))
    for f in fns:
        for i in f.instrs():
            if i.op!="call" or i.callee is None: continue
            if i.callee=="strncpy": n=i.ops[2]
            elif i.callee.startswith("llvm.memcpy") or i.callee=="memcpy": n=i.ops[2]
            else: continue
            r=ended(P,A,f,i,n)
            if r is None: continue
            if r: R.good("ended","%s %s"%(f.name,i.loc()))
            else: R.bad("ended","%s|%s"%(f.name,i.callee.split(".")[-1] if i.callee=="strncpy" else "memcpy"),i.loc(),"%s() copies text up to a limit and does not put an end to it when the limit is reached"%f.name)
    R.note("functions",len(fns)); R.note("growing_functions",{n:e for n,e in sorted(A.exit.items())} if len(A.exit)<80 else len(A.exit))
    R.note("appends_with_unknown_destination",{n:len(L) for n,L in sorted(unknown.items())})
    R.note("not_judged",sorted(GUIDE)+["%s/"%s for s in SKIP])
    R.assume+=["room asked for with wr_str_guarantee_space / wg_str_guarantee_space is there when it returned non-zero","encoded texts do not change between measuring and copying them"]
def key0(P,f,i):
    s=None
    if i.op=="call" and i.callee in FMT: s=gstring(P,i.ops[FMT[i.callee]])
    return (s or i.callee or "store")[:24].replace("\n","/")
if __name__=="__main__":
    check.main("C17","forward dataflow of room bounds (linear forms over positions and string lengths) with exit-room summaries, over LLVM IR",run)
