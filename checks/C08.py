#!/usr/bin/env python3
"""C08: memory that could not be had is noticed before it is used."""
import os,sys
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","sa"))
import check
from core import *
HEAP={"malloc","calloc","realloc","strdup","strndup","fopen","fdopen","popen","opendir"}
SEG={"wr_alloc_from_cvec","wg_alloc_mpool","wg_create_record","wg_create_raw_record","wg_alloc_gints","wg_alloc_fixlen_object","alloc_gints_area","alloc_db_subarea"}
DIRS=("Reasoner","Db","Printer","Builtparser","Parser","Main")
COPY=("getelementptr","bitcast","ptrtoint","inttoptr","freeze","sext","zext","trunc")
# argument positions used by library functions
LIB={"strlen":(0,),"strcpy":(0,1),"strncpy":(0,1),"strcat":(0,1),"strncat":(0,1),"strcmp":(0,1),"strncmp":(0,1),"memcpy":(0,1),"memmove":(0,1),"memset":(0,),"fclose":(0,),"fread":(3,),"fwrite":(3,),
 "fgets":(2,),"fputs":(1,),"fgetc":(0,),"getc":(0,),"fseek":(0,),"ftell":(0,),"feof":(0,),"fprintf":(0,),"sprintf":(0,),"snprintf":(0,),"sscanf":(0,),"__isoc99_sscanf":(0,),"__isoc23_sscanf":(0,),"fileno":(0,)}
def lib(c):
    if c is None: return ()
    if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove"): return (0,1)
    if c.startswith("llvm.memset"): return (0,)
    return LIB.get(c,())
class Null:
    def __init__(s,P):
        s.P=P; s.may=set(HEAP)|SEG
        s.der={}; s.fs=[f for f in P.fns.values() if f.file.split("/")[0] in DIRS]
        s.closure(); s.params()
    # ---- which values are known non-null / null on an edge
    def facts(s,f,b,t):
        term=f.blocks[b].term
        if term.op!="br" or len(term.x)!=2 or term.x[0]==term.x[1]: return []
        return s.cond(f,term.ops[0],term.x[0]==t,0)
    def cond(s,f,o,tr,d):
        i=f.defs.get(o) if isinstance(o,int) else None
        if i is None or d>6: return []
        if i.op=="xor" and cint(i.ops[1]) in(1,-1): return s.cond(f,i.ops[0],not tr,d+1)
        if i.op=="freeze": return s.cond(f,i.ops[0],tr,d+1)
        if i.op=="select" and tr and cint(i.ops[2])==0: return s.cond(f,i.ops[0],True,d+1)+s.cond(f,i.ops[1],True,d+1)
        if i.op=="select" and not tr and cint(i.ops[1]) in(1,-1): return s.cond(f,i.ops[0],False,d+1)+s.cond(f,i.ops[2],False,d+1)
        if i.op!="icmp": return []
        out=[]
        for x,y in((i.ops[0],i.ops[1]),(i.ops[1],i.ops[0])):
            if cint(y)==0 and isinstance(x,int) and i.x[0] in("eq","ne"):
                isnull=(i.x[0]=="eq")==tr
                j=f.defs.get(x)
                if j is not None and j.op in("zext","sext") and f.defs.get(j.ops[0]) is not None and f.defs[j.ops[0]].op in("icmp","xor","select"): out+=s.cond(f,j.ops[0],not isnull,d+1)
                elif j is not None and j.op=="call" and j.callee and j.callee.startswith("llvm.expect"): out+=s.cond(f,j.ops[0],not isnull,d+1)
                else: out.append((strip(f,x),isnull))
        if i.ops and cint(i.ops[1])==0 and i.x[0] in("sgt","ugt","sle","slt") and isinstance(i.ops[0],int):
            pos={"sgt":tr,"ugt":tr,"sle":not tr}.get(i.x[0])
            if pos: out.append((strip(f,i.ops[0]),False))
        return out
    def key(s,f,o):
        a=addr(f,o)
        return None if a is None or a[0] not in("field","global","alloca","var") else ("m",)+tuple(str(z) for z in a)
    def derived(s,f,st,x):
        out={x}; w=[x]
        while w:
            y=w.pop()
            for u in f.uses[y]:
                if u.id is not None and u.id not in out and u.op in COPY: out.add(u.id); w.append(u.id)
        d=f.defs.get(x)
        while d is not None and d.op in COPY and isinstance(d.ops[0],int):      # and what it was made of
            if d.op=="getelementptr": break
            out.add(d.ops[0]); x=d.ops[0]; d=f.defs.get(x)
        k=s.key(f,d.ops[0]) if d is not None and d.op=="load" else None
        if k is not None:
            out.add(k)
            for i in f.instrs():
                if i.op=="load" and i.id in st and s.key(f,i.ops[0])==k: out|={i.id}
        # the place it was put into
        for y in list(out):
            if isinstance(y,int):
                for u in f.uses[y]:
                    if u.op=="store" and u.ops[0]==y:
                        k=s.key(f,u.ops[1])
                        if k is not None: out.add(k)
        return out
    def step(s,f,i,st,may,rep=None):
        if rep is not None:
            os=()
            if i.op=="load": os=(i.ops[0],)
            elif i.op=="store": os=(i.ops[1],)
            elif i.op=="call":
                k=lib(i.callee) or s.der.get(i.callee,())
                os=tuple(o for j,o in enumerate(i.ops) if j in k)
            for o in os:
                if isinstance(o,int) and o in st: rep.append((i,o))
        if i.op=="store":
            k=s.key(f,i.ops[1])
            if k is not None:
                if isinstance(i.ops[0],int) and i.ops[0] in st: st.add(k)
                else: st.discard(k)
            return
        if i.op=="call" and i.callee not in may and i.callee and not i.callee.startswith("llvm."):
            for k in [k for k in st if isinstance(k,tuple) and k[1]!="alloca"]: st.discard(k)
        if i.id is None or i.op=="phi": return
        n=False
        if i.op=="call" and i.callee in may: n=True
        elif i.op in COPY and isinstance(i.ops[0],int) and i.ops[0] in st: n=True
        elif i.op=="getelementptr" and any(isinstance(z,int) and z in st for z in i.ops[1:]): n=s.isbase(f,i.ops[0])
        elif i.op=="add" and any(isinstance(z,int) and z in st for z in i.ops): n=any(isinstance(z,int) and z in f.defs and f.defs[z].op=="ptrtoint" for z in i.ops)
        elif i.op=="select" and any(isinstance(z,int) and z in st for z in i.ops[1:]): n=True
        elif i.op=="load":
            k=s.key(f,i.ops[0]); n=k is not None and k in st
        if n: st.add(i.id)
        else: st.discard(i.id)
    def isbase(s,f,o):
        """the start of a segment: offsets into it are added to it"""
        o=strip(f,o)
        if isinstance(o,int) and o<len(f.args): return f.args[o][1] in("db","kb","dbase")
        i=f.defs.get(o) if isinstance(o,int) else None
        return i is not None and i.op=="load" and addr(f,i.ops[0])[0]=="field" and addr(f,i.ops[0])[2] in("db","kb_db","child_db")
    def solve(s,f,may,init=frozenset()):
        IN={0:frozenset(init)}; w=[0]; nulledge=[]
        while w:
            b=w.pop(); st=set(IN[b])
            for i in f.blocks[b].instrs: s.step(f,i,st,may)
            for t in f.blocks[b].succs:
                n=set(st)
                for x,isnull in s.facts(f,b,t):
                    if not isnull: n-=s.derived(f,n,x)
                    elif x in st: nulledge.append((b,t,x))
                for i in f.blocks[t].instrs:
                    if i.op!="phi": break
                    v=any(p==b and isinstance(z,int) and z in n for z,p in zip(i.ops,i.x))
                    (n.add if v else n.discard)(i.id)
                n=frozenset(n)
                if t not in IN: IN[t]=n; w.append(t)
                elif not n<=IN[t]: IN[t]|=n; w.append(t)
        rep=[]; ret=False
        for b in IN:
            st=set(IN[b])
            for i in f.blocks[b].instrs: s.step(f,i,st,may,rep)
            t=f.blocks[b].term
            if t.op=="ret" and t.ops and isinstance(t.ops[0],int) and t.ops[0] in st: ret=True
        return rep,ret,IN,nulledge
    # ---- functions handing a failed allocation on
    def closure(s):
        ch=True
        while ch:
            ch=False
            for f in s.fs:
                if f.name in s.may or f.file.startswith(("Builtparser","Parser")) or f.name.startswith(("wg_mk","wg_mpool_")): continue
                if not any(i.op=="call" and i.callee in s.may for i in f.instrs()): continue
                rep,ret,IN,ne=s.solve(f,s.may)
                if not ret and any(isinstance(x,int) and s.made(f,x,0) for b,t,x in ne):
                    outs=[b.term.ops[0] for b in f.blocks if b.term.op=="ret" and b.term.ops]
                    ret=any(s.null(f,o,0) for o in outs) and any(s.made(f,o,0) for o in outs)
                if ret and not s.coded(f): s.may.add(f.name); ch=True
    def coded(s,f):
        """does each return of nothing come with an error code for the caller, put into an argument?"""
        def says(b):
            for i in f.blocks[b].instrs:
                if i.op=="store" and isinstance(i.ops[1],int) and strip(f,i.ops[1])<len(f.args) and cint(i.ops[0]) not in(None,0): return True
            return False
        def ok(o,d):
            i=f.defs.get(o) if isinstance(o,int) else None
            if i is None or i.op!="phi" or d>5: return False
            r=[]
            for z,p in zip(i.ops,i.x):
                if cint(z)==0: r.append(says(p))
                elif isinstance(z,int) and z in f.defs and f.defs[z].op=="phi": r.append(ok(z,d+1))
            return bool(r) and all(r)
        outs=[b.term.ops[0] for b in f.blocks if b.term.op=="ret" and b.term.ops]
        return bool(outs) and all(ok(o,0) for o in outs)
    def null(s,f,o,d):
        i=f.defs.get(o) if isinstance(o,int) else None
        if i is not None and i.op=="phi" and d<5: return any(s.null(f,z,d+1) for z in i.ops)
        return cint(o)==0
    def made(s,f,o,d):
        o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) else None
        if i is None or d>5: return False
        if i.op=="phi": return any(s.made(f,z,d+1) for z in i.ops)
        if i.op in("getelementptr","select","sub"): return any(s.made(f,z,d+1) for z in i.ops)
        return i.op=="call" and i.callee in s.may
    # ---- functions which use an argument without looking whether it is null
    def params(s):
        ch=True
        while ch:
            ch=False
            for f in s.fs:
                n=set(s.der.get(f.name,()))
                for k in range(len(f.args)):
                    if k in n or f.args[k][0]!="ptr": continue
                    if s.solve(f,(),{k})[0]: n.add(k)
                if n!=s.der.get(f.name,set()): s.der[f.name]=n; ch=True
def run(R):
    P=Prog("gkc"); R.note("functions_in_program",len(P.fns))
    R.rule("noticed","what an allocation or an opening of a file returned is looked at before it is used",100)
    N=Null(P); R.note("functions_that_can_return_nothing",len(N.may)); R.note("functions_using_an_argument_unseen",len([1 for v in N.der.values() if v]))
    for f in N.fs:
        cs=[i for i in f.instrs() if i.op=="call" and i.callee in N.may]
        if not cs: continue
        rep,_,IN,_=N.solve(f,N.may)
        n={}; seen=set()
        for c in cs:
            if c.bb not in IN: continue
            n[c.callee]=n.get(c.callee,0)+1
            der=set(); w=[c.id]; keys=set()
            while w:
                y=w.pop()
                if y in der: continue
                der.add(y)
                for u in f.uses[y]:
                    if u.op in COPY+("phi","select","add") and u.id is not None: w.append(u.id)
                    if u.op=="store" and u.ops[0]==y:
                        k=N.key(f,u.ops[1])
                        if k is not None: keys.add(k)
            for i in f.instrs():
                if i.op=="load" and N.key(f,i.ops[0]) in keys and i.id not in der:
                    w=[i.id]
                    while w:
                        y=w.pop()
                        if y in der: continue
                        der.add(y); w+=[u.id for u in f.uses[y] if u.op in COPY+("phi","select") and u.id is not None]
            bad=[(i,o) for i,o in rep if o in der]
            if bad:
                i,o=bad[0]; 
                if (i.bb,i.idx) in seen: continue
                seen.add((i.bb,i.idx))
                R.bad("noticed","%s:%s:%d"%(f.name,c.callee,n[c.callee]),i.loc(),"%s uses what %s returned (%s) without a look whether there is any"%(f.name,c.callee,c.loc()))
            else: R.good("noticed","%s at %s"%(c.callee,c.loc()))
if __name__=="__main__": check.main("C08","forward may-be-null dataflow with branch refinement, closed over functions that hand a failed allocation on and functions that use an argument unseen, over LLVM IR",run)
