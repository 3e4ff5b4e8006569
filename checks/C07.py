#!/usr/bin/env python3
"""C07: growable vectors: after a call that may move a vector, the new address replaces the old one everywhere."""
import sys, os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"sa"))
from core import *; from ival import *; import check, build, ival
BASE={"wr_vec_store":1,"wr_cvec_store":1,"wr_cvec_push":1,"wr_vec_realloc":1}
FRESH={"wr_vec_new","wr_vec_new_zero","wr_cvec_new","wr_cvec_new_zero"}
W=("*",)
def wild(e):
    """a place with values that differ between the two functions made anonymous; None when nothing is left of it"""
    if not isinstance(e,tuple): return e
    if e[0] in("v","call","trunc"): return W
    if e[0] in("ld","elem"):
        b=wild(e[1]); return None if b in(None,W) else (e[0],b,e[2] if e[2][0]=="c" else W)
    if e[0]=="fld":
        b=wild(e[2]); return None if b in(None,W) else ("fld",e[1],b)
    if e[0]=="arg": 
        b=wild(e[1]); return None if b in(None,W) else ("arg",b,e[2])
    if e[0]=="add":
        x=[wild(z) for z in e[1:]]
        if None in x: return None
        return ("add",)+tuple(x) if W not in x else None
    if e[0] in("p","k","c"): return e
    return None
def inst(e,args):
    if not isinstance(e,tuple): return e
    if e[0]=="p": return args[e[1]] if e[1]<len(args) else None
    r=[]
    for z in e:
        y=inst(z,args) if isinstance(z,tuple) else z
        if y is None: return None
        r.append(y)
    r=tuple(r)
    if r[0]=="add": return norm(r)
    return r
def match(p,e):
    if p==W: return True
    if isinstance(p,tuple) and isinstance(e,tuple):
        return len(p)==len(e) and all(match(a,b) for a,b in zip(p,e))
    return p==e
def place(e):
    """place expression an operand was loaded from, and whether it is held as an offset"""
    off=False
    if e[0]=="add":
        for a,b in((e[1],e[2]),(e[2],e[1])):
            if a[0]=="fld" and a[1]=="db": return b,True
    return e,off
GETSET={"wg_set_uri_occs":"wg_decode_uri_occs"}      # occurrence lists kept with a name
def memory(e): return e[0] in("fld","ld","arg") or e[0]=="call" and e[1] in GETSET.values()
class A:
    def __init__(s,P,files):
        s.P=P; s.fns=[f for f in P.fns.values() if f.file.split("/")[0] in files]
        s.V={}; s.grown={}; s.ret=dict(BASE)
    def v(s,f):
        if f.name not in s.V: s.V[f.name]=View(f)
        return s.V[f.name]
    def callees(s,f,i):
        if i.callee: return [i.callee]
        return []
    def summaries(s):
        """places (in terms of parameters) each function may reallocate"""
        names={f.name for f in s.fns}
        g={n:set() for n in names}
        for n,k in BASE.items(): g[n]={("p",k)}
        ch=True
        while ch:
            ch=False
            for f in s.fns:
                if f.name in BASE: continue
                cur=g[f.name]
                for i in f.calls():
                    for c in s.callees(f,i):
                        for p in g.get(c,()):
                            v=s.v(f)
                            for a in s.operands(f,i,p):
                                w=wild(a)
                                if w is not None and w!=W and w not in cur and depth(w)<8:
                                    cur.add(w); ch=True
        s.g=g
    def operands(s,f,i,p):
        """places of the caller that p of the callee stands for"""
        v=s.v(f)
        cand=[[v.e(o)] if not s.isphi(f,o) else list(s.origins(f,o)) for o in i.ops]
        used=set(); params(p,used)
        out=set()
        def go(k,acc):
            if k==len(cand): 
                e=inst(p,acc)
                if e is not None: out.add(e)
                return
            for e in (cand[k] if k in used else [("v",-1)]): go(k+1,acc+[e])
        go(0,[])
        return out
    def isphi(s,f,o):
        o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) else None
        return i is not None and i.op in("phi","select")
    def origins(s,f,o,seen=None):
        """place expressions the operand may come from, through merges and results of growing calls"""
        seen=seen if seen is not None else set()
        o=strip(f,o)
        if not isinstance(o,int) or o<len(f.args): return {s.v(f).e(o)}
        if o in seen: return set()
        seen.add(o)
        i=f.defs[o]
        if i.op=="phi":
            r=set()
            for z in i.ops:
                if z!="undef": r|=s.origins(f,z,seen)
            return r
        if i.op=="select": return s.origins(f,i.ops[1],seen)|s.origins(f,i.ops[2],seen)
        if i.op=="call" and i.callee in BASE: return s.origins(f,i.ops[BASE[i.callee]],seen)
        e=s.v(f).e(o)
        if i.op=="getelementptr" and e[0]=="add" and place(e)[1]:     # offset in the database
            x=place(e)[0]; b=e[1] if e[2]==x else e[2]
            if x[0]=="v":
                return {norm(("add",b,q)) for q in s.origins(f,x[1],seen)}
        return {e}
def params(p,acc):
    if isinstance(p,tuple):
        if p[0]=="p": acc.add(p[1])
        for z in p[1:]: params(z,acc)
def depth(e): return 1+max([depth(z) for z in e if isinstance(z,tuple)] or [0]) if isinstance(e,tuple) else 0
FLOW=("getelementptr","bitcast","ptrtoint","inttoptr","add","sub","select","freeze","zext","sext")
def stale(a,f):
    """forward dataflow: values that point into a vector that may have been moved. yields (use, value, growing call)"""
    v=a.v(f)
    events={}
    for i in f.calls():
        pats=set()
        if i.callee in BASE and exempt(a,f,i): continue
        for c in a.callees(f,i):
            for p in a.g.get(c,()):
                pats|={x for x in a.operands(f,i,p)}
        if pats: events[i.id if i.id is not None else (i.bb,i.idx)]=(i,pats)
    if not events: return []
    # candidates: values whose expression is a vector place, or derived from one
    ev={(i.bb,i.idx):(i,p) for i,p in events.values()}
    res={}
    def hits(pats):
        out=set()
        for i in f.instrs():
            if i.op in("load","getelementptr","bitcast","inttoptr","ptrtoint"):
                e=v.e(i.id)
                if e[0] in("fld","ld","add","arg") and any(match(p,e) or (place(p)[1] and match(place(p)[0],e)) for p in pats): out.add(i.id)
        return out
    H={}
    for k,(i,p) in ev.items():
        h=hits(p)
        if i.callee in BASE:
            o=strip(f,i.ops[BASE[i.callee]])
            if isinstance(o,int): h.add(o)
        H[k]=h
    # values derived from x, recomputed at their own definition; at an event all current derivations become stale too
    deriv={}
    for i in f.instrs():
        if i.op in FLOW and not(i.op in("add","sub") and not ptrish(f,i)):
            for o in i.ops[:1] if i.op=="getelementptr" else i.ops:
                if isinstance(o,int): deriv.setdefault(o,set()).add(i.id)
    def close(h):
        h=set(h); w=list(h)
        while w:
            x=w.pop()
            for y in deriv.get(x,()):
                if y not in h: h.add(y); w.append(y)
        return h
    H={k:close(h) for k,h in H.items()}
    IN={0:{}}; work=[0]; rep={}
    def transfer(b,st,report=False):
        st=dict(st); out=[]
        for i in f.blocks[b].instrs:
            if report: out+=uses(i,st)
            if i.id is not None and i.op!="phi":
                s=None
                if i.op in FLOW and not(i.op in("add","sub") and not ptrish(f,i)):
                    for o in (i.ops[:1] if i.op=="getelementptr" else i.ops):
                        if isinstance(o,int) and o in st: s=st[o]
                if s is not None: st[i.id]=s
                else: st.pop(i.id,None)
            k=(b,i.idx)
            if k in H:
                for x in H[k]:
                    d=f.defs.get(x)
                    if d is not None and d.id==i.id: continue
                    st[x]=i
                st.pop(i.id,None)
        return (st,out)
    def uses(i,st):
        r=[]
        if i.op=="load" and isinstance(i.ops[0],int) and i.ops[0] in st: r.append((i,i.ops[0]))
        elif i.op=="store":
            for o in i.ops:
                if isinstance(o,int) and o in st: r.append((i,o))
        elif i.op=="call":
            for o in i.ops:
                if isinstance(o,int) and o in st: r.append((i,o))
        elif i.op=="ret":
            for o in i.ops:
                if isinstance(o,int) and o in st: r.append((i,o))
        return [(x,o,st[o]) for x,o in r]
    seen={}
    while work:
        b=work.pop()
        st,_=transfer(b,IN[b])
        for t in f.blocks[b].succs:
            n=dict(st)
            # the call failed: nothing was moved
            for e in failed(f,b,t):
                d=f.defs.get(e) if isinstance(e,int) else None
                if d is not None and d.op=="call" and (d.callee in BASE or d.id in events): n={}
            phis=[i for i in f.blocks[t].instrs if i.op=="phi"]
            new={}
            for i in phis:
                for z,p in zip(i.ops,i.x):
                    if p==b:
                        if isinstance(z,int) and z in n: new[i.id]=n[z]
                        else: new[i.id]=None
            for k,c in new.items():
                if c is None: n.pop(k,None)
                else: n[k]=c
            old=IN.get(t)
            m=dict(old) if old else {}
            ch=old is None
            for x,c in n.items():
                if x not in m: m[x]=c; ch=True
            if ch: IN[t]=m; work.append(t)
    out=[]
    for b in IN:
        out+=transfer(b,IN[b],True)[1]
    return out,len(events)
def ptrish(f,i):
    """address arithmetic on an offset in the database (pointer minus or plus the base)"""
    for o in i.ops:
        d=f.defs.get(o) if isinstance(o,int) else None
        if d is not None and d.op=="ptrtoint": return True
    return False
def failed(f,b,t):
    """growing calls known to have returned null on edge b->t"""
    term=f.blocks[b].term
    if term.op!="br" or len(term.x)!=2 or term.x[0]==term.x[1]: return ()
    truth=term.x[0]==t
    c=f.defs.get(term.ops[0]) if isinstance(term.ops[0],int) else None
    out=[]
    if c is not None and c.op=="icmp" and c.x[0] in("eq","ne"):
        for x,y in((c.ops[0],c.ops[1]),(c.ops[1],c.ops[0])):
            if cint(y)==0 and (c.x[0]=="eq")==truth:
                x=strip(f,x); out.append(x)
    return out
def stored(a,f,c):
    """is the result of growing call c kept: returns None if so, else (instr,reason)"""
    v=a.v(f)
    op=c.ops[BASE[c.callee]]
    org=a.origins(f,op)
    local=all(not memory(place(e)[0]) and e[0]!="p" for e in org)
    places={place(e) for e in org if memory(place(e)[0])}
    isparam=any(e[0]=="p" for e in org)
    for e in org:
        if e[0]=="p":
            q=given(a,f,e[1])
            if q is not None and memory(place(q)[0]): places.add(place(q))
    if local: return "local"
    # values that stand for the result
    T={c.id:False}      # id -> offset?
    ch=True
    while ch:
        ch=False
        for i in f.instrs():
            if i.id is None or i.id in T: continue
            if i.op in("phi","select","bitcast","ptrtoint","inttoptr","freeze"):
                for o in (i.ops[1:] if i.op=="select" else i.ops):
                    if isinstance(o,int) and o in T: T[i.id]=T[o]; ch=True; break
            elif i.op=="sub" and isinstance(i.ops[0],int) and i.ops[0] in T and v.e(i.ops[1])[0]=="fld" and v.e(i.ops[1])[1]=="db":
                T[i.id]=True; ch=True
            elif i.op=="call" and i.callee in BASE and isinstance(i.ops[BASE[i.callee]],int) and strip(f,i.ops[BASE[i.callee]]) in T:
                T[i.id]=False; ch=True
    def at(i,o):
        """place written by a store through o"""
        p=v.e(i.ops[1] if o is None else o)
        if p[0]=="gepf": return ("fld",p[1],p[2])
        if p[0]=="elem": return ival.CANON(("ld",p[1],p[2]))
        return ("ld",p,("c",0))
    seen=set(); w=[(c.bb,c.idx+1)]
    opr=strip(f,op)
    while w:
        b,k=w.pop()
        if (b,k>0) in seen and k==0: continue
        seen.add((b,k>0)) if k==0 else None
        if k==0: seen.add((b,False))
        done=False
        for i in f.blocks[b].instrs[k:]:
            if i is c and k==0: break
            if i.op=="store" and isinstance(i.ops[0],int) and i.ops[0] in T:
                q=at(i,i.ops[1])
                for pl,off in places:
                    if q==pl and off==T[i.ops[0]]: done=True
                if q in {p for p,_ in places} and not done: return (i,"is stored in the wrong form")
            elif i.op=="call" and i.callee in BASE and isinstance(i.ops[BASE[i.callee]],int) and strip(f,i.ops[BASE[i.callee]]) in T and i is not c: done=True
            elif i.op=="call" and i.callee in GETSET and isinstance(i.ops[2],int) and i.ops[2] in T:
                if (("call",GETSET[i.callee],v.e(i.ops[0]),v.e(i.ops[1])),False) in places: done=True
            elif i.op=="call" and i.callee in GETSET.values() and v.e(i.id) in {p for p,_ in places}:
                return (i,"is not kept before the vector is looked up again")
            elif i.op=="ret":
                if i.ops and isinstance(i.ops[0],int) and i.ops[0] in T and isparam: done=True
                else: return (i,"is not kept before the function returns")
            elif i.op=="load" and v.e(i.id) in {p for p,_ in places} and any(u.op not in("icmp","ret") for u in realuses(f,i.id)):
                return (i,"is not kept before the vector is looked up again")
            if done: break
        if done: continue
        for t in f.blocks[b].succs:
            term=f.blocks[b].term
            skip=False
            if term.op=="br" and len(term.x)==2 and term.x[0]!=term.x[1]:
                cc=f.defs.get(term.ops[0]) if isinstance(term.ops[0],int) else None
                if cc is not None and cc.op=="icmp" and cc.x[0] in("eq","ne"):
                    eq=(cc.x[0]=="eq")==(term.x[0]==t)
                    for x,y in((cc.ops[0],cc.ops[1]),(cc.ops[1],cc.ops[0])):
                        x=strip(f,x)
                        if isinstance(x,int) and x in T and eq and (cint(y)==0 or (not T[x] and (strip(f,y)==opr or v.e(y)==v.e(op) or v.e(y) in org)) or (T[x] and (v.e(y)==place(v.e(op))[0] or {place(q)[0] for q in org}&a.origins(f,y)))): skip=True
            if not skip: 
                if (t,False) not in seen: w.append((t,0))
    return None
def realuses(f,o,d=0):
    out=[]
    for u in f.uses[o]:
        if u.op in("bitcast","ptrtoint","inttoptr","freeze") and d<4: out+=realuses(f,u.id,d+1)
        else: out.append(u)
    return out
def back(e,m):
    """expression of a caller in terms of the callee's parameters"""
    if e in m: return m[e]
    if not isinstance(e,tuple): return e
    if e[0] in("v","p","call"): return None
    r=[]
    for z in e:
        y=back(z,m) if isinstance(z,tuple) else z
        if y is None: return None
        r.append(y)
    return tuple(r)
def given(a,f,k):
    """the place every caller passes as parameter k, in terms of the other parameters"""
    cs=a.P.callers(f.name); out=set()
    for c in cs:
        v=a.v(c.fn)
        m={v.e(o):("p",j) for j,o in enumerate(c.ops) if j!=k and not isinstance(v.e(o)[1],int) or v.e(o)[0]=="p" and j!=k}
        out.add(back(v.e(c.ops[k]),m))
    if len(out)==1 and None not in out: return list(out)[0]
    return None
def growers(R,P):
    loc=lambda f:"%s:%d"%(f.file,f.line)
    ec=edge_facts
    # allocation
    for n in sorted(FRESH):
        f=P.fn(n); v=View(f); v.solve(); L=("p",1)
        al=[i for i in f.calls(("wr_malloc","wr_calloc"))]
        if len(al)!=1: R.bad("R1-growers",n,loc(f),"%s allocates %d times"%(n,len(al))); continue
        a=al[0]
        words=lin(ren(v.e(a.ops[1])))
        if a.callee=="wr_calloc":
            sz=cint(a.ops[2]); words=({t:c*sz for t,c in words[0].items()},words[1]*sz) if sz else ({},0)
        if not(words[0]=={L:8} and words[1]>=8): R.bad("R1-growers",n+" size",a.loc(),"%s allocates %s bytes for a vector of the given length"%(n,words)); 
        else: R.good("R1-growers",n+" size")
        st=[i for i in f.instrs() if i.op=="store" and v.e(i.ops[1])==v.e(a.id) or i.op=="store" and v.e(i.ops[1])==("elem",v.e(a.id),("c",0))]
        if [v.e(i.ops[0]) for i in st]!=[L]: R.bad("R1-growers",n+" length",a.loc(),"%s does not store the allocated length in the vector"%n)
        else: R.good("R1-growers",n+" length")
        if n.startswith("wr_cvec"):
            st=[i for i in f.instrs() if i.op=="store" and v.e(i.ops[1])==("elem",v.e(a.id),("c",1))]
            if [v.e(i.ops[0]) for i in st]!=[("c",2)]: R.bad("R1-growers",n+" free",a.loc(),"%s does not set the first free position to 2"%n)
            else: R.good("R1-growers",n+" free")
    # realloc
    f=P.fn("wr_vec_realloc"); v=View(f); v.solve(); V,I=("p",1),("p",2)
    ra=[i for i in f.calls("wr_realloc")]
    ok=False
    if len(ra)==1:
        r=ra[0]; 
        if v.e(r.ops[1])!=V: R.bad("R1-growers","realloc operand",r.loc(),"wr_vec_realloc reallocates something else than the vector")
        st=[i for i in f.instrs() if i.op=="store" and v.e(i.ops[1]) in(v.e(r.id),("elem",v.e(r.id),("c",0)))]
        if len(st)!=1: R.bad("R1-growers","realloc length",r.loc(),"wr_vec_realloc does not store the new length")
        else:
            N=v.e(st[0].ops[0]); w=lin(ren(v.e(r.ops[2])))
            d=lin(("sub",ren(v.e(r.ops[2])),("mul",("c",8),("add",N,("c",1)))))
            if d[0] or d[1]<0: R.bad("R1-growers","realloc size",r.loc(),"wr_vec_realloc allocates %s bytes and stores the length %s"%(w,N))
            else: R.good("R1-growers","realloc size")
            if not(implies(v,ec(f,r.bb),I,N)): R.bad("R1-growers","realloc enough",r.loc(),"wr_vec_realloc reallocates to a length that was not found to reach the wanted position")
            else: R.good("R1-growers","realloc enough")
    else: R.bad("R1-growers","realloc",loc(f),"wr_vec_realloc has %d reallocations"%len(ra))
    for b,e in retsites(f,v):
        if e==V:
            if implies(v,ec(f,b),I,("ld",V,("c",0))): R.good("R1-growers","realloc in place")
            else: R.bad("R1-growers","realloc in place",loc(f),"wr_vec_realloc returns the old vector where the position was not found to be within its length")
        elif e==("c",0) or ra and e==v.e(ra[0].id): pass
        else: R.bad("R1-growers","realloc return",loc(f),"wr_vec_realloc returns something else than the vector")
    nulls(R,f,v,{i.id for i in ra})
    # store
    f=P.fn("wr_vec_store"); v=View(f); v.solve(); E=("p",3)
    n=0
    for i in f.instrs():
        if i.op!="store": continue
        p=v.e(i.ops[1])
        if p[0]!="elem" or p[2]!=I: 
            if p[0] in("elem",): R.bad("R1-growers","store position",i.loc(),"wr_vec_store writes at another position than the given one")
            continue
        if v.e(i.ops[0])!=E: R.bad("R1-growers","store value",i.loc(),"wr_vec_store writes another value than the given one"); continue
        n+=1
        if p[1]==V:
            if implies(v,ec(f,i.bb),I,("ld",V,("c",0))): R.good("R1-growers","store in place")
            else: R.bad("R1-growers","store in place",i.loc(),"wr_vec_store writes into the vector where the position was not found to be within its length")
        elif p[1][0]=="call" and p[1][1]=="wr_vec_realloc" and p[1][3:]==(V,I): R.good("R1-growers","store after growing")
        else: R.bad("R1-growers","store target",i.loc(),"wr_vec_store writes into something else than the vector grown to reach the position")
        for b,e in retsites(f,v):
            if (i.bb==b or b in f.reach()[i.bb]) and e!=p[1] and i.bb in f.dom[b]: R.bad("R1-growers","store return",i.loc(),"wr_vec_store does not return the vector it wrote into")
    for b,e in retsites(f,v):
        if e!=("c",0) and not any(i.op=="store" and v.e(i.ops[1])==("elem",e,I) and i.bb in f.dom[b] for i in f.instrs()): R.bad("R1-growers","store missing",loc(f),"wr_vec_store can return without writing the value")
        else: R.good("R1-growers","store return")
    nulls(R,f,v,{i.id for i in f.calls("wr_vec_realloc")})
    # cvec store
    f=P.fn("wr_cvec_store"); v=View(f); v.solve()
    c=[i for i in f.calls("wr_vec_store")]
    if len(c)!=1 or [v.e(o) for o in c[0].ops]!=[("p",0),V,I,E]: R.bad("R1-growers","cvec store",loc(f),"wr_cvec_store does not store the given value at the given position of the vector")
    else:
        R.good("R1-growers","cvec store")
        st=[i for i in f.instrs() if i.op=="store" and v.e(i.ops[1])==("elem",v.e(c[0].id),("c",1))]
        if len(st)==1 and v.e(st[0].ops[0])==norm(("add",I,("c",1))) and implies(v,ec(f,st[0].bb),("ld",v.e(c[0].id),("c",1)),I): R.good("R1-growers","cvec free position")
        elif len(st)==1 and v.e(st[0].ops[0])!=norm(("add",I,("c",1))): R.bad("R1-growers","cvec free position",st[0].loc(),"wr_cvec_store sets the first free position to something else than the next one")
        else: R.bad("R1-growers","cvec free position",loc(f),"wr_cvec_store does not keep the first free position behind the last stored element")
        # every return with the vector passes the update or found it unnecessary
        for b,e in retsites(f,v):
            if e not in(("c",0),v.e(c[0].id)): R.bad("R1-growers","cvec return",loc(f),"wr_cvec_store returns something else than the vector it stored into")
        # every return of the vector passes the update, or has found it unnecessary
        if len(st)==1:
            cell=("ld",v.e(c[0].id),("c",1))
            if skips(f,v,c[0],st[0],lambda fs:above(v,fs,cell,I)): R.bad("R1-growers","cvec free position kept",st[0].loc(),"wr_cvec_store can return without moving the first free position behind the stored element")
            else: R.good("R1-growers","cvec free position kept")
        nulls(R,f,v,{c[0].id})
    f=P.fn("wr_cvec_push"); v=View(f); v.solve()
    c=[i for i in f.calls("wr_cvec_store")]
    PV,PE=("p",1),("p",2)
    if len(c)!=1 or [ren(v.e(o)) for o in c[0].ops]!=[("p",0),PV,("ld",PV,("c",1)),PE]: R.bad("R1-growers","cvec push",loc(f),"wr_cvec_push does not store the value at the first free position")
    else:
        R.good("R1-growers","cvec push")
        for b,e in retsites(f,v):
            if e not in(("c",0),v.e(c[0].id)): R.bad("R1-growers","push return",loc(f),"wr_cvec_push returns something else than the vector it stored into")
        nulls(R,f,v,{c[0].id})
def above(v,fs,a,b):
    """a>b among the facts"""
    return any((p=="sgt" and ren(v.e(x))==ren(a) and ren(v.e(y))==ren(b)) or (p=="slt" and ren(v.e(x))==ren(b) and ren(v.e(y))==ren(a)) for p,x,y in fs)
def edgefact(f,b,t):
    term=f.blocks[b].term
    if term.op!="br" or len(term.x)!=2 or term.x[0]==term.x[1]: return []
    d=f.defs.get(term.ops[0]) if isinstance(term.ops[0],int) else None
    if d is None or d.op!="icmp" or d.x[0] not in NEG: return []
    return [(d.x[0] if term.x[0]==t else NEG[d.x[0]],d.ops[0],d.ops[1])]
def skips(f,v,c,st,ok):
    """a path from c to a return that misses st, is not established to be fine, and on which c did not fail"""
    seen=set(); w=[c.bb]
    while w:
        b=w.pop()
        if b in seen: continue
        seen.add(b)
        if b==st.bb: continue
        if f.blocks[b].term.op=="ret": return True
        for t in f.blocks[b].succs:
            fs=edgefact(f,b,t)
            if ok(fs): continue
            if any(p=="eq" and (strip(f,x)==c.id and cint(y)==0) for p,x,y in fs): continue
            w.append(t)
    return False
def nulls(R,f,v,calls):
    """null is returned only where growing failed"""
    bad=False
    def go(o,b,pb,d=0):
        nonlocal bad
        i=f.defs.get(o) if isinstance(o,int) else None
        if i is not None and i.op=="phi" and d<6:
            for z,p in zip(i.ops,i.x): go(z,p,i.bb,d+1)
        elif v.e(o)==("c",0):
            fs=edge_facts(f,b)+(edgefact(f,b,pb) if pb is not None else [])
            # (a vector that is missing because growing failed before is still missing)
            ok=any(p=="eq" and (strip(f,x) in calls or v.e(x)==("p",1)) and cint(y)==0 for p,x,y in fs) or any(p=="ne" and v.e(x)==("fld","alloc_err",("p",0)) and cint(y)==0 for p,x,y in fs)
            if not ok: bad=True
    for b in f.blocks:
        if b.n in f.dom and b.term.op=="ret" and b.term.ops: go(b.term.ops[0],b.n,None)
    if bad: R.bad("R1-growers",f.name+" failure","%s:%d"%(f.file,f.line),"%s can report a failure although the vector was grown"%f.name)
    else: R.good("R1-growers",f.name+" failure")
def ren(e):
    if not isinstance(e,tuple): return e
    if e[0]=="trunc": return ren(e[2])
    return tuple(ren(z) if isinstance(z,tuple) else z for z in e)
def implies(v,conds,a,b):
    """the branch conditions establish a<=b"""
    for p,x,y in conds:
        x,y=ren(v.e(x)),ren(v.e(y))
        if p in("sle","slt") and x==ren(a) and y==ren(b): return True
        if p in("sge","sgt") and x==ren(b) and y==ren(a): return True
        if p=="eq" and {x,y}=={ren(a),ren(b)}: return True
    return False
NEG={"eq":"ne","ne":"eq","slt":"sge","sge":"slt","sgt":"sle","sle":"sgt"}
def edge_facts(f,bb):
    out=[]
    for c,t,_ in f.edge_conds(bb):
        d=f.defs.get(c) if isinstance(c,int) else None
        if d is not None and d.op=="icmp" and d.x[0] in NEG: out.append((d.x[0] if t else NEG[d.x[0]],d.ops[0],d.ops[1]))
    return out
def retsites(f,v):
    """(block, expression) of the returned values, merges taken apart"""
    out=[]
    def go(o,b,d=0):
        i=f.defs.get(o) if isinstance(o,int) else None
        if i is not None and i.op=="phi" and d<6:
            for z,p in zip(i.ops,i.x): go(z,p,d+1)
        else: out.append((b,v.e(o)))
    for b in f.blocks:
        if b.n in f.dom and b.term.op=="ret" and b.term.ops: go(b.term.ops[0],b.n)
    return out
def exempt(a,f,c):
    """second store into a vector that was just grown to a position not below this one"""
    v=a.v(f); o=strip(f,c.ops[1])
    d=f.defs.get(o) if isinstance(o,int) else None
    if d is None or d.op!="call" or d.callee not in("wr_vec_store","wr_cvec_store") or c.callee=="wr_cvec_push": return False
    if not f.dominates(d,c): return False
    l=lin(("sub",ren(v.e(c.ops[2])),ren(v.e(d.ops[2]))))
    return not l[0] and l[1]<=0
def run(R):
    P=Prog("gkc")
    R.rule("R1-growers","the vector routines allocate what they record as the length, write only within it or after growing to reach the position, and return the vector written into",12)
    R.rule("R2-kept","the result of a call that may move a vector replaces the old address where the vector is kept, in the same form, before it is looked up again or the function returns",40)
    R.rule("R3-stale","an address taken from a vector before a call that may move that vector is not used after it",60)
    growers(R,P)
    a=A(P,("Reasoner","Printer","Parser","Builtparser","Main","Test")); a.summaries()
    nlocal=0
    for f in a.fns:
        if f.name in BASE: continue
        for c in f.calls(BASE):
            if c.callee=="wr_vec_realloc" and f.name=="wr_vec_store": continue
            k="%s %s"%(f.name,show(f,c.ops[1]))
            if exempt(a,f,c): R.good("R2-kept",k); continue
            r=stored(a,f,c)
            if r=="local": nlocal+=1; R.good("R2-kept",k)
            elif r is None: R.good("R2-kept",k)
            else: R.bad("R2-kept",k,c.loc(),"the vector returned by %s() in %s() %s (%s)"%(c.callee,f.name,r[1],r[0].loc()))
    ng=0
    for f in a.fns:
        if f.name in BASE: continue
        s=stale(a,f)
        if not s: continue
        s,n=s; ng+=n
        bad={}
        for i,o,c in s:
            if exempt(a,f,c): continue
            bad.setdefault((show(f,o),c.loc()),[]).append(i)
        for (x,cl),l in bad.items():
            R.bad("R3-stale","%s %s"%(f.name,x),l[0].loc(),"%s() uses %s at %s, taken before the call at %s which may move that vector"%(f.name,x,l[0].loc(),cl))
        R.good("R3-stale",f.name,n=max(1,n-len(bad)))
    R.note("functions",len(a.fns)); R.note("growing_calls_incl_indirect",ng); R.note("vectors_only_kept_in_locals",nlocal)
    R.note("functions_that_may_move_a_vector_they_are_given_or_find",sum(1 for x in a.g.values() if x))
    R.assume+=["on paths where growing fails for lack of memory the old vector stays in place (the run ends there)","vector elements that hold other vectors are told apart by the array they are in, not by index"]
if __name__=="__main__":
    check.main("C07","interprocedural effect summaries (places whose vector may be moved) and forward dataflow of stale addresses over LLVM IR",run)
