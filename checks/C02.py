"""C02: bindings made by one unification/matching attempt never survive into another one."""
import sys, os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"sa"))
from core import *; from flow import *; import check
PROBE={"wr_unify_term","wr_match_term"}
AUX={"wr_unify_term_aux","wr_match_term_aux","wr_eqmodvars_term_aux"}
CLEAR={"wr_clear_varstack","wr_clear_all_varbanks"}
SLICE={"wr_clear_varstack_topslice"}
PRIM=PROBE|AUX|CLEAR|SLICE|{"setvar"}
UNASSIGNED=0xff
def bank_elem(f,o):
    """pointer operand is &g->varbanks[k]"""
    a=addr(f,o)
    if a[0]=="elem":
        l=load_of_field(f,a[1])
        return bool(l and l[1]=="varbanks")
    return False
def counter_load(f,o):
    o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) else None
    if i is None or i.op!="load": return False
    p=i.ops[0]; l=load_of_field(f,p)
    if l and l[1]=="tmp_unify_vc": return True
    a=addr(f,p)
    if a[0]=="elem" and cint(a[2])==1:
        l=load_of_field(f,a[1]); return bool(l and l[1]=="varstack")
    return False
class Client:
    opaque=PRIM
    def __init__(s,F): s.F=F; s.bad={}; s.sites=set(); s.exits=defaultdict(dict); s.saves={}
    def event(s,i):
        if i.fn.name in PRIM: return False
        if i.op=="call": return i.callee in PRIM or i.callee in s.F
        if i.op=="store": return bank_elem(i.fn,i.ops[1]) and cint(i.ops[0])!=UNASSIGNED
        return False
    def branch(s,t,truth,q,fi):
        f=t.fn; c=f.defs.get(t.ops[0]) if isinstance(t.ops[0],int) else None
        if c is not None and c.op=="icmp" and c.x[0] in("eq","ne") and q!="E":
            a,b=c.ops
            if (counter_load(f,a) or cint(a)==2) and (counter_load(f,b) or cint(b)==2) and (counter_load(f,a) or counter_load(f,b)):
                if truth==(c.x[0]=="eq"): return "E"
        return q
    def step(s,i,q,ctx):
        if i.op=="store": return [("M",None)]
        c=i.callee
        if c in PROBE|AUX:
            s.sites.add((i.fn.name,i.id,c))
            if q!="E": s.bad.setdefault((i.fn.name,c,q),(i,path_lines(i.fn,ctx.key,ctx.parents) if ctx.parents else None))
            return [("U","nz"),("F",0)]
        if c in CLEAR|SLICE: return [("E",None)]
        # a function of the discipline itself: its own attempts start relative to the caller's level
        r=ctx.eng.call(c,"E",())
        out=set()
        for q2,rf in r: out.add((q if q2=="E" else q2,rf))
        return list(out)
    def on_exit(s,f,t,q,rf,key,par):
        if q!="E": s.exits[f.name].setdefault(q,(t,path_lines(f,key,par) if par else None))
        else: s.exits[f.name]
def run(R):
    P=Prog("gkc")
    R.note("functions_in_program",len(P.fns)); R.note("instructions",sum(len(b.instrs) for f in P.fns.values() for b in f.blocks))
    for n in PROBE|AUX|CLEAR|SLICE: P.fn(n)
    # builders: functions that bind while renaming; their bindings belong to the rename set-up/clean-up rule
    def builder(f): return any(i.op=="load" and addr(f,i.ops[0])[:3]==("field","glb","build_rename") for i in f.instrs())
    base=Client(set())
    direct={f.name for f in P.fns.values() if f.name not in PRIM and any(base.event(i) for i in f.instrs())}
    builders={n for n in direct if builder(P.fns[n])}
    F=direct-builders
    # ---- R1: attempts start and end clean
    R.rule("attempt","every matching/unification attempt in a function starts with no binding of an earlier attempt of that function left in place",6)
    R.rule("balanced","a function that makes bindings removes them before it returns to code outside the matching discipline (on every path)",12)
    changed=True
    while changed:
        cl=Client(F); E=Engine(P,cl)
        E.eventful=E.eventful&F
        res={n:E.solve(n,"E") for n in sorted(F)}
        dirty={n for n,r in res.items() if any(q!="E" for q,_ in r)}
        changed=False
        roots=[]
        for n in sorted(dirty):
            callers={c.fn.name for c in P.callers(n)}-builders
            out=callers-F-PRIM
            # delegate to callers; a function with no caller that could clean up is the root of the leak
            if not callers-{n}: roots.append(n)
            elif out and len(F|out)<400 and not (cl.exits[n] and n in ROOTS(P)):
                F=F|out; changed=True
    sites=cl.sites
    for (fn,iid,c) in sorted(sites):
        i=P.fns[fn].defs[iid]
        b=[k for k in cl.bad if k[0]==fn and k[1]==c and cl.bad[k][0].id==iid]
        if not b: R.good("attempt","%s in %s (%s)"%(c,fn,i.loc()))
    for (fn,c,q),(i,pl) in sorted(cl.bad.items(),key=lambda z:z[0]):
        pl=trace(P,cl,E,fn,i)
        R.bad("attempt","%s|%s|%s"%(fn,c,q),i.loc(),"%s() calls %s() while %s of an earlier attempt are still in place"%(fn,c,{"U":"the bindings","F":"partial bindings","M":"marker bindings"}[q]),pl)
    for n in sorted(F):
        if n in roots:
            for q,(t,_) in cl.exits[n].items(): R.bad("balanced",n+"|"+q,t.loc(),"%s() can return with bindings still in place (state %s)"%(n,q))
        else: R.good("balanced",n)
    R.note("binding_functions",sorted(F)); R.note("attempt_sites",len(sites))
    # ---- R2: checkpoints
    R.rule("checkpoint","a partial undo restores exactly the trail level that was saved before the attempt it undoes",3)
    for f in P.fns.values():
        for i in f.calls(SLICE):
            o=strip(f,i.ops[2])
            ok=counter_load(f,i.ops[2]) and P_notafter(f,o,i)
            d=f.defs.get(o) if isinstance(o,int) else None
            if ok: R.good("checkpoint","%s (%s)"%(f.name,i.loc()))
            else: R.bad("checkpoint",f.name,i.loc(),"%s() undoes bindings to a level that was not saved before its attempt"%f.name)
    # ---- R4: every binding is trailed
    R.rule("trail","every store of a value into a variable slot is entered on the undo trail together with a step of the trail counter",8)
    for f in P.fns.values():
        for i in f.instrs():
            if i.op!="store" or not bank_elem(f,i.ops[1]) or cint(i.ops[0])==UNASSIGNED: continue
            if any(b.name==f.name for b in ()): continue
            if trailed(f,i): R.good("trail","%s (%s)"%(f.name,i.loc()))
            elif already_bound(f,i): R.good("trail","%s rebinding of an already trailed slot (%s)"%(f.name,i.loc()))
            else: R.bad("trail","%s|%s"%(f.name,"bind"),i.loc(),"%s() binds a variable without recording it on the undo trail"%f.name)
    # ---- R6: rename set-up / clean-up
    R.rule("rename","after variables of a clause under construction were renamed, the renaming is undone on every path before the function returns or starts another renaming",8)
    rename_rule(P,R,builders)
    R.assume+=["the primitives that implement binding, matching and undoing are trusted to do what their names say (their trail entries are checked by rule trail)",
               "indirect calls (none in the reasoner) are resolved by arity"]
def ROOTS(P): return {"main"}
def P_notafter(f,o,call):
    """the saved level was loaded before an attempt that precedes the undo (not immediately re-read after it)"""
    d=f.defs.get(o)
    if d is None: return False
    # walk: there must be an attempt/binding call on some path between the load and the undo, and none of the loads is after
    reach=f.reach()
    for i in f.instrs():
        ev=(i.op=="call" and i.callee and (i.callee in PROBE|AUX or i.callee.startswith("wr_"))) or (i.op=="store" and bank_elem(f,i.ops[1]))
        if ev and (f.dominates(d,i)) and (i.bb==call.bb and i.idx<call.idx or call.bb in reach[i.bb]): return f.dominates(d,call)
    return False
def trailed(f,i):
    def key(o,d=0):
        o=strip(f,o)
        if isinstance(o,str): return o
        if isinstance(o,list): return str(o)
        j=f.defs.get(o)
        if j is None or d>8: return ("v",o)
        if j.op=="load":
            return ("load",key(j.ops[0],d+1))
        if j.op=="getelementptr": return ("gep",str(j.x),)+tuple(key(z,d+1) for z in j.ops)
        if j.op in("ashr","lshr","shl","and","or","add","sub"): return (j.op,)+tuple(key(z,d+1) for z in j.ops)
        return ("v",o)
    want=key(i.ops[1])
    b=f.blocks[i.bb]
    stk=cnt=False
    # look in the block and straight-line neighbours
    seq=list(b.instrs); n=b
    while len(n.succs)==1 and len(f.blocks[n.succs[0]].preds)==1: n=f.blocks[n.succs[0]]; seq+=n.instrs
    n=b
    while len(n.preds)==1 and len(f.blocks[n.preds[0]].succs)==1: n=f.blocks[n.preds[0]]; seq=n.instrs+seq
    for j in seq:
        if j.op=="store":
            a=addr(f,j.ops[1])
            if a[0]=="elem":
                l=load_of_field(f,a[1])
                if l and l[1]=="varstack" and key(j.ops[0])==want: stk=True
            v=f.defs.get(j.ops[0]) if isinstance(j.ops[0],int) else None
            if v is not None and v.op=="add" and cint(v.ops[1])==1 and counter_load(f,v.ops[0]): cnt=True
    return stk and cnt
def already_bound(f,i):
    """dominated by a test slot!=UNASSIGNED of the same variable"""
    for c,truth,t in f.edge_conds(i.bb):
        if not isinstance(c,int): continue
        d=f.defs.get(c)
        if d is None or d.op!="icmp": continue
        a,b=d.ops
        if cint(a)==UNASSIGNED: a,b=b,a
        if cint(b)==UNASSIGNED and ((d.x[0]=="eq")!=truth) and d.x[0] in("eq","ne"):
            j=f.defs.get(strip(f,a)) if isinstance(strip(f,a),int) else None
            if j is not None and j.op=="load" and bank_elem(f,j.ops[0]): return True
    return False
def trace(P,cl,E,fn,i):
    c2=Client(cl.F); E.client=c2
    old=E.curkey; E.curkey=None
    try: E.run(P.fns[fn],"E",trace=True)
    except Exception: return None
    finally: E.client=cl; E.curkey=old
    for k,(j,pl) in c2.bad.items():
        if j.id==i.id: return pl
    return None
def rename_rule(P,R,builders):
    opens=set()
    for f in P.fns.values():
        for i in f.instrs():
            if i.op=="store" and addr(f,i.ops[1])[:3]==("field","glb","build_rename_vc") and cint(i.ops[0])==0: opens.add(f.name)
    users={c.fn.name for o in opens for c in P.callers(o)}-opens
    rb=set(builders)
    w=list(builders)
    while w:
        x=w.pop()
        for c in P.callers(x):
            if c.fn.name not in rb and c.fn.name not in users: rb.add(c.fn.name); w.append(c.fn.name)
    def closes(f):
        lv=any(i.op=="load" and addr(f,i.ops[0])[:3]==("field","glb","build_rename_vc") for i in f.instrs())
        st=any(i.op=="store" and cint(i.ops[0])==UNASSIGNED and addr(f,i.ops[1])[0]=="elem" and (load_of_field(f,addr(f,i.ops[1])[1]) or (0,0))[1]=="build_rename_bank" for i in f.instrs())
        return lv and st
    closers={f.name for f in P.fns.values() if closes(f)}|{"wr_clear_varstack"}
    # wrappers that clear on every path and do nothing else with bindings
    for f in P.fns.values():
        if f.name in closers or f.name in rb: continue
        cs=[i for i in f.calls(closers)]
        if cs and len(f.blocks)<=3 and all(any(c.bb in f.dom[b.n] for c in cs) for b in f.blocks if b.term.op=="ret"): closers.add(f.name)
    class C:
        opaque=set()
        def __init__(s): s.bad={}; s.open=set()
        def event(s,i):
            return i.op=="call" and i.callee is not None and (i.callee in opens or i.callee in closers or i.callee in rb)
        def step(s,i,q,ctx):
            c=i.callee
            if c in opens and c not in rb:
                s.open.add(i.id)
                if q[0]=="B": s.bad.setdefault((i.fn.name,"reopen"),(i,q))
                return [(("S",i.id),None)]
            if c in closers: return [(("N",),None)]
            if c in rb and q[0]=="S": return [(("B",q[1]),None)]
            return [(q,None)]
        def on_exit(s,f,t,q,rf,key,par):
            if q[0]=="B": s.bad.setdefault((f.name,"exit"),(t,q,key))
    users=set()
    setups={n for n in opens if n not in rb}
    for f in P.fns.values():
        if any(True for _ in f.calls(setups)): users.add(f.name)
    wf=written_fields(P)
    for n in sorted(users):
        f=P.fns[n]; cl=C(); E=Engine(P,cl,wf); E.eventful=set()
        E.run(f,("N",))
        bad={q[1] for (_,v) in cl.bad.items() for q in [v[1]]}
        for k,v in cl.bad.items():
            E.run(f,("N",))
            R.bad("rename","%s|%s"%k,v[0].loc(),"%s() %s while variable renamings made after %s are still in place"%(n,"returns" if k[1]=="exit" else "starts another renaming",f.defs[v[1][1]].loc()))
        for o in sorted(cl.open-bad): R.good("rename","%s (%s)"%(n,f.defs[o].loc()))
if __name__=="__main__":
    check.main("C02","Typestate analysis over the LLVM IR of every function that binds variables: abstract state {clean, bound, partially bound, marked}, path-sensitive with correlated result flags, interprocedural summaries among binding functions; trail and rename pairing rules by data-flow on the same IR.",run)
