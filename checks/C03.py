"""C03: a conclusion is only drawn from a comparison that succeeded, and is drawn from the very terms that were compared."""
import sys, os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"sa"))
from core import *; from flow import *; from sign import skey, lin; import check
from shape import *
import sccp
PROBE={"wr_unify_term":(1,2),"wr_match_term":(1,2),"wr_equal_term":(1,2),"wr_eqmodvars_term":(1,2)}
CLEAR={"wr_clear_varstack","wr_clear_all_varbanks"}
PROC={"wr_process_resolve_result","wr_process_factor_result","wr_process_paramodulate_result","wr_process_propagated_result"}
class Conc:
    """N: nothing compared successfully / ('S',i): comparison i succeeded and its bindings are still in place"""
    opaque=set(PROBE)|CLEAR|PROC
    def __init__(s,probes): s.bad={}; s.ok=set(); s.probes=probes; s.pairs=defaultdict(set)
    def event(s,i): return i.op=="call" and (i.callee in s.probes or i.callee in CLEAR or i.callee in PROC)
    def step(s,i,q,ctx):
        c=i.callee
        if c in s.probes: return [(("S",i.id),"nz"),("N",0)]
        if c in CLEAR: return [("N",None)]
        if q=="N": s.bad.setdefault(i.id,(i,path_lines(i.fn,ctx.key,ctx.parents) if ctx.parents else None))
        else: s.pairs[i.id].add(q[1])
        s.ok.add(i.id)
        return [(q,None)]
def run(R):
    P=Prog("gkc"); R.note("functions_in_program",len(P.fns))
    wf=written_fields(P)
    conclusions(P,R,wf); nodrop(P,R,wf); directions(P,R); answers(P,R,wf); rewriting(P,R,wf); cuts(P,R,wf); once(P,R,wf); shared(P,R)
    R.assume+=["the comparison primitives (unify, match, equal) answer correctly for the terms they are given",
               "a hash node, clause pointer or atom loaded twice from the same expression is the same object (no concurrent writer)"]
# ---------------------------------------------------------------- R1, R2
def conclusions(P,R,wf):
    R.rule("success","an inference result is only built while the bindings of a successful comparison made for it are in place",6)
    R.rule("operands","the result is built from the atoms and clauses whose terms were compared",10)
    fns=sorted({c.fn.name for p in PROC for c in P.callers(p)})
    n=0
    for name in fns:
        f=P.fns[name]; procs=[i for i in f.instrs() if i.op=="call" and i.callee in PROC]
        if name in PROC: continue
        probes={"wr_unify_term"} if any(f.calls("wr_unify_term")) else {"wr_equal_term","wr_match_term"}
        cl=Conc(probes); E=Engine(P,cl,wf); E.eventful=set(); E.run(f,"N",trace=True)
        for p in procs:
            n+=1
            if p.id in cl.bad: R.bad("success","%s|%s"%(name,p.callee),p.loc(),"%s() builds a result with %s() although no comparison succeeded on this path"%(name,p.callee),cl.bad[p.id][1])
            elif p.id in cl.ok: R.good("success","%s in %s (%s)"%(p.callee,name,p.loc()))
            for pr in sorted(cl.pairs[p.id]):
                q=f.defs[pr]
                m=operands_ok(f,p,q)
                if m: R.bad("operands","%s|%s|%s"%(name,p.callee,m[0]),p.loc(),"%s(): %s"%(name,m[1]))
                else: R.good("operands","%s(%s) -> %s in %s (%s)"%(q.callee,", ".join(show(f,z) for z in q.ops[1:3]),p.callee,name,p.loc()))
    R.note("inference_sites",n)
    # inside the builders: the substituted copies are made of the right premise
    f=P.fns.get("wr_process_resolve_result")
    if f:
        for c in list(f.calls("wr_process_resolve_result_aux"))+list(f.calls("wr_process_instgen_result_aux")):
            cl,at=strip(f,c.ops[1]),strip(f,c.ops[2])
            if (cl,at) in((2,1),(4,3)): R.good("operands","copy of premise %s without its own literal (%s)"%(show(f,cl),c.loc()))
            else: R.bad("operands","%s|aux|%s,%s"%(f.name,show(f,cl),show(f,at)),c.loc(),"%s() copies clause %s leaving out literal %s of another premise"%(f.name,show(f,cl),show(f,at)))
    f=P.fns.get("wr_process_paramodulate_result")
    if f:
        for c in f.calls("wr_process_resolve_result_aux"):
            cl,at,path,rep=strip(f,c.ops[1]),strip(f,c.ops[2]),strip(f,c.ops[7]),strip(f,c.ops[8])
            ok=(cl==2 and at==1 and cint(path)==-1) or (cl==4 and cint(at)==0 and path==8 and rep==7)
            if ok: R.good("operands","paramodulation copy of %s (%s)"%(show(f,cl),c.loc()))
            else: R.bad("operands","%s|aux|%s,%s"%(f.name,show(f,cl),show(f,rep)),c.loc(),"%s() copies clause %s, leaving out %s and replacing by %s"%(f.name,show(f,cl),show(f,at),show(f,rep)))
    f=P.fns.get("wr_process_factor_result")
    if f:
        for c in f.calls("wr_process_resolve_result_aux"):
            cl,at,path=strip(f,c.ops[1]),strip(f,c.ops[2]),c.ops[7]
            if cl==1 and at==4 and cint(path)==-1: R.good("operands","factor copy (%s)"%c.loc())
            else: R.bad("operands","%s|aux"%f.name,c.loc(),"%s() copies clause %s leaving out %s"%(f.name,show(f,cl),show(f,at)))
def same(f,a,b): return skey(f,a)==skey(f,b)
def operands_ok(f,p,q):
    """None if the result builder p works on what probe q compared"""
    a,b=q.ops[1],q.ops[2]; n=p.callee
    def eqset(x,y): return (same(f,a,x) and same(f,b,y)) or (same(f,a,y) and same(f,b,x))
    if n in("wr_process_resolve_result","wr_process_propagated_result"):
        xa,xc,ya,yc=p.ops[1:5]
        if not eqset(xa,ya): return ("atoms","the result is built on literals %s and %s but %s and %s were compared"%(show(f,xa),show(f,ya),show(f,a),show(f,b)))
        for at,cl,w,ot in((xa,xc,"first",yc),(ya,yc,"second",xc)):
            if not belongs(f,at,cl): return ("clause-"+w,"the %s literal %s is not a literal of the clause %s passed with it"%(w,show(f,at),show(f,cl)))
            if belongs(f,at,ot) and not (isparam(f,at) or isparam(f,ot)) and not belongs(f,at,cl): return ("clause-"+w,"literal %s belongs to the other premise"%show(f,at))
        return None
    if n=="wr_process_factor_result":
        xc,ln,x,xa,y,ya=p.ops[1:7]
        if cint(ya)==0:
            # equality reflexivity: both arguments of the literal were unified
            fa,fb=argfield(f,a),argfield(f,b)
            if not fa or not fb or {fa[0],fb[0]}!={"unify_funarg1pos","unify_funarg2pos"}: return ("reflexive","the two compared terms are not the two sides of the equality")
            for z in(fa,fb):
                if not (lf(f,z[1])&lf(f,xa)): return ("reflexive-atom","the compared terms are not arguments of the literal %s that is removed"%show(f,xa))
        elif not eqset(xa,ya): return ("atoms","the factor is built on literals %s and %s but %s and %s were compared"%(show(f,xa),show(f,ya),show(f,a),show(f,b)))
        for at in(xa,ya):
            if cint(at) is None and not belongs(f,at,xc): return ("clause","literal %s is not a literal of clause %s"%(show(f,at),show(f,xc)))
        for idx,at in((x,xa),(y,ya)):
            if cint(idx) is None and cint(at) is None and not indexed(f,at,idx): return ("index","literal %s is not the one at position %s"%(show(f,at),show(f,idx)))
        return None
    if n=="wr_process_paramodulate_result":
        xa,xc,ya,yc,act,at,bt,path,left,frm=p.ops[1:11]
        if not (same(f,a,at) or same(f,b,at)): return ("term","the replaced side %s was not one of the compared terms %s, %s"%(show(f,at),show(f,a),show(f,b)))
        other=b if same(f,a,at) else a
        if cint(frm)!=0:
            # from: a and b are the two sides of xatom; the other compared term is stored with the clause rewritten
            if not belongs(f,other,yc): return ("into","the compared subterm %s does not come with the rewritten clause %s"%(show(f,other),show(f,yc)))
            for u,v in joint(f,at,bt):
                fu,fv=argfield(f,u),argfield(f,v)
                if not fu or not fv or {fu[0],fv[0]}!={"unify_funarg1pos","unify_funarg2pos"}: return ("sides","the replacement %s is not always the opposite side of the equality from %s"%(show(f,bt),show(f,at)))
                for z in(fu,fv):
                    if not (lf(f,z[1])&lf(f,xa)): return ("sides-atom","the sides of another equality than %s are used"%show(f,xa))
            if not belongs(f,xa,xc): return ("clause","equality %s is not a literal of %s"%(show(f,xa),show(f,xc)))
            if not (vleaves(f,path)&vleaves(f,yc)): return ("path","the term position does not come with the rewritten clause")
        else:
            # into: the equality and its clause come from the index node of the compared side
            if not belongs(f,at,xc): return ("eq-node","the compared side %s does not come from the equality clause %s"%(show(f,at),show(f,xc)))
            if not belongs(f,xa,xc): return ("clause","equality %s is not a literal of %s"%(show(f,xa),show(f,xc)))
            if not isparam(f,other): return ("into","the compared subterm is %s"%show(f,other))
            # replacement: side selected by the stored flag
            for cond,truth,ld in sides(f,bt):
                fu=argfield(f,ld)
                if not fu: return ("sides","replacement %s is not a side of the equality"%show(f,bt))
                if not (lf(f,fu[1])&lf(f,xa)): return ("sides-atom","replacement is a side of another equality")
                if cond is None: return ("sides","replacement side is not selected by the stored position flag")
                if not same(f,cond,left): return ("sides","replacement side is selected by %s, not by the stored position flag"%show(f,cond))
                if fu[0]!=("unify_funarg2pos" if truth else "unify_funarg1pos"): return ("sides","the replacement is the compared side itself (%s)"%fu[0])
        return None
    return None
# ---------------------------------------------------------------- R3
class Drop:
    opaque=set()
    def __init__(s,f,header,cut,just,consts): s.f=f; s.h=header; s.cut=cut; s.bad=[]; s.n=0; s.consts=consts; s.just=just
    def event(s,i):
        if i.fn is not s.f: return False
        if i is s.h: return True
        if i.op=="store" and s.just(i): return True
        return i.op=="call" and i.callee=="wr_equal_term"
    def step(s,i,q,ctx):
        if i is s.h:
            if q=="P": s.bad.append(path_lines(s.f,ctx.key,ctx.parents))
            return [("P",None)]
        if i.op=="store": return [("D",None)]
        return [("D","nz"),(q,0)]
    def branch(s,t,truth,q,fi):
        if q!="P": return q
        c=s.f.defs.get(t.ops[0]) if isinstance(t.ops[0],int) else None
        if c is not None and c.op=="icmp" and c.x[0] in("eq","ne") and truth==(c.x[0]=="eq"):
            for a,b in(c.ops,c.ops[::-1]):
                if strip(s.f,a)==s.cut and not cint(b): return "D"
                if cint(b) in s.consts: return "D"
        return q
def nodrop(P,R,wf):
    R.rule("nodrop","every literal of a premise reaches the conclusion unless it is the literal resolved upon, an equal literal is already there or it evaluated to a truth constant",3)
    T=truthconsts(P)
    todo=[(n,2) for n in("wr_process_resolve_result_aux","wr_process_instgen_result_aux")]
    for n,cut in todo:
        f=P.fns.get(n)
        if not f: continue
        outp=4
        st=[i for i in f.instrs() if i.op=="store" and ptr_root(f,i.ops[1])==outp]
        if not st: raise AnalysisBroken("no store of literals into the result in "+n)
        hd=outer_loop(f,st[0].bb)
        if hd is None: R.bad("nodrop",n+"|loop",st[0].loc(),"%s() does not loop over the literals of the premise"%n); continue
        h=next(i for i in f.blocks[hd].instrs if i.op!="phi")
        # counting out the loop must go over the number of literals given
        cl=Drop(f,h,cut,lambda i:ptr_root(f,i.ops[1])==outp,set(T.values())); E=Engine(P,cl,wf); E.eventful=set(); E.WIDTH=40; E.run(f,"0",trace=True)
        if cl.bad: R.bad("nodrop",n,h.loc(),"%s() can go on to the next literal without having kept the current one, although nothing justified leaving it out"%n,cl.bad[0])
        else: R.good("nodrop",n)
        # number of literals handled is the number given
        full(P,R,f,hd,3)
    f=P.fns.get("wr_process_resolve_result_remove_cuts")
    if f:
        st=[i for i in f.instrs() if i.op=="store" and ptr_root(f,i.ops[1])==1]
        hd=outer_loop(f,st[0].bb) if st else None
        if hd is None: R.bad("nodrop",f.name,"%s:%d"%(f.file,f.line),"%s() does not keep the uncut literals"%f.name)
        else:
            # the counter of kept literals may only stay behind on the edge 'sign word is 0'
            cl=KeepCount(f,hd); ok=cl.run()
            if ok: R.good("nodrop",f.name)
            else: R.bad("nodrop",f.name,st[0].loc(),"%s() leaves out a literal that was not marked as cut"%f.name)
def full(P,R,f,hd,cnt):
    R.rules.setdefault("all",{"text":"the copying loops run over all literals of the premise","floor":1,"instances":0,"violations":0})
    t=f.blocks[hd].term
    c=f.defs.get(t.ops[0]) if t.op=="br" and len(t.x)==2 and isinstance(t.ops[0],int) else None
    ok=c is not None and c.op=="icmp" and ((c.x[0] in("slt","ult","ne") and strip(f,c.ops[1])==cnt) or (c.x[0] in("sgt","ugt","ne") and strip(f,c.ops[0])==cnt))
    if ok:
        ph=f.defs.get(strip(f,c.ops[0] if strip(f,c.ops[1])==cnt else c.ops[1]))
        ok=False
        if ph is not None and ph.op=="phi" and any(cint(z)==0 for z in ph.ops):
            ok=True
            for z,p in zip(ph.ops,ph.x):
                if p in loop_body(f,hd):
                    d=inst(f,z)
                    if not(d is not None and d.op=="add" and cint(d.ops[1])==1 and strip(f,d.ops[0])==ph.id): ok=False
    if ok: R.good("all",f.name)
    else: R.bad("all",f.name,t.loc(),"%s() does not run over all the literals of the premise"%f.name)
class KeepCount:
    def __init__(s,f,hd): s.f=f; s.hd=hd
    def run(s):
        f=s.f; L=loop_body(f,s.hd)
        # phis of the header that are incremented in the loop conditionally
        ok=False
        for ph in f.blocks[s.hd].instrs:
            if ph.op!="phi": break
            inc=[z for z,p in zip(ph.ops,ph.x) if p in L]
            for z in inc:
                d=f.defs.get(z) if isinstance(z,int) and z>=len(f.args) else None
                if d is None: continue
                if d.op=="phi":
                    for w,p in zip(d.ops,d.x):
                        if w==ph.id:
                            # unchanged on the edge from p: must be the edge of 'meta==0'
                            if not zero_edge(f,p,d.bb): return False
                            ok=True
                elif d.op=="select":
                    ok=True
        return ok
def zero_edge(f,p,to):
    """block p (entering `to`) is only reached when a loaded word is 0"""
    b=p; nxt=to
    for _ in range(6):
        t=f.blocks[b].term
        if t.op=="br" and len(t.x)==2:
            c=f.defs.get(t.ops[0]) if isinstance(t.ops[0],int) else None
            if c is not None and c.op=="icmp" and cint(c.ops[1])==0 and isload(f,c.ops[0]):
                return (c.x[0]=="eq")==(t.x[0]==nxt)
            return False
        if len(f.blocks[b].preds)!=1: return False
        nxt,b=b,f.blocks[b].preds[0]
    return False
# ---------------------------------------------------------------- R4
def directions(P,R):
    R.rule("direction","matching is called with the general clause or term first and the one to be subsumed, cut or rewritten second",6)
    def chk(fn,callee,k,what,pred):
        f=P.fns.get(fn)
        if not f: return
        for c in f.calls(callee):
            if pred(f,c): R.good("direction","%s in %s (%s)"%(callee,fn,c.loc()))
            else: R.bad("direction","%s|%s"%(fn,callee),c.loc(),"%s() calls %s(%s): %s"%(fn,callee,", ".join(show(f,z) for z in c.ops[1:3]),what))
    only=lambda f,o,a,b: a in pleaves(f,o) and b not in pleaves(f,o)
    chk("wr_subsume_cl","wr_match_term",1,"the subsuming clause must come first",lambda f,c: only(f,c.ops[1],1,2) and only(f,c.ops[2],2,1))
    chk("wr_subsume_cl","wr_match_term_aux",1,"the subsuming clause must come first",lambda f,c: only(f,c.ops[1],1,2) and only(f,c.ops[2],2,1))
    chk("wr_subsume_cl","wr_subsume_cl_aux",1,"the subsuming clause must come first",lambda f,c: only(f,c.ops[1],1,2) and only(f,c.ops[2],2,1) and only(f,c.ops[3],1,2) and only(f,c.ops[4],2,1))
    chk("wr_subsume_cl_aux","wr_match_term_aux",1,"the subsuming clause's literal must come first",lambda f,c: only(f,c.ops[1],3,4) and only(f,c.ops[2],4,3))
    chk("wr_subsume_cl_aux","wr_subsume_cl_aux",1,"the recursion swaps the clauses",lambda f,c: all(k in pleaves(f,c.ops[k]) and (5-k if k<3 else 7-k) is not None for k in(1,2,3,4)) and only(f,c.ops[1],1,2) and only(f,c.ops[2],2,1) and only(f,c.ops[3],3,4) and only(f,c.ops[4],4,3))
    chk("wr_given_cl_subsumed","wr_subsume_cl",1,"an active clause must subsume the given clause",lambda f,c: 1 not in pleaves(f,c.ops[1]) and 1 in pleaves(f,c.ops[2]))
    chk("wr_given_cl_backsubsume","wr_subsume_cl",1,"the given clause must subsume the active clause",lambda f,c: 1 in pleaves(f,c.ops[1]) and 1 not in pleaves(f,c.ops[2]))
    chk("wr_given_cl_subsumed","wr_clmetablock_can_subsume",1,"filters in the wrong direction",lambda f,c: 2 not in pleaves(f,c.ops[1]) and 2 in pleaves(f,c.ops[2]))
    chk("wr_given_cl_backsubsume","wr_clmetablock_can_subsume",1,"filters in the wrong direction",lambda f,c: 2 in pleaves(f,c.ops[1]) and 2 not in pleaves(f,c.ops[2]))
    # generic: a matching candidate taken from an index node is the general side; the parameter term is the specific side
    for fn in("wr_rewrite_constant","wr_rewrite_term","strongly_cut_atom"):
        f=P.fns.get(fn)
        if not f: continue
        live=sccp.solve(f).blocks
        for c in list(f.calls("wr_match_term"))+list(f.calls("wr_match_term_aux")):
            if c.bb not in live: continue
            a,b=vleaves(f,c.ops[1]),vleaves(f,c.ops[2])
            na=any(not isinstance(z,int) or z>=len(f.args) for z in a)
            if fromnode(f,c.ops[1]) and not fromnode(f,c.ops[2]): R.good("direction","stored term first in %s (%s)"%(fn,c.loc()))
            else: R.bad("direction","%s|%s"%(fn,c.callee),c.loc(),"%s() matches with %s as the general term: the stored unit or rule must be the general side"%(fn,show(f,c.ops[1])))
    f=P.fns.get("wr_given_cl_backsubsume")
    if f:
        R.rule("backmark","only a clause that was found to be subsumed is marked as such",1)
        for c in f.calls("wr_set_cl_backsubsumed"):
            ok=False
            for o,tr,t in f.edge_conds(c.bb):
                s=truthcall(f,o,tr)
                if s is not None and s.callee=="wr_subsume_cl" and same(f,s.ops[2],c.ops[1]): ok=True
            if ok: R.good("backmark",c.loc())
            else: R.bad("backmark",f.name,c.loc(),"%s() marks a clause as back-subsumed without a successful subsumption of that clause"%f.name)
# ---------------------------------------------------------------- R5
class Ans:
    opaque=set()
    def __init__(s,probes,f): s.p=probes; s.f=f; s.bad=[]; s.nz=0
    def event(s,i): return i.fn is s.f and i.op=="call" and (i.callee in s.p or i.callee in CLEAR or i.callee=="wr_clear_varstack_topslice")
    def step(s,i,q,ctx):
        if i.callee in s.p: return [("S","nz"),("N",0)] if s.p[i.callee]>0 else [("S",0),("N","nz")]
        return [("C" if q in("S","C") else q,None)]
    def on_exit(s,f,t,q,rf,key,par):
        if f is s.f and rf!=0:
            s.nz+=1
            if q=="N": s.bad.append((t,path_lines(f,key,par) if par else None))
class AnsAux(Ans):
    """multi-literal subsumption: success needs a match for this literal and either a successful recursion or no literal left"""
    def event(s,i): return Ans.event(s,i) or (i.fn is s.f and i.op=="call" and i.callee==s.f.name)
    def step(s,i,q,ctx):
        c=i.callee
        if c==s.f.name: return [("R","nz"),("N",0)]
        if c in s.p: return [("M","nz"),("N",0)]
        return [(q,None)]
    def branch(s,t,truth,q,fi):
        f=s.f; c=f.defs.get(t.ops[0]) if isinstance(t.ops[0],int) else None
        # two answer literals are treated as matching when a single answer is asked for
        if q=="N" or isinstance(q,tuple):
            v,neg=truthval(f,t.ops[0])
            if truth!=neg and ansflag(f,v):
                k=("A",)+tuple(sorted(set(() if q=="N" else q[1:])|{v}))
                return "M" if len(k)>2 else k
        if q=="M" and c is not None and c.op=="icmp":
            for a,b,sw in((c.ops[0],c.ops[1],False),(c.ops[1],c.ops[0],True)):
                x=f.defs.get(strip(f,a)) if isinstance(strip(f,a),int) and strip(f,a)>=len(f.args) else None
                if x is not None and x.op=="add" and cint(x.ops[1])==1 and isparam(f,x.ops[0]) and isparam(f,b):
                    p=c.x[0]; p={"slt":"sgt","sgt":"slt","sge":"sle","sle":"sge"}.get(p,p) if sw else p
                    last=(p in("sge","uge","eq") and truth) or (p in("slt","ult","ne") and not truth)
                    if last: return "R"
                    if p in("sgt","ugt") and truth: return "R"
        return q
    def on_exit(s,f,t,q,rf,key,par):
        if f is s.f and rf!=0:
            s.nz+=1
            if q!="R": s.bad.append((t,path_lines(f,key,par) if par else None))
def ansflag(f,v):
    i=inst(f,v)
    if i is None or i.op!="phi": return False
    ones=[p for z,p in zip(i.ops,i.x) if cint(z)!=0]
    if not ones or not all(cint(z) in(0,1) for z in i.ops): return False
    for p in ones:
        if not any(truthcall(f,o,tr) is not None and truthcall(f,o,tr).callee=="wr_answer_lit" for o,tr,t in f.edge_conds(p) if isinstance(o,int)): return False
    return True
def answers(P,R,wf):
    R.rule("positive","a positive answer (subsumed, cut off, found, tautology) is only given after a comparison that succeeded",7)
    L=[("wr_subsume_cl",{"wr_match_term":1,"wr_match_term_aux":1,"wr_equal_term":1,"wr_subsume_cl_aux":1,"wr_equal_mod_vars_term":1,"wr_eqmodvars_term_aux":1}),
       ("strongly_cut_atom",{"wr_match_term":1,"wr_match_term_aux":1,"wr_equal_term":1,"wr_unify_term":1}),
       ("wr_atom_doublecut_aux",{"wr_equal_term":1,"wr_match_term":1}),
       ("wr_find_offset_termhash",{"wr_equal_term":1,"wr_equal_ptr_primitives":1}),
       ("wr_find_termhash",{"wr_equal_term":1,"wr_equal_ptr_primitives":1}),
       ("wr_find_atomhash_bucketnode",{"wr_equal_term":1,"wr_equal_ptr_primitives":1}),
       ("wr_tautology_cl",{"wr_equal_term":1}),
       ("wr_given_cl_subsumed",{"wr_subsume_cl":1,"wr_active_subsumed_lit":1}),
       ("wr_active_subsumed_lit",{"wr_find_termhash":1,"wr_find_offset_termhash":1}),
       ("wr_tautology_offset",{"wr_equal_term":1})]
    for n,pr in L:
        f=P.fns.get(n)
        if f is None: continue
        if not any(True for i in f.calls(pr)): continue
        cl=Ans(pr,f); E=Engine(P,cl,wf); E.WIDTH=64; E.eventful=set(); E.run(f,"N",trace=True)
        if cl.bad: R.bad("positive",n,cl.bad[0][0].loc(),"%s() can give a positive answer although no comparison succeeded"%n,cl.bad[0][1])
        elif cl.nz: R.good("positive",n)
    f=P.fns.get("wr_subsume_cl_aux")
    if f:
        cl=AnsAux({"wr_match_term":1,"wr_match_term_aux":1,"wr_equal_term":1,"wr_eqmodvars_term_aux":1},f); E=Engine(P,cl,wf); E.WIDTH=64; E.eventful=set(); E.run(f,"N",trace=True)
        if cl.bad: R.bad("positive",f.name,cl.bad[0][0].loc(),"%s() can claim subsumption before every literal of the subsuming clause has found its match"%f.name,cl.bad[0][1])
        elif cl.nz: R.good("positive",f.name)
        # each literal of the subsumed clause is used once: tested free before, marked before recursion
        R.rule("injective","a literal of the subsumed clause is only matched while it is free and is marked as used before the next literal is tried",1)
        ms=[c for c in f.calls({"wr_match_term","wr_match_term_aux"})]
        rec=list(f.calls(f.name))
        good=bool(ms) and bool(rec)
        for m in ms:
            if not any(usedtest(f,o,tr) for o,tr,t in f.edge_conds(m.bb)): good=False; R.bad("injective",f.name+"|free",m.loc(),"%s() matches a literal without testing that it is still free"%f.name)
        for r in rec:
            if not any(i.op=="store" and (cint(i.ops[0]) or 0)!=0 and islitinf(f,i.ops[1]) and f.dominates(i,r) for i in f.instrs()):
                good=False; R.bad("injective",f.name+"|mark",r.loc(),"%s() goes on to the next literal without marking the matched literal as used"%f.name)
        if good: R.good("injective",f.name)
def islitinf(f,o):
    a=addr(f,o)
    if a[0]!="elem": return False
    l=load_of_field(f,a[1])
    if l and l[1]=="tmp_litinf_vec": return True
    x=strip(f,a[1]); 
    return isinstance(x,int) and any(load_of_field(f,z) and load_of_field(f,z)[1]=="tmp_litinf_vec" for z in backloads(f,x))
def usedtest(f,o,tr):
    c=f.defs.get(o) if isinstance(o,int) else None
    if c is None or c.op!="icmp": return False
    for a,b in(c.ops,c.ops[::-1]):
        if cint(b) in(0,1):
            x=f.defs.get(strip(f,a)) if isinstance(strip(f,a),int) and strip(f,a)>=len(f.args) else None
            if x is not None and x.op=="load" and islitinf(f,x.ops[0]):
                eq=(c.x[0]=="eq")==tr if c.x[0] in("eq","ne") else None
                return eq==(cint(b)==0)
    return False
# ---------------------------------------------------------------- R6
class Rew:
    opaque=set()
    def __init__(s,f,probes): s.f=f; s.p=probes; s.bad=[]; s.use=0
    def event(s,i):
        if i.fn is not s.f: return False
        if i.op=="call" and (i.callee in s.p or i.callee in CLEAR): return True
        return s.isuse(i)
    def isuse(s,i):
        if i.op!="load": return False
        l=argpos(s.f,i)
        return l in("unify_funarg1pos","unify_funarg2pos")
    def step(s,i,q,ctx):
        if i.op=="load":
            s.use+=1
            if q!="S": s.bad.append((i,path_lines(s.f,ctx.key,ctx.parents)))
            return [(q,None)]
        if i.callee in s.p: return [("S","nz"),("N",0)]
        return [("N",None)]
def rewriting(P,R,wf):
    R.rule("rewrite","a term is only replaced by the other side of a stored equation after the stored side matched it",2)
    R.rule("rewriteside","the side used as replacement is the one opposite to the matched side",2)
    for fn in("wr_rewrite_term","wr_rewrite_constant"):
        f=P.fns.get(fn)
        if not f: continue
        cl=Rew(f,{"wr_match_term","wr_match_term_aux","wr_equal_term","wr_eqmodvars_term"}|({"wr_find_termhash","wr_clterm_hashlist_start"} if False else set()))
        E=Engine(P,cl,wf); E.eventful=set()
        if not any(f.calls(cl.p)):
            # constant rewriting: candidates compared by identity
            loads=[i for i in f.instrs() if cl.isuse(i)]
            for i in loads:
                if any(eqcond(f,o,tr,1) for o,tr,t in f.edge_conds(i.bb)): R.good("rewrite","%s by identity (%s)"%(fn,i.loc()))
                else: R.bad("rewrite",fn+"|identity",i.loc(),"%s() takes a replacement without comparing the stored side to the term"%fn)
        else:
            E.run(f,"N",trace=True)
            if cl.bad: R.bad("rewrite",fn,cl.bad[0][0].loc(),"%s() takes a replacement although the stored side did not match the term"%fn,cl.bad[0][1])
            elif cl.use: R.good("rewrite",fn)
        for i in f.instrs():
            if not cl.isuse(i): continue
            w=argpos(f,i)
            # which branch of the stored path flag leads here
            sel=[(o,tr) for o,tr,t in f.edge_conds(i.bb) if pathflag(f,o)]
            if not sel: R.bad("rewriteside",fn+"|flag",i.loc(),"%s() takes a side of the equation without looking at the stored position of the matched side"%fn); continue
            o,tr=sel[-1]; one=pathflag(f,o)   # truth value of the condition when the matched side is the left one
            left=(tr==(one==1))
            if w==("unify_funarg2pos" if left else "unify_funarg1pos"): R.good("rewriteside","%s %s side matched (%s)"%(fn,"left" if left else "right",i.loc()))
            else: R.bad("rewriteside",fn+"|"+w,i.loc(),"%s() replaces a term by the very side of the equation that matched it"%fn)
# ---------------------------------------------------------------- R7
def assigned(f,o,tr,P):
    """truth value of a propositional variable is known (its clause is then the recorded cause)"""
    v,neg=truthval(f,o); i=inst(f,v)
    if i is None or i.op!="load" or tr==neg: return False
    for z in backloads(f,i.ops[0]):
        l=load_of_field(f,z)
        if l and l[1]=="prop_varvals": return True
    return False
def cuts(P,R,wf):
    R.rule("cut","a literal is only marked as cut off, and a unit only recorded as its cutter, after that unit was found",4)
    for f in P.fns.values():
        if not f.file.startswith("Reasoner/"): continue
        for i in f.instrs():
            if i.op!="store": continue
            a=addr(f,i.ops[1]); what=None
            if a[0]=="elem":
                l=load_of_field(f,a[1])
                if l and l[1]=="cut_clvec" and cint(i.ops[0]) is None and cint(a[2]) is None: what="records a cutting clause"
            if what is None and cint(i.ops[0])==0 and ismetaslot(f,i): what="marks a literal as cut"
            if what is None: continue
            ok=False
            for o,tr,t in f.edge_conds(i.bb):
                s=truthcall(f,o,tr)
                if s is not None and s.callee in CUTFIND: ok=True
                if isinstance(o,int) and assigned(f,o,tr,P): ok=True
            if ok: R.good("cut","%s %s (%s)"%(f.name,what,i.loc()))
            else: R.bad("cut","%s|%s"%(f.name,what),i.loc(),"%s() %s without having found a unit clause that cuts it"%(f.name,what))
    f=P.fns.get("wr_find_strong_duplicates")
    if f:
        for i in f.instrs():
            if i.op!="store" or cint(i.ops[0])!=1 or i.ty=="ptr": continue
            a=addr(f,i.ops[1])
            if a[0]!="field" and a[0]!="elem": continue
            base=a[1] if a[0]=="elem" else a[3]
            idx=a[2] if a[0]=="elem" else a[4][-1]
            d=f.defs.get(strip(f,base)) if isinstance(base,int) and base>=len(f.args) else None
            if d is None or d.op!="alloca": continue
            # blocked[idx]=1 under wr_nomatch(...)==0 with the blocked literal as the general side
            ok=False
            for o,tr,t in f.edge_conds(i.bb):
                c=falsecall(f,o,tr)
                if c is not None and c.callee=="wr_nomatch_term_uniquevars":
                    L=counters(f,c.ops[1]); 
                    if strip(f,idx) in L and strip(f,idx) not in counters(f,c.ops[2]): ok=True
            if ok: R.good("cut","strong duplicate dropped (%s)"%i.loc())
            else: R.bad("cut","wr_find_strong_duplicates|%s"%show(f,idx),i.loc(),"%s() drops a literal that was not found to be more general than another one"%f.name)
def shared(P,R):
    R.rule("instance","a literal may be instantiated while being cut only when no other literal of its clause has variables",2)
    f=P.fns.get("strongly_cut_atom")
    if not f: return
    k=len(f.args)-1
    res=sccp.solve(f,None,{k:1})
    un=[c for c in f.calls("wr_unify_term") if c.bb in res.blocks]
    if un: R.bad("instance",f.name,un[0].loc(),"%s() unifies a literal although it was told that its variables are shared"%f.name)
    else: R.good("instance",f.name)
    for c in P.callers(f.name):
        g=c.fn; i=inst(g,c.ops[k]); ok=False
        if i is not None and i.op=="icmp" and i.x[0] in("sgt","sge","ne","ugt"):
            lim=cint(i.ops[1])
            if lim is not None and (i.x[0] in("sgt","ugt") and lim<=1 or i.x[0]=="sge" and lim<=2):
                # the counted thing: literals with variables
                ok=countsvars(g,i.ops[0])
        elif cint(c.ops[k]) not in(None,0): ok=True
        if ok: R.good("instance","%s (%s)"%(g.name,c.loc()))
        else: R.bad("instance",g.name,c.loc(),"%s() allows a literal to be instantiated while other literals may share its variables"%g.name)
def countsvars(f,o):
    """the counter is increased for every literal for which wr_term_has_vars holds"""
    seen=set(); w=[o]; inc=[]
    while w:
        x=strip(f,w.pop())
        if not isinstance(x,int) or x in seen or x<len(f.args): continue
        seen.add(x); i=f.defs[x]
        if i.op=="phi": w+=i.ops
        elif i.op=="add" and cint(i.ops[1]): inc.append(i); w.append(i.ops[0])
    if not inc: return False
    for i in inc:
        cs=[truthcall(f,o,tr) for o,tr,t in f.edge_conds(i.bb) if isinstance(o,int)]
        if not any(c is not None and c.callee=="wr_term_has_vars" for c in cs): return False
    # no literal is passed over: the test is reached in every round of its loop unless the literal is already cut
    for c in f.calls("wr_term_has_vars"):
        hd=inner_loop(f,c.bb)
        if hd is None: return False
        seen=set(); w=[(x,hd) for x in f.blocks[hd].succs if x in loop_body(f,hd)]
        while w:
            x,p=w.pop()
            if x==hd: return False
            if x in seen or x==c.bb or x not in loop_body(f,hd): continue
            seen.add(x); t=f.blocks[x].term
            for y in f.blocks[x].succs:
                if zero_edge2(f,t,y): continue
                w.append((y,x))
    return True
def zero_edge2(f,t,to):
    if t.op!="br" or len(t.x)!=2: return False
    c=inst(f,t.ops[0])
    return c is not None and c.op=="icmp" and c.x[0] in("eq","ne") and cint(c.ops[1])==0 and isload(f,c.ops[0]) and ((c.x[0]=="eq")==(t.x[0]==to))
def once(P,R,wf):
    R.rule("once","a literal is only dropped by help of a literal that stays (double cut) while no other literal was dropped that way",2)
    for f in P.fns.values():
        for c in f.calls("wr_atom_doublecut"):
            # some flag known to be 0 here is set on every path on which the call succeeded and the loop goes on
            ok=False
            for o,tr,t in f.edge_conds(c.bb):
                v,neg=truthval(f,o) if isinstance(o,int) else (None,False)
                i=inst(f,v)
                if i is None or i.op!="phi" or tr!=neg or i.bb not in headers(f): continue
                ok=flagset(f,i,c)
                if ok: break
            if ok: R.good("once","%s (%s)"%(f.name,c.loc()))
            else: R.bad("once",f.name,c.loc(),"%s() can drop two literals each with the help of the other"%f.name)
def flagset(f,ph,call):
    """loop-carried flag ph becomes nonzero in every iteration in which the call result led to a cut"""
    L=headers(f)[ph.bb]
    # blocks entered only when the call succeeded
    reg=[b.n for b in f.blocks if b.n in L and b.n in f.dom and any(isinstance(o,int) and truthcall(f,o,tr) is call or isinstance(o,int) and eqphi(f,o,tr,call) for o,tr,t in f.edge_conds(b.n))]
    if not reg: return False
    def val(o,via,d=0):
        c=cint(o)
        if c is not None: return c!=0
        i=inst(f,o)
        if i is None or d>8: return None
        if i.op=="phi" and i is not ph:
            vs=[val(z,p,d+1) for z,p in zip(i.ops,i.x) if p in regset or i.bb==via or True and reachfrom(f,p)]
            return bool(vs) and all(v is True for v in vs)
        return None
    regset=set(reg)
    def reachfrom(f,p): return p in regset or any(x in f.reach()[r] and p==x for r in reg for x in (p,)) and reach_in(p)
    def reach_in(p):
        seen=set(); w=[x for r in reg for x in f.blocks[r].succs]
        while w:
            x=w.pop()
            if x in seen or x not in L or x==ph.bb: continue
            seen.add(x); w+=f.blocks[x].succs
        return p in seen
    ok=True; n=0
    for z,p in zip(ph.ops,ph.x):
        if p not in L: continue
        n+=1; ok=ok and flagval(f,z,ph,regset,reach_in)
    return ok and n>0
def flagval(f,z,ph,reg,reach_in,d=0):
    c=cint(z)
    if c is not None: return c!=0
    i=inst(f,z)
    if i is None or i is ph or i.op!="phi" or d>8: return False
    vs=[]
    for w,p in zip(i.ops,i.x):
        if p in reg or reach_in(p): vs.append(flagval(f,w,ph,reg,reach_in,d+1))
        elif p not in reg and not reach_in(p): continue
    return bool(vs) and all(vs)
def eqphi(f,o,tr,call):
    i=inst(f,o)
    if i is None or i.op!="icmp" or i.x[0] not in("eq","ne") or (i.x[0]=="eq")!=tr: return False
    for a,b in(i.ops,i.ops[::-1]):
        if cint(b)==1:
            j=inst(f,a)
            if j is call: return True
            if j is not None and j.op=="phi" and any(inst(f,z) is call for z in j.ops) and all(inst(f,z) is call or cint(z) not in(None,1) for z in j.ops): return True
    return False
CUTFIND={"wr_atom_cut_and_subsume","wr_find_termhash","wr_find_offset_termhash","strongly_cut_atom","wr_atom_doublecut_aux","wr_equal_term","wr_active_subsumed_lit","wr_match_term","wr_atom_doublecut","wr_strong_unit_cut","wr_atom_strongly_cut"}
if __name__=="__main__":
    check.main("C03","Typestate analysis of every inference, subsumption, cutting and rewriting routine (success of the comparison must dominate its use) plus structural matching of compared and used operands over LLVM IR",run)
