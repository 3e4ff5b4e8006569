#!/usr/bin/env python3
"""C14: a search ends when its time, memory or clauses are used up, and says which."""
import os,sys
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","sa"))
import check,sccp
from core import *
LOOP="wr_genloop"
PICK=("wr_pick_from_hyper_queue","wr_pick_from_clpick_queues","wr_pick_given_cl")
DERIVE=("wr_process_resolve_result","wr_process_paramodulate_result","wr_process_instgen_result","wr_process_factor_result","wr_process_resolve_result_remove","wr_process_simp_tmp_result","wr_process_resolve_result_aux")
S=7_000_000        # clock at the start of the run
A=3_000_000        # clock at the start of all runs
CPS=1_000_000
def calls(f,*names): return [c for c in f.instrs() if c.op=="call" and c.callee in names]
def field(i,name,st="glb"):
    if i.op not in("load","store"): return False
    a=addr(i.fn,i.ops[0 if i.op=="load" else 1])
    return a[0]=="field" and a[1].endswith(st) and a[2]==name
def loaded(i,st):
    """name of the field a load reads, of struct st"""
    if i.op!="load": return None
    a=addr(i.fn,i.ops[0])
    return a[2] if a[0]=="field" and a[1].endswith(st) else None
LIM=("max_seconds","max_dseconds","max_run_seconds","max_run_dseconds")
def world(limits,now,pre=(),**more):
    """an oracle: limits by field name, the clock reading, other fields and calls by name"""
    lim={k:0 for k in LIM}; lim.update(limits); pre={c.id for c in pre}
    def o(i):
        if i.op=="call" and i.callee=="clock": return S if i.id in pre else now
        n=loaded(i,"glb")
        if n is not None:
            if n in lim: return lim[n]
            if n=="run_start_clock": return S
            if n=="allruns_start_clock": return A
            if n in more: return more[n]
        n=loaded(i,"db_memsegment_header")
        if n is not None:
            if n=="allruns_start_clock": return A
            if n in("max_seconds","max_dseconds"): return lim[n]
        if i.op=="call" and i.callee in more: return more[i.callee]
        return None
    return o
def alone_and_with(name,n,names):
    """the limit alone, and with all the others given too but far from over"""
    return {name:n},dict({x:1_000_000 for x in names if x!=name},**{name:n})
def inloop(f,b):
    seen=set(); w=list(f.blocks[b].succs)
    while w:
        x=w.pop()
        if x in seen: continue
        seen.add(x); w+=f.blocks[x].succs
    return seen
# limit, seconds it stands for, base clock
RUN=[("max_run_seconds",5,5.0,S),("max_run_seconds",1,1.0,S),("max_run_dseconds",7,0.7,S),("max_run_dseconds",150,15.0,S),("max_seconds",9,9.0,A),("max_seconds",3600,3600.0,A)]
ALL=[("max_seconds",9,9.0,A),("max_seconds",3600,3600.0,A),("max_dseconds",7,0.7,A),("max_dseconds",250,25.0,A)]
def run(R):
    b0=R.bad
    R.bad=lambda rule,key,where,msg,path=None: b0(rule,key,where.loc() if hasattr(where,"loc") else where,msg,path)
    P=Prog("gkc"); R.note("functions_in_program",len(P.fns))
    R.rule("round","each round of the main loop ends the search when the time of the run or of all runs is over, and only then",6)
    R.rule("clock","the time of a run is counted from the moment its search starts",1)
    R.rule("steps","a step which makes clauses in a loop looks at the time of the run in that loop, and stops when it is over",3)
    R.rule("memory","when memory ran out no further clause is picked or made, and the search ends with an error",4)
    R.rule("proof","when enough answers are found no further clause is picked or made, and the search ends with 0",4)
    R.rule("claim","a search ends with 0 only when there is a proof",1)
    R.rule("empty","when no clause is left to pick the search ends",1)
    R.rule("runs","no further run is started when the time of all runs is over, and a run is started before",2)
    R.rule("limits","the time limit and the start time given to the search are those of the program",2)
    f=P.fn(LOOP)
    pick=calls(f,*PICK)
    if not pick: raise AnalysisBroken("the main loop picks no clause")
    rounds=inloop(f,pick[0].bb)
    pre=[c for c in calls(f,"clock") if c.bb not in rounds]
    # ---- time in the main loop
    for name,n,sec,base,lim in [(a,b,c,d,l) for a,b,c,d in RUN for l in alone_and_with(a,b,LIM)]:
        over=base+int((sec*1.02+0.2)*CPS); under=base+int(sec*0.98*CPS)-1000
        r=sccp.solve(f,world(lim,over,pre,alloc_err=0,instgen_strat=0,proof_found=0,wr_enough_answers=0,wr_have_answers=0))
        k="%s=%d%s"%(name,n," and others" if len(lim)>1 else "")
        if any(r.reaches(c) for c in pick): R.bad("round","%s:%s:over"%(LOOP,name),[c for c in pick if r.reaches(c)][0],"another clause is picked although the time is over (%s %d, %.2f seconds used)"%(name,n,(over-base)/CPS))
        else:
            v={x for x,t,b in r.returns()}
            if v and v<={2}: R.good("round","%s: the time over ends the search"%k)
            else: R.bad("round","%s:%s:code"%(LOOP,name),pick[0],"the search ends with %s when its time is over"%sorted(map(str,v)))
        r=sccp.solve(f,world(lim,under,pre,alloc_err=0,instgen_strat=0))
        if all(not r.reaches(c) for c in pick): R.bad("round","%s:%s:early"%(LOOP,name),pick[0],"no clause is picked although the time is not over (%s %d, %.2f seconds used)"%(name,n,(under-base)/CPS))
        else: R.good("round","%s: goes on before"%k)
        # the same in later rounds: from each step of the loop
        for c in [x for x in f.instrs() if x.op=="call" and x.callee in STEPS and x.bb in rounds]:
            o=sccp.Onward(f,c,None,world(lim,over,pre,alloc_err=0,instgen_strat=0))
            hit=[x for x in pick if o.reaches(x)]
            if hit: R.bad("round","%s:%s:%s"%(LOOP,name,c.callee),hit[0],"another clause is picked after %s although the time is over"%c.callee)
            else: R.good("round","%s after %s"%(k,c.callee))
    r=sccp.solve(f,world({},S+10**12,pre,alloc_err=0,instgen_strat=0))
    if all(not r.reaches(c) for c in pick): R.bad("round","%s:nolimit"%LOOP,pick[0],"a search without a time limit ends at once")
    else: R.good("round","no limit given")
    # ---- the start
    st=[i for i in f.instrs() if i.op=="store" and field(i,"run_start_clock")]
    ok=[i for i in st if isinstance(strip(f,i.ops[0]),int) and f.defs.get(strip(f,i.ops[0])) in pre and all(f.dominates(i,c) for c in pick)]
    if ok and all(i in ok for i in st): R.good("clock","run_start_clock set once before the first round")
    else: R.bad("clock","%s:start"%LOOP,(st or pick)[0],"the start of the run is not taken once, before the first round")
    other=[i for g in P.fns.values() if g.name!=LOOP for i in g.instrs() if i.op=="store" and field(i,"run_start_clock") and cint(i.ops[0])!=0]
    for i in other: R.bad("clock","%s:restart"%i.fn.name,i,"the start time of a run is changed outside of the main loop")
    # ---- loops inside the steps
    makers=[n for n in DERIVE if n in P.fns]
    for g in [P.fns[n] for n in POLLED if n in P.fns]:
        for c in calls(g,*makers):
            if c.bb not in inloop(g,c.bb): continue
            bad=None
            for name,n,sec,base,lim in [(a,b,c,d,l) for a,b,c,d in RUN[:3] for l in alone_and_with(a,b,LIM)]:
                over=base+int((sec*1.02+0.2)*CPS)
                o=sccp.Onward(g,c,None,world(lim,over,(),alloc_err=0,proof_found=0,stat_derived_cl=8064000))
                w=[x for x in calls(g,*makers) if x.bb in inloop(g,c.bb) and o.reaches(x) and (x is c or near(g,c,x))]
                if any(x is c for x in w): bad=name; break
            if bad: R.bad("steps","%s:%s:%s"%(g.name,c.callee,bad),c,"%s() goes on making clauses in its loop although the time of the run is over (%s)"%(g.name,bad))
            else: R.good("steps","%s %s"%(g.name,c.loc()))
            for name,n,sec,base,lim in [(a,b,c,d,l) for a,b,c,d in RUN[:3] for l in alone_and_with(a,b,LIM)]:
                under=base+int(sec*0.98*CPS)-1000
                o=sccp.Onward(g,c,None,world(lim,under,(),alloc_err=0,proof_found=0,stat_derived_cl=8064000))
                if not o.reaches(c): R.bad("steps","%s:%s:%s:early"%(g.name,c.callee,name),c,"%s() stops making clauses although the time of the run is not over (%s)"%(g.name,name)); break
    # ---- memory and answers
    for g in [f]+[P.fns[n] for n in POLLED+FACTORS if n in P.fns]:
        cs=calls(g,*(STEPS if g is f else tuple(makers)))
        for c in cs:
            if g is f and c.bb not in rounds: continue
            if g is f and c.callee not in settles(P): continue
            o=sccp.Onward(g,c,None,world({},S+1000,pre if g is f else (),alloc_err=1,instgen_strat=0,proof_found=0,wr_enough_answers=0,wr_have_answers=0))
            nx=[x for x in (pick if g is f else calls(g,*makers)) if o.reaches(x)]
            v={x for x,t,b in o.returns()}
            if nx: R.bad("memory","%s:%s"%(g.name,c.callee),nx[0],"%s() goes on with %s although memory ran out in %s"%(g.name,nx[0].callee,c.callee))
            elif g is f and not(v and all(x is not None and x<0 for x in v)): R.bad("memory","%s:%s:code"%(g.name,c.callee),c,"the search ends with %s although memory ran out in %s"%(sorted(map(str,v)),c.callee))
            else: R.good("memory","%s after %s"%(g.name,c.callee))
            # a step which gives back a clause gives back none when it found a proof
            o=sccp.Onward(g,c,0 if c.ty=="ptr" else None,world({},S+1000,pre if g is f else (),alloc_err=0,instgen_strat=0,proof_found=1,wr_enough_answers=1,wr_have_answers=1))
            nx=[x for x in (pick if g is f else calls(g,*makers)) if o.reaches(x)]
            v={x for x,t,b in o.returns()}
            if g is not f and c.bb in inloop(g,c.bb):
                q=sccp.Onward(g,c,None,world({},S+1000,(),alloc_err=0,proof_found=1,wr_enough_answers=0,wr_have_answers=1,stat_derived_cl=1))
                if not any(q.reaches(x) for x in calls(g,*makers)): R.bad("proof","%s:%s:early"%(g.name,c.callee),c,"%s() stops although fewer answers than asked for were found"%g.name)
                else: R.good("proof","%s: goes on for more answers"%g.name)
            if g is f and c.callee not in settles(P,"proof_found"): continue
            if nx: R.bad("proof","%s:%s"%(g.name,c.callee),nx[0],"%s() goes on with %s although enough answers were found in %s"%(g.name,nx[0].callee,c.callee))
            elif g is f and v!={0}: R.bad("proof","%s:%s:code"%(g.name,c.callee),c,"the search ends with %s although enough answers were found in %s"%(sorted(map(str,v)),c.callee))
            else: R.good("proof","%s after %s"%(g.name,c.callee))
    # ---- 0 means a proof
    for pf,en in((0,0),(0,1),(1,0)):
        r=sccp.solve(f,world({},S+1000,pre,proof_found=pf,wr_enough_answers=en,wr_have_answers=0,wr_prop_truefalsity_clause=0))
        z=[t for v,t,b in r.returns() if v is None or v==0]
        if z: R.bad("claim","%s:zero:%d%d"%(LOOP,pf,en),z[0],"the search can end with 0, the mark of a proof, without an answer" if not pf else "the search can end with 0, the mark of a proof, before enough answers are found")
        else: R.good("claim","0 only with %s"%("a proof" if not pf else "enough answers"))
    for c in calls(f,"wr_prop_truefalsity_clause"):
        o=sccp.Onward(f,c,-1,world({},S+1000,pre,wr_enough_answers=1,wr_have_answers=1))
        for what,pred in(("is not registered",lambda i:i.op=="call" and i.callee=="wr_register_answer"),("does not set proof_found",lambda i:i.op=="store" and field(i,"proof_found") and cint(i.ops[0])==1),("has no history",lambda i:i.op=="store" and field(i,"proof_history"))):
            if o.must(pred): R.bad("claim","%s:false:%s"%(LOOP,what),c,"a proof found by a clause known to be false %s"%what)
            elif [x for x in pick if o.reaches(x)] or {v for v,t,b in o.returns()}!={0}: R.bad("claim","%s:false"%LOOP,c,"a proof found by a clause known to be false does not end the search"); break
            else: R.good("claim","known false: %s"%what)
    for n in("wr_enough_answers","wr_have_answers"):
        g=P.fn(n)
        for cnt,proof,hist,vec in((0,0,1,1),(1,0,1,1),(1,1,1,1),(2,1,1,1),(2,0,1,1),(3,0,1,1),(0,0,0,1),(0,1,0,1),(0,0,1,0),(0,1,1,0)):
            def o(i,cnt=cnt,proof=proof):
                m=loaded(i,"glb")
                if m=="store_history": return hist
                if m=="answers": return 4096*vec
                if m=="required_answer_nr": return 2
                if m=="proof_found": return proof
                if i.op=="load" and m is None:
                    q=g.defs.get(i.ops[0]) if isinstance(i.ops[0],int) else None
                    return 2+2*cnt if q is not None and q.op=="getelementptr" and cint(q.ops[-1])==1 else 2000
                return None
            r=sccp.solve(g,o); v={x for x,t,b in r.returns()}
            if not hist or not vec: want={1} if n=="wr_enough_answers" else {proof}
            else: want={int(cnt>=2)} if n=="wr_enough_answers" else {int(cnt>=1 or proof)}
            if {int(bool(x)) if x is not None else None for x in v}!=want: R.bad("claim","%s:%d"%(n,cnt),g.blocks[0].instrs[0],"%s() gives %s for %d answers of 2 asked for (proof %d, histories kept %d, list of answers %d)"%(n,sorted(map(str,v)),cnt,proof,hist,vec))
            else: R.good("claim","%s with %d answers"%(n,cnt))
    # ---- nothing left
    last=[c for c in pick if c.callee!=PICK[0]]
    def none(i):
        if i.op=="call" and i.callee in PICK: return 0
        return world({},S+1000,pre,alloc_err=0,instgen_strat=0)(i)
    for c in last:
        o=sccp.Onward(f,c,0,none)
        again=[x for x in f.instrs() if x.op=="call" and x.callee in STEPS and o.reaches(x)]
        if again or any(o.reaches(x) for x in pick): R.bad("empty",LOOP,c,"the search goes on (%s) with no clause left to pick"%(again or pick)[0].callee)
        elif not o.returns() or any(v is None or v<0 for v,t,b in o.returns()): R.bad("empty",LOOP+":code",c,"the search does not end as exhausted with no clause left to pick")
        else: R.good("empty",c.loc())
        # a clause picked: the search does not end before it was looked at
        def one(i):
            if i.op=="call" and i.callee in PICK: return 4096
            return world({},S+1000,pre,alloc_err=0,instgen_strat=0)(i)
        o=sccp.Onward(f,c,4096,one)
        m=o.must(lambda i:i.op=="call" and (i.callee in STEPS or i.callee in PICK))
        if m: R.bad("empty",LOOP+":picked",m,"the search can end as exhausted with a clause picked and not used")
        else: R.good("empty","a clause picked is used (%s)"%c.loc())
    for c in pick:
        if c in last: continue
        def none2(i):
            if i is c: return 0
            return world({},S+1000,pre,alloc_err=0,instgen_strat=0)(i)
        o=sccp.Onward(f,c,0,none2)
        m=o.must(lambda i:i in last)
        if m or not any(o.reaches(x) for x in last): R.bad("empty",LOOP+":other",c,"an empty hyper queue ends the search without looking at the other queues")
        else: R.good("empty","the other queues are tried (%s)"%c.loc())
    # ---- runs
    for c in P.callers(LOOP):
        g=c.fn
        for name,n,sec,base,lim in [(a,b,c,d,l) for a,b,c,d in ALL for l in alone_and_with(a,b,LIM)]:
            over=base+int((sec*1.02+0.2)*CPS); under=base+int(sec*0.98*CPS)-1000
            r=sccp.solve(g,world(lim,over)); r2=sccp.solve(g,world(lim,under))
            if r.reaches(c): R.bad("runs","%s:%s"%(g.name,name),c,"a run is started although the time of all runs is over (%s %d)"%(name,n)); continue
            if not r2.reaches(c): R.bad("runs","%s:%s:early"%(g.name,name),c,"no run is started although the time of all runs is not over (%s %d)"%(name,n)); continue
            o=sccp.Onward(g,c,2,world(lim,over))
            if o.reaches(c) and not seq(g,c): R.bad("runs","%s:%s:next"%(g.name,name),c,"another run is started although the time of all runs is over (%s %d)"%(name,n))
            else: R.good("runs","%s %s %s"%(g.name,c.loc(),name))
    limits(P,R)
    R.assume+=["clock() gives the processor time used; a single inference ends by itself (the loops over one clause and its terms are bounded by their size)"]
def near(g,a,b): return True
def seq(g,c):
    """a search inside a loop of its own within a run: each round has its own clock test in the main loop"""
    hs=[h for h in sccp.Onward.heads(g,c.bb)]
    return len(hs)>1
_S={}
def settles(P,fld="alloc_err"):
    """functions which may set a field of g, themselves or through what they call"""
    if fld in _S: return _S[fld]
    own={i.fn.name for g in P.fns.values() for i in g.instrs() if i.op=="store" and field(i,fld) and cint(i.ops[0])!=0}
    ch=True
    while ch:
        ch=False
        for n in P.fns:
            if n not in own and any(x in own for x in P.callgraph[n]): own.add(n); ch=True
    _S[fld]=own; return own
STEPS=("wr_simplify_cl","wr_generate_arith_instances","wr_process_given_cl","wr_given_cl_backsubsume","wr_calc_clause_resolvability","wr_build_calc_cl","wr_add_given_cl_active_list","wr_add_cl_to_doublehash","wr_factor","wr_resolve_equality_reflexive","wr_resolve_binary_all_active","wr_paramodulate_from_all_active","wr_paramodulate_into_all_active")
POLLED=("wr_resolve_binary_all_active","wr_paramodulate_from_all_active","wr_paramodulate_into_subterms_all_active")
FACTORS=("wr_factor","wr_resolve_equality_reflexive")
def limits(P,R):
    for c in P.callers("wg_run_reasoner"):
        f=c.fn
        if not f.file.startswith("Main/"): continue
        st={}
        for i in f.instrs():
            if i.op=="store":
                a=addr(f,i.ops[1])
                if a[0]=="field" and a[1].endswith("db_memsegment_header") and f.dominates(i,c): st[a[2]]=i
        s=st.get("max_seconds"); t=st.get("allruns_start_clock")
        al=calls(f,"alarm")
        okc=t is not None and isinstance(strip(f,t.ops[0]),int) and fromclock(f,t.ops[0])
        oks=s is not None and al and any(same(f,s.ops[0],x.ops[0]) for x in al)
        if not okc: R.bad("limits","start@%d"%site(c),c,"the search is started without the start time of the program")
        elif not oks: R.bad("limits","seconds@%d"%site(c),c,"the search is started without the time limit of the program")
        else: R.good("limits","start time and limit (%s)"%c.loc())
def site(c): return [x for x in c.fn.instrs() if x.op=="call" and x.callee==c.callee].index(c)
def fromclock(f,o):
    o=strip(f,o); i=f.defs.get(o)
    if i is None: return False
    if i.op=="call": return i.callee=="clock"
    if i.op=="load": 
        w=[u for u in f.uses.get(i.ops[0],()) if u.op=="store" and u.ops[1]==i.ops[0]] if isinstance(i.ops[0],int) else []
        return bool(w) and all(fromclock(f,u.ops[0]) for u in w)
    return False
def same(f,a,b):
    a=strip(f,a); b=strip(f,b)
    if a==b: return True
    x=f.defs.get(a); y=f.defs.get(b)
    return x is not None and y is not None and x.op==y.op=="load" and x.ops[0]==y.ops[0]
if __name__=="__main__": check.main("C14","conditional constant propagation of the search loops in chosen states of the clock, the limits, the memory flag and the answers",run)
