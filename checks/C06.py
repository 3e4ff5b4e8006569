"""C06: a derived clause records the premises it was made from, and proofs print what is recorded."""
import sys, os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"sa"))
from core import *; from ival import *; import check, build, ival
G=("g",)
DB=("fld","db",G)
def enc(c): return ("call","wg_encode_record",DB,c)
def loops(v):
    """replace counters of loops by entry value + step * number of rounds"""
    f=v.f; out={}
    for b in f.blocks:
        if b.n not in f.dom: continue
        back={p for p in b.preds if p in f.dom and b.n in f.dom[p]}
        if not back: continue
        for i in b.instrs:
            if i.op!="phi": continue
            ini={repr(v.e(z)):v.e(z) for z,p in zip(i.ops,i.x) if p not in back}
            if len(ini)!=1: continue
            steps=set()
            for z,p in zip(i.ops,i.x):
                if p in back:
                    l=lin(("sub",v.e(z),("v",i.id)))
                    steps.add(l[1] if not l[0] else None)
            if len(steps)==1 and None not in steps: out[("v",i.id)]=(list(ini.values())[0],list(steps)[0],b.n)
    return out
def sub(e,m):
    if e in m: return m[e]
    if not isinstance(e,tuple): return e
    return tuple(sub(z,m) if isinstance(z,tuple) else z for z in e)
class LV(View):
    def prep(s):
        """counters as entry + rounds"""
        s.lp=loops(s); s.m={}
        for _ in range(3):
            s.m={k:norm(("add",sub(a,s.m),("mul",("c",st),("iter",h)))) for k,(a,st,h) in s.lp.items()}
        return s
    def x(s,o): 
        e=s.e(o) if not isinstance(o,tuple) else o
        e=sub(e,s.m)
        return renorm(e)
    def xs(s,o,b): return {renorm(sub(q,s.m)) for q in s.values(o,b)}
def renorm(e):
    if not isinstance(e,tuple) or not e: return e
    if e[0]=="trunc": return renorm(e[2])
    e=tuple(renorm(z) if isinstance(z,tuple) else z for z in e)
    if e[0] in("add","sub","mul") and len(e)==3: return norm(e)
    return e
def avoidable(v,blocks,target,start=0):
    """is target reachable from start without passing any of blocks, along edges possible under the scenario"""
    seen=set(); w=[start]
    while w:
        b=w.pop()
        if b in seen or b in blocks: continue
        seen.add(b)
        if b==target: return True
        for p,q in v.res.edges:
            if p==b: w.append(q)
    return False
def run(R):
    P=Prog("gkc")
    names=["HISTORY_PREFIX_LEN","HISTORY_DERIVATION_TAG_POS","HISTORY_PRIORITY_POS","HISTORY_NAME_POS","HISTORY_CLID_POS"]+["WR_HISTORY_TAG_"+t for t in("RESOLVE","FACTORIAL","PARA","EQUALITY_REFLEXIVE","SIMPLIFY","PROPAGATE","PROPINST","INSTGEN","EXTPROP","ARITHINST")]+["WR_HISTORY_%s_ROLENR"%r for r in("GOAL","ASSUMPTION","FROMGOALASSUMPTION","FROMGOAL","FROMASSUMPTION","AXIOM","FROMAXIOM")]
    K=build.macros(names,"Reasoner/rincludes.h")
    PRE,TAG,PRIO,NAME=K["HISTORY_PREFIX_LEN"],K["HISTORY_DERIVATION_TAG_POS"],K["HISTORY_PRIORITY_POS"],K["HISTORY_NAME_POS"]
    loc=lambda f:"%s:%d"%(f.file,f.line)
    # ---------------------------------------------------------------- R1 writers
    R.rule("R1-layout","each history writer stores tag, parents, path or term, priority and every recorded cutter and rewriter, each in the slot the readers take it from, in a record of exactly that length",40)
    C1,C2,P1,P2,CUT,RW,TERM,PATH,LEFT,FROM,N,VARS,VALS=[(x,) for x in("cl1","cl2","pos1","pos2","cut","rw","term","path","left","from","n","vars","vals")]
    def cal(n,*a): return ("call",n)+a
    E=lambda t,*a: cal("wr_encode_history_"+t,G,*a)
    PR=lambda a,b: cal("wr_calc_history_priority2",G,a,b)
    W={ # function: args, {slot: accepted values}, base slot of the cutters or None, rewriters?, scenarios
     "wr_build_resolve_history":([G,C1,C2,P1,P2,CUT],{TAG:[E("resolve",P1,P2)],PRE+1:[enc(C1)],PRE+2:[enc(C2)],PRIO:[PR(C1,C2)]},PRE+3,0),
     "wr_build_instgen_history":([G,C1,C2,P1,P2,CUT],{TAG:[E("instgen",P1,P2)],PRE+1:[enc(C1)],PRE+2:[enc(C2)],PRIO:[PR(C1,C2)]},PRE+3,0),
     "wr_build_propagate_history":([G,C1,C2,P1,P2],{TAG:[E("propagate",P1,P2)],PRE+1:[enc(C1)],PRE+2:[enc(C2)],PRIO:[PR(C1,C2)]},None,0,PRE+3),
     "wr_build_factorial_history":([G,C1,P1,P2,CUT],{TAG:[E("factorial",P1,P2),E("equality_reflexive",P1)],PRE+1:[enc(C1)],PRIO:[PR(C1,("c",0))]},PRE+2,0),
     "wr_build_propinst_history":([G,C1,TERM,CUT],{TAG:[E("propinst")],PRE+1:[enc(C1)],PRE+2:[TERM],PRIO:[PR(C1,("c",0))]},PRE+3,0),
     "wr_build_para_history":([G,C1,C2,P1,P2,CUT,PATH,LEFT,FROM],{TAG:[E("para",P1,P2,LEFT)],PRE+1:[cal("wg_encode_int",DB,PATH),PATH],PRE+2:[enc(C1)],PRE+3:[enc(C2)],PRIO:[PR(C1,C2)]},PRE+4,0),
     "wr_build_simplify_history":([G,C1,CUT,RW],{TAG:[E("simplify")],PRE+1:[enc(C1)],PRIO:[PR(C1,("c",0))]},PRE+2,1),
     "wr_build_extprop_history":([G],{TAG:[E("extprop")]},None,0,PRE+1),
     "wr_build_input_history":([G,C1,("name",),("role",)],{NAME:None,PRIO:[cal("wr_encode_priority",G,("role",))]},None,0,PRE),
     "wr_build_arithinst_history":([G,C1,N,VARS,VALS,CUT],{TAG:[E("arithinst")],PRE+1:[enc(C1)],PRE+2:[cal("wg_encode_int",DB,N)],PRIO:[PR(C1,("c",0))]},"arith",0)}
    def nonnull(p,x,y):
        for a,b in((x,y),(y,x)):
            if b==("c",0) and p in("eq","ne") and a[0]=="call" and a[1] in("wr_create_raw_history_record","wg_encode_str"): return int(p=="ne")
    for fn,spec in W.items():
        f=P.fn(fn); args,slots,cutbase,rw=spec[:4]; where=loc(f)
        consts={("fld","store_history",G):1}
        ranges={}
        if fn=="wr_build_arithinst_history": ranges[N]=(1,2)
        for scn,extra in ([("",{})] if fn!="wr_build_factorial_history" else [("pos2>=0",{P2:(0,1<<20)}),("pos2<0",{P2:(-5,-1)})])+([("cuts",{})] if 0 else []):
            r=dict(ranges); r.update(extra)
            v=LV(f,dict(enumerate(args)),Scenario(r,(),consts)); v.sc.cmphook=nonnull; v.solve(); v.prep()
            sets=[i for b in sorted(v.res.blocks) for i in f.blocks[b].instrs if i.op=="call" and i.callee=="wr_set_history_record_field"]
            mk=[i for b in sorted(v.res.blocks) for i in f.blocks[b].instrs if i.op=="call" and i.callee=="wr_create_raw_history_record"]
            rets=[b for b in v.res.blocks if f.blocks[b].term.op=="ret"]
            if len(mk)!=1:
                R.bad("R1-layout",fn+" record",where,"%s creates %d history records"%(fn,len(mk))); continue
            rec=v.e(mk[0].id)
            lens=v.xs(mk[0].ops[1],mk[0].bb)
            want=dict(slots)
            if fn=="wr_build_factorial_history": want[TAG]=[slots[TAG][0 if scn=="pos2>=0" else 1]]
            if fn=="wr_build_input_history":
                pass
            seen={}; cutst=[]; other=[]
            for i in sets:
                if v.e(i.ops[1])!=rec: other.append((i,"writes into another record")); continue
                p=v.x(i.ops[2]); val=v.xs(i.ops[3],i.bb)
                if p[0]=="c": seen.setdefault(p[1],[]).append((i,val))
                else: cutst.append((i,p,val))
            for s,acc in want.items():
                l=seen.pop(s,[])
                if not l:
                    R.bad("R1-layout","%s slot %d"%(fn,s),where,"%s never fills slot %d of the history record"%(fn,s)); continue
                blocks={i.bb for i,_ in l}
                if any(avoidable(v,blocks,t,mk[0].bb) for t in rets):
                    R.bad("R1-layout","%s slot %d skipped"%(fn,s),l[0][0].loc(),"%s can return a history record without filling slot %d"%(fn,s)); continue
                bad=None
                for i,val in l:
                    if acc is None:
                        continue
                    if not val<=set(map(renorm,acc)): bad=(i,val)
                if acc is None:
                    val=set().union(*[q for _,q in l])
                    bad=None if val<={("c",0),cal("wg_encode_str",DB,("name",),("c",0))} and len(val)==2 else (l[0][0],val)
                if bad: R.bad("R1-layout","%s slot %d"%(fn,s),bad[0].loc(),"%s puts %s into slot %d of the history record"%(fn,", ".join(sorted(map(sh,bad[1]))),s))
                else: R.good("R1-layout","%s slot %d"%(fn,s))
            if fn=="wr_build_propinst_history": pass
            for s,l in seen.items():
                if s not in(K["HISTORY_CLID_POS"],) and s>=PRE: R.bad("R1-layout","%s extra slot %d"%(fn,s),l[0][0].loc(),"%s fills slot %d, which no reader expects"%(fn,s))
            for i,m in other: R.bad("R1-layout","%s other record"%fn,i.loc(),"%s %s"%(fn,m))
            # cutters and rewriters
            if cutbase is None:
                if lens!={("c",spec[4])}: R.bad("R1-layout",fn+" length",mk[0].loc(),"%s makes a record of %s slots instead of %d"%(fn,"/".join(map(sh,lens)),spec[4]))
                else: R.good("R1-layout",fn+" length")
                for i,p,val in cutst: R.bad("R1-layout",fn+" extra",i.loc(),"%s fills slots beyond its record"%fn)
                continue
            arith=cutbase=="arith"
            base=norm(("add",("mul",N,("c",2)),("c",PRE+3+1))) if arith else ("c",cutbase)   # first cutter
            cutl=[(i,p,val) for i,p,val in cutst if any(has(q,CUT) for q in val)]
            rwl=[(i,p,val) for i,p,val in cutst if any(has(q,RW) for q in val)]
            rest=[t for t in cutst if t not in cutl and t not in rwl]
            cnt=None
            if len(cutl)!=1: R.bad("R1-layout",fn+" cutters",where,"%s stores the recorded cutters at %d places instead of one loop"%(fn,len(cutl)))
            else:
                i,p,val=cutl[0]; q=list(val)[0] if len(val)==1 else None
                okv=q is not None and q[0]=="call" and q[1]=="wg_encode_record" and q[3][0]=="ld" and q[3][1]==CUT
                d=norm(("sub",p,q[3][2])) if okv else None
                if not okv or d!=norm(("add",base,("c",-1))):
                    R.bad("R1-layout",fn+" cutters",i.loc(),"%s does not store the k-th recorded cutter in the k-th slot after its parents"%fn)
                else:
                    its=[t for t in lin(q[3][2])[0] if t[0]=="iter"]
                    first=lin(q[3][2])[1]
                    lim=bounds(v,f,i.bb,q[3][2],its[0]) if len(its)==1 and lin(q[3][2])[0]=={its[0]:1} else None
                    if first!=1 or not lim: R.bad("R1-layout",fn+" cutters range",i.loc(),"%s does not store the cutters from the first to the last recorded one"%fn)
                    else:
                        # lim: values such that entry index <= lim (inclusive)
                        good=set()
                        okc=True
                        for q2 in lim:
                            if q2==("c",0): continue
                            if q2[0]=="iter" and counts(v,f,q2,CUT): continue
                            okc=False
                        w=LV(f,dict(enumerate(args)),Scenario(r,(),consts))
                        def given(p,x,y):
                            for a,b in((x,y),(y,x)):
                                if b==("c",0) and p in("eq","ne") and a in(CUT,RW): return int(p=="ne")
                            return nonnull(p,x,y)
                        w.sc.cmphook=given; w.solve(); w.prep()
                        lim2=bounds(w,f,i.bb,w.x(f_index(w,i)),its[0])
                        if lim2 is None or ("c",0) in lim2: okc=False
                        if not okc: R.bad("R1-layout",fn+" cutters count",i.loc(),"%s stores %s cutters instead of as many as were recorded"%(fn,"/".join(map(sh,lim))))
                        else: R.good("R1-layout",fn+" cutters"); cnt=lim
            if rw:
                if len(rwl)!=1: R.bad("R1-layout",fn+" rewriters",where,"%s stores the recorded rewriters at %d places instead of one loop"%(fn,len(rwl)))
                else:
                    i,p,val=rwl[0]; q=list(val)[0] if len(val)==1 else None
                    okv=q is not None and q[0]=="call" and q[1]=="wg_encode_record" and q[3][0]=="ld" and q[3][1]==RW
                    if not okv: R.bad("R1-layout",fn+" rewriters",i.loc(),"%s does not store the recorded rewriters"%fn)
                    else:
                        l=lin(q[3][2]); its=[t for t in l[0] if t[0]=="iter"]
                        lim=bounds(v,f,i.bb,q[3][2],its[0]) if len(its)==1 and l[0]=={its[0]:1} else None
                        wl={("c",1),norm(("add",("ld",RW,("c",1)),("c",-1)))}
                        d=norm(("sub",p,q[3][2]))
                        # slot of the first rewriter: after the last cutter
                        ok=l[1]==2 and lim is not None and lim<=wl and len(lim)==2
                        w=LV(f,dict(enumerate(args)),Scenario(r,(),consts))
                        def given2(p,x,y):
                            for a,b in((x,y),(y,x)):
                                if b==("c",0) and p in("eq","ne") and a in(CUT,RW): return int(p=="ne")
                            return nonnull(p,x,y)
                        w.sc.cmphook=given2; w.solve(); w.prep()
                        lim2=bounds(w,f,i.bb,w.x(f_index(w,i)),its[0])
                        if lim2 is None or ("c",1) in lim2: ok=False
                        dd=lin(("sub",("add",d,("c",2)),base))
                        # d+2-base = number of cutters (the final value of the cut loop counter, or the count itself)
                        cuts_end=[t for t in dd[0]]
                        okd=dd[1]==0 and len(cuts_end)==1 and dd[0][cuts_end[0]]==1
                        if ok and okd: R.good("R1-layout",fn+" rewriters")
                        else: R.bad("R1-layout",fn+" rewriters",i.loc(),"%s does not store every recorded rewriter after the cutters"%fn)
            if arith:
                want2={}
                okn=0
                for i,p,val in rest:
                    q=list(val)[0] if len(val)==1 else ("v",0)
                    if p==norm(("add",base,("c",-1))) and q[:3]==("call","wg_encode_int",DB) and cnt is not None and expand(v,q[3],i.bb)==cnt: okn|=4; continue
                    its=[t for t in lin(p)[0] if t[0]=="iter"]
                    if len(its)==1:
                        k=its[0]
                        if p==norm(("add",("mul",k,("c",2)),("c",PRE+3))) and q==("call","wg_encode_int",DB,("ld",VARS,k)): okn|=1; continue
                        if p==norm(("add",("mul",k,("c",2)),("c",PRE+4))) and q==("ld",VALS,k): okn|=2; continue
                    R.bad("R1-layout",fn+" substitution",i.loc(),"%s stores %s in slot %s"%(fn,sh(q),sh(p)))
                if okn==7: R.good("R1-layout",fn+" substitution",3)
                else: R.bad("R1-layout",fn+" substitution incomplete",where,"%s does not record every instantiated variable with its value, and the number of cutters"%fn)
            elif rest:
                for i,p,val in rest: R.bad("R1-layout",fn+" extra",i.loc(),"%s stores something else in slot %s"%(fn,sh(p)))
            # length
            if cnt is not None:
                exp={norm(("add",base,q)) for q in cnt}
                if rw: exp={norm(("add",e,q)) for e in exp for q in(("c",0),norm(("add",("ld",RW,("c",1)),("c",-2))))}
                ok=expand(v,v.x(mk[0].ops[1]),mk[0].bb)==exp
                if ok: R.good("R1-layout",fn+" length")
                else: R.bad("R1-layout",fn+" length",mk[0].loc(),"%s makes a record whose length is not that of its header, parents, cutters and rewriters"%fn)
    encodings(R,P,K)
    roles(R,P,K)
    sites(R,P)
    cutargs(R,P)
    marks(R,P)
    found(R,P)
    registry(R,P)
    readers(R,P,K)
def f_index(w,i):
    """index into the list of the value a slot is filled from"""
    q=w.x(i.ops[3])
    return q[3][2]
def ec(f,bb):
    """conditions that hold on entry of bb, with short-circuit conjunctions and disjunctions taken apart"""
    out=[]; w=list(f.edge_conds(bb)); seen=set()
    while w:
        c,t,b=w.pop(0)
        if (c,t) in seen if isinstance(c,int) else False: continue
        if isinstance(c,int): seen.add((c,t))
        out.append((c,t,b))
        d=f.defs.get(c) if isinstance(c,int) else None
        if d is None: continue
        if d.op=="phi":
            live=[(z,p) for z,p in zip(d.ops,d.x) if not(cint(z) is not None and bool(cint(z))!=t)]
            if len(live)==1:
                z,p=live[0]
                if cint(z) is None: w.append((z,t,b))
                w+=f.edge_conds(p)
                tm=f.blocks[p].term
                if tm.op=="br" and len(tm.x)==2 and tm.x[0]!=tm.x[1]: w.append((tm.ops[0],tm.x[0]==d.bb,tm))
        elif d.op in("and","or") and t==(d.op=="and"): w+=[(z,t,b) for z in d.ops if isinstance(z,int)]
        elif d.op=="select" and len(d.ops)==3:
            a,x,y=d.ops
            if t and cint(y)==0: w+=[(z,True,b) for z in(a,x) if isinstance(z,int)]
            if not t and cint(x) in(1,-1): w+=[(z,False,b) for z in(a,y) if isinstance(z,int)]
    return out
def has(e,t):
    if e==t: return True
    return isinstance(e,tuple) and any(has(z,t) for z in e if isinstance(z,tuple))
def sh(e):
    if not isinstance(e,tuple): return str(e)
    if e[0]=="c": return str(e[1])
    if e[0]=="call": return "%s(%s)"%(e[1],",".join(sh(z) for z in e[2:]))
    if e[0] in("add","sub","mul"): return "(%s %s %s)"%(sh(e[1]),{"add":"+","sub":"-","mul":"*"}[e[0]],sh(e[2]))
    if e[0]=="ld": return "%s[%s]"%(sh(e[1]),sh(e[2]))
    if e[0]=="fld": return "%s->%s"%(sh(e[2]),e[1])
    return str(e[0])
def bounds(v,f,bb,idx,it):
    """values L such that the loop goes on exactly while idx<=L, from the conditions controlling block bb"""
    for c,truth,t in ec(f,bb):
        if not isinstance(c,int): continue
        i=f.defs.get(c)
        if i is None or i.op!="icmp": continue
        p=i.x[0]
        if not truth: p={"slt":"sge","sge":"slt","sgt":"sle","sle":"sgt","eq":"ne","ne":"eq"}.get(p,p)
        a,b=v.x(i.ops[0]),None
        for x,y,pp in((i.ops[0],i.ops[1],p),(i.ops[1],i.ops[0],{"slt":"sgt","sgt":"slt","sle":"sge","sge":"sle"}.get(p,p))):
            ex=v.x(x); l=lin(ex)
            if l[0]!={it:1}: continue
            d=lin(idx)[1]-l[1]       # idx = x + d
            if pp in("slt","ne"): off=d-1
            elif pp=="sle": off=d
            else: continue
            lim=v.xs(y,bb)
            return {norm(("add",q,("c",off))) for q in lim}
    return None
def counts(v,f,it,CUT):
    """the loop of `it` goes round once per non-null entry from the first on, within capacity"""
    h=it[1]; back={p for p in f.blocks[h].preds if p in f.dom and h in f.dom[p]}
    body={b for b in f.dom if h in f.dom[b] and any(p in f.reach()[b] or p==b for p in back) and h in f.reach()[b]}
    entry=0
    for b in body:
        for i in f.blocks[b].instrs:
            if i.op=="load":
                e=v.x(i.id)
                if e[0]=="ld" and e[1]==CUT and lin(e[2])==({it:1},1): entry=1
    if not entry: return False
    def solve(null,room):
        def hook(p,x,y):
            x,y=renorm(x),renorm(y)
            for a,c,pp in((x,y,p),(y,x,{"slt":"sgt","sgt":"slt","sle":"sge","sge":"sle"}.get(p,p))):
                if a[0]=="ld" and a[1]==CUT:
                    if a[2]==("c",0):      # capacity against a position
                        return {"sgt":room,"sge":room,"slt":1-room,"sle":1-room,"ugt":room,"uge":room,"ult":1-room,"ule":1-room}.get(pp)
                    if c==("c",0) and p in("eq","ne"): return int((p=="eq")==bool(null))
                if a==CUT and c==("c",0) and p in("eq","ne"): return int(p=="ne")
                if c==("c",0) and p in("eq","ne") and a[0]=="call": return int(p=="ne")
        w=LV(f,v.args,Scenario(dict(v.sc.r),(),dict(v.sc.consts))); w.sc.cmphook=hook; w.solve()
        again=any((p,h) in w.res.edges for p in back)
        leave=any(p in body and q not in body for p,q in w.res.edges)
        return again,leave
    return solve(0,1)==(True,False) and solve(1,1)==(False,True) and solve(0,0)==(False,True)
def expand(v,e,b,d=0):
    """the values of an expression with merge points replaced by what flows into them"""
    l=lin(e)
    ms=[t for t in l[0] if t[0]=="v" and t[1] in v.f.defs and v.f.defs[t[1]].op in("phi","select")]
    if not ms or d>4: return {renorm(norm(e))}
    out=set(); t=ms[0]
    for q in v.xs(t[1],b):
        if q==t: return {renorm(norm(e))}
        out|=expand(v,norm(sub(e,{t:q})),b,d+1)
    return out
def pieces(e,v):
    """an or of values: [(low bit, high bit, expr or constant)] or None"""
    if e[0]=="or":
        a,b=pieces(e[1],v),pieces(e[2],v)
        return None if a is None or b is None else a+b
    if e[0]=="add":
        return pieces(("or",e[1],e[2]),v)
    if e[0]=="c":
        return [(0,e[1].bit_length(),e)] if e[1]>=0 else None
    sh_=0; x=e
    while x[0] in("shl","mul") and x[2][0]=="c":
        if x[0]=="shl": sh_+=x[2][1]
        else:
            k=x[2][1]
            if k<=0 or k&(k-1): return None
            sh_+=k.bit_length()-1
        x=x[1]
    lo,hi=v.rng(x)
    if lo<0 or hi>(1<<40): return None
    return [(sh_,sh_+hi.bit_length(),x)]
def encodings(R,P,K):
    R.rule("R2-encoding","rule name and literal positions of a step read back as they were stored (positions above 255 as 255), in fields that do not overlap",8)
    P1,P2,LEFT=("pos1",),("pos2",),("left",)
    HEAD=("head",)
    # getters: value is (head>>s)&m
    get={}
    for what in("tag","extra","pos1","pos2"):
        f=P.fn("wr_get_history_"+what); v=View(f,{0:G,1:HEAD},Scenario({HEAD:(0,1<<30)})); v.solve()
        r=v.returns()
        e=renorm(list(r)[0]) if len(r)==1 else ("v",0)
        sft=m=None
        if e[0]=="and" and e[2][0]=="c": m=e[2][1]; e=e[1]
        if e[0] in("ashr","lshr") and e[1]==HEAD and e[2][0]=="c": sft=e[2][1]
        elif e==HEAD: sft=0
        if sft is None or m is None or m<=0 or (m&(m+1)): R.bad("R2-encoding","getter "+what,loc_(f),"%s does not take a bit field of the stored number"%f.name); continue
        get[what]=(sft,sft+m.bit_length())
    want={"resolve":("RESOLVE",1,1,0),"instgen":("INSTGEN",1,1,0),"propagate":("PROPAGATE",1,1,0),"factorial":("FACTORIAL",1,1,0),"equality_reflexive":("EQUALITY_REFLEXIVE",1,0,0),"para":("PARA",1,1,1),"simplify":("SIMPLIFY",0,0,0),"propinst":("PROPINST",0,0,0),"extprop":("EXTPROP",0,0,0),"arithinst":("ARITHINST",0,0,0)}
    if len(set(K["WR_HISTORY_TAG_"+w[0]] for w in want.values()))!=len(want): R.bad("R2-encoding","tags distinct","Reasoner/history.h","two kinds of steps have the same tag")
    for n,(tag,h1,h2,hl) in want.items():
        f=P.fn("wr_encode_history_"+n)
        for scn,r in(("small positions",{P1:(0,255),P2:(0,255)}),("large positions",{P1:(256,1<<30),P2:(256,1<<30)})):
            for left in((0,1) if hl else (0,)):
                if scn[0]=="l" and not h1: continue
                a={0:G}
                if h1: a[1]=P1
                if h2: a[2]=P2
                if hl: a[3]=LEFT
                sc=Scenario(dict(r),(),{LEFT:left}); v=View(f,a,sc); v.solve()
                key="%s %s%s"%(n,scn," left" if left else "")
                ret=v.returns(); ok=False
                if len(ret)==1:
                    e=renorm(list(ret)[0])
                    if e[:3]==("call","wg_encode_int",("fld","db",G)):
                        pc=pieces(e[3],v)
                        if pc is not None and len(get)==4:
                            ok=True
                            cst=0; var=[]
                            for lo,hi,x in pc:
                                if x[0]=="c": cst|=x[1]<<lo
                                else: var.append((lo,hi,x))
                            wants={"tag":("c",K["WR_HISTORY_TAG_"+tag])}
                            big=scn[0]=="l"
                            wants["pos1"]=("c",0) if not h1 else ("c",255) if big else P1
                            wants["pos2"]=("c",0) if not h2 else ("c",255) if big else P2
                            wants["extra"]=("c",left)
                            for g_,w in wants.items():
                                lo,hi=get[g_]
                                ov=[q for q in var if q[0]<hi and q[1]>lo]
                                c=(cst>>lo)&((1<<(hi-lo))-1)
                                if w[0]=="c": ok&=not ov and c==w[1]
                                else: ok&=len(ov)==1 and ov[0][0]==lo and ov[0][1]<=hi and ov[0][2]==w and c==0
                if ok: R.good("R2-encoding",key)
                else: R.bad("R2-encoding",key,loc_(f),"%s (%s): what was stored does not read back as rule %s with its positions"%(f.name,key,tag))
def roles(R,P,K):
    R.rule("R3-role","a derived step is marked as coming from the goal, from assumptions or from axioms only, as its parents are",49)
    f=P.fn("wr_calc_history_priority2"); N={k:K["WR_HISTORY_%s_ROLENR"%k] for k in("GOAL","ASSUMPTION","FROMGOALASSUMPTION","FROMGOAL","FROMASSUMPTION","AXIOM","FROMAXIOM")}
    C=(("cl1",),("cl2",))
    def hist(c): return ("call","wr_get_history",G,c)
    inv={v:k for k,v in N.items()}
    for a in N.values():
        for b in list(N.values())+[None]:
            cur=[a,b]
            def hook(p,x,y):
                for q,c in((x,y),(y,x)):
                    if c==("c",0) and p in("eq","ne"):
                        if q==C[0]: return int(p=="ne")
                        if q==C[1]: return int((p=="eq")==(b is None))
                        if q[0]=="call" and q[1]=="wr_get_history": return int(p=="ne")
                        if q[0]=="call" and q[1]=="wr_get_history_record_field": return int(p=="ne")
            def dec(e):
                if e[0]=="call" and e[1]=="wr_decode_priority":
                    for k in(0,1):
                        if has(e,C[k]) and not has(e,C[1-k]): return cur[k]
            sc=Scenario({},(),{("fld","cl_pick_queue_strategy",G):1},dec); sc.cmphook=hook
            v=View(f,{0:G,1:C[0],2:C[1]},sc); v.solve()
            s_={a,b}
            goal=s_&{N["GOAL"],N["FROMGOAL"]}; ass=s_&{N["ASSUMPTION"],N["FROMASSUMPTION"]}
            w=N["FROMGOALASSUMPTION"] if N["FROMGOALASSUMPTION"] in s_ or(goal and ass) else N["FROMGOAL"] if goal else N["FROMASSUMPTION"] if ass else N["FROMAXIOM"]
            r=v.returns(); key="%s+%s"%(inv[a],inv.get(b,"none"))
            okr={q[3] if q[:3]==("call","wr_encode_priority",G) else q for q in r}
            if okr=={("c",w)}: R.good("R3-role",key)
            else: R.bad("R3-role",key,loc_(f),"a step from %s is marked %s instead of %s"%(key,"/".join(sh(q) for q in okr),inv[w]))
def loc_(f): return "%s:%d"%(f.file,f.line)
def sites(R,P):
    R.rule("R4-premises","a step names as its premises exactly the clauses whose literals it was made from, each with the position of its own literal",30)
    X,Y,XA=("xcl",),("ycl",),("xas",)
    A7=[G,("xatom",),X,("yatom",),Y,XA]
    S=[("wr_process_resolve_result","wr_build_resolve_history","wr_process_resolve_result_aux",A7,"",{},{XA:X},[X,Y],(1,2,3,4)),
       ("wr_process_instgen_result","wr_build_instgen_history","wr_process_instgen_result_aux",A7+[("usexcl",)],"instantiating the given clause",{("usexcl",):1},{XA:X},[X,Y],(1,2,3,4)),
       ("wr_process_instgen_result","wr_build_instgen_history","wr_process_instgen_result_aux",A7+[("usexcl",)],"instantiating the active clause",{("usexcl",):0},{XA:X},[Y,X],(1,2,3,4)),
       ("wr_process_paramodulate_result","wr_build_para_history","wr_process_resolve_result_aux",A7+[("aterm",),("bterm",),("path",),("left",),("from",)],"from the given clause",{("from",):1},{XA:X},[X,Y],(1,2,3,4)),
       ("wr_process_paramodulate_result","wr_build_para_history","wr_process_resolve_result_aux",A7+[("aterm",),("bterm",),("path",),("left",),("from",)],"into the given clause",{("from",):0},{XA:Y},[X,Y],(1,2,3,4)),
       ("wr_process_factor_result","wr_build_factorial_history","wr_process_resolve_result_aux",[G,X,("len",),("x",),("xatom",),("y",),("yatom",),XA],"",{},{XA:X},[X],(1,))]
    for fn,bh,aux,args,scn,consts,eqv,want,pi in S:
        f=P.fn(fn); v=View(f,dict(enumerate(args)),Scenario({},(),dict(consts))); v.solve()
        canon=lambda e:eqv.get(e,e)
        ab=[i for b in sorted(v.res.blocks) for i in f.blocks[b].instrs if i.op=="call" and i.callee==aux]
        bs=[i for b in sorted(v.res.blocks) for i in f.blocks[b].instrs if i.op=="call" and i.callee==bh]
        pos={}
        for a in ab:
            c=canon(v.e(a.ops[1])); pos.setdefault(c,set()).add(a.ops[6])
            if c not in want: R.bad("R4-premises","%s %s aux"%(fn,scn),a.loc(),"%s takes literals from a clause that is not a premise"%fn)
        for n,i in enumerate(bs):
            key="%s %s #%d"%(fn,scn,n+1)
            ps=[canon(v.e(i.ops[1+k])) for k in range(len(want))]
            if ps!=want: R.bad("R4-premises",key,i.loc(),"%s (%s) records premises %s instead of %s"%(fn,scn,"/".join(map(sh,ps)),"/".join(map(sh,want)))); continue
            bad=None
            if len(want)==2:
                for k,c in enumerate(ps):
                    o=strip(f,i.ops[3+k]); d=f.defs.get(o) if isinstance(o,int) else None
                    src=d.ops[0] if d is not None and d.op=="load" else None
                    before=[a for a in ab if canon(v.e(a.ops[1]))==c and i.bb in f.reach()[a.bb]]
                    if before:
                        if src not in pos.get(c,()): bad="position of premise %d is not the one found for that clause"%(k+1)
                    elif src is not None and src not in pos.get(c,()):
                        if v.e(i.ops[3+k])!=("c",0) : bad="position of premise %d is that of another clause"%(k+1)
                if bh=="wr_build_para_history":
                    if [v.e(z) for z in i.ops[6:9]] not in([("path",),("left",),("from",)],[("path",),("left",),("c",consts[("from",)])]): bad="path and direction are not those of the paramodulation"
            else:
                if [v.e(z) for z in i.ops[2:4]]!=[("x",),("y",)]: bad="positions are not those of the merged literals"
            if bad: R.bad("R4-premises",key+" position",i.loc(),"%s (%s): %s"%(fn,scn,bad))
            else: R.good("R4-premises",key)
    for fn,bh,args,want in(("wr_process_propagated_result","wr_build_propagate_history",[G,("xatom",),X,("yatom",),Y,XA,("cutpos",)],[XA,Y,("c",0),("cutpos",)]),
                           ("wr_simplify_cl","wr_build_simplify_history",[G,X],[X]),("wr_simplify_doublecut_cl","wr_build_simplify_history",[G,X],[X]),
                           ("wr_cl_create_propinst","wr_build_propinst_history",[G,X],[X,("fld","prop_constant",G)]),
                           ("wr_arith_store_result","wr_build_arithinst_history",[G,X,("rptr",),("rpos",),("n",),("vars",),("vals",)],[X,("n",),("vars",),("vals",)])):
        f=P.fn(fn); v=View(f,dict(enumerate(args)),Scenario()); v.solve()
        n=0
        for i in f.calls(bh):
            n+=1; got=[v.e(z) for z in i.ops[1:1+len(want)]]
            key="%s #%d"%(fn,n)
            if [X if q==XA and fn!="wr_process_propagated_result" else q for q in got]==want: R.good("R4-premises",key)
            else: R.bad("R4-premises",key,i.loc(),"%s records %s instead of %s"%(fn,"/".join(map(sh,got)),"/".join(map(sh,want))))
    # callers: the clause and its stored form go together
    for fn,sel in(("wr_process_resolve_result",lambda a:(a[2],a[5])),("wr_process_instgen_result",lambda a:(a[2],a[5])),("wr_process_factor_result",lambda a:(a[1],a[7])),("wr_process_propagated_result",lambda a:(a[2],a[5])),("wr_process_paramodulate_result",None)):
        for i in P.callers(fn):
            f=i.fn; v=View(f,{k:("p",k) for k in range(len(f.args))}); 
            if i.callee!=fn: continue
            a=[v.e(z) for z in i.ops]
            if fn=="wr_process_paramodulate_result":
                if a[10][0]!="c": R.bad("R4-premises","caller %s %s"%(f.name,fn),i.loc(),"direction of the paramodulation is not known here"); continue
                pr=(a[2],a[5]) if a[10][1] else (a[4],a[5])
            else: pr=sel(a)
            # given clause and the form of it stored among the active clauses: the caller's own pair of parameters
            names=[f.args[q[1]][1] if q[0]=="p" else None for q in pr]
            if f.name=="wr_resolve_propagated_clause" and pr==(("p",2),("p",5)):
                for j in P.callers(f.name):
                    u=View(j.fn,{})
                    if u.e(j.ops[2])==u.e(j.ops[5]): R.good("R4-premises","caller %s"%j.fn.name)
                    else: R.bad("R4-premises","caller %s %s"%(j.fn.name,f.name),j.loc(),"%s names another clause as premise than the unit it propagates"%j.fn.name)
            elif pr[0][0]=="p" and pr[1][0]=="p" and pr[1][1]==pr[0][1]+1: R.good("R4-premises","caller %s"%f.name)
            else: R.bad("R4-premises","caller %s %s"%(f.name,fn),i.loc(),"%s passes a stored form that does not belong to the given clause"%f.name)
def cutargs(R,P):
    R.rule("R5-cutters","a step is built with the list of cutters when cutting may have removed literals, and that list was emptied before the cutting it belongs to",20)
    CUT=("fld","cut_clvec",G); RW=("fld","rewrite_clvec",G)
    # functions that empty the list on every path before storing to it; functions that (may) write it
    wr={}
    for f in P.fns.values():
        v=None
        for i in f.instrs():
            if i.op=="store":
                if v is None: v=View(f,{0:G})
                a=v.e(i.ops[1])
                if a[0]=="elem" and a[1] in(CUT,RW): wr.setdefault(f.name,[]).append((i,a,v.e(i.ops[0])))
    writers=set(wr)
    def resets(fn,arr):
        f=P.fns[fn]; w=("c",0) if arr==CUT else ("c",2)
        rs=[i for i,a,val in wr.get(fn,()) if a==("elem",arr,("c",1)) and val==w]
        return rs
    resetters={fn for fn in writers if fn not in("wr_simplify_cl","wr_simplify_doublecut_cl","wr_cl_create_propinst") and any(r.bb in f_dom_all(P.fns[fn]) for r in resets(fn,CUT))}
    CUTTERS={"wr_derived_cl_cut_and_subsume","wr_derived_cl_strong_cut"}
    for f in P.fns.values():
        bl=[i for i in f.calls() if i.callee and i.callee.startswith("wr_build_") and i.callee.endswith("_history")]
        if not bl or f.file.endswith("history.c"): continue
        for i in bl:
            g=P.fns[i.callee]
            for k,(t,nm) in enumerate(g.args):
                if nm not in("cut_clvec","rewrite_clvec"): continue
                arr=CUT if nm=="cut_clvec" else RW
                n=[j for j in bl].index(i)+1
                key="%s build %d %s"%(f.name,n,nm)
                v=View(f,{0:G},Scenario()); v.solve()
                vals=v.values(i.ops[k],i.bb)
                if not vals<={arr,("c",0)}: R.bad("R5-cutters",key,i.loc(),"%s passes something else as %s"%(f.name,nm)); continue
                # a list that is passed was emptied on every path before
                ok=True
                if arr in vals:
                    rs=[(r.bb,r.idx) for r in resets(f.name,arr)]
                    if arr==CUT: rs+=[(c.bb,c.idx) for c in f.calls() if c.callee in resetters]
                    if arr==RW or vals=={arr}:
                        ok=covered(f,rs,(i.bb,i.idx))
                    else: ok=bool(rs)
                    if not ok: R.bad("R5-cutters",key,i.loc(),"%s can reach this step with cutters left over from an earlier clause"%f.name); continue
                # literals cut: the list must be passed
                lost=False
                cs=[c for c in f.calls() if c.callee in CUTTERS]
                if arr==CUT and cs:
                    for c in cs:
                        def dec(e,c=c,cs=cs):
                            return None
                        u=View(f,{0:G},Scenario())
                        u.sc.cmphook=cutcase(u,c,cs); u.solve()
                        if i.bb in u.res.blocks and after(u,c,i) and u.values(i.ops[k],i.bb)!={arr}: lost=True
                elif arr==CUT and vals!={arr}:
                    # own cutting: null only where nothing can have been stored
                    st=[q for q,a,val in wr.get(f.name,()) if a[1]==CUT and val!=("c",0)]
                    if any(i.bb in f.reach()[q.bb] for q in st): lost=True
                if lost: R.bad("R5-cutters",key,i.loc(),"%s drops the clauses that cut literals from the record of the step"%f.name)
                else: R.good("R5-cutters",key)
                # nothing empties the list between the cutting and the step
                if arr in vals and cs:
                    for c in cs:
                        for r in f.calls():
                            if r.callee in resetters and r is not c and between(f,c,r,i) and r not in cs:
                                R.bad("R5-cutters",key+" clobber",r.loc(),"%s empties the list of cutters before the step is recorded"%f.name)
def f_dom_all(f):
    """blocks on every path from entry to a return (coarse: dominating some return)"""
    rets=[b.n for b in f.blocks if b.n in f.dom and b.term.op=="ret"]
    out=None
    for r in rets:
        out=set(f.dom[r]) if out is None else out
        out|=set(f.dom[r])
    return out or set()
def covered(f,points,target):
    """every path from the entry to target passes one of points"""
    pb={}
    for b,i in points: pb.setdefault(b,[]).append(i)
    if any(i<target[1] for i in pb.get(target[0],())): return True
    seen=set(); w=[0]
    if 0==target[0]: return False
    while w:
        b=w.pop()
        if b in seen: continue
        seen.add(b)
        if b in pb: continue
        for q in f.blocks[b].succs:
            if q==target[0]: return False
            w.append(q)
    return True
def after(u,c,i):
    w=[c.bb]; seen=set()
    if c.bb==i.bb: return c.idx<i.idx
    while w:
        b=w.pop()
        for p,q in u.res.edges:
            if p==b and q not in seen: seen.add(q); w.append(q)
    return i.bb in seen
def between(f,c,r,i):
    return r.bb in f.reach()[c.bb]|{c.bb} and i.bb in f.reach()[r.bb]|{r.bb} and f.dominates(c,r) and f.dominates(r,i)
def cutcase(u,c,cs):
    """cutting call c answered with at least one cut, the other cutting calls with none"""
    def hook(p,x,y):
        me=("call",c.callee)
        tot=[None]
        def lo(e):
            if e[0]=="c": return e[1],e[1]
            if e[0]=="call" and e[1]==c.callee: return 1,1<<20
            if e[0]=="call" and e[1] in {q.callee for q in cs}: return 0,0
            if e[0]=="v":
                d=u.f.defs.get(e[1])
                if d is not None and d.op=="phi":
                    vs=[lo(u.e(z)) for z in d.ops if z!=e[1]]
                    if all(vs) and vs: return min(a for a,_ in vs),max(b for _,b in vs)
            return None
        a,b=lo(x),lo(y)
        if a is None or b is None or not(x[0]!="c" or y[0]!="c"): return None
        if p=="eq": return 0 if a[1]<b[0] or b[1]<a[0] else 1 if a==b and a[0]==a[1] else None
        if p=="ne": return 1 if a[1]<b[0] or b[1]<a[0] else 0 if a==b and a[0]==a[1] else None
        if p=="sgt": return 1 if a[0]>b[1] else 0 if a[1]<=b[0] else None
        if p=="sge": return 1 if a[0]>=b[1] else 0 if a[1]<b[0] else None
        if p=="slt": return 1 if a[1]<b[0] else 0 if a[0]>=b[1] else None
        if p=="sle": return 1 if a[1]<=b[0] else 0 if a[0]>b[1] else None
    return hook
def cutstores(f,v):
    out=[]
    for i in f.instrs():
        if i.op=="store":
            a=v.e(i.ops[1])
            if a[0]=="elem" and a[1]==("fld","cut_clvec",G): out.append((i,a[2],v.e(i.ops[0])))
    return out
def room(p,x,y,arr=("fld","cut_clvec",G)):
    """the list has room"""
    x,y=renorm(x),renorm(y)
    for a,c,pp in((x,y,p),(y,x,{"slt":"sgt","sgt":"slt","sle":"sge","sge":"sle"}.get(p,p))):
        if a==("ld",arr,("c",0)): return {"sgt":1,"sge":1,"slt":0,"sle":0,"eq":0,"ne":1}.get(pp)
def marks(R,P):
    R.rule("R6-recorded","whenever a literal is cut off or a subterm rewritten, the clause that did it is put next into the list (while it has room), followed by the end mark",20)
    CUT=("fld","cut_clvec",G)
    fns=[f for f in P.fns.values() if f.name not in("wr_glb_print",) and any(True for _ in f.calls()) and f.file.startswith("Reasoner/")]
    for f in fns:
        v=View(f,{0:G})
        st=cutstores(f,v)
        non=[t for t in st if t[2]!=("c",0)]
        if not non: continue
        v.sc.cmphook=room; v.solve()
        S={i.bb for i,_,_ in non}
        back={(p,b.n) for b in f.blocks if b.n in f.dom for p in b.preds if p in f.dom and b.n in f.dom[p]}
        def leaves(start,avoid):
            """can an iteration end (or the function return) from start without passing avoid"""
            seen=set(); w=[(start,True)]
            while w:
                b,first=w.pop()
                if not first and b in avoid: continue
                if (b in seen) and not first: continue
                seen.add(b)
                if f.blocks[b].term.op=="ret": return True
                for p,q in v.res.edges:
                    if p!=b: continue
                    if (p,q) in back: return True
                    w.append((q,False))
            return False
        for n,(i,idx,val) in enumerate(non):
            key="%s record %d"%(f.name,n+1)
            # the end mark behind it
            nx=[t for t in st if t[2]==("c",0) and t[0].bb==i.bb and norm(("sub",t[1],idx))==("c",1)]
            if not nx: R.bad("R6-recorded",key+" end",i.loc(),"%s puts a cutter into the list without an end mark behind it"%f.name); continue
            # position is the count including this one; the count goes on from there
            l=lin(idx)
            ok=False
            for a in f.instrs():
                if a.op in("add","sub") and a.id in f.defs:
                    la=lin(v.e(a.id))
                    d=lin(("sub",idx,v.e(a.id)))
                    base=all(t[0]=="p" for t in d[0])      # cuts made before by another pass
                    if base and d[1]==0 and len(la[0])==1 and la[1]==1 and any(u.op=="phi" for u in f.uses.get(a.id,())) and f.dominates(a,i): ok=(a,list(la[0])[0])
            if not ok: R.bad("R6-recorded",key+" position",i.loc(),"%s does not put the cutter behind the ones recorded before"%f.name); continue
            cnt=ok[0]
            # counts this cut only when recorded
            if v.res and cnt.bb in v.res.blocks and cnt.bb not in S and leaves(cnt.bb,S): R.bad("R6-recorded",key+" skipped",cnt.loc(),"%s counts a cut without recording the clause that made it, though the list has room"%f.name)
            else: R.good("R6-recorded",key)
        # literals marked as cut
        for i in f.instrs():
            if i.op!="store" or v.e(i.ops[0])!=("c",0): continue
            a=v.e(i.ops[1])
            if a[0]=="elem" and f.file.endswith("subsume.c") and a[1]!=CUT and a[1]==("p",1) and i.bb in v.res.blocks:
                key="%s mark %s"%(f.name,sh(a[2]))
                pre=any(s!=i.bb and s in f.dom[i.bb] and f.dominates(non[0][0],i) for s in S)
                if i.bb in S or pre or not leaves(i.bb,S): R.good("R6-recorded",key)
                else: R.bad("R6-recorded","%s mark"%f.name,i.loc(),"%s marks a literal as cut off without recording the clause that cut it"%f.name)
    # cutters found by lookups of single literals
    for fn,calls in(("wr_simplify_cl",{"wr_atom_cut_and_subsume":3,"wr_atom_doublecut":5}),("wr_simplify_doublecut_cl",{"wr_atom_doublecut":5})):
        f=P.fn(fn)
        for who,k in calls.items():
            def dec(e,who=who):
                if e[0]=="call" and e[1]==who: return 1
                if e[0]=="call" and e[1] in calls: return 0
            v=View(f,{0:G},Scenario({},(),{},dec)); v.sc.cmphook=room; v.solve()
            S={i.bb:i for i,_,val in cutstores(f,v) if val!=("c",0)}
            back={(p,b.n) for b in f.blocks if b.n in f.dom for p in b.preds if p in f.dom and b.n in f.dom[p]}
            for c in f.calls(who):
                if c.bb not in v.res.blocks: continue
                key="%s %s"%(fn,who)
                hit,miss=found_walk(f,v,c,S,back)
                src={(lambda d:d.ops[0] if d is not None and d.op=="load" else None)(f.defs.get(strip(f,S[b].ops[0]))) if isinstance(strip(f,S[b].ops[0]),int) else None for b in hit}
                if miss or not hit or src!={c.ops[k]}: R.bad("R6-recorded",key,c.loc(),"%s: a literal cut according to %s is not recorded with the clause it found"%(fn,who))
                else: R.good("R6-recorded",key)
    # rewriting
    RW=("fld","rewrite_clvec",G)
    for f in P.fns.values():
        if not f.file.endswith("rewrite.c"): continue
        v=View(f,{0:G})
        st=[(i,v.e(i.ops[1]),v.e(i.ops[0])) for i in f.instrs() if i.op=="store"]
        ms=[i for i,a,val in st if a==("gepf","tmp_rewrites",G)]
        rs=[(i,a,val) for i,a,val in st if a[0]=="elem" and a[1]==RW and a[2]!=("c",1)]
        inc=[(i,val) for i,a,val in st if a==("elem",RW,("c",1))]
        if not rs and not ms: continue
        def rm(p,x,y):
            x,y=renorm(x),renorm(y)
            for a,c,pp in((x,y,p),(y,x,{"slt":"sgt","sgt":"slt","sle":"sge","sge":"sle"}.get(p,p))):
                if a==("ld",RW,("c",1)) and c[0]=="c": return {"slt":1,"sle":1,"sgt":0,"sge":0}.get(pp)
        v.sc.cmphook=rm; v.solve()
        for n,(i,a,val) in enumerate(rs):
            key="%s rewriter %d"%(f.name,n+1)
            if renorm(a[2])!=("ld",RW,("c",1)) or not any(q.bb==i.bb and renorm(w)==norm(("add",("ld",RW,("c",1)),("c",1))) for q,w in inc):
                R.bad("R6-recorded",key,i.loc(),"%s does not put the rewriter at the first free place and move on"%f.name); continue
            R.good("R6-recorded",key)
        S={i.bb for i,_,_ in rs}
        for m in ms:
            # counting a rewrite and recording the rewriter go together
            key="%s counted"%f.name
            if m.bb not in v.res.blocks: continue
            if m.bb in S or any(s in f.dom[m.bb] for s in S) or not escapes(f,v,m.bb,S): R.good("R6-recorded",key)
            elif coveredblocks(f,v,S,m.bb): R.good("R6-recorded",key)
            else: R.bad("R6-recorded",key,m.loc(),"%s counts a rewrite without recording the equation used"%f.name)
        if ms and not rs: R.bad("R6-recorded",f.name+" none",loc_(f),"%s rewrites without recording the equation used"%f.name)
def found_walk(f,v,c,S,back):
    """ways on from call c returning 1: the recording blocks met, and whether an iteration can end without one; merges that carry the result are followed by value"""
    seen=set(); w=[(c.bb,((c.id,1),))]; hit=set(); miss=False
    def val(o,env):
        k=cint(o)
        if k is not None: return k
        o=strip(f,o)
        if isinstance(o,int):
            if o in env: return env[o]
            i=f.defs.get(o)
            if i is not None and i.op=="call" and i.callee==c.callee: return 1
            e=v.e(o)
            if e[0]=="call":
                q=v.sc.decide(e)
                if q is not None: return q
        return None
    while w:
        b,env=w.pop()
        if (b,env) in seen: continue
        seen.add((b,env)); en=dict(env)
        if b in S and b!=c.bb: hit.add(b); continue
        t=f.blocks[b].term
        if t.op=="ret": continue
        take=None
        if t.op=="br" and len(t.ops)>=1 and isinstance(t.ops[0],int):
            d=f.defs.get(t.ops[0])
            if d is not None and d.op=="icmp":
                x,y=val(d.ops[0],en),val(d.ops[1],en)
                if x is not None and y is not None:
                    r={"eq":x==y,"ne":x!=y,"slt":x<y,"sle":x<=y,"sgt":x>y,"sge":x>=y}.get(d.x[0])
                    if r is not None: take=f.blocks[b].succs[0 if r else 1]
        for p,q in v.res.edges:
            if p!=b or (take is not None and q!=take): continue
            if (p,q) in back: miss=True; continue
            e2=dict(en)
            for i in f.blocks[q].instrs:
                if i.op!="phi": continue
                k=[val(o,en) for o,pp in zip(i.ops,i.x) if pp==p]
                if k and k[0] is not None: e2[i.id]=k[0]
                else: e2.pop(i.id,None)
            w.append((q,tuple(sorted(e2.items()))))
    return hit,miss
def escapes(f,v,start,S):
    seen=set(); w=[start]
    while w:
        b=w.pop()
        if b in seen or (b in S and b!=start): continue
        seen.add(b)
        if f.blocks[b].term.op=="ret": return True
        w+= [q for p,q in v.res.edges if p==b]
    return False
def coveredblocks(f,v,S,target):
    seen=set(); w=[0]
    while w:
        b=w.pop()
        if b in seen or b in S: continue
        seen.add(b)
        if b==target: return False
        w+=[q for p,q in v.res.edges if p==b]
    return True
def covers(f,pb,target):
    seen=set(); w=[0]
    while w:
        b=w.pop()
        if b in seen or b in pb: continue
        if b==target: return False
        seen.add(b); w+=f.blocks[b].succs
    return True
def found(R,P):
    R.rule("R7-found","a proof is announced only where no literal is left (or only answer literals), with the step just made as its last step, which is also the answer registered",25)
    K=build.macros(["ACONST_FALSE"],"Reasoner/rincludes.h")
    for f in P.fns.values():
        v=View(f,{0:G}); st=[i for i in f.instrs() if i.op=="store"]
        fs=[i for i in st if v.e(i.ops[1])==("gepf","proof_found",G) and v.e(i.ops[0])!=("c",0)]
        if not fs: continue
        hs=[i for i in st if v.e(i.ops[1])==("gepf","proof_history",G)]
        regs=[i for i in f.calls("wr_register_answer")]
        counters=set()
        for c in f.calls():
            if c.callee in("wr_process_resolve_result_aux","wr_process_instgen_result_aux"): counters.add(("al",c.ops[5]))
            if c.callee=="wr_process_resolve_result_remove_cuts": counters.add(("al",c.ops[2]))
            if c.callee=="wr_alloc_from_cvec": counters.add(("e",renorm(v.e(c.ops[2]))))
            if c.callee=="wr_vec_store": counters|={("t",t) for t in lin(v.e(c.ops[2]))[0]}
        for i in st:
            a=v.e(i.ops[1])
            if a[0]=="elem": counters|={("t",t) for t in lin(a[2])[0]}
        for n,i in enumerate(fs):
            key="%s #%d"%(f.name,n+1); why=None
            for c,truth,t in ec(f,i.bb):
                if not isinstance(c,int): continue
                d=f.defs[c]
                neg=False
                while d.op in("xor","zext","sext","freeze") and isinstance(d.ops[0],int): neg^=d.op=="xor"; d=f.defs[d.ops[0]]
                if d.op!="icmp": continue
                tr=truth!=neg; x,y,p=d.ops[0],d.ops[1],d.x[0]
                if cint(y) is None: x,y=y,x; p={"sgt":"slt","slt":"sgt","sge":"sle","sle":"sge"}.get(p,p)
                k=cint(y); e=renorm(v.e(x))
                zero=(k==0 and ((p=="eq" and tr) or(p=="ne" and not tr) or (p=="sgt" and not tr) or (p=="sle" and tr))) or (k==1 and ((p=="slt" and tr) or(p=="sge" and not tr)))
                if zero:
                    l=f.defs.get(strip(f,x)) if isinstance(strip(f,x),int) else None
                    if l is not None and l.op=="load" and ("al",l.ops[0]) in counters: why="counter"
                    if ("e",e) in counters: why="no literals"
                    if any(("t",q) in counters for q in lin(e)[0]) and len(lin(e)[0])==1: why="counter"
                    if f.name=="wr_process_factor_result" and lin(e)==({("p",2):2},-2): why="one literal factored away"
                    if f.name=="wr_arith_store_result" and e==("p",3): why="counter"
                # only answer literals
                pos=(k==0 and ((p=="sgt" and tr) or (p=="sle" and not tr))) or (k==1 and((p=="sge" and tr) or(p=="slt" and not tr) or (p=="eq" and tr) or (p=="ne" and not tr)))
                if pos and e[:2]==("call","wr_cl_derived_is_answer"): why="answer"
                eq=(p=="eq" and tr) or(p=="ne" and not tr)
                if eq and k==K["ACONST_FALSE"] and e[:2]==("call","wr_build_calc_term"): why="false"
                if f.name=="wr_genloop" and eq and k==-1: why="truth value"
                if f.name=="wr_prop_solve_current" and ((p=="ne" and tr)or(p=="eq" and not tr)) and k==0: why="external"
            if why is None: R.bad("R7-found",key+" reason",i.loc(),"%s announces a proof though literals may be left"%f.name); continue
            # history and registration on every path around this point
            def around(points):
                if any(f.dominates(q,i) and q.bb in near(f,i) for q in points): return True
                pb={q.bb:q.idx for q in points}
                if i.bb in pb: return True
                seen=set(); w=list(f.blocks[i.bb].succs)
                while w:
                    b=w.pop()
                    if b in seen or b in pb: continue
                    seen.add(b)
                    if f.blocks[b].term.op=="ret": return False
                    w+=f.blocks[b].succs
                return True
            if not around(hs): R.bad("R7-found",key+" history",i.loc(),"%s announces a proof without its last step"%f.name); continue
            if not around(regs): R.bad("R7-found",key+" answer",i.loc(),"%s announces a proof without registering it as an answer"%f.name); continue
            R.good("R7-found",key)
        for n,r in enumerate(regs):
            key="%s answer %d"%(f.name,n+1)
            h=strip(f,r.ops[2]); hv=v.e(h)
            if hv==("fld","proof_history",G):
                # the stored value is the step just built
                pb={q.bb for q in hs if is_step(f,v,q.ops[0])}
                ok=all(is_step(f,v,q.ops[0]) for q in hs) and ((r.bb in pb and any(q.bb==r.bb and q.idx<r.idx for q in hs)) or covers(f,pb,r.bb))
                cl=v.e(r.ops[1])==("c",0)
                if not ok or not cl: R.bad("R7-found",key,r.loc(),"%s registers an answer whose last step is not the one just made"%f.name)
                else: R.good("R7-found",key)
            else:
                same=any(v.values(q.ops[0],0) if False else v.e(q.ops[0])==hv for q in hs)
                ok=is_step(f,v,h) and same
                if not ok: R.bad("R7-found",key,r.loc(),"%s registers an answer whose last step is not the one just made"%f.name)
                else: R.good("R7-found",key)
    for name in("proof_history",):
        pass
def near(f,i):
    return f.dom[i.bb]|{i.bb}
def is_step(f,v,o,d=0):
    o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) else None
    if i is None: return False
    if i.op=="phi" and d<4: return all(is_step(f,v,z,d+1) for z in i.ops)
    if i.op=="select" and d<4: return all(is_step(f,v,z,d+1) for z in i.ops[1:])
    if i.op=="call" and i.callee and i.callee.startswith("wr_build_") and i.callee.endswith("_history"): return True
    return i.op=="call" and i.callee=="wr_get_history"
def registry(R,P):
    R.rule("R8-registry","an answer is kept as the clause and a whole copy of its last step, next to each other, behind the answers before it",4)
    K=build.macros(["RECORD_HEADER_GINTS"],"Reasoner/rincludes.h"); HD=K["RECORD_HEADER_GINTS"]
    f=P.fn("wr_register_answer"); CL,H=("cl",),("hist",)
    v=LV(f,{0:G,1:CL,2:H},Scenario({},(),{("fld","store_history",G):1})); v.solve(); v.prep()
    cnt=("ld",("fld","answers",G),("c",1))
    st=[i for b in sorted(v.res.blocks) for i in f.blocks[b].instrs if i.op=="call" and i.callee=="wr_cvec_store"]
    copy=[i for b in sorted(v.res.blocks) for i in f.blocks[b].instrs if i.op=="call" and i.callee=="wr_copy_raw_history_record"]
    want={0:lambda e:e==CL,1:lambda e:e[:3]==("call","wg_encode_record",DB) and len(copy)==1 and e[3]==v.e(copy[0].id)}
    seen={}
    for i in st:
        d=norm(("sub",v.x(i.ops[2]),cnt)); e=v.x(i.ops[3])
        if v.e(i.ops[1])[0]=="v" : pass
        k=d[1] if d[0]=="c" else None
        if k in want and want[k](e) and k not in seen: seen[k]=i; R.good("R8-registry","answer word %d"%k)
        else: R.bad("R8-registry","answer word %s"%k,i.loc(),"wr_register_answer stores %s at %s"%(sh(e),sh(v.x(i.ops[2]))))
    def kept(p,x,y):
        for a,b in((x,y),(y,x)):
            if b==("c",0) and p in("eq","ne"):
                if a[:2]==("call","wr_same_answers"): return int(p=="eq")
                if a[0]=="call" and a[1] in("wr_copy_raw_history_record","wr_cvec_store"): return int(p=="ne")
                if a==("fld","answers",G): return int(p=="ne")
    w=LV(f,{0:G,1:CL,2:H},Scenario({},(),{("fld","store_history",G):1})); w.sc.cmphook=kept; w.solve()
    rets=[b.n for b in f.blocks if b.n in f.dom and b.term.op=="ret"]
    for k,i in seen.items():
        if any(avoidable(w,{i.bb},t) for t in rets): R.bad("R8-registry","answer word %d skipped"%k,i.loc(),"wr_register_answer can return without keeping an answer that is not the same as an earlier one")
        else: R.good("R8-registry","answer word %d kept"%k)
    for i in f.calls("wr_same_answers"):
        e=v.x(i.ops[1])
        ok=e[:2]==("ld",("fld","answers",G)) and len(lin(e[2])[0])==1 and list(lin(e[2])[0].values())==[2] and lin(e[2])[1]==2 and v.e(i.ops[2])==CL
        if ok: R.good("R8-registry","compared with earlier answers")
        else: R.bad("R8-registry","compared with earlier answers",i.loc(),"wr_register_answer does not compare the new answer clause with the earlier answer clauses")
    for k in want:
        if k not in seen: R.bad("R8-registry","answer word %d missing"%k,loc_(f),"wr_register_answer does not store the %s of an answer"%("last step" if k else "clause"))
    if len(copy)==1:
        src=v.e(copy[0].ops[1])
        if has(src,H): R.good("R8-registry","copied step")
        else: R.bad("R8-registry","copied step",copy[0].loc(),"wr_register_answer copies something else than the last step")
    f=P.fn("wr_copy_raw_history_record")
    v=LV(f,{0:G,1:H},Scenario({},(),{})); v.solve(); v.prep()
    LEN=None
    mk=[i for i in f.calls() if i.callee in("wg_create_raw_record","wr_alloc_from_cvec")]
    for i in mk:
        n=v.x(i.ops[1] if i.callee=="wg_create_raw_record" else i.ops[2])
        extra=0 if i.callee=="wg_create_raw_record" else HD
        ok=norm(("sub",n,("c",extra)))
        if ok[0]=="call" and ok[1] in("wg_get_record_len","wg_get_record_len_inline") or (ok[0]!="c" and has(ok,H)): LEN=ok; R.good("R8-registry","copy size "+i.callee)
        else: R.bad("R8-registry","copy size "+i.callee,i.loc(),"wr_copy_raw_history_record makes a copy of another length")
    cp=[i for i in f.instrs() if i.op=="store" and v.e(i.ops[1])[0]=="elem"]
    done={}
    for i in cp:
        a=v.x(i.ops[1]); e=v.x(i.ops[0]); its=[t for t in lin(a[2])[0] if t[0]=="iter"]
        if not(e==("ld",H,a[2]) and len(its)==1 and lin(a[2])==({its[0]:1},0)): R.bad("R8-registry","copy word",i.loc(),"wr_copy_raw_history_record stores %s into word %s"%(sh(e),sh(a[2]))); continue
        lim=bounds(v,f,i.bb,a[2],its[0])
        if LEN is not None and lim=={norm(("add",LEN,("c",HD-1)))}: done[i]=1; R.good("R8-registry","copy words")
        else: R.bad("R8-registry","copy words",i.loc(),"wr_copy_raw_history_record does not copy every word of the step")
    mc=[i for i in f.calls() if i.callee and "memcpy" in i.callee]
    for i in mc:
        if LEN is not None and v.e(i.ops[1])==H and v.x(i.ops[2])==norm(("mul",("c",8),("add",LEN,("c",HD)))): done[i]=1; R.good("R8-registry","copy words")
        else: R.bad("R8-registry","copy words",i.loc(),"wr_copy_raw_history_record does not copy every word of the step")
    def given(p,x,y):
        for a,b in((x,y),(y,x)):
            if b==("c",0) and p in("eq","ne") and (a==H or (a[0]=="call" and a[1] in("wg_create_raw_record","wr_alloc_from_cvec"))): return int(p=="ne")
    for buf in(0,1):
        w=LV(f,{0:G,1:H},Scenario({2:(1,1<<40)} if 0 else {},(),{}))
        w.sc.cmphook=lambda p,x,y,buf=buf:next((int((p=="ne")==bool(buf)) for a,b in((x,y),(y,x)) if b==("c",0) and a==("p",2) and p in("eq","ne")),None) if given(p,x,y) is None else given(p,x,y)
        w.solve()
        mb={i.bb for i in mk}
        rv=w.returns()
        if ("c",0) in rv or any(avoidable(w,mb,b.n) for b in f.blocks if b.n in f.dom and b.term.op=="ret"): R.bad("R8-registry","copy refused",loc_(f),"wr_copy_raw_history_record can return without a copy of the step")
        else: R.good("R8-registry","copy made")
    for m in mk:
        if not any(i.bb in f.reach()[m.bb] or i.bb==m.bb for i in done): R.bad("R8-registry","copy missing",m.loc(),"wr_copy_raw_history_record returns a record without copying the step")
def readers(R,P,K):
    R.rule("R9-read","reading a step, every premise and cutter slot of its rule is looked up, no other slot is, and the literal positions are printed with the premise they belong to",60)
    PRE=K["HISTORY_PREFIX_LEN"]; T={k:n for n,k in K.items() if n.startswith("WR_HISTORY_TAG_")}
    T={n[len("WR_HISTORY_TAG_"):]:k for k,n in T.items()}
    H=("hist",); A,B=PRE+1,PRE+2
    IT=build.macros(["WG_INTTYPE"],"Db/dbapi.h")["WG_INTTYPE"]
    POS={"RESOLVE":{A:{"1"},B:{"2"}},"INSTGEN":{A:{"1"},B:{"2"}},"PROPAGATE":{A:{"1"},B:{"2"}},"FACTORIAL":{A:{"12"}},"EQUALITY_REFLEXIVE":{A:{"1"}},
         "PARA":{A+1:{"1"},B+1:{"2t"}},"SIMPLIFY":{},"PROPINST":{}}
    for fn,hi in(("wr_flatten_history",2),("wr_strprint_one_history",5)):
        f=P.fn(fn)
        for t in POS:
            if t not in T: continue
            for tptp in((0,1) if hi==5 else (0,)):
                def dec(e,k=T[t]):
                    if e[0]=="call" and e[1]=="wr_get_history_tag": return k
                    if e[0]=="ty" and has(e,("c",PRE)): return IT
                    if e[0]=="call" and e[1]=="wr_str_guarantee_space": return 1
                    if e[0]=="call" and e[1]=="wr_flatten_history_addcl": return 1
                mkv=lambda:LV(f,{0:G,hi:H},Scenario({},(),{("fld","print_proof_tptp",G):tptp},dec))
                v=mkv(); v.solve(); v.prep()
                what="%s %s%s"%(fn,t.lower(),", tptp" if tptp else "")
                base=A+1 if t=="PARA" else A
                rd=[i for b in sorted(v.res.blocks) for i in f.blocks[b].instrs if i.op=="call" and i.callee=="wr_get_history_record_field"]
                lp=[i for i in rd if v.x(i.ops[2])[0]!="c"]
                if len(lp)!=1: R.bad("R9-read",what+" loop",loc_(f),"%s reads the premises of a %s step at %d places"%(fn,t.lower(),len(lp))); continue
                r=lp[0]; x=v.x(r.ops[2]); l=lin(x)
                its=[q for q in l[0] if q[0]=="iter"]
                lim=bounds(v,f,r.bb,x,its[0]) if len(its)==1 and l[0]=={its[0]:1} else None
                okl=lim is not None and all(lin(q)[1]==-1 and len(lin(q)[0])==1 and has(q,H) for q in lim)
                if l[1]!=base or not okl: R.bad("R9-read",what+" range",r.loc(),"%s reads slots from %s on instead of every slot from %d to the end of a %s step"%(fn,l[1],base,t.lower())); continue
                it=its[0]; val=v.e(r.id); val0=r.id
                look=[i for b in sorted(v.res.blocks) for i in f.blocks[b].instrs if i.op=="call" and i.callee in("wg_get_assoc",) and strip(f,i.ops[1])==r.id]
                add=[i for b in sorted(v.res.blocks) for i in f.blocks[b].instrs if i.op=="call" and i.callee=="wr_flatten_history_addcl" and strip(f,i.ops[2])==r.id]
                back={(p,b.n) for b in f.blocks if b.n in f.dom for p in b.preds if p in f.dom and b.n in f.dom[p]}
                def at(slot,p1=1,p2=1):
                    def hook(p,a,b):
                        a,b=renorm(sub(a,v.m)),renorm(sub(b,v.m))
                        for u,w,pp in((a,b,p),(b,a,{"slt":"sgt","sgt":"slt","sle":"sge","sge":"sle"}.get(p,p))):
                            if w[0]=="c":
                                lu=lin(u)
                                if lu[0]=={it:1}:
                                    k=lu[1]+slot-base
                                    return int({"eq":k==w[1],"ne":k!=w[1],"slt":k<w[1],"sle":k<=w[1],"sgt":k>w[1],"sge":k>=w[1]}.get(pp)) if pp in("eq","ne","slt","sle","sgt","sge") else None
                                if u[:2]==("call","wr_get_history_pos1") and w[1]==0: return {"ne":p1,"eq":1-p1}.get(pp)
                                if u[:2]==("call","wr_get_history_pos2") and w[1]==0: return {"ne":p2,"eq":1-p2}.get(pp)
                    w=mkv(); w.sc.cmphook=hook; w.solve(); return w
                def walk(w,stop):
                    """blocks of the iteration from the read, and whether it can end without passing stop"""
                    seen=set(); todo=[r.bb]; out=False
                    while todo:
                        b=todo.pop()
                        if b in seen: continue
                        seen.add(b)
                        if b in stop: continue
                        if f.blocks[b].term.op=="ret": continue
                        for p,q in w.res.edges:
                            if p==b:
                                if (p,q) in back and q in f.dom[r.bb]: out=True
                                else: todo.append(q)
                    return seen,out
                for slot in range(base,base+4):
                    w=at(slot)
                    term=t=="PROPINST" and slot==B
                    if r.bb not in w.res.blocks and term: R.good("R9-read","%s slot %d"%(what,slot)); continue
                    if r.bb not in w.res.blocks: R.bad("R9-read","%s slot %d"%(what,slot),r.loc(),"%s skips slot %d of a %s step"%(fn,slot,t.lower())); continue
                    lk={i.bb for i in look}
                    region,_=walk(w,set())
                    _,skip=walk(w,lk-{r.bb} if not any(i.bb==r.bb for i in look) else {r.bb})
                    if term:
                        if lk&region: R.bad("R9-read","%s slot %d"%(what,slot),r.loc(),"%s takes the instantiation term of a %s step for a clause"%(fn,t.lower()))
                        else: R.good("R9-read","%s slot %d"%(what,slot))
                        continue
                    if not lk&region or skip: R.bad("R9-read","%s slot %d"%(what,slot),r.loc(),"%s can pass over slot %d of a %s step"%(fn,slot,t.lower())); continue
                    if hi==2:
                        ab={i.bb for i in add}
                        # clauses not met before are added, after their own premises
                        def un(p,a,b):
                            for u,z in((a,b),(b,a)):
                                if z==("c",0) and u[:2]==("call","wg_get_assoc") and p in("eq","ne"): return int(p=="eq")
                        w2=at(slot); h0=w2.sc.cmphook; w2=mkv(); w2.sc.cmphook=lambda p,a,b:un(p,a,b) if un(p,a,b) is not None else h0(p,a,b); w2.solve()
                        _,skip=walk(w2,ab)
                        rec=[i for i in f.calls(fn) if v.e(i.ops[2])[:2]==("call","wr_get_history") and has(v.e(i.ops[2]),val) and has(v.e(i.ops[3]),val)]
                        if skip or not add: R.bad("R9-read","%s slot %d add"%(what,slot),r.loc(),"%s can leave out a clause named in a %s step"%(fn,t.lower())); continue
                        if not any(f.dominates(q,z) for q in rec for z in add): R.bad("R9-read","%s slot %d order"%(what,slot),add[0].loc(),"%s numbers a clause before its premises"%fn); continue
                        R.good("R9-read","%s slot %d"%(what,slot)); continue
                    # printed positions
                    pr=[i for b in region for i in f.blocks[b].instrs if i.op=="call" and i.callee=="snprintf" and b in w.res.blocks]
                    printed=appends(f,v,w,pr,look[0])
                    if not printed or not nomiss(f,w,r,printed): R.bad("R9-read","%s slot %d number"%(what,slot),r.loc(),"%s does not print the number of the clause in slot %d of a %s step"%(fn,slot,t.lower())); continue
                    if tptp: R.good("R9-read","%s slot %d"%(what,slot)); continue
                    want=POS[t].get(slot,set()); got=set()
                    inner=lambda i:any(b==r.bb or b in f.dom[i.bb] for b in(r.bb,))
                    for i in pr:
                        if not inner(i): continue
                        g=""
                        for z in i.ops[3:]:
                            e=v.e(z)
                            e=renorm(e)
                            if e[:2]==("call","wr_get_history_pos1"): g+="1"
                            elif e[:2]==("call","wr_get_history_pos2"): g+="2"
                            elif e[:2]==("call","wr_decode_para_termpath_pos"): g+="t"
                        if g: got.add(g)
                    if got==want: R.good("R9-read","%s slot %d"%(what,slot))
                    else: R.bad("R9-read","%s slot %d position"%(what,slot),r.loc(),"%s prints position %s with the clause in slot %d of a %s step (expected %s)"%(fn,"/".join(sorted(got)) or "none",slot,t.lower(),"/".join(sorted(want)) or "none"))
    # arithmetic instances
    def uppers(v,f,bb,idx,it,CF):
        out=set()
        for c,truth,t in ec(f,bb):
            i=f.defs.get(c) if isinstance(c,int) else None
            if i is None or i.op!="icmp": continue
            p=i.x[0]
            if not truth: p={"slt":"sge","sge":"slt","sgt":"sle","sle":"sgt","eq":"ne","ne":"eq"}.get(p,p)
            for x,y,pp in((i.ops[0],i.ops[1],p),(i.ops[1],i.ops[0],{"slt":"sgt","sgt":"slt","sle":"sge","sge":"sle"}.get(p,p))):
                l=lin(CF(v.x(x)))
                if l[0]!={it:1}: continue
                d=lin(idx)[1]-l[1]
                if pp in("slt","ne"): off=d-1
                elif pp=="sle": off=d
                else: continue
                out|={norm(("add",q,("c",off))) for q in v.xs(y,bb)}
        return out
    for fn,hi in(("wr_flatten_history",2),("wr_strprint_one_history",5)):
        f=P.fn(fn)
        for n in(1,2):
            for tptp in((0,1) if hi==5 else (0,)):
                def field(e):
                    """slot of a field read"""
                    return renorm(e[4]) if e[:2]==("call","wr_get_history_record_field") else None
                def dec(e):
                    if e[:2]==("call","wr_get_history_tag"): return T["ARITHINST"]
                    if e[0]=="ty" and has(e,("c",PRE)): return IT
                    if e[:2]==("call","wr_str_guarantee_space") or e[:2]==("call","wr_flatten_history_addcl"): return 1
                    if (e[0]=="di" and field(e[1])==("c",PRE+2)) or (e[:2]==("call","wg_decode_int") and field(e[3])==("c",PRE+2)): return n
                v=LV(f,{0:G,hi:H},Scenario({},(),{("fld","print_proof_tptp",G):tptp},dec)); v.solve(); v.prep()
                def cf(e):
                    if not isinstance(e,tuple): return e
                    k=dec(e)
                    if k is not None: return ("c",k)
                    return renorm(tuple(cf(z) if isinstance(z,tuple) else z for z in e))
                what="%s arithinst of %d%s"%(fn,n,", tptp" if tptp else "")
                CP=PRE+3+2*n
                rd=[i for b in sorted(v.res.blocks) for i in f.blocks[b].instrs if i.op=="call" and i.callee=="wr_get_history_record_field"]
                def isnum(e): return (e[0]=="di" and field(e[1]) is not None and cf(field(e[1]))==("c",CP)) or (e[:2]==("call","wg_decode_int") and field(e[3]) is not None and cf(field(e[3]))==("c",CP))
                parts={}
                for r in rd:
                    x=cf(v.x(r.ops[2])); l=lin(x)
                    if not l[0]: parts.setdefault(l[1],[]).append(r); continue
                    its=[q for q in l[0] if q[0]=="iter"]
                    if len(its)!=1 or len(l[0])!=1: R.bad("R9-read",what+" slot",r.loc(),"%s reads slot %s of an arithinst step"%(fn,sh(x))); continue
                    parts.setdefault((l[0][its[0]],l[1]),[]).append((r,its[0],x))
                parents=[(r,None,None) for r in parts.get(PRE+1,[])]+parts.get((1,CP+1),[])
                want={(1,CP+1)}|({(2,PRE+3),(2,PRE+4)} if hi==5 and not tptp else set())
                got={k for k in parts if isinstance(k,tuple)}
                if got!=want or PRE+1 not in parts: R.bad("R9-read",what+" slots",loc_(f),"%s reads slots %s of an arithinst step with %d variables instead of its parent, variables, values and cutters"%(fn,sorted(got)+[k for k in parts if isinstance(k,int)],n)); continue
                for k in sorted(got):
                    for r,it,x in parts[k]:
                        if k[0]==1:
                            up=uppers(v,f,r.bb,("add",it,("c",0)),it,cf)
                            ok=any(isnum(norm(("add",q,("c",1)))) for q in up) and all(isnum(norm(("add",q,("c",1)))) or has(q,H) and not any(z[0]=="c" for z in [q]) and (cf(q)[0]!="c") for q in up)
                            lens=[q for q in up if not isnum(norm(("add",q,("c",1))))]
                            for q in lens:
                                lq=lin(cf(q)); ok=ok and lq[1]==-(CP+1)-1 and len(lq[0])==1
                        else:
                            up=uppers(v,f,r.bb,("add",it,("c",0)),it,cf)
                            ok=any(cf(q)==("c",n-1) for q in up) and len(up)==1
                        if ok: R.good("R9-read","%s slots %s"%(what,k))
                        else: R.bad("R9-read","%s slots %s"%(what,k),r.loc(),"%s does not read every slot from %d on of an arithinst step"%(fn,k[1]))
                for r,it,x in parents:
                    look=[i for b in v.res.blocks for i in f.blocks[b].instrs if i.op=="call" and i.callee=="wg_get_assoc" and strip(f,i.ops[1])==r.id]
                    if not look or not all(nomiss(f,v,r,{i.bb for i in look}) for _ in(0,)): R.bad("R9-read",what+" lookup",r.loc(),"%s does not look up a clause named in an arithinst step"%fn); continue
                    if hi==2:
                        w=LV(f,{0:G,hi:H},Scenario({},(),{},dec))
                        def un(p,a,b):
                            for u,z in((a,b),(b,a)):
                                if z==("c",0) and u[:2]==("call","wg_get_assoc") and p in("eq","ne"): return int(p=="eq")
                        w.sc.cmphook=un; w.solve()
                        add=[i for i in f.calls("wr_flatten_history_addcl") if strip(f,i.ops[2])==r.id]
                        rec=[i for i in f.calls(fn) if v.e(i.ops[2])[:2]==("call","wr_get_history") and has(v.e(i.ops[2]),v.e(r.id)) and has(v.e(i.ops[3]),v.e(r.id))]
                        if not add or not nomiss(f,w,r,{i.bb for i in add}): R.bad("R9-read",what+" add",r.loc(),"%s can leave out a clause named in an arithinst step"%fn); continue
                        if not any(f.dominates(q,z) for q in rec for z in add): R.bad("R9-read",what+" order",add[0].loc(),"%s numbers a clause before its premises"%fn); continue
                    else:
                        pr=[i for b in v.res.blocks for i in f.blocks[b].instrs if i.op=="call" and i.callee=="snprintf"]
                        pr=appends(f,v,v,pr,look[0])
                        if not pr or not nomiss(f,v,r,pr): R.bad("R9-read",what+" number",r.loc(),"%s does not print a clause named in an arithinst step"%fn); continue
                    R.good("R9-read",what+" clause %s"%("cutter" if it else "parent"))
    # names of the rules
    NM={"RESOLVE":("mp","resolution"),"INSTGEN":("instgen","instgen"),"PROPAGATE":("fmp","propagate"),"FACTORIAL":("merge","factorization"),"EQUALITY_REFLEXIVE":("r=","reflexivity"),"PARA":("=","paramodulation"),"SIMPLIFY":("simp","simplify"),"PROPINST":("inst","propinst"),"EXTPROP":("extprop","extprop"),"ARITHINST":("arithinst","arithinst")}
    f=P.fn("wr_strprint_one_history")
    for t,(n1,n2) in NM.items():
        for tptp,js in((0,0),(0,1),(1,0)):
            def dec(e):
                if e[:2]==("call","wr_get_history_tag"): return T[t]
                if e[0]=="ty" and has(e,("c",PRE)): return IT
                if e[:2]==("call","wr_str_guarantee_space"): return 1
            v=View(f,{0:G,5:H},Scenario({},(),{("fld","print_proof_tptp",G):tptp,("fld","print_json",G):js},dec))
            v.sc.cmphook=lambda p,a,b:0 if p=="eq" and a[0]=="call" and a[1].startswith("wg_get_record_len") and b==("c",PRE) else None
            v.solve()
            names=set()
            tr=[i for i in f.calls("wr_get_history_record_field") if v.e(i.ops[2])==("c",K["HISTORY_DERIVATION_TAG_POS"])]
            for b in sorted(v.res.blocks):
                if not any(q.bb in f.dom[b] for q in tr): continue
                for i in f.blocks[b].instrs:
                    if i.op!="call" or i.callee!="snprintf": continue
                    fm=gstring(P,strip(f,i.ops[2]) if not isinstance(i.ops[2],str) else i.ops[2]) or ""
                    if tptp and "inference(" in fm:
                        k=fm[fm.index("inference("):].count("%s")
                        at=fm[:fm.index("inference(")].count("%")
                        names|={gstring(P,q[1]) if q[0]=="g" else (q[1] if q[0] in("s","str") else str(q)) for q in v.values(i.ops[3+at],b)}
                    elif not tptp and "[" in fm and fm.lstrip("\n ").startswith(("%s:","[%s,")):
                        if js and '["' not in fm: continue
                        m=fm[fm.rindex('["' if js else "[")+1:].lstrip('"').split('"')[0].split(",")[0].split("]")[0]
                        names.add(m)
            want={n2 if tptp else n1}
            if not names: R.bad("R9-read","rule name %s"%t,loc_(f),"wr_strprint_one_history prints no rule name for a %s step"%t.lower())
            elif {str(z).rstrip("\0") for z in names}!=want: R.bad("R9-read","rule name %s"%t,loc_(f),"wr_strprint_one_history prints %s as the rule of a %s step"%("/".join(sorted(map(str,names))),t.lower()))
            else: R.good("R9-read","rule name %s"%t)
    # a step of any rule is read, and every clause given the next number
    f=P.fn("wr_flatten_history")
    f=P.fn("wr_flatten_history_addcl")
    def un(new):
        def hook(p,a,b):
            for u,z in((a,b),(b,a)):
                if z==("c",0) and p in("eq","ne") and u[0]=="call":
                    if u[1]=="wg_get_assoc": return int((p=="eq")==bool(new))
                    if u[1] in("wg_add_assoc","wg_mklist2"): return int(p=="ne")
        return hook
    CL,NR,AS=("cl",),("nr",),("as",)
    for new in(1,0):
        v=View(f,{0:G,2:CL,3:NR,4:AS},Scenario({},(),{})); v.sc.cmphook=un(new); v.solve()
        st=[i for b in sorted(v.res.blocks) for i in f.blocks[b].instrs if i.op=="store"]
        num=[i for i in st if strip(f,i.ops[1])==("arg",3) or v.e(i.ops[1])==NR]
        tab=[i for i in st if v.e(i.ops[1])==AS]
        add=[i for b in sorted(v.res.blocks) for i in f.blocks[b].instrs if i.op=="call" and i.callee=="wg_add_assoc"]
        lst=[i for b in sorted(v.res.blocks) for i in f.blocks[b].instrs if i.op=="call" and i.callee=="wg_mklist2"]
        ret=v.returns()
        what="wr_flatten_history_addcl, clause %s"%("not met before" if new else "met before")
        okr=ret=={("c",1)}
        if not new:
            if okr and not num and not tab: R.good("R9-read",what)
            else: R.bad("R9-read",what,loc_(f),"%s: changes the numbering or fails"%what)
            continue
        old=("ld",NR,("c",0))
        ok=okr and len(num)==1 and len(tab)==1 and len(add)==1 and len(lst)==1
        if ok:
            d=lin(("sub",v.e(num[0].ops[0]),("v",-1)))
            inc=[t for t in d[0] if t!=("v",-1)]
            ok=len(inc)==1 and d[1]==1 and v.e(add[0].ops[2])==CL and v.e(add[0].ops[3])==v.e(lst[0].id) and v.e(tab[0].ops[0])==v.e(add[0].id)
        if ok:
            # the number is the count before it was raised
            l=lin(v.e(lst[0].ops[3])); z=lst[0].ops[3]; w=[z]; lds=[]
            while w:
                q=w.pop(); q=strip(f,q) if isinstance(q,int) else q; dd=f.defs.get(q) if isinstance(q,int) else None
                if dd is None: continue
                if dd.op=="load": lds.append(dd)
                else: w+=[o for o in dd.ops if isinstance(o,int)]
            lds=[q for q in lds if v.e(q.ops[0])==NR]
            ok=len(lds)==1 and l[1]==(-1 if f.dominates(num[0],lds[0]) else 0) and v.e(lst[0].ops[3]) in (old,norm(("add",old,("c",-1))))
        if ok: R.good("R9-read",what)
        else: R.bad("R9-read",what,loc_(f),"%s: it is not given the next number and entered into the table"%what)
def appends(f,v,w,pr,look):
    """blocks that append the number found by the lookup to the text, directly or through a local buffer"""
    def isnum(z):
        return not isinstance(z,str) and has(renorm(v.e(z)),renorm(("call","wg_nth",DB,v.e(look.id),("c",2))))
    def local(z):
        z=strip(f,z); d=f.defs.get(z) if isinstance(z,int) else None
        while d is not None and d.op in("getelementptr","bitcast"): z=strip(f,d.ops[0]); d=f.defs.get(z) if isinstance(z,int) else None
        return z if d is not None and d.op=="alloca" else None
    out=set(); buf={}
    for i in pr:
        if any(isnum(z) for z in i.ops[3:]):
            b=local(i.ops[0])
            if b is None: out.add(i.bb)
            else: buf.setdefault(b,[]).append(i)
    for i in pr:
        for z in i.ops[3:]:
            b=local(z) if not isinstance(z,str) else None
            if b in buf and any(f.dominates(q,i) for q in buf[b]): out.add(i.bb)
    return out
def nomiss(f,v,r,stop):
    """from r on, no iteration and no path to the return misses stop; error returns inside are taken as given"""
    if r.bb in stop: return True
    back={(p,b.n) for b in f.blocks if b.n in f.dom for p in b.preds if p in f.dom and b.n in f.dom[p]}
    seen=set(); w=[r.bb]
    while w:
        b=w.pop()
        if b in seen or b in stop: continue
        seen.add(b)
        if f.blocks[b].term.op=="ret": return False
        for p,q in v.res.edges:
            if p==b:
                if (p,q) in back: return False
                w.append(q)
    return True
if __name__=="__main__":
    check.main("C06","history records",run)
