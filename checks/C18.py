#!/usr/bin/env python3
"""C18: a run starts from a defined state, and what is switched for a while is switched back."""
import sys, os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","sa"))
import mustdef, check
from core import *
ST="glb"
# modes switched for a while: function -> {field: constants also right at return}; "old" = the value at entry
BACK={"wr_analyze_clause_list":{"inkb":()},"wr_analyze_clause":{"inkb":()},"wr_analyze_term":{"inkb":()},"wr_analyze_sine":{"inkb":()},
 "init_shared_database":{"inkb":(1,)},
 "wr_import_otter_file":{"use_comp_funs":()},"wr_import_js_file":{"use_comp_funs":()},
 "wr_cl_create_propinst":{"build_buffer":(),"use_prop_constant":(0,)},
 "wr_rewrite_term":{"build_subst":(),"build_rename":(),"build_rewrite":(1,)},
 "wr_rewrite_constant":{"build_subst":(),"build_rename":(),"build_rewrite":(1,)},
 "wr_simplify_cl":{"build_rewrite":(0,)},
 "wr_arith_probe":{"arith_inst_probe_active":(0,)}}
# wholly local modes: on while one of the functions here works, never left on by any other function
OWNERS={"inkb":{"wr_glb_new_simple","wr_glb_new_full","wr_glb_init_simple","init_shared_database","wg_run_reasoner","wg_run_converter","wr_make_analyze_g"}}
STEPS=("wr_process_given_cl","wr_add_given_cl_active_list","wr_factor","wr_resolve_binary_all_active","wr_resolve_equality_reflexive",
 "wr_paramodulate_from_all_active","wr_paramodulate_into_all_active","wr_given_cl_subsumed","wr_given_cl_backsubsume","wr_propagate_prop_clauses","wr_cl_create_propinst",
 "wr_process_resolve_result","wr_process_paramodulate_result","wr_process_factor_result","wr_process_instgen_result","wr_process_simp_tmp_result")
MODES=("build_subst","build_rename","build_rename_banknr","build_rename_vc","build_rename_bank","build_rewrite")
def arg0(f,o):
    o=strip(f,o)
    return o
TABLES=("hash_neg_groundunits","hash_pos_groundunits","hash_neg_grounddoubles","hash_pos_grounddoubles","hash_neg_active_groundunits","hash_pos_active_groundunits",
 "hash_atom_occurrences","hash_neg_atoms","hash_pos_atoms","hash_neg_units","hash_pos_units","hash_para_terms","hash_eq_terms","hash_rewrite_terms",
 "shared_hash_neg_groundunits","shared_hash_pos_groundunits","prop_hash_atoms","prop_hash_clauses","prop_varvals","prop_groundings","prop_varval_clauses","clpick_queues")
def makers(f,o,d=0):
    """the calls whose result a stored value is made from"""
    o=strip(f,o,("zext","sext","trunc","ptrtoint","inttoptr","bitcast")); i=f.defs.get(o) if isinstance(o,int) else None
    if i is None or d>8: return []
    if i.op=="call": return [i]
    if i.op in("phi","select"): return [c for x in (i.ops if i.op=="phi" else i.ops[1:]) for c in makers(f,x,d+1)]
    if i.op in("sub","add","getelementptr"): return makers(f,i.ops[0],d+1)
    return []
class Clears:
    """does the memory a call returns hold only zeros (apart from what the function writes itself)"""
    def __init__(s,P): s.P=P; s.memo={}; s.raw={}
    def call(s,f,c):
        if c.callee=="calloc": return True
        if c.callee in s.P.fns:
            return s.of(c.callee)
        return False
    def allocates(s,n,d=0):
        """some allocation below"""
        return n in("malloc","realloc","calloc") or n in s.P.fns and d<6 and s.P.fns[n].ret=="ptr"
    def of(s,n):
        if n in s.memo: return s.memo[n]
        s.memo[n]=True
        f=s.P.fns[n]; ok=True
        cl=[i for i in f.instrs() if i.op=="call" and i.callee and i.callee.startswith(("memset","llvm.memset")) and cint(i.ops[1])==0]
        for b in f.rpo():
            t=f.blocks[b].term
            if t.op!="ret" or not t.ops: continue
            for src,at in rets(f,t.ops[0],b):
                if src=="null": continue
                ms=makers(f,src)
                if any(root(f,m.ops[0])==root(f,src) and m.bb in f.dom[at] for m in cl): continue
                if not ms: 
                    if cint(src)==0: continue
                    ok=False; continue
                for c in ms:
                    if not s.call(f,c): ok=False
        s.memo[n]=ok
        return ok
def root(f,o,d=0):
    o=strip(f,o,("ptrtoint","inttoptr","bitcast")); i=f.defs.get(o) if isinstance(o,int) else None
    if i is not None and i.op=="getelementptr" and d<5: return root(f,i.ops[0],d+1)
    return o
def rets(f,o,b):
    i=f.defs.get(o) if isinstance(o,int) else None
    if i is not None and i.op=="phi":
        out=[]
        for x,p in zip(i.ops,i.x): out+=rets(f,x,p)
        return out
    return [(o,b)]
class RR:
    def __init__(s,R,rid,text):
        s.R=R; s.id=rid
        if rid not in R.rules: R.rule(rid,text,0)
    def good(s,i=None): s.R.good(s.id,i.loc() if i is not None else None)
    def bad(s,key,msg,i): s.R.bad(s.id,key,i.loc() if i is not None else "?",msg)
class Net:
    """what a function leaves in one field: a set of 'old', ('c',k), ('a',j) (its j-th argument), ('?',)"""
    def __init__(s,P,field):
        s.P=P; s.k=field; s.sum={}; s.touch=set()
        for f in P.fns.values():
            for i in f.instrs():
                if i.op=="store":
                    a=addr(f,i.ops[1])
                    if a[0]=="field" and a[1]==ST and a[2]==field: s.touch.add(f.name)
        w=list(s.touch); s.may=set(w); cg={}
        for f in P.fns.values():
            for i in f.instrs():
                if i.op=="call" and i.callee in P.fns: cg.setdefault(i.callee,set()).add(f.name)
        while w:
            for c in cg.get(w.pop(),()):
                if c not in s.may: s.may.add(c); w.append(c)
        s.busy=set()
    def of(s,n,e="old"):
        if n not in s.may: return {e}
        if (n,e) in s.sum: return s.sum[n,e]
        if (n,e) in s.busy: return {e}                # recursion: the inner call leaves what the rest of the function leaves
        s.busy.add((n,e)); r,_=s.run(n,e); s.busy.discard((n,e))
        s.sum[n,e]=r
        return r
    def run(s,n,e="old"):
        f=s.P.fns[n]; IN={0:frozenset([e])}; w=[0]; ret=set(); at={}
        lds={}                                        # load instr -> values
        def val(o,d=0):
            o=strip(f,o,("zext","sext","trunc"))
            c=cint(o)
            if c is not None: return {("c",c)}
            i=f.defs.get(o) if isinstance(o,int) else None
            if i is None:
                j=argno(f,o)
                return {("a",j)} if j is not None else {("?",)}
            if i.op=="load" and i.id in lds: return set(lds[i.id])
            if i.op in("phi","select") and d<6:
                r=set()
                for x in (i.ops if i.op=="phi" else i.ops[1:]): r|=val(x,d+1)
                return r
            return {("?",)}
        ch=True; n_it=0
        while ch and n_it<40:
            ch=False; n_it+=1
            for b in f.rpo():
                cur=set(IN.get(b,()))
                if b not in IN: continue
                for i in f.blocks[b].instrs:
                    if i.op=="load":
                        a=addr(f,i.ops[0])
                        if a[0]=="field" and a[1]==ST and a[2]==s.k:
                            z=frozenset(cur)
                            if lds.get(i.id)!=z: lds[i.id]=z; ch=True
                    elif i.op=="store":
                        a=addr(f,i.ops[1])
                        if a[0]=="field" and a[1]==ST and a[2]==s.k:
                            cur=val(i.ops[0])
                    elif i.op=="call" and i.callee in s.may and i.callee in s.P.fns:
                        r=set()
                        for e0 in cur:
                          ee=e0 if e0=="old" or e0[0]=="c" else "old"
                          for x in s.of(i.callee,ee):
                            if x==ee: r.add(e0)
                            elif x=="old": r.add(e0)
                            elif x[0]=="a": r|=val(i.ops[x[1]]) if x[1]<len(i.ops) else {("?",)}
                            else: r.add(x)
                        cur=r
                t=f.blocks[b].term
                if t.op=="ret":
                    ret|=cur
                    at[b]=(set(cur),t)
                for q,c in s.edges(f,t,cur,lds):
                    z=frozenset(c)|IN.get(q,frozenset())
                    if IN.get(q)!=z and c: IN[q]=z; ch=True
        return ret,at
    def edges(s,f,t,cur,lds):
        """successors with the values that can go there: a test of the field just loaded sorts the constants"""
        L=list(f.blocks[t.bb].succs)
        if t.op=="br" and len(L)==2:
            c=f.defs.get(t.ops[0]) if isinstance(t.ops[0],int) else None
            if c is not None and c.op=="icmp" and cint(c.ops[1])==0:
                d=f.defs.get(strip(f,c.ops[0])) if isinstance(strip(f,c.ops[0]),int) else None
                pr=c.x if isinstance(c.x,str) else c.x[0]
                if d is not None and d.op=="load" and d.id in lds and frozenset(cur)==lds[d.id] and pr in("eq","ne") and not any(j.op=="store" and addr(f,j.ops[1])[0]=="field" and addr(f,j.ops[1])[2]==s.k for j in f.blocks[t.bb].instrs[f.blocks[t.bb].instrs.index(d)+1:] if d.bb==t.bb):
                    zero={x for x in cur if isinstance(x,tuple) and x[0]=="c" and x[1]==0}
                    nonz={x for x in cur if isinstance(x,tuple) and x[0]=="c" and x[1]!=0}
                    yes=set(cur)-nonz; no=set(cur)-zero
                    return [(L[0],yes),(L[1],no)] if pr=="eq" else [(L[0],no),(L[1],yes)]
        return [(q,cur) for q in L]
def argno(f,o):
    return o if isinstance(o,int) and o not in f.defs else None
def words(v):
    return ", ".join(sorted({"the value at entry" if x=="old" else "the constant %s"%x[1] if x[0]=="c" else "a passed value" if x[0]=="a" else "some other value" for x in v}))
def run(R):
    for variant in ("gkc","bison"):
        P=Prog(variant); tag="" if variant=="gkc" else " (%s)"%variant
        nul=lambda o:o=="null"
        nz=lambda o:cint(o) not in(None,0)
        F={n:nul for n in P.fns if n.startswith("wr_glb_new")}
        F.update({n:nz for n in P.fns if n.startswith("wr_glb_init")})
        M=mustdef.MustDef(P,ST,fail=F,new={"wr_glb_new_simple"},skip={"wr_free_analyze_g"})
        def trace(n,k,d=0):
            i=M.need[n].get(k)
            if i is not None and i.op=="call" and d<15: return trace(i.callee,k,d+1)
            return i
        # ---- R1
        r1=RR(R,"defined","no field of the run record is read by a run, a conversion or a parse before it was given a value (calls followed; a constructor sets what it sets on all its successful ways)")
        nread=0; pend=set()
        for root in ("wg_run_reasoner","wg_run_converter","wg_import_otter_file","wg_import_js_file","main","gkc_main"):
            if root not in M.need: continue
            rd=reads(P,M,root); nread+=len(rd)
            for k in sorted(rd):
                i=M.need[root].get(k)
                if i is None: r1.good(); continue
                if k=="tmp_rewrites": pend.add(k); continue
                if root in ("main","gkc_main") and k in M.need.get("wg_run_reasoner",{}): continue
                s=trace(root,k)
                r1.bad("%s|%s"%(root,k),"the field %s of the run record is read at %s%s, but a way from %s reaches it where it was never given a value"%(k,s.loc() if s else i.loc(),tag,root),i)
        # ---- the rewrite counter: only read while rewriting is switched on
        r1b=RR(R,"counter","a function which switches rewriting on has set the rewrite counter, the counter is only read while rewriting is on")
        on=0
        for f in P.fns.values():
            for i in f.instrs():
                if i.op=="store" and cint(i.ops[0])==1:
                    a=addr(f,i.ops[1])
                    if a[0]=="field" and a[1]==ST and a[2]=="build_rewrite" and f.name in("wr_simplify_cl",):
                        on+=1
                        ok=any(j.op=="store" and addr(f,j.ops[1])[0]=="field" and addr(f,j.ops[1])[2]=="tmp_rewrites" and j.bb in f.dom[i.bb] for j in f.instrs() if j.op=="store")
                        if ok: r1b.good(i)
                        else: r1b.bad("%s|tmp_rewrites"%f.name,"%s switches rewriting on at %s%s without having set the rewrite counter"%(f.name,i.loc(),tag),i)
        # ---- R3
        r3=RR(R,"restored","a mode switched for a while is back at its value on every return of the function that switched it")
        nets={}
        for n,fs in BACK.items():
            if n not in P.fns: continue
            for k,ok in fs.items():
                N=nets.setdefault(k,Net(P,k))
                ret,at=N.run(n)
                good={"old"}|{("c",c) for c in ok}
                if n=="init_shared_database":
                    good={("c",1),"old"}
                for b,(v,t) in at.items():
                    bad=v-good
                    if n in("wr_rewrite_term","wr_rewrite_constant") and k=="build_rewrite": bad-={("c",1)}
                    if bad: r3.bad("%s|%s"%(n,k),"%s may return at %s%s leaving %s as %s"%(n,t.loc(),tag,k,words(bad)),t)
                    else: r3.good(t)
        # a strategy setting replaced by a constant for the time of indexing a kb: the value read before is put back
        f=P.fns.get("init_shared_database")
        if f:
            def qf(i): 
                a=addr(f,i.ops[1 if i.op=="store" else 0]) if i.op in("store","load") else ("",)
                return a[0]=="field" and a[1]==ST and a[2]=="queryfocus_strat"
            for s in [i for i in f.instrs() if i.op=="store" and qf(i) and cint(i.ops[0]) is not None]:
                back=lambda i: i.op=="store" and qf(i) and isinstance(strip(f,i.ops[0]),int) and strip(f,i.ops[0]) in f.defs and (lambda l:l.op=="load" and qf(l) and f.dominates(l,s))(f.defs[strip(f,i.ops[0])])
                seen=set(); w=[(s.bb,s.idx+1)]; lost=None
                while w and not lost:
                    b,k=w.pop()
                    if (b,k) in seen: continue
                    seen.add((b,k)); hit=False
                    for i in f.blocks[b].instrs[k:]:
                        if back(i): hit=True; break
                        if i.op=="ret": lost=i; break
                    if not hit: w+=[(x,0) for x in f.blocks[b].succs]
                if lost: r3.bad("init_shared_database|queryfocus_strat","init_shared_database may return at %s%s without putting back the query focus setting it replaced at %s"%(lost.loc(),tag,s.loc()),lost)
                else: r3.good(s)
        r3b=RR(R,"kept","no function outside the ones that set up a run record leaves the allocation mode other than it found it")
        for k,own in OWNERS.items():
            N=nets.setdefault(k,Net(P,k))
            for n in sorted(N.touch):
                if n in own or n.startswith("wr_glb_"): continue
                v=N.of(n)
                if v<={"old"}: r3b.good()
                elif all(isinstance(x,tuple) and x[0]=="a" or x=="old" for x in v): r3b.good()    # a helper storing what it is given, judged at its callers
                elif n in BACK: continue
                else:
                    # a helper: judged at the callers as well
                    cs=[c for c in callersof(P,n)]
                    if cs and all(N.of(c)<={"old"} or c in own or c in BACK and k in BACK[c] for c in cs): r3b.good()
                    else: r3b.bad("%s|%s"%(n,k),"%s may return leaving %s as %s%s"%(n,k,words(v-{"old"}),tag),P.fns[n].blocks[0].instrs[0])
        # ---- R5
        r5=RR(R,"own setup","a step of the search sets the modes of building (substituting, renaming, its counter and bank, rewriting) itself before it builds, never using what an earlier step left")
        for n in STEPS:
            if n not in M.need: continue
            for k in MODES:
                i=M.need[n].get(k)
                if i is None: r5.good(); continue
                s=trace(n,k)
                r5.bad("%s|%s"%(n,k),"%s uses %s at %s%s as an earlier step left it"%(n,k,s.loc() if s else i.loc(),tag),i)
        # ---- R2
        r2=RR(R,"not after free","the run record is not used after it was freed")
        FREE={"wr_glb_free":0}
        for f in P.fns.values():
            for i in f.instrs():
                if i.op!="call" or i.callee not in ("wr_glb_free","free","sys_free"): continue
                o=arg0(f,i.ops[0])
                if not isglb(P,f,o): continue
                uses=afteruses(P,f,i,o)
                if uses: r2.bad("%s|%s"%(f.name,i.callee),"%s uses the run record at %s%s after it was freed at %s"%(f.name,uses[0].loc(),tag,i.loc()),uses[0])
                else: r2.good(i)
        # ---- sequential strategies
        r6=RR(R,"between searches","a second search on one run record comes only after its queues and active lists were made anew")
        f=P.fns.get("wg_run_reasoner")
        if f:
            gen=[i for i in f.instrs() if i.op=="call" and i.callee in P.fns and "wr_genloop" in reachset(P,i.callee)]
            seq=[i for i in f.instrs() if i.op=="call" and i.callee in P.fns and ("clqueue" in (M.sets[i.callee] or ()) or i.callee in M.new or "clqueue" in wset(P,M,i.callee) and i.callee.startswith("wr_glb_init"))]
            sb={}
            for i in seq: sb.setdefault(i.bb,[]).append(i)
            for i in gen:
                bad=secondsearch(f,i,gen,seq)
                if bad: r6.bad("wg_run_reasoner|second search","the search started at %s%s can follow the one at %s with the queues of the earlier one"%(bad.loc(),tag,i.loc()),bad)
                else: r6.good(i)
        # ---- R7
        r7=RR(R,"cleared","a table whose places are looked at before they are filled is made from cleared memory (calloc, or cleared by memset on every way, through the allocating functions)")
        Z=Clears(P)
        for f in P.fns.values():
            for i in f.instrs():
                if i.op!="store": continue
                a=addr(f,i.ops[1])
                if a[0]!="field" or a[1]!=ST or a[2] not in TABLES: continue
                for c in makers(f,i.ops[0]):
                    if c.callee not in P.fns and c.callee not in ("calloc","malloc"): continue
                    if c.callee in ("wr_cvec_store","wr_cvec_push","wr_cvec_realloc") : continue
                    if Z.call(f,c): r7.good(i)
                    else: r7.bad("%s|%s"%(f.name,a[2]),"the table %s gets at %s%s memory from %s which is not cleared"%(a[2],i.loc(),tag,c.callee),i)
        R.note(variant,{"functions":len(P.fns),"fields read from the entry functions":nread,"functions needing fields":sum(1 for n in M.need if M.need[n]),"fields set by the constructor":len(M.sets.get("wr_glb_new_simple") or ())})
    R.assume.append("varbanks and varstack freed by wr_free_analyze_g belong to the separate record made by wr_make_analyze_g, which sets both")
    R.assume.append("wr_simplify_cl builds a fact clause with the modes left by the step before; a fact has no variables, for which alone those modes matter")
def reads(P,M,root):
    out=set()
    for n in reachset(P,root):
        for L in M.ev[n].values():
            for k,x,i in L:
                if k=="r": out.add(x)
    return out
_rs={}
def reachset(P,n):
    key=(id(P),n)
    if key not in _rs:
        s={n}; w=[n]
        while w:
            for c in P.callgraph.get(w.pop(),()):
                if c in P.fns and c not in s: s.add(c); w.append(c)
        _rs[key]=s
    return _rs[key]
def wset(P,M,n):
    out=set()
    for m in reachset(P,n):
        for L in M.ev[m].values():
            for k,x,i in L:
                if k=="w": out.add(x)
    return out
def callersof(P,n):
    return {f.name for f in P.fns.values() for i in f.instrs() if i.op=="call" and i.callee==n}
def isglb(P,f,o):
    """a pointer through which fields of the run record are reached"""
    if isinstance(o,int):
        for u in f.uses.get(o,()) if hasattr(f.uses,"get") else f.uses[o]:
            if u.op=="getelementptr" and u.x and ST in str(u.x[0]): return True
    elif isinstance(o,str):
        for u in f.instrs():
            if u.op=="getelementptr" and u.ops and u.ops[0]==o and u.x and ST in str(u.x[0]): return True
    return False
def afteruses(P,f,i,o):
    """uses of pointer o that can run after call i (without o's own definition running again)"""
    dd=f.defs.get(o) if isinstance(o,int) else None
    out=[]; seen=set(); w=[(i.bb,True)]
    while w:
        b,first=w.pop()
        L=f.blocks[b].instrs; st=0
        if first: st=[x.id for x in L].index(i.id)+1 if i.id is not None else L.index(i)+1
        stop=False
        for x in L[st:]:
            if dd is not None and x is dd: stop=True; break
            if x.op=="phi": continue
            if any(strip(f,y)==o for y in x.ops if not isinstance(y,list)) and x.op in("getelementptr","load","store","call"):
                if x.op=="getelementptr" or x.op=="call": out.append(x); stop=True; break
        if stop: continue
        for q in f.blocks[b].succs:
            if q not in seen: seen.add(q); w.append((q,False))
    return out
def secondsearch(f,i,gen,seq):
    seen=set(); w=[(i.bb,True)]
    while w:
        b,first=w.pop(); L=f.blocks[b].instrs
        st=L.index(i)+1 if first else 0
        stop=False
        for x in L[st:]:
            if x in seq: stop=True; break
            if x in gen: return x
        if stop: continue
        for q in f.blocks[b].succs:
            if q not in seen: seen.add(q); w.append((q,False))
    return None
if __name__=="__main__": check.main("C18","bottom-up must-definition analysis of the fields of the run record, summaries of what functions leave in a field",run)
