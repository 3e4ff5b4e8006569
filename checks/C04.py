"""C04: the sign of literals is respected by inference, cutting, subsumption and the literal indexes."""
import sys, os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"sa"))
from core import *; from sign import *; import sccp, check, re
STORE={"wr_push_termhash","wr_push_offset_termhash","wr_clterm_add_hashlist","wr_clterm_add_hashlist_new","wr_clterm_add_hashlist_withpath"}
FIND={"wr_find_termhash","wr_find_offset_termhash"}
SCAN={"wr_find_offset_termbucket","wr_clterm_hashlist_start","wr_clterm_hashlist_len","strongly_cut_atom"}
def table_sign(name):
    m=re.search(r"hash_(pos|neg)_",name)
    return m.group(1) if m else None
def flow_to_calls(f,ld):
    """calls that receive (a pointer computed from) the loaded table handle"""
    out=[]; seen=set(); w=[ld.id]
    while w:
        o=w.pop()
        if o in seen: continue
        seen.add(o)
        for u in f.uses.get(o,()):
            if u.op=="call": out.append(u)
            elif u.op in("add","sub","inttoptr","ptrtoint","bitcast","phi","select","getelementptr","sext","zext"): w.append(u.id)
    return out
def found_role(f,call):
    """what a successful exact lookup is used for: 'cut' / 'subsume' / None"""
    roles=set()
    vs=[call.id]; seen=set()
    while vs:
        v=vs.pop()
        if v in seen: continue
        seen.add(v)
        for u in f.uses.get(v,()):
            if u.op in("phi","bitcast","ptrtoint","inttoptr"): vs.append(u.id)
            elif u.op=="icmp" and cint(u.ops[1])==0:
                for b in f.uses.get(u.id,()):
                    if b.op!="br" or len(b.x)!=2: continue
                    tgt=b.x[0] if u.x[0]=="ne" else b.x[1]
                    oth=b.x[1] if u.x[0]=="ne" else b.x[0]
                    if tgt==oth: continue
                    # blocks only reached through the found edge
                    reg=[k for k in range(len(f.blocks)) if tgt in f.dom.get(k,()) ] if len(f.blocks[tgt].preds)==1 else []
                    cut=False
                    for k in reg:
                        for i in f.blocks[k].instrs:
                            if i.op!="store": continue
                            a=addr(f,i.ops[1])
                            if a[0]=="val" and isinstance(a[1],int) and a[1]<len(f.args): cut=True       # *foundbucket=...
                            l=load_of_field(f,a[1]) if a[0]=="elem" else None
                            if l and l[1]=="cut_clvec": cut=True
                    roles.add("cut" if cut else "subsume")
            elif u.op=="store" and u.ops[0]==v:
                a=addr(f,u.ops[1])
                l=load_of_field(f,a[1]) if a[0]=="elem" else None
                if l and l[1]=="cut_clvec": roles.add("cut")
            elif u.op=="ret": roles.add("ret")
    return roles
def run(R):
    P=Prog("gkc"); A=Assume(P)
    R.note("functions_in_program",len(P.fns)); R.note("sign_mask",hex(A.mask))
    R.rule("index","a literal is stored in, and subsumed through, the index of its own sign; partners for resolving or cutting it are taken only from the index of the opposite sign",20)
    R.rule("symmetry","what is done for negative literals with the indexes is done for positive ones with the mirrored indexes",8)
    skip=lambda f: not f.file.startswith("Reasoner/")
    nf=0
    for f in P.fns.values():
        if skip(f): continue
        loads=[]
        for i in f.instrs():
            if i.op!="load": continue
            a=addr(f,i.ops[0])
            if a[0]=="field" and a[1]=="glb" and a[2].startswith(("hash_pos_","hash_neg_")): loads.append((i,a[2]))
        if not loads: continue
        obl=[]
        for ld,t in loads:
            for c in flow_to_calls(f,ld):
                n=c.callee
                if n in STORE: obl.append((ld,t,c,"same","store"))
                elif n in SCAN: obl.append((ld,t,c,"opposite","scan"))
                elif n in FIND:
                    for r in found_role(f,c): obl.append((ld,t,c,"opposite" if r=="cut" else "same",r))
        if not obl: continue
        nf+=1
        # parameters that carry the sign (negflag style): known from the call sites
        neg=negparams(P,A,f)
        use={}
        for s in ("neg","pos"):
            for rl in ((True,) if s=="neg" else (True,False)):
                args={k:((A.mask if f.args[k][0]=="i64" else 1) if s=="neg" else 0) for k in neg}
                res=sccp.solve(f,A.oracle(f,lambda r,k:s,lambda r:rl if (r in clause_roots(A,f) or (isinstance(r,int) and r<len(f.args))) else None),args)
                use.setdefault(s,[]).append(res)
        cnt={"neg":{},"pos":{}}
        for ld,t,c,want,role in obl:
            ts=table_sign(t); key="%s|%s|%s"%(f.name,t,role)
            ok=True
            for s in("neg","pos"):
                for res in use[s]:
                    if ld.bb in res.blocks and c.bb in res.blocks and live_into(f,ld,c,res):
                        k=(t.replace("_pos_","_S_").replace("_neg_","_S_"),role,c.callee)
                        cnt[s].setdefault(k,set()).add((ld.id,c.id))
                        if (ts==s)!=(want=="same"):
                            ok=False
                            R.bad("index",key,c.loc(),"%s() takes a %s literal to %s (%s %s)"%(f.name,{"neg":"negative","pos":"positive"}[s],t,{"store":"storing it in","scan":"taking resolution or cut partners from","cut":"cutting it with","subsume":"calling it subsumed by","ret":"looking it up in"}[role],"the index of the wrong sign"))
            if ok: R.good("index","%s %s %s (%s)"%(f.name,role,t,c.loc()))
        for k in set(cnt["neg"])|set(cnt["pos"]):
            a,b=len(cnt["neg"].get(k,())),len(cnt["pos"].get(k,()))
            if a==b: R.good("symmetry","%s %s %s"%(f.name,k[1],k[0]))
            else: R.bad("symmetry","%s|%s|%s"%(f.name,k[0],k[1]),"%s:%d"%(f.file,f.line),"%s() uses %s (%s) on %d places for negative and %d places for positive literals"%(f.name,k[0],k[1],a,b))
    R.note("functions_with_sign_indexes",nf)
    # ---- single-literal sign conditions
    R.rule("needs","an inference or index entry that needs a negative (positive) literal is not reachable for a positive (negative) one",5)
    NEED=[("wr_resolve_equality_reflexive","wr_process_factor_result","neg","reflexivity is resolved with"),
          ("wr_paramodulate_from_all_active","wr_process_paramodulate_result","pos","paramodulation replaces equals by"),
          ("wr_cl_store_para_terms","wr_cl_store_eq_arg","pos","the equality index for paramodulation takes"),
          ("wr_cl_store_para_terms","wr_cl_store_term_rewriter","pos","a rewrite rule is made of"),
          ("wr_subsume_cl","wr_equal_term","pos","a fact subsumes a clause by")]
    for fn,ev,s,txt in NEED:
        if fn not in P.fns: continue
        f=P.fns[fn]; evs=[c for c in f.calls(ev)]
        if not evs: continue
        o="pos" if s=="neg" else "neg"
        bases=[None]
        if fn=="wr_subsume_cl":
            # cl2 is the rule clause searched, cl1 a fact
            res=sccp.solve(f,A.oracle(f,lambda r,k:o if r==2 else None,lambda r:{1:False,2:True}.get(r)))
        else: res=sccp.solve(f,A.oracle(f,lambda r,k:o,lambda r:True if r in clause_roots(A,f) else None))
        wrong=[c for c in evs if c.bb in res.blocks]
        if fn=="wr_subsume_cl": hit=[1 for v,t,p in res.returns() if v!=0]; wrong=wrong if hit else []
        for c in evs:
            if c in wrong: R.bad("needs","%s|%s|%s"%(fn,ev,o),c.loc(),"%s(): %s a %s literal"%(fn,txt,{"neg":"negative","pos":"positive"}[o]))
            else: R.good("needs","%s -> %s only for %s literals (%s)"%(fn,ev,s,c.loc()))
    # ---- pairs
    R.rule("pair","two literals are merged, matched or compared as equal clauses only with equal signs, and cut against each other or called a tautology only with opposite signs",6)
    def pair(fn,want,effect,group):
        if fn not in P.fns: return
        f=P.fns[fn]; ms=A.metas(f)
        keys=[]
        for i,m,r,k in ms:
            q=group(r,k,m)
            if q is not None and q not in keys: keys.append(q)
        if len(keys)<2:
            R.bad("pair","%s|notest"%fn,"%s:%d"%(f.file,f.line),"%s() no longer tests the signs of both literals it compares"%fn); return
        for a in("neg","pos"):
            for b in("neg","pos"):
                sg={keys[0]:a}
                for k in keys[1:]: sg[k]=b
                oracle=A.oracle(f,lambda r,k:None)
                fix=A.oracle(f,lambda r,k:pick(sg,group,r,k),None)
                args={}
                for k in keys:
                    if isinstance(k,tuple) and k[0]=="param": args[k[1]]=1 if sg[k]=="neg" else 0
                if isinstance(effect,str):
                    same={k:"neg" for k in keys}
                    need=accepted(f,A,same,group,effect)[1]; got=accepted(f,A,sg,group,effect)[0]
                    hit="%s:%d"%(f.file,f.line) if need and need<=got else None
                    if not need and a==b: raise AnalysisBroken("%s: no block depends on %s"%(fn,effect))
                else:
                    res=sccp.solve(f,fix,args)
                    hit=effect(f,res)
                bad=hit and ((a==b)!=(want=="equal"))
                if bad: R.bad("pair","%s|%s"%(fn,want),hit,"%s(): %s is reached for %s and %s literals"%(fn,EFF[fn],a,b))
                elif not hit and (a==b)==(want=="equal"): R.bad("pair","%s|never"%fn,"%s:%d"%(f.file,f.line),"%s(): %s is never reached for %s and %s literals"%(fn,EFF[fn],a,b))
                else: R.good("pair","%s (%s,%s)"%(fn,a,b))
    EFF={"wr_find_strong_duplicates":"merging a literal into another","wr_factor":"factoring","wr_tautology_cl":"the tautology answer","wr_subsume_cl_aux":"literal matching","wr_subsume_cl":"literal matching","wr_equal_instgen_clauses":"the equality answer","wr_equal_instgen_halfblt_queue_clause":"the equality answer","wr_resolve_propagated_clause":"propagation","wr_process_resolve_result_aux":"dropping a duplicate literal","wr_process_instgen_result_aux":"dropping a duplicate literal"}
    def calls(*names):
        def e(f,res):
            for c in f.calls(set(names)):
                if c.bb in res.blocks: return c.loc()
            return None
        return e
    def returns1(f,res):
        for v,t,p in res.returns():
            if v is None or v!=0:
                l=[i.line for i in f.blocks[p].instrs if i.line]
                return "%s:%d"%(f.file,l[-1] if l else t.line)
        return None
    bykey=lambda r,k,m=None: k
    byroot=lambda r,k,m=None: r
    pair("wr_factor","equal",calls("wr_process_factor_result"),bykey)
    pair("wr_tautology_cl","opposite",returns1,bykey)
    pair("wr_subsume_cl_aux","equal",calls("wr_match_term_aux","wr_eqmodvars_term_aux"),byroot)
    pair("wr_find_strong_duplicates","equal",calls("wr_nomatch_term_uniquevars"),bykey)
    for fn in("wr_equal_instgen_clauses","wr_equal_instgen_halfblt_queue_clause"): pair(fn,"equal","wr_equal_mod_vars_term",bykey)
    # rule clause / rule clause subsumption with a unit clause
    if "wr_subsume_cl" in P.fns:
        f=P.fns["wr_subsume_cl"]
        for a in("neg","pos"):
            for b in("neg","pos","fact"):
                res=sccp.solve(f,A.oracle(f,lambda r,k:{1:a,2:None if b=="fact" else b}.get(r),lambda r:{1:True,2:b!="fact"}.get(r)))
                hit=[c for c in f.calls({"wr_match_term","wr_equal_mod_vars_term","wr_equal_term"}) if c.bb in res.blocks]
                bs="pos" if b=="fact" else b
                if hit and a!=bs: R.bad("pair","wr_subsume_cl|%s"%b,hit[0].loc(),"wr_subsume_cl(): a %s unit clause is matched against a %s literal"%(a,b))
                elif not hit and a==bs: R.bad("pair","wr_subsume_cl|never|%s"%b,"%s:%d"%(f.file,f.line),"wr_subsume_cl(): a %s unit clause is never compared with a %s literal"%(a,b))
                else: R.good("pair","wr_subsume_cl unit (%s,%s)"%(a,b))
    # propagation: the sign of the unit arrives as a parameter
    if "wr_resolve_propagated_clause" in P.fns:
        f=P.fns["wr_resolve_propagated_clause"]; np=negparams(P,A,f)
        if not np: R.bad("pair","wr_resolve_propagated_clause|nosign","%s:%d"%(f.file,f.line),"the sign of the propagated unit does not reach wr_resolve_propagated_clause()")
        for a in("neg","pos"):
            for b in("neg","pos"):
                res=sccp.solve(f,A.oracle(f,lambda r,k:b,lambda r:True),{k:1 if a=="neg" else 0 for k in np})
                hit=calls("wr_process_propagated_result")(f,res)
                if hit and a==b: R.bad("pair","wr_resolve_propagated_clause",hit,"wr_resolve_propagated_clause(): a %s unit cuts a %s literal"%(a,b))
                else: R.good("pair","wr_resolve_propagated_clause (%s,%s)"%(a,b))
    # double cuts: the literal to be cut away against its negation, every other literal against an equal one
    if "wr_atom_doublecut_aux" in P.fns:
        f=P.fns["wr_atom_doublecut_aux"]; ats=[i for i in f.instrs() if i.op=="icmp" and i.x[0] in("eq","ne") and i.x[1]=="i64" and 1 in i.ops]
        ks=[]
        for i,m,r,k in A.metas(f):
            if k not in ks: ks.append(k)
        ps={i for i in ats}
        if len(ks)<2 or not ps: R.bad("pair","wr_atom_doublecut_aux|notest","%s:%d"%(f.file,f.line),"wr_atom_doublecut_aux() no longer tells the cut literal and the signs apart")
        else:
            for same in(True,False):
                for a in("neg","pos"):
                    for b in("neg","pos"):
                        o=A.oracle(f,lambda r,k:a if k==ks[0] else b)
                        res=sccp.solve(f,lambda i:(1 if (i.x[0]=="eq")==same else 0) if i in ps else o(i))
                        hit=calls("wr_equal_term")(f,res)
                        if hit and (a==b)==same: R.bad("pair","wr_atom_doublecut_aux|%s"%("cut" if same else "other"),hit,"wr_atom_doublecut_aux(): %s is matched with a literal of the %s sign (%s,%s)"%("the literal to be cut" if same else "a literal that stays","same" if a==b else "opposite",a,b))
                        elif not hit and (a==b)!=same: R.bad("pair","wr_atom_doublecut_aux|never","%s:%d"%(f.file,f.line),"wr_atom_doublecut_aux() never compares (%s,%s) literals"%(a,b))
                        else: R.good("pair","wr_atom_doublecut_aux (%s,%s,%s)"%(same,a,b))
    atomhash(P,A,R)
    # duplicates while building a derived clause: equal signs drop the literal, opposite signs drop the clause
    for fn in("wr_process_resolve_result_aux","wr_process_instgen_result_aux"):
        if fn not in P.fns: continue
        f=P.fns[fn]
        for c in f.calls("wr_equal_term"):
            for br,found in found_edges(f,c):
                metas=sorted({k for i,m,r,k in A.metas(f)  if br.bb in f.dom[i.bb] },key=str)
                # signs tested after the successful comparison
                ks=[]
                for i,m,r,k in A.metas(f):
                    if i.bb==found or found in f.dom[i.bb]:
                        if k not in ks: ks.append(k)
                if len(ks)<2:
                    R.bad("pair",fn+"|notest",c.loc(),"%s() does not compare the signs of two equal literals"%fn); continue
                stop={b for b in f.dom[c.bb]}
                for a in("neg","pos"):
                    for b in("neg","pos"):
                        sg={ks[0]:a}; sg.update({k:b for k in ks[1:]})
                        res=sccp.solve(f,A.oracle(f,lambda r,k:sg.get(k)),start=(br.bb,found),stop=stop)
                        ret0=any(v==0 for v,t,p in res.returns()) or zero_exit(f,res,stop)
                        if (a!=b) and not ret0: R.bad("pair",fn+"|keeptaut",c.loc(),"%s(): a clause with a literal and its negation (%s,%s) is not dropped as a tautology"%(fn,a,b))
                        elif a==b and ret0: R.bad("pair",fn+"|dropclause",c.loc(),"%s(): a clause with a repeated literal (%s,%s) is dropped"%(fn,a,b))
                        elif a!=b and leaves(f,res,stop): R.bad("pair",fn+"|droplit",c.loc(),"%s(): a literal is dropped although only its negation (%s,%s) is present"%(fn,a,b))
                        else: R.good("pair","%s duplicate (%s,%s)"%(fn,a,b))
    # ---- truth constants
    R.rule("truth","an atom that evaluates to true makes a positive literal drop the clause and a negative literal drop out; an atom that evaluates to false does the reverse",4)
    truth(P,A,R)
    # ---- callers hand over the right sign
    R.rule("handover","a sign or literal meta handed to a lookup or cutting function belongs to the literal handed over with it and is not inverted",5)
    handover(P,A,R)
    R.rule("keepmeta","a literal copied into a derived clause keeps the meta information (and so the sign) of the literal it was copied from",4)
    keepmeta(P,A,R)
    R.assume+=["the set of functions that hand out or apply literal indexes is fixed by name (%s)"%", ".join(sorted(STORE|FIND|SCAN)),"facts (non-rule clauses) are positive unit literals by construction"]
def slotconst(f,res,o,d=0):
    """constant part of an index under the executable edges"""
    o=strip(f,o)
    v=res.val(o)
    if v is not None: return {v}
    i=f.defs.get(o) if isinstance(o,int) and o>=len(f.args) else None
    if i is None or d>8: return {0}
    if i.op=="phi":
        r=set()
        for z,p in zip(i.ops,i.x):
            if (p,i.bb) in res.edges: r|=slotconst(f,res,z,d+1)
        return r
    if i.op=="add":
        a,b=i.ops
        return {x+y for x in (slotconst(f,res,a,d+1) if not isloop(f,a) else {0}) for y in (slotconst(f,res,b,d+1) if not isloop(f,b) else {0})}
    return {0}
def isloop(f,o):
    o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) and o>=len(f.args) else None
    return i is not None and i.op=="phi" and cint(o) is None
def atomhash(P,A,R):
    """the occurrence table used by propagation: negative occurrences in one list, positive in the other, partners from the opposite one"""
    import build
    m=build.macros(["ATOMHASH_POSCLAUSES_POS","ATOMHASH_NEGCLAUSES_POS"],"Reasoner/rincludes.h")
    want={"neg":m["ATOMHASH_NEGCLAUSES_POS"],"pos":m["ATOMHASH_POSCLAUSES_POS"]}
    if want["neg"]==want["pos"]: R.bad("index","atomhash|layout","Reasoner/hash.h","positive and negative occurrences share one slot")
    if "wr_push_atomhash" in P.fns:
        f=P.fns["wr_push_atomhash"]; np=negparams(P,A,f)
        if not np: R.bad("index","wr_push_atomhash|nosign","%s:%d"%(f.file,f.line),"the sign does not reach wr_push_atomhash()")
        for s in("neg","pos"):
            res=sccp.solve(f,None,{k:1 if s=="neg" else 0 for k in np})
            # the slot whose clause vector is created: store of a new vector's address
            n=0
            for i in f.instrs():
                if i.op!="store" or i.bb not in res.blocks: continue
                v=strip(f,i.ops[0]); j=f.defs.get(v) if isinstance(v,int) and v>=len(f.args) else None
                if j is None or j.op!="call" or j.callee not in("wr_cvec_new","wr_cvec_store","wr_cvec_push"): continue
                q=f.defs.get(strip(f,i.ops[1],("bitcast",)))
                if q is None or q.op!="getelementptr": continue
                g=q
                cs=slotconst(f,res,g.ops[-1])
                if cs&set(want.values()):
                    n+=1
                    if cs=={want[s]}: R.good("index","wr_push_atomhash %s slot (%s)"%(s,i.loc()))
                    else: R.bad("index","wr_push_atomhash|%s"%s,i.loc(),"wr_push_atomhash() files a %s literal under the other sign"%{"neg":"negative","pos":"positive"}[s])
            if not n: raise AnalysisBroken("wr_push_atomhash: occurrence slot not found")
    for fn in("wr_propagate_unit",):
        f=P.fns.get(fn)
        if f is None: continue
        for s in("neg","pos"):
            res=sccp.solve(f,A.oracle(f,lambda r,k:s,lambda r:True))
            for c in f.calls("wr_resolve_propagated_clause"):
                if c.bb not in res.blocks: continue
                v=strip(f,c.ops[3]); cs=None
                for _ in range(2):
                    j=f.defs.get(v) if isinstance(v,int) and v>=len(f.args) else None
                    if j is None or j.op!="load": break
                    g=f.defs.get(strip(f,j.ops[0],("bitcast",)))
                    if g is None or g.op!="getelementptr": break
                    cs=slotconst(f,res,g.ops[-1]); v=strip(f,g.ops[0])
                o="pos" if s=="neg" else "neg"
                if cs is None: raise AnalysisBroken("wr_propagate_unit: occurrence list not found")
                if cs=={want[o]}: R.good("index","%s %s partners (%s)"%(fn,s,c.loc()))
                else: R.bad("index","%s|%s"%(fn,s),c.loc(),"%s() propagates a %s unit into clauses that do not contain its negation"%(fn,{"neg":"negative","pos":"positive"}[s]))
def pick(sg,group,r,k): return sg.get(group(r,k))
def accepted(f,A,sg,group,probe):
    """blocks that are executed because a comparison of two literals with these signs succeeded"""
    ids={c.id for c in f.calls(probe)}
    r=[]
    for v in (1,0):
        o=A.oracle(f,lambda r,k:pick(sg,group,r,k))
        r.append(sccp.solve(f,lambda i:v if i.id in ids else o(i)).blocks)
    return r[0],r[0]-r[1]
def clause_roots(A,f):
    ms={r for _,_,r,_ in A.metas(f)}
    return ms
def live_into(f,ld,c,res):
    """the handle loaded at ld can be the one passed to c on executable edges"""
    seen=set(); w=[ld.id]
    while w:
        o=w.pop()
        if o in seen: continue
        seen.add(o)
        for u in f.uses.get(o,()):
            if u.id==c.id and u.op=="call": return True
            if u.op=="phi":
                if any(z==o and (p,u.bb) in res.edges for z,p in zip(u.ops,u.x)): w.append(u.id)
            elif u.op in("add","sub","inttoptr","ptrtoint","bitcast","select","getelementptr","sext","zext"): w.append(u.id)
    return False
def negparams(P,A,f):
    """parameters that receive the sign of a literal at their call sites (or are named so when there is no such site)"""
    out=set(); mp={m for _,m,_,_ in A.metas(f)}
    for k,a in enumerate(f.args):
        if k in mp or a[0] not in("i32","i64","i8","i1"): continue
        vs=[]
        for c in P.callers(f.name):
            if k<len(c.ops): vs.append((c.fn,c.ops[k]))
        if any(sign_slice(A,g,o) for g,o in vs): out.add(k)
    return out
def sign_slice(A,f,o,d=0,seen=None):
    """does the value depend on a sign test: masked meta, or a flag chosen by a branch on one"""
    seen=set() if seen is None else seen
    if not isinstance(o,int) or o<len(f.args) or o in seen or d>10: return False
    seen.add(o); i=f.defs[o]
    if i.op=="and" and A.mask in(cint(i.ops[0]),cint(i.ops[1])): return True
    if i.op in("zext","sext","trunc","xor","icmp","select","lshr","ashr","freeze"): return any(sign_slice(A,f,z,d+1,seen) for z in i.ops)
    if i.op=="phi" and all(cint(z) is not None or isinstance(z,int) for z in i.ops):
        if any(isinstance(z,int) and sign_slice(A,f,z,d+1,seen) for z in i.ops): return True
        if all(cint(z) in(0,1) for z in i.ops):
            S=Signs(f.prog,A.mask)
            return S.val(f,o) is not None
    return False
def found_edges(f,c):
    """branches on the (non-zero) result of call c: [(br, block entered when non-zero)]"""
    out=[]
    for u in f.uses.get(c.id,()):
        if u.op=="icmp" and cint(u.ops[1])==0:
            for b in f.uses.get(u.id,()):
                if b.op=="br" and len(b.x)==2: out.append((b,b.x[0] if u.x[0]=="ne" else b.x[1]))
    return out
def zero_exit(f,res,stop): return False
def leaves(f,res,stop):
    """execution goes on with the clause (loop back or fall out) instead of returning 0"""
    for b in res.blocks:
        t=f.blocks[b].term
        if t.op=="ret":
            if any(v!=0 for v,_,_ in res.returns()): return True
        for x in t.x if t.op=="br" else ():
            if x in stop and (b,x) in res.edges: return True
    return False
def truth(P,A,R):
    # the two truth constants: compared against the result of term building, 2 different constants
    for f in P.fns.values():
        if not f.file.startswith("Reasoner/"): continue
        pend=[]
        for i in f.instrs():
            if i.op!="icmp" or i.x[0] not in("eq","ne"): continue
            c=cint(i.ops[1])
            if c is None or c==0: continue
            which=TRUTH(P).get(c)
            if which is None: continue
            for br in f.uses.get(i.id,()):
                if br.op!="br" or len(br.x)!=2: continue
                tgt=br.x[0] if i.x[0]=="eq" else br.x[1]
                # only where the sign is looked at afterwards
                ks=[a for a in A.metas(f) if tgt==a[0].bb or tgt in f.dom[a[0].bb]]
                if not ks: continue
                res0={}
                stop=set(f.dom[i.bb])
                for s in("neg","pos"):
                    res=sccp.solve(f,A.oracle(f,lambda r,k:s),start=(i.bb if br.bb==i.bb else br.bb,tgt),stop=stop)
                    r0=any(v==0 for v,_,_ in res.returns()); go=leaves(f,res,stop)
                    res0[s]=(r0,go)
                dropcl="pos" if which=="true" else "neg"; droplit="neg" if which=="true" else "pos"
                pend.append((i,which,res0,dropcl,droplit))
        if not any(x[0] for _,_,q,_,_ in pend for x in q.values()): continue        # a function with another protocol
        for i,which,res0,dropcl,droplit in pend:
            if 1:
                if res0[dropcl][1]: R.bad("truth","%s|%s|keep"%(f.name,which),i.loc(),"%s(): a %s literal whose atom is %s only drops out instead of making the clause true"%(f.name,dropcl,which))
                elif res0[droplit][0]: R.bad("truth","%s|%s|drop"%(f.name,which),i.loc(),"%s(): a clause is dropped because of a %s literal whose atom is %s"%(f.name,droplit,which))
                else: R.good("truth","%s %s (%s)"%(f.name,which,i.loc()))
_T={}
def TRUTH(P):
    if not _T:
        import build
        m=build.macros(["ACONST_TRUE","ACONST_FALSE"],"Reasoner/rincludes.h")
        _T[m["ACONST_TRUE"]]="true"; _T[m["ACONST_FALSE"]]="false"
    return _T
def handover(P,A,R):
    S=Signs(P,A.mask)
    tgt={}
    for f in P.fns.values():
        if not f.file.startswith("Reasoner/"): continue
        mp={m for _,m,_,_ in A.metas(f) if isinstance(m,int) and m<len(f.args)}
        np=negparams(P,A,f)
        for k in mp: tgt.setdefault(f.name,[]).append((k,"meta"))
        for k in np: tgt.setdefault(f.name,[]).append((k,"neg"))
    tgt={n:l for n,l in tgt.items() if n in HANDOVER}
    for n,l in tgt.items():
        g=P.fns[n]
        for c in P.callers(n):
            f=c.fn
            for k,kind in l:
                if k>=len(c.ops): continue
                o=c.ops[k]
                if kind=="neg":
                    v=S.val(f,o)
                    cc=cint(o)
                    if v is None and cc is None:
                        # a flag merged with the fact case: evaluate under both signs
                        a=[sccp.solve(f,A.oracle(f,lambda r,q:s)).val(strip(f,o)) for s in("neg","pos")]
                        if a[1]==0 and (a[0] or a[0] is None): v=(("x",),False)
                        elif a[0]==0: v=(("x",),True)
                    if v is not None and v[1]: R.bad("handover","%s->%s|inverted"%(f.name,n),c.loc(),"%s() hands the inverted sign of a literal to %s()"%(f.name,n)); continue
                    if v is None and cc is None: continue
                    if cc is not None:
                        if cc==0: R.good("handover","%s -> %s constant positive (%s)"%(f.name,n,c.loc()))
                        continue
                    m=v[0][1] if v[0][0]=="m" else None
                else: m=o
                if m is None: R.good("handover","%s -> %s (%s)"%(f.name,n,c.loc())); continue
                mk=skey(f,m)
                if not(isinstance(mk,tuple) and mk[0]=="ld"): continue
                # the literal handed over: another argument loaded from a neighbouring slot
                ats=[y for j,z in enumerate(c.ops) if j!=k and (j>=len(g.args) or g.args[j][1] in("atom","xatom") or g.args[j][0]=="i64") for y in slots(f,z)]
                mg=mk[1]
                if not(isinstance(mg,tuple) and mg[0]=="gep"): continue
                same=[z for z in ats if z[1][1]==mg[1] and z[1][3]==mg[3]]
                if not ats: continue
                if any(z[1][2]==mg[2]+1 for z in same): R.good("handover","%s -> %s meta and atom of one literal (%s)"%(f.name,n,c.loc()))
                elif len(ats)==1 and ats[0][1][1]==mg[1]: R.bad("handover","%s->%s|otherlit"%(f.name,n),c.loc(),"%s() hands %s() the meta of another literal than the atom"%(f.name,n))
HANDOVER={"wr_active_subsumed_lit","wr_atom_cut_and_subsume","wr_atom_doublecut","wr_resolve_propagated_clause","wr_push_atomhash"}
def slots(f,o,d=0,seen=None):
    """loads (structural addresses) a built atom comes from"""
    seen=set() if seen is None else seen
    o=strip(f,o)
    if not isinstance(o,int) or o<len(f.args) or o in seen or d>8: return []
    seen.add(o); i=f.defs[o]
    if i.op=="load":
        k=skey(f,o); return [k] if isinstance(k,tuple) and k[0]=="ld" and isinstance(k[1],tuple) and k[1][0]=="gep" else []
    if i.op=="phi": return [z for q in i.ops for z in slots(f,q,d+1,seen)]
    if i.op=="call" and i.callee and i.callee.startswith("wr_build"): return [z for q in i.ops[1:] for z in slots(f,q,d+1,seen)]
    return []
def keepmeta(P,A,R):
    for f in P.fns.values():
        if not f.file.startswith("Reasoner/"): continue
        st=[]
        for i in f.instrs():
            if i.op=="store" and not(isinstance(i.ops[0],str)):
                a=skey(f,i.ops[1])
                if isinstance(a,tuple) and a[0]=="gep" and a[3]: st.append((i,a))
                elif isinstance(a,tuple) and a[0]=="gep": st.append((i,a))
        for i,a in st:
            # i stores the meta slot, j the atom slot right after it
            for j,b in st:
                if j is i or b[1]!=a[1] or b[3]!=a[3] or b[2]!=a[2]+1 or j.bb!=i.bb: continue
                ms=[k for k in slots(f,i.ops[0])]; as_=slots(f,j.ops[0])
                if not ms or not as_: continue
                # facts have no meta slot: only compare against loads that are literal slots
                m=ms[0]
                okk=any(x[1][1]==m[1][1] and x[1][3]==m[1][3] and x[1][2]==m[1][2]+1 for m in ms for x in as_)
                cand=len(ms)==1 and len(as_)==1 and ms[0][1][1]==as_[0][1][1]
                if okk: R.good("keepmeta","%s (%s)"%(f.name,i.loc()))
                elif cand: R.bad("keepmeta",f.name,i.loc(),"%s() stores a derived literal with the meta of another literal"%f.name)
if __name__=="__main__":
    check.main("C04","Constant propagation over the LLVM IR of every function that reads literal signs, run once per assumption about the signs of the literals involved (negative rule literal, positive rule literal, fact); reachable index uses, inference calls and return values are compared with what the sign combination allows.",run)
