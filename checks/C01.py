#!/usr/bin/env python3
import sys, os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","sa"))
from core import *
import check
from prov import *
from collections import defaultdict
# producers whose result is newly allocated (segment-local or process memory), never an existing record
FRESH={"malloc","calloc","realloc","wr_malloc","wr_calloc","wr_realloc","wr_alloc_from_cvec","wg_create_raw_record","wg_create_record",
 "wr_create_raw_record","wr_create_raw_history_record","wr_copy_raw_history_record","wr_glb_new_simple","wr_glb_new_full","wr_vec_new","wr_vec_new_zero","wr_cvec_new","wr_cvec_new_zero",
 "wr_vec_store","wr_cvec_store","wr_cvec_push","wr_vec_realloc","wr_clterm_alloc_hashnode","wr_add_atomhash_node","wr_str_new","wg_create_mpool",
 "wr_build_calc_term","wr_build_calc_term_replace","wr_build_calc_term_rewrite","wr_build_calc_cl","wr_derived_build_cl_from_initial_cl","wg_decode_uri_occs","wr_process_given_cl",
 "wr_copy_term","wr_copy_cl","wr_cl_create_propinst","wg_alloc_fixlen_object","wg_alloc_gints","wg_alloc_mpool","fopen","yajl_alloc","cJSON_GetErrorPtr",
 "wg_attach_local_database","wg_attach_local_database_with_kb","init_hash_subsystem_area","wg_create_record_plain"}
# run-local vectors whose elements are pointers to clauses that may live in the kb
LOCALDB={"local_db","child_db"}
CLCONT={"clqueue","clactive","clactivesubsume","hyper_queue"}
ENTRIES=["wg_run_reasoner","wg_import_data_file","wg_import_data_string"]
class A:
    def __init__(s,prog):
        s.p=prog; s.pv=Prov(prog); s.mut=defaultdict(dict); s.ext=set()
        s.find_ext()
    # flags that are nonzero exactly when an external kb is attached
    def find_ext(s):
        p=s.p
        cand=set()
        for f in p.fns.values():
            for c in f.calls():
                g=p.fns.get(c.callee)
                if not g: continue
                for k,o in enumerate(c.ops):
                    if k<len(g.args) and s.isext_src(f,o): cand.add((g.name,k))
        # keep those for which every call site passes an ext value; iterate (self recursion passes the param on)
        ch=True
        while ch:
            ch=False
            for (n,k) in list(cand):
                for c in p.callers(n):
                    o=c.ops[k]; f=c.fn
                    so=strip(f,o)
                    if s.isext_src(f,o): continue
                    if isinstance(so,int) and so<len(f.args) and ((f.name,so) in cand): continue
                    cand.discard((n,k)); ch=True; break
            for f in p.fns.values():
                for c in f.calls():
                    g=p.fns.get(c.callee)
                    if not g: continue
                    for k,o in enumerate(c.ops):
                        so=strip(f,o)
                        if isinstance(so,int) and so<len(f.args) and (f.name,so) in cand and (g.name,k) not in cand and k<len(g.args):
                            if all(s.isext_src(x.fn,x.ops[k]) or (isinstance(strip(x.fn,x.ops[k]),int) and strip(x.fn,x.ops[k])<len(x.fn.args) and ((x.fn.name,strip(x.fn,x.ops[k])) in cand or (x.fn.name==g.name and strip(x.fn,x.ops[k])==k))) for x in p.callers(g.name)):
                                cand.add((g.name,k)); ch=True
        s.ext=frozenset(cand)
    def isext_src(s,f,o):
        o=strip(f,o)
        if not isinstance(o,int) or o<len(f.args): return False
        i=f.defs[o]
        def cmpne(c):
            c=strip(f,c); j=f.defs.get(c) if isinstance(c,int) and c>=len(f.args) else None
            if j is None or j.op!="icmp" or j.x[0] not in("ne","eq") or j.x[1]!="ptr": return None
            if all(s.pv.dblike(f,z) for z in j.ops): return j.x[0]
            return None
        if i.op=="icmp": return cmpne(o)=="ne"
        if i.op in("phi","select"):
            vals=i.ops if i.op=="phi" else i.ops[1:]
            if sorted(str(cint(v)) for v in vals)!=["0","1"]: return False
            if i.op=="select":
                k=cmpne(i.ops[0]); return k is not None and (cint(i.ops[1])==1)==(k=="ne")
            for v,pb in zip(i.ops,i.x):
                conds=f.edge_conds(pb)+([] )
                # the branch may be in pb itself (direct edge)
                t=f.blocks[pb].term
                if t.op=="br" and len(t.x)==2 and i.bb in t.x and t.x[0]!=t.x[1]: conds=conds+[(t.ops[0],t.x[0]==i.bb,t)]
                for c,tr,_ in conds:
                    k=cmpne(c)
                    if k is not None: return (cint(v)==1)==((k=="ne")==tr)
        return False
    def objval(s,f,o):
        while isinstance(o,int) and o>=len(f.args):
            i=f.defs[o]
            if i.op=="getelementptr":
                if cint(i.ops[-1]) is None and i.x[0]=="i8" and s.pv.dblike(f,i.ops[0]): return o
                o=i.ops[0]; continue
            if i.op in("bitcast","freeze"): o=i.ops[0]; continue
            break
        if isinstance(o,list) and o[0]=="getelementptr": return s.objval(f,o[1][0])
        return o
    def live(s,f,bb,vals,dbroots=None):
        """can block bb run while a kb is attached and the object is in it?"""
        lv=frozenset()
        for v in vals: lv=lv|s.pv.leaves(f,s.objval(f,v))
        lv=lv-{("ld",)} if len(lv-{("ld",)})>0 else lv
        return bb in s.reach(f,lv,dbroots)
    def reach(s,f,lv=None,dbr=None):
        pv=s.pv
        key=(f.name,lv,dbr)
        if key not in pv.oc:
            pv.oc[key]=pv.reach_blocks(f,s.ext,lv,dbr)
        return pv.oc[key]
    def split(s,f,r):
        """root -> (seg,obj)"""
        if r[0]=="seg":
            seg,obj=r[1],r[2]
            if obj[0]=="const" or obj[:-1]==seg[:-1]: return (seg,None)
            return (seg,obj)
        if r[0]=="db": return (r[:-1]+(0,),None) if r[-1]==0 else (None,r)
        return (None,r)
    def writes(s,f):
        """yield (instr, value written through, segroot, objroot)"""
        pv=s.pv
        for i in f.instrs():
            t=None
            if i.op=="store": t=i.ops[1]
            elif i.op=="call" and i.callee and (i.callee in MEMW or i.callee.startswith("llvm.mem")): t=i.ops[0]
            if t is not None:
                for r in pv.roots(f,t):
                    seg,obj=s.split(f,r)
                    yield i,[t],seg,obj
            if i.op=="call" and i.callee in s.mut:
                for (sg,ob) in list(s.mut[i.callee]):
                    vals=[]; segs=[None]; objs=[None]
                    if sg is not None:
                        if sg[1]>=len(i.ops): continue
                        segs=list(pv.roots(f,i.ops[sg[1]]))
                    if ob is not None:
                        if ob[1]>=len(i.ops): continue
                        a=i.ops[ob[1]]; vals.append(a)
                        objs=[]
                        for r in (set(pv.roots(f,a))|{z for z in pv._off(f,a,set())}):
                            s2,o2=s.split(f,r)
                            if o2 is None and s2 is not None: objs.append(s2)
                            elif o2 is not None: objs.append(Prov.deep(o2) if ob[2] else o2)
                        objs=objs or [None]
                    for z in segs:
                        for w in objs: yield i,vals,z,w
    def judged_live(s,f,i,vals,seg,obj):
        dbr=frozenset(z for z in(seg,obj) if z)
        if not s.live(f,i.bb,vals,dbr): return False
        if i.op=="call" and i.callee in s.mut:      # a range test of the record handed over together with the segment
            for a in i.ops:
                if cint(a) is None and not s.pv.dblike(f,a) and s.pv.leaves(f,s.objval(f,a)) and not s.live(f,i.bb,[a],dbr): return False
        return True
    def solve(s):
        p=s.p; work=set(p.fns); callers=defaultdict(set)
        for f in p.fns.values():
            for c in f.calls():
                if c.callee in p.fns: callers[c.callee].add(f.name)
        while work:
            n=work.pop(); f=p.fns[n]; new={}
            for i,vals,seg,obj in s.writes(f):
                if seg is not None and seg[0]=="db" and seg[1] in LOCALDB: continue
                if seg is not None and seg[0]!="param":
                    if obj is None: continue
                    seg=None
                if obj is not None and (obj[0]!="param" or obj[2] or (seg is not None and obj[1]==seg[1])):
                    obj=None                     # records reached by following pointers are judged where they are written
                if seg is None and obj is None: continue
                k=(seg[:2]+(0,) if seg else None, obj)
                if k in s.mut.get(n,{}): continue
                if not s.judged_live(f,i,vals,seg,obj): continue
                new[k]=i
            if new:
                s.mut[n].update(new); work|=callers[n]
    def chain(s,f,i):
        out=["%s (%s)"%(f.name,i.loc())]; d=0
        while i.op=="call" and i.callee in s.mut and d<6:
            g=s.p.fns[i.callee]; j=next(iter(s.mut[i.callee].values())); out.append("%s (%s)"%(g.name,j.loc())); i=j; d+=1
        return " -> ".join(out)
# ---main---
PARSERS=("Builtparser/","Parser/","json/","cjson/")
def small_int(a,f,o,seen=None,d=0):
    """the value is counted in ordinary machine words (at most 32 bits, a counter, or one that was encoded before)"""
    seen=set() if seen is None else seen
    if cint(o) is not None: return -2**30<cint(o)<2**30
    if not isinstance(o,int): return False
    if (f.name,o) in seen: return True
    seen.add((f.name,o))
    if o<len(f.args):
        cs=a.p.callers(f.name)
        return bool(cs) and all(o<len(c.ops) and small_int(a,c.fn,c.ops[o],seen,d+1) for c in cs)
    i=f.defs[o]
    if i.op in("sext","zext"): return True
    if i.ty in("i32","i16","i8","i1"): return True
    if i.op=="phi": return all(small_int(a,f,z,seen,d) for z in i.ops)
    if i.op=="select": return all(small_int(a,f,z,seen,d) for z in i.ops[1:])
    if i.op=="and": return any(cint(z) is not None and 0<=cint(z)<2**30 for z in i.ops)
    if i.op in("add","sub"): return all(small_int(a,f,z,seen,d) for z in i.ops)
    if i.op=="call":
        if i.callee=="wg_decode_int": return True
        g=a.p.fns.get(i.callee)
        if g is None or d>6: return False
        rets=[b.term for b in g.blocks if b.term.op=="ret" and b.term.ops]
        return bool(rets) and all(small_int(a,g,t.ops[0],seen,d+1) for t in rets)
    if i.op=="load":
        ad=addr(f,i.ops[0])
        if ad[0]=="field" and ad[1]=="glb": return counter(a,ad[2],seen)
    return False
def counter(a,fld,seen):
    k=("counter",fld)
    if k in a.pv.oc: return a.pv.oc[k]
    a.pv.oc[k]=True; ok=True
    for f in a.p.fns.values():
        for i in f.instrs():
            if i.op=="store":
                ad=addr(f,i.ops[1])
                if ad[0]=="field" and ad[1:3]==("glb",fld) and not small_int(a,f,i.ops[0],seen): ok=False
    a.pv.oc[k]=ok
    return ok
def container_roots(a,f,o,seen):
    """where a container argument comes from, following parameters up to the callers"""
    out=set()
    for r in set(a.pv.roots(f,o))|set(a.pv._off(f,o,set())):
        sg,ob=a.split(f,r)
        z=ob or sg
        if z is None: continue
        if z[0]=="param":
            k=(f.name,z[1])
            if k in seen: continue
            seen.add(k)
            for c in a.p.callers(f.name):
                if z[1]<len(c.ops): out|={(x,c) for x,_ in container_roots(a,c.fn,c.ops[z[1]],seen)}
        else: out.add((z,None))
    return out
def compute_fresh(a):
    """functions that return only newly made records, nothing, or one of their arguments"""
    ch=True
    while ch:
        ch=False
        for f in a.p.fns.values():
            if f.name in FRESH or f.ret=="void" or f.file.startswith("Db/"): continue
            rets=[b.term for b in f.blocks if b.term.op=="ret" and b.term.ops]
            if not rets: continue
            rs=set()
            for t in rets: rs|=a.pv._roots(f,t.ops[0],set())
            if all(r[0]=="const" or (r[0]=="call" and r[1] in FRESH and r[-1]==0) or (r[0]=="param" and r[-1]==0) for r in rs):
                FRESH.add(f.name); ch=True
                ps={r[1] for r in rs if r[0]=="param"}
                if ps: a.pv.retsum[f.name]=ps
    a.pv.c.clear(); a.pv.oc.clear(); a.mut.clear(); a.solve()
def const_reach(f,call):
    """blocks of f reachable when the constant arguments of this call are taken into account"""
    cv={k:cint(o) for k,o in enumerate(call.ops) if cint(o) is not None}
    seen=set(); st=[0]
    while st:
        b=st.pop()
        if b in seen: continue
        seen.add(b); t=f.blocks[b].term; succ=f.blocks[b].succs
        if t.op=="br" and len(t.x)==2:
            d=f.defs.get(t.ops[0]) if isinstance(t.ops[0],int) and t.ops[0]>=len(f.args) else None
            if d is not None and d.op=="icmp" and d.x[0] in("eq","ne"):
                x,y=strip(f,d.ops[0]),cint(d.ops[1])
                if isinstance(x,int) and x in cv and y is not None:
                    truth=(cv[x]==y)==(d.x[0]=="eq"); succ=[t.x[0] if truth else t.x[1]]
        st.extend(succ)
    return seen
def run(R):
    P=Prog("gkc"); a=A(P); a.solve(); compute_fresh(a)
    R.note("functions_in_program",len(P.fns)); R.note("functions_with_write_summary",len(a.mut))
    R.rule("attach-ro","an already existing segment is only ever mapped with SHM_RDONLY; only a segment just created is mapped writable")
    R.rule("range-guard","the base of an attached segment is recorded for wg_in_attached_kb and forgotten when it is detached")
    R.rule("mapped-user","a segment obtained by attaching an existing one is never handed to code that writes the segment")
    R.rule("run-writes","no store reachable in a query run goes to the knowledge base segment or to a record that may live in it, unless the attached range was tested first")
    R.rule("alloc-target","no allocation or encoding that may allocate targets the knowledge base segment during a query run")
    R.rule("index-ro","the prebuilt indexes of the knowledge base are never passed to code that writes containers")
    R.rule("error-flag","an error reported against the attached segment does not write its error flag")
    R.rule("local-handle","the handle a run allocates through is the local database, never the attached one")
    R.rule("inkb","a query run never switches its allocations into the knowledge base segment")
    # ---- attach
    creators=0
    for f in P.fns.values():
        for c in f.calls("shmat"):
            fl=cint(c.ops[2])
            made=[g for g in f.calls("shmget") if g.bb==c.bb or f.dominates(g,c)]
            creating=bool(made) and all((cint(g.ops[2]) is not None and cint(g.ops[2])&0o1000) or (cint(g.ops[2]) is None and or_has(f,g.ops[2],0o1000)) for g in made)
            if fl is not None and fl&0o10000: R.good("attach-ro",c.loc())
            elif creating: creators+=1; R.good("attach-ro",c.loc())
            else: R.bad("attach-ro","%s shmat"%f.name,c.loc(),"existing shared memory is mapped writable in %s"%f.name)
            if not creating:
                # every successful return of this function has passed a store of the mapping to the guard variable
                st=[i for i in f.instrs() if i.op=="store" and addr(f,i.ops[1])==("global",GLOBSEG)]
                okst=[i for i in st if strip(f,i.ops[0])==c.id or any(z==("call","shmat",0) for z in a.pv.roots(f,i.ops[0]))]
                rets=ret_sites(f)
                good=bool(okst)
                for bb,v in rets:
                    if cint(v) is not None: continue
                    if not any(s.bb==bb or s.bb in f.dom.get(bb,()) for s in okst): good=False
                if good: R.good("range-guard",c.loc())
                else: R.bad("range-guard","%s attach"%f.name,c.loc(),"%s returns an attached segment without recording it in wg_attached_kb_segment"%f.name)
        for c in f.calls("shmdt"):
            st=[i for i in f.instrs() if i.op=="store" and addr(f,i.ops[1])==("global",GLOBSEG) and cint(i.ops[0])==0]
            if st: R.good("range-guard",c.loc())
            else: R.bad("range-guard","%s detach"%f.name,c.loc(),"%s unmaps a segment but wg_attached_kb_segment keeps its address"%f.name)
    if not creators: raise AnalysisBroken("no creating shmat found")
    # ---- users of an attached segment
    for f in P.fns.values():
        if not f.file.startswith("Main/"): continue
        for c in f.calls():
            g=P.fns.get(c.callee)
            if g is None: continue
            for k,o in enumerate(c.ops):
                if k>=len(g.args): continue
                rs=a.pv.roots(f,o)
                if not any(r[0]=="call" and r[1]=="wg_attach_existing_database" and r[-1]==0 for r in rs): continue
                cr=const_reach(g,c)
                ks=[kk for kk in a.mut.get(g.name,{}) if any(z and z[1]==k for z in kk)]
                bad=[i for i,vals,sg,ob in a.writes(g) if ks and i.bb in cr and any(z and z[:1]==("param",) and z[1]==k for z in(sg,ob)) and a.judged_live(g,i,vals,sg,ob)]
                if not bad or g.name.startswith("wg_attach_local"): R.good("mapped-user","%s %s"%(c.loc(),g.name))
                else: R.bad("mapped-user","%s %s"%(f.name,g.name),c.loc(),"%s passes a segment attached from shared memory to %s, which writes it: %s"%(f.name,g.name,a.chain(g,bad[0])))
    # ---- query run
    seen=set(); w=["wg_run_reasoner"]; uncond=0
    while w:
        n=w.pop()
        if n in seen or n not in P.fns: continue
        seen.add(n); f=P.fns[n]; rb=a.reach(f)
        for c in f.calls():
            if c.bb in rb:
                if c.callee: w.append(c.callee)
    R.note("functions_reachable_in_query_run",len(seen))
    nw=0
    for n in sorted(seen):
        f=P.fns[n]
        if f.file.startswith(PARSERS): continue
        for i,vals,sg,ob in a.writes(f):
            nw+=1
            if ob is not None and ob[0] in("alloca","glob","const"): continue
            if ob is not None and ob[0]=="call" and ob[1] in FRESH: continue
            if sg is not None and sg[0]=="db" and sg[1] in LOCALDB: continue
            if ob is not None and ob[0]=="db" and ob[1] in LOCALDB: continue
            if ob is None and sg[0]=="call" and sg[1] in FRESH: continue
            if ob is not None and ob[0]=="glb" and (ob[2]==0 or ob[1] not in CLCONT): continue
            if sg is None and ob is not None and ob[0]=="param":
                if ob[2]==0 or not recordlike(f,i): continue
            if sg is not None and sg[0]=="param": continue      # judged at the callers, through the summary
            if ob is None and sg[0]=="const": continue
            if i.callee=="wg_encode_int" and sg in((None),("db","db",0)) and len(i.ops)>1 and small_int(a,f,i.ops[1]): R.good("alloc-target",i.loc()); continue
            if not a.judged_live(f,i,vals,sg,ob): R.good("run-writes",i.loc()); continue
            if i.op=="store" and sg==("db","db",0) and ob is not None and ob[0]=="param":
                rr=set()
                for c in P.callers(f.name):
                    if c.fn.name in seen and ob[1]<len(c.ops): rr|=container_roots(a,c.fn,c.ops[ob[1]],{(f.name,ob[1])})
                kb=[z for z,_ in rr if z[0]=="kbfld"]
                if kb: R.bad("index-ro","%s %s"%(f.name,kb[0][1]),i.loc(),"%s writes a container that may be the knowledge base's %s"%(f.name,kb[0][1]))
                elif rr and all(z[0] in("glb","const","alloca") or (z[0]=="call" and z[1] in FRESH) for z,_ in rr): R.good("index-ro",i.loc())
                else: R.bad("run-writes","%s container"%f.name,i.loc(),"%s writes a container of unknown origin %s in the knowledge base segment"%(f.name,sorted(str(z) for z,_ in rr)[:3]))
                continue
            if i.op=="call" and tmp_container_guarded(a,P,f,i): R.good("run-writes",i.loc()); continue
            kbw=ob is not None and ob[0]=="kbfld"
            if kbw:
                R.bad("index-ro","%s %s %s"%(f.name,i.callee,ob[1]),i.loc(),"%s writes the knowledge base's %s: %s"%(f.name,ob[1],a.chain(f,i))); continue
            rule="alloc-target" if ob is None or ob[0]=="db" else "run-writes"
            what="the knowledge base segment (%s)"%(".".join(map(str,(ob or sg)[:2]))) if rule=="alloc-target" else "a record that may lie in the knowledge base (%s)"%(" ".join(map(str,ob[:2])))
            R.bad(rule,"%s %s"%(f.name,i.callee or "store"),i.loc(),"%s may write %s while a knowledge base is attached: %s"%(f.name,what,a.chain(f,i)))
        # kb index arguments
        for c in f.calls():
            for k,o in enumerate(c.ops):
                rs=a.pv.roots(f,o)
                kb=[r for r in rs if r[0]=="kbfld" or (r[0]=="seg" and r[2][0]=="kbfld")]
                if kb:
                    bad=[i for kk,i in a.mut.get(c.callee,{}).items() if kk[1] is not None and kk[1][1]==k]
                    if not bad: R.good("index-ro","%s %s"%(c.loc(),c.callee))
                    elif a.judged_live(f,c,[o],None,None): R.bad("index-ro","%s %s arg"%(f.name,c.callee),c.loc(),"%s passes an index of the knowledge base to %s, which writes it"%(f.name,c.callee))
        rb=a.reach(f)
        for i in f.instrs():
            if i.op!="store": continue
            ad=addr(f,i.ops[1])
            if ad[0]=="field" and ad[2]=="errflag" and "memsegment" in ad[1] and cint(i.ops[0])!=0:
                dbr=frozenset(a.pv.roots(f,ad[3]))
                if all(r[0]=="db" and r[1] in LOCALDB for r in dbr) or i.bb not in a.reach(f,frozenset(),dbr): R.good("error-flag",i.loc())
                else: R.bad("error-flag","%s errflag"%f.name,i.loc(),"%s sets the error flag of the segment it was given, which may be the attached knowledge base"%f.name)
            if ad[0]=="field" and ad[1]=="glb" and ad[2] in LOCALDB:
                rs=a.pv.roots(f,i.ops[0])
                if any(r[0]=="db" and r[1]=="kb_db" or (r[0]=="call" and r[1] in("db_get_kb_db","wg_attach_existing_database")) for r in rs) and not handle_ok(a,f,i): R.bad("local-handle","%s %s"%(f.name,ad[2]),i.loc(),"%s makes the attached knowledge base the database a run allocates in"%f.name)
                else: R.good("local-handle",i.loc())
            if ad[0]=="field" and ad[1]=="glb" and ad[2]=="inkb":
                v=i.ops[0]
                if cint(v)==0 or is_saved_inkb(f,v): R.good("inkb",i.loc())
                elif i.bb not in rb or dead_by_saved(a,f,i): R.good("inkb",i.loc())
                else: R.bad("inkb","%s inkb"%f.name,i.loc(),"%s makes a query run allocate inside the knowledge base segment"%f.name)
    R.note("writes_examined",nw)
    R.assume+=["a query run is everything reachable from wg_run_reasoner while a knowledge base is attached (indirect calls over-approximated by address-taken functions)",
      "vectors and buffers hanging off the per-run glb are process memory (the inkb rule decides that); containers of clause pointers are %s"%", ".join(sorted(CLCONT)),
      "a value of at most 32 bits is encoded without allocating",
      "parsing writes through the database handle it was given; the callers' handles are decided by mapped-user"]
def handle_ok(a,f,i):
    """the value can only be the attached handle along edges where no kb is attached"""
    rb=a.reach(f); seen=set()
    def g(o):
        if not isinstance(o,int) or o in seen: return True
        seen.add(o)
        d=f.defs.get(o) if o>=len(f.args) else None
        if d is not None and d.op=="phi": return all(g(v) for v,pb in zip(d.ops,d.x) if pb in rb and live_edge(a,f,pb,d.bb))
        if d is not None and d.op=="select": return all(g(v) for v in d.ops[1:])
        return not any(r[0]=="db" and r[1]=="kb_db" or (r[0]=="call" and r[1]=="db_get_kb_db") for r in a.pv.roots(f,o))
    return g(i.ops[0])
def live_edge(a,f,pb,tb):
    t=f.blocks[pb].term
    if t.op=="br" and len(t.x)==2 and t.x[0]!=t.x[1]:
        g=a.pv.guard(f,t.ops[0],a.ext)
        if g and g[0]=="all": return (t.x[0] if g[2] else t.x[1])!=tb
    return True
def or_has(f,o,bit):
    o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) and o>=len(f.args) else None
    if i is None: return False
    if i.op=="or": return any((cint(z) is not None and cint(z)&bit) or or_has(f,z,bit) for z in i.ops)
    if i.op=="phi": return all((cint(z) is not None and cint(z)&bit) or or_has(f,z,bit) for z in i.ops)
    if i.op=="select": return all((cint(z) is not None and cint(z)&bit) or or_has(f,z,bit) for z in i.ops[1:])
    return False
def ret_sites(f):
    out=[]
    for b in f.blocks:
        t=b.term
        if t.op!="ret" or not t.ops: continue
        v=t.ops[0]; d=f.defs.get(v) if isinstance(v,int) and v>=len(f.args) else None
        if d is not None and d.op=="phi" and d.bb==b.n:
            for z,pb in zip(d.ops,d.x): out.append((pb,z))
        else: out.append((b.n,v))
    return out
def recordlike(f,i):
    """a direct store through a pointer field of a structure parameter: only gint records count"""
    return False
def is_saved_inkb(f,v):
    l=load_of_field(f,v); return bool(l and l[1]=="inkb")
def dead_by_saved(a,f,i):
    """store of 1 in a branch taken only when the saved flag was set or no kb is attached"""
    for c,tr,_ in f.edge_conds(i.bb):
        if isinstance(c,tuple): continue
        d=f.defs.get(c) if isinstance(c,int) else None
        if d is not None and d.op=="icmp" and d.x[0] in("eq","ne"):
            for z,y in((d.ops[0],d.ops[1]),(d.ops[1],d.ops[0])):
                if is_saved_inkb(f,z) and cint(y) is not None:
                    if cint(y)==0 and tr==(d.x[0]=="ne"): return True
                    if cint(y)==1 and tr==(d.x[0]=="eq"): return True
    return inloop_tmp(a,f,i)
def inloop_tmp(a,f,i):
    # executed only while iterating a per-run container that stays empty when a kb is attached
    for c,tr,t in f.edge_conds(i.bb):
        if isinstance(c,tuple): continue
        d=f.defs.get(c) if isinstance(c,int) else None
        if d is None or d.op!="icmp": continue
        for z in d.ops:
            for r in a.pv.roots(f,z) if isinstance(z,int) else ():
                if r[0]=="glb" and empty_with_kb(a,r[1]): return True
    return False
def empty_with_kb(a,field):
    k=("empty",field)
    if k in a.pv.oc: return a.pv.oc[k]
    a.pv.oc[k]=False
    ok=True; n=0
    for f in a.p.fns.values():
        for c in f.calls(("wr_cvec_push","wr_vec_store","wr_cvec_store","wr_cvec_push_intern")):
            if len(c.ops)<3: continue
            if any(r[0]=="glb" and r[1]==field for r in a.pv.roots(f,c.ops[1])):
                n+=1
                if a.live(f,c.bb,[],None): ok=False
    a.pv.oc[k]=ok and n>0
    return a.pv.oc[k]
def tmp_container_guarded(a,P,f,i):
    """the record comes out of a per-run container into which nothing is pushed while a kb is attached"""
    for o in i.ops[1:]:
        if not isinstance(o,int): continue
        for r in a.pv.roots(f,o):
            if r[0]=="glb" and r[-1]==1 and empty_with_kb(a,r[1]): return True
    return False
if __name__=="__main__":
    check.main("C01","whole-program pointer provenance and write-effect summaries over LLVM IR, with regions dead while a knowledge base is attached pruned by the range, handle and flag tests",run)
