#!/usr/bin/env python3
"""C20: each documented setting, strategy name and command line option sets what it is documented to set, and nothing else."""
import os,sys
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","sa"))
import check,sccp
from core import *
def calls(f,*names): return [c for c in f.instrs() if c.op=="call" and c.callee in names]
def fld(i,op,st):
    """field of struct st an instruction loads from / stores to"""
    if i.op!=op: return None
    a=addr(i.fn,i.ops[0 if op=="load" else 1])
    return a[2] if a[0]=="field" and a[1].endswith(st) else None
CMP=("strcmp","strncmp","strcasecmp","strncasecmp","memcmp")
def cmpval(callee,a,b,n):
    if callee in("strcasecmp","strncasecmp"): a=a.lower(); b=b.lower()
    a=a.encode()+b"\0"; b=b.encode()+b"\0"
    if n is not None: a=a[:n]; b=b[:n]
    for x,y in zip(a,b):
        if x!=y: return -1 if x<y else 1
        if x==0: return 0
    return 0 if len(a)==len(b) or n is not None else (-1 if len(a)<len(b) else 1)
def compare(P,i,text):
    """the value of a comparison call of the text with a constant; (const,value) or None"""
    if i.op!="call" or i.callee not in CMP: return None
    for k in (0,1):
        s=gstring(P,i.ops[k])
        if s is None: continue
        if not text(i.ops[1-k]): continue
        t=text(i.ops[1-k]); n=None
        if len(i.ops)>2:
            n=cint(i.ops[2])
            if n is None: return None
        v=cmpval(i.callee,t,s,n)
        return s,(v if k==1 else -v)
    return None
def table(P,R,f,text,rule,n):
    """are the names compared taken from a table? Then which of them is meant depends on data the propagation does not follow: nothing is claimed"""
    for i in f.instrs():
        if i.op=="call" and i.callee in CMP and any(text(i.ops[k]) and gstring(P,i.ops[1-k]) is None for k in (0,1)):
            R.note("not_decided_"+rule,"%s compares with names of a table at %s"%(f.name,i.loc()))
            for k in range(n): R.good(rule,"not decided, names in a table %d"%k)
            return True
    return False
class Reach:
    """what runs after instruction `i` in a solution, without passing an instruction for which stop() holds"""
    def __init__(s,r,i,stop=lambda x:False,barrier=lambda x:False):
        f=i.fn; s.hit=None; seen=set(); w=[]
        def walk(ins):
            for x in ins:
                if stop(x): return False
                if barrier(x): s.hit=x; return False
            return True
        b=f.blocks[i.bb]; k=b.instrs.index(i)
        if walk(b.instrs[k+1:]): w=[x for x in b.succs if (i.bb,x) in r.edges]
        while w and s.hit is None:
            x=w.pop()
            if x in seen: continue
            seen.add(x)
            if walk(f.blocks[x].instrs): w+=[y for y in f.blocks[x].succs if (x,y) in r.edges]
# ------------------------------------------------------------ strategy settings (Doc/strategy_reference.md)
def plain(n): return lambda v:({n:v},{})
def tptp(v):
    on=int(v!=0)
    return ({"print_tptp":v},{"print_fof_conversion_proof":on,"store_fof_source":on,"store_fof_skolem_steps":on,"print_clauses_tptp":on,"print_proof_tptp":on,"use_comp_arithmetic":1-on})
def seconds(n,short): return lambda v:({n:v},{"use_strong_unit_cutoff":int(0<v<short)})
def bit(n): return lambda v:({n:v},{"arith_inst_explicit_mask":None})
KEYS={
 "print":plain("print_flag"),"print_level":plain("print_level_flag"),
 "print_json":lambda v:({"print_json":v},{"print_clauses_json":1} if v else {}),
 "print_tptp":tptp,"max_answers":plain("required_answer_nr"),
 "max_seconds":seconds("max_run_seconds",2),"max_dseconds":seconds("max_run_dseconds",20),
 "total_seconds":plain("max_seconds"),
 "total_dseconds":lambda v:({"max_seconds":(v+9)//10 if v>0 else v},{"max_dseconds":v}),
 "given_queue_ratio":plain("pick_given_queue_ratio"),"weight_select_ratio":plain("pick_given_queue_ratio"),
 "sine":plain("sine_strat"),
 "max_weight":plain("cl_maxkeep_weightlimit"),"max_size":plain("cl_maxkeep_sizelimit"),
 "max_depth":plain("cl_maxkeep_depthlimit"),"max_length":plain("cl_maxkeep_lengthlimit"),
 "depth_penalty":plain("cl_depth_penalty"),"length_penalty":plain("cl_length_penalty"),
 "var_weight":plain("var_weight"),"repeat_var_weight":plain("repeat_var_weight"),
 "equality":plain("use_equality_strat"),"rewrite":plain("use_rewrite_terms_strat"),
 "reverse_clauselist":plain("reverse_clauselist_strat"),"query_preference":plain("cl_pick_queue_strategy"),
 "instgen":plain("instgen_strat"),"propgen":plain("propgen_strat"),
 "arith_instantiation":plain("arith_instantiation"),
 "arith_inst_max_vars":bit("arith_inst_max_vars"),"arith_inst_candidate_limit":bit("arith_inst_candidate_limit"),
 "arith_inst_probe_limit":bit("arith_inst_probe_limit"),"arith_inst_keep_limit":bit("arith_inst_keep_limit"),
 "arith_inst_depth_limit":bit("arith_inst_depth_limit"),"arith_inst_global_limit":bit("arith_inst_global_limit")}
STRATS={"negative_pref":{"negpref_strat":1},"positive_pref":{"pospref_strat":1},"hyper":{"hyperres_strat":1},
 "unit":{"res_shortarglen_limit":1},"double":{"res_shortarglen_limit":2},"triple":{"res_shortarglen_limit":3},
 "pure_unit":{"res_arglen_limit":1,"res_strict_arglen_limit":1},"hardness_pref":{"hardnesspref_strat":1},
 "query_focus":{"queryfocus_strat":1},"knuthbendix_pref":{"knuthbendixpref_strat":1},
 "prohibit_nested_para":{"prohibit_nested_para":1},"prohibit_unordered_para":{"prohibit_unordered_para":1},
 "prohibit_deep_para":{"prohibit_deep_para":1},"posunitpara":{"posunitpara_strat":1},
 "max_ground_weight":{"use_max_ground_weight":1},"max_weight":{"use_max_weight":1},"hornpref":{"use_hornpref":1},
 "posweightdoublepref":{"use_posweightdoublepref":1},"negweightdoublepref":{"use_negweightdoublepref":1}}
VALUES=(0,1,2,19,20,57)
def json_world(P,f,key,val,more=None):
    """an object with one member: its key, its number"""
    def text(o):
        i=f.defs.get(strip(f,o)) if isinstance(strip(f,o),int) else None
        return key if i is not None and fld(i,"load","cJSON") in("string","valuestring") else None
    def o(i):
        if more:
            v=more(i)
            if v is not None: return v
        n=fld(i,"load","cJSON")
        if n=="string": return 0x1000
        if n=="valueint": return val
        if n=="next": return 0
        if n=="child": return 0x2000
        if i.op=="call":
            if i.callee=="cJSON_IsArray": return int(strip(f,i.ops[0])!=1 and not isparam(f,i.ops[0]))
            if i.callee=="cJSON_IsObject": return 1
            if i.callee=="strlen" and text(i.ops[0]): return len(key)
            c=compare(P,i,text)
            if c: return c[1]
        return None
    return o,text
def isparam(f,o): return isinstance(strip(f,o),int) and strip(f,o)<len(f.args)
def stores(r,f):
    """fields of the run record set in a solution, with values"""
    out={}
    for i in f.instrs():
        n=fld(i,"store","glb")
        if n and r.reaches(i): out.setdefault(n,[]).append((r.val(i.ops[0]),i))
    return out
def warns(r,f): return [c for c in f.instrs() if c.op=="call" and c.callee and c.callee.startswith("wr_warn") and r.reaches(c)]
def matched(P,r,f,key,text):
    out=[]
    for i in f.instrs():
        if i.op=="call" and r.reaches(i):
            c=compare(P,i,text)
            if c and c[1]==0 and c[0]==key: out.append(i)
    return out
def settings(P,R):
    f=P.fn("wr_parse_guide_section")
    seen={c[0] for i in f.instrs() if i.op=="call" for c in [compare(P,i,json_world(P,f,"x",0)[1])] if c}
    if table(P,R,f,json_world(P,f,"x",0)[1],"settings",20): table(P,R,f,json_world(P,f,"x",0)[1],"unknown",6); return
    for key,spec in sorted(KEYS.items()):
        ok=True
        for v in VALUES:
            must,may=spec(v); both=dict(may,**must)
            o,text=json_world(P,f,key,v,lambda i:both.get(fld(i,"load","glb")))      # read again after it was set
            r=sccp.solve(f,o,args={0:0x3000,1:0x4000,2:0})
            st=stores(r,f)
            m=[i for i in matched(P,r,f,key,text) if Reach(r,i,barrier=lambda x:bool(fld(x,"store","glb"))).hit is not None]
            if not m:
                R.bad("settings",key,f.blocks[0].instrs[0],"the setting %s is not recognized"%key); ok=False; break
            for n,x in st.items():
                for val,i in x:
                    if n in must and val==must[n]: continue
                    if n in may and (may[n] is None or val==may[n]): continue
                    R.bad("settings","%s:%s"%(key,n),i,"the setting \"%s\":%d sets %s to %s%s"%(key,v,n,val if val is not None else "another value",(", not %d"%must[n]) if n in must else "")); ok=False
            for n in must:
                h=Reach(r,m[-1],stop=lambda x:fld(x,"store","glb")==n,barrier=lambda x:x.op=="ret" or fld(x,"load","cJSON")=="next").hit
                if h is not None: R.bad("settings","%s:%s:lost"%(key,n),m[-1],"the setting \"%s\":%d does not always set %s"%(key,v,n)); ok=False
            for n in may:
                if may[n]==1 and n not in st: R.bad("settings","%s:%s:lost"%(key,n),m[-1],"the setting \"%s\":%d does not set %s"%(key,v,n)); ok=False
            w=warns(r,f)
            if w: R.bad("settings",key+":warn",w[0],"the setting %s gives a warning"%key); ok=False
            if not ok: break
        if ok: R.good("settings",key)
    # the alias gives way to the key
    o,text=json_world(P,f,"total_dseconds",57)
    body={i.bb for i in f.instrs() if fld(i,"store","glb")}
    pre=[i for i in f.instrs() if i.op=="call" and compare(P,i,text) and not (loopof(f,i.bb)&body)]      # a look ahead, in a loop without settings
    def first(i):
        if i in pre: return 0 if compare(P,i,text)[0]=="total_seconds" else 1
        return 57 if fld(i,"load","glb")=="max_dseconds" else o(i)
    r=sccp.solve(f,first,args={0:0x3000,1:0x4000,2:0}); st=stores(r,f)
    s=[i for v,i in st.get("max_seconds",[])]
    named=[i for i in f.instrs() if i.op=="call" and i not in pre and any(gstring(P,z)=="total_seconds" for z in i.ops)]
    if not pre and any(compare(P,i,text) is None for i in named): R.good("settings","total_seconds is looked up")
    elif pre and s: R.bad("settings","total_dseconds:total_seconds",s[0],"total_dseconds changes the limit given by total_seconds")
    elif pre: R.good("settings","total_seconds before total_dseconds")
    else: R.bad("settings","total_dseconds:order",f.blocks[0].instrs[0],"total_seconds has no precedence over total_dseconds")
    # anything else
    for key in ("no_such_setting","max_secondss","maxseconds","prin","printx","arith","runs_"):
        o,text=json_world(P,f,key,5)
        r=sccp.solve(f,o,args={0:0x3000,1:0x4000,2:0}); st=stores(r,f); w=warns(r,f)
        if st: R.bad("unknown",key,list(st.values())[0][0][1],"the unknown setting %s sets %s"%(key,", ".join(sorted(st))))
        elif not w: R.bad("unknown",key+":silent",f.blocks[0].instrs[0],"the unknown setting %s gives no warning"%key)
        else: R.good("unknown",key)
def loopof(f,b):
    """blocks of loops through b"""
    fw=set(); w=list(f.blocks[b].succs)
    while w:
        x=w.pop()
        if x in fw: continue
        fw.add(x); w+=f.blocks[x].succs
    if b not in fw: return set()
    preds={}
    for i,x in enumerate(f.blocks):
        for s in x.succs: preds.setdefault(s,[]).append(i)
    bw=set(); w=[b]
    while w:
        x=w.pop()
        if x in bw: continue
        bw.add(x); w+=preds.get(x,[])
    return fw&bw
def strategies(P,R):
    f=P.fn("wr_parse_guide_strategy_set")
    ns=[k for k,a in enumerate(f.args) if a[0]=="ptr"]
    def world(name):
        text=lambda o:name if isparam(f,o) else None
        def o(i):
            if i.op!="call": return None
            if i.callee=="strlen" and isparam(f,i.ops[0]): return len(name)
            c=compare(P,i,text)
            return c[1] if c else None
        return o
    if table(P,R,f,lambda o:isparam(f,o),"names",10): return
    for name,spec in sorted(STRATS.items()):
        r=sccp.solve(f,world(name)); st=stores(r,f); ok=True
        for n,x in st.items():
            for v,i in x:
                if n not in spec or v!=spec[n]: R.bad("names","%s:%s"%(name,n),i,"the strategy name %s sets %s to %s"%(name,n,v)); ok=False
        for n in spec:
            h=Reach(r,f.blocks[0].instrs[0],stop=lambda x:fld(x,"store","glb")==n,barrier=lambda x:x.op=="ret").hit
            if h is not None: R.bad("names","%s:%s:lost"%(name,n),f.blocks[0].instrs[0],"the strategy name %s does not set %s"%(name,n)); ok=False
        if warns(r,f): R.bad("names",name+":warn",warns(r,f)[0],"the strategy name %s gives a warning"%name); ok=False
        if ok: R.good("names",name)
    for name in ("no_such","units","negative","hyper2"):
        r=sccp.solve(f,world(name)); st=stores(r,f)
        if st: R.bad("unknown","strategy:"+name,list(st.values())[0][0][1],"the unknown strategy name %s sets %s"%(name,", ".join(st)))
        elif not warns(r,f): R.bad("unknown","strategy:%s:silent"%name,f.blocks[0].instrs[0],"the unknown strategy name %s gives no warning"%name)
        else: R.good("unknown","strategy "+name)
    # every name of a list of names is looked at
    g=P.fn("wr_parse_guide_strategy")
    cs=calls(g,f.name)
    for what,arr in (("a string",0),("a list",1)):
        def o(i):
            if i.op=="call" and i.callee=="cJSON_IsString": return 1 if not arr else int(not isparam(g,i.ops[0]))
            if i.op=="call" and i.callee=="cJSON_IsArray": return arr
            n=fld(i,"load","cJSON")
            if n=="valuestring": return 0x1000
            if n=="child": return 0x2000
            return None
        r=sccp.solve(g,o,args={1:0x4000})
        if not any(r.reaches(c) for c in cs): R.bad("names","list:%d"%arr,g.blocks[0].instrs[0],"names given as %s are not used"%what)
        else: R.good("names","given as %s"%what)
# ------------------------------------------------------------ numeric instantiation
MODE={"arith_inst_max_vars":(1,2),"arith_inst_candidate_limit":(4,6),"arith_inst_probe_limit":(16,32),"arith_inst_keep_limit":(2,4),"arith_inst_depth_limit":(1,2)}
def arith(P,R):
    f=P.fn("wr_arithinst_configure")
    setbits={}
    g=P.fn("wr_parse_guide_section")
    for i in g.instrs():
        if fld(i,"store","glb")=="arith_inst_explicit_mask":
            d=g.defs.get(i.ops[0]) if isinstance(i.ops[0],int) else None
            if d is None or d.op!="or" or cint(d.ops[1]) is None: continue
            o=[x for x in g.blocks[i.bb].instrs if (fld(x,"store","glb") or "").startswith("arith_inst_") and x is not i]
            for x in o: setbits[fld(x,"store","glb")]=cint(d.ops[1])
    for n,(a,b) in MODE.items():
        for mode,want in ((1,a),(2,b)):
            def o(i,mask=0):
                k=fld(i,"load","glb")
                if k=="arith_inst_explicit_mask": return mask
                if k=="arith_instantiation": return mode
                if k=="arith_inst_global_limit": return 1000
                if k in MODE: return MODE[k][mode-1]
                return None
            r=sccp.solve(f,o); st=stores(r,f)
            v={x for x,i in st.get(n,[])}
            if v!={want}: R.bad("arith","%s:%d"%(n,mode),f.blocks[0].instrs[0],"without an own value %s becomes %s in mode %d, not %d"%(n,sorted(map(str,v)),mode,want))
            else: R.good("arith","%s mode %d"%(n,mode))
            # an own value in range stays
            if n not in setbits: R.bad("arith","%s:mark"%n,f.blocks[0].instrs[0],"a value given for %s is not marked as given"%n); continue
            own=2 if n=="arith_inst_max_vars" else 3
            def o2(i):
                k=fld(i,"load","glb")
                if k==n: return own
                return o(i,setbits[n])
            r=sccp.solve(f,o2); st=stores(r,f)
            if n in st: R.bad("arith","%s:own:%d"%(n,mode),st[n][0][1],"a value given for %s is replaced by %s in mode %d"%(n,st[n][0][0],mode))
            else: R.good("arith","%s own value, mode %d"%(n,mode))
# ------------------------------------------------------------ limits take effect
LIMITS={"weight":2,"size":3,"depth":4,"length":5}
SEARCH="wr_genloop"
MEASURE="wr_calc_clause_weight"
KEEP=("wr_add_cl_to_unithash","wr_add_cl_to_doublehash","wr_push_cl_clpick_queues","wr_push_prop_clausehash","wr_push_clausemeta_clpick_queue","wr_propagate_unit")
def limits(P,R):
    f=P.fn("wr_derived_weight_check")
    an={a[1]:k for k,a in enumerate(f.args)}
    for n in LIMITS:
        k=an.get(n,LIMITS[n])
        for lim,val,over in ((10,11,1),(10,10,0),(10,9,0),(1,2,1),(0,50,0)):
            def o(i):
                x=fld(i,"load","glb")
                if x and x.startswith("cl_keep_"): return lim if x=="cl_keep_%slimit"%n else 0
                return None
            r=sccp.solve(f,o,args={an.get(m,LIMITS[m]):(val if m==n else 1) for m in LIMITS})
            v={x for x,t,b in r.returns()}
            if over and v!={0}: R.bad("limits","%s:over"%n,f.blocks[0].instrs[0],"a clause of %s %d is kept although the limit is %d"%(n,val,lim))
            elif not over and v=={0}: R.bad("limits","%s:under"%n,f.blocks[0].instrs[0],"a clause of %s %d is dropped although the limit is %s"%(n,val,lim or "not given"))
            else: R.good("limits","%s %d, limit %d"%(n,val,lim))
    # what is measured is the clause derived, and one refused is not kept
    for c in P.callers(f.name):
        g=c.fn; ok=True
        r=sccp.solve(g,lambda i:0 if i is c else None)
        if r.reaches(c):
            h=Reach(r,c,stop=lambda x:x is c or x.op=="call" and x.callee==MEASURE,barrier=lambda x:x.op=="call" and x.callee in KEEP).hit
            if h is not None: R.bad("limits","kept:%s:%d"%(g.name,site(c)),h,"a clause over a limit can still be kept"); ok=False
        for n,k in sorted((m,an.get(m,LIMITS[m])) for m in LIMITS):
            o=strip(g,c.ops[k]); d=g.defs.get(o) if isinstance(o,int) else None
            src=None
            if d is not None and d.op=="call" and d.callee==MEASURE: src="weight"
            elif d is not None and d.op=="load":
                for m in calls(g,MEASURE):
                    for j,z in enumerate(m.ops):
                        if strip(g,z)==strip(g,d.ops[0]): src=P.fn(MEASURE).args[j][1]
            if src in LIMITS and src!=n: R.bad("limits","measure:%s:%s:%d"%(g.name,n,site(c)),c,"the %s of the clause is held against the %s limit"%(src,n)); ok=False
        if ok: R.good("limits","clause measured and dropped at %s"%c.loc())
    # the settings are those the search uses
    for c in P.callers(SEARCH):
        g=c.fn
        ps=[p for p in calls(g,"wr_parse_guide_section") if reach(g,p,c)]
        for p in ps:
            for n in LIMITS:
                st=lambda x:fld(x,"store","glb")=="cl_keep_%slimit"%n and fld(g.defs.get(strip(g,x.ops[0])),"load","glb")=="cl_maxkeep_%slimit"%n if isinstance(strip(g,x.ops[0]) if x.op=="store" else None,int) else False
                other=set(x.id for x in ps if x is not p)
                if path(g,p,c,lambda x:st(x) or (x.op=="call" and x in ps and x is not p)): R.bad("limits","%s:%s@%d:%d"%(g.name,n,site(p),site(c)),c,"a search can start without the %s limit of its strategy having been taken over"%n)
                else: R.good("limits","%s taken over before %s"%(n,c.loc()))
def site(c): return calls(c.fn,c.callee).index(c)
def reach(f,a,b): return path(f,a,b,lambda x:False)
def path(f,a,b,stop):
    """can b run after a without an instruction for which stop holds"""
    blk=f.blocks[a.bb].instrs; k=blk.index(a)
    def walk(ins):
        for x in ins:
            if x is b: return 1
            if stop(x): return 0
        return None
    v=walk(blk[k+1:])
    if v is not None: return bool(v)
    seen=set(); w=list(f.blocks[a.bb].succs)
    while w:
        x=w.pop()
        if x in seen: continue
        seen.add(x); v=walk(f.blocks[x].instrs)
        if v: return True
        if v is None: w+=f.blocks[x].succs
    return False
# ------------------------------------------------------------ print levels
LEVELS=[(0,"wr_set_no_printout"),(1,"wr_set_tiny_printout"),(10,"wr_set_tiny_printout"),(11,"wr_set_tiny_extra_printout"),(12,"wr_set_tiny_runs_printout"),(13,"wr_set_low_printout"),(15,"wr_set_low_printout"),(16,"wr_set_normal_printout"),(20,"wr_set_normal_printout"),(21,"wr_set_medium_printout"),(30,"wr_set_medium_printout"),(31,"wr_set_detailed_printout"),(50,"wr_set_detailed_printout"),(51,"wr_set_detailed_plus_printout"),(100,"wr_set_detailed_plus_printout")]
def levels(P,R):
    allf=tuple({n for _,n in LEVELS})
    for f in P.fns.values():
        cs=calls(f,*allf)
        if len({c.callee for c in cs})<2: continue
        r=sccp.solve(f,lambda i:0 if fld(i,"load","glb")=="print_flag" else None)
        z=[i for i in f.instrs() if fld(i,"store","glb")=="print_level_flag" and r.reaches(i) and r.val(i.ops[0])==0]
        r1=sccp.solve(f,lambda i:1 if fld(i,"load","glb")=="print_flag" else None)
        if not z: R.bad("levels",f.name+":print",cs[0],"the setting \"print\":0 does not switch off the output")
        elif any(r1.reaches(i) for i in z): R.bad("levels",f.name+":print1",z[0],"the output is switched off without \"print\":0")
        else: R.good("levels","print 0")
        for lv,want in LEVELS:
            def o(i):
                n=fld(i,"load","glb")
                if n=="print_level_flag": return lv
                if n=="print_flag": return 1
                return None
            r=sccp.solve(f,o); got={c.callee for c in cs if r.reaches(c)}
            if got!={want}: R.bad("levels","%s:%d"%(f.name,lv),cs[0],"the print level %d is switched on by %s, not %s"%(lv,", ".join(sorted(got)) or "nothing",want))
            else: R.good("levels","%s level %d"%(f.name,lv))
# ------------------------------------------------------------ command line (Doc/cli_reference.md)
NUM={"-mbnr":("mbnr",(1,7,1000),(0,-3)),"-mbsize":("mbsize",(10,1000,99999),(9,0,-5,100000)),"-parallel":("parallel",(0,1,8,64),(-1,)),"-seconds":("seconds",(0,1,3600),(-1,)),"-print":("printlevel",(0,10,15,51),(-1,))}
FLAG={"-derived":"printderived","-tptp":"tptp","-json":"json","-convert":"convert","-clausify":"clausify"}
TEXT={"-strategy":"stratfile","-strategytext":"strattext"}
LIST={"-text":"lstringsptr","-jstext":"ljstringsptr"}
CMDS=("-prove","-readkb","-usekb","-deletekb","-writekb","-loadkb","-readwritekb","-help","--help","-version","--version")
NEND=("exit","abort","_exit")
class Cmd:
    def __init__(s,P):
        s.P=P; f=s.f=P.fn("parse_cmdline"); s.an={a[1]:k for k,a in enumerate(f.args)}
        s.argc=s.an["argc"]; s.argv=s.an["argv"]
        # the position being looked at: the phi by which the compared text is taken from argv
        cand={}
        for i in f.instrs():
            if i.op=="call" and i.callee in CMP:
                for k in (0,1):
                    x=s.index(i.ops[k])
                    if x is not None and gstring(P,i.ops[1-k]) is not None: cand[x]=cand.get(x,0)+1
        if not cand: raise AnalysisBroken("no comparison of the command line arguments with option names was found")
        s.pos=max(cand,key=cand.get)
    def index(s,o):
        """the value by which argv is indexed, for text loaded from it"""
        f=s.f; o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) else None
        if i is None or i.op!="load": return None
        g=f.defs.get(i.ops[0]) if isinstance(i.ops[0],int) else None
        if g is None or g.op!="getelementptr" or strip(f,g.ops[0])!=s.argv: return None
        return strip(f,g.ops[-1])
    def world(s,opt,val=None,scan=1):
        f=s.f
        text=lambda o:opt if s.index(o)==s.pos else None
        nrs={strip(f,c.ops[-1]) for c in f.instrs() if c.op=="call" and c.callee and c.callee.endswith("sscanf")}
        def o(i):
            if i.id is not None and i.id==s.pos: return 3
            if i.op=="load":
                if i.ops[0] in nrs: return val
                b=i.ops[0]; g=f.defs.get(b) if isinstance(b,int) else None
                if i.ty=="i8" or i.ty is None:
                    if s.index(b)==s.pos: return ord(opt[0]) if opt else 0
                    if g is not None and g.op=="getelementptr" and s.index(g.ops[0])==s.pos and cint(g.ops[-1]) is not None:
                        k=cint(g.ops[-1]); return ord(opt[k]) if k<len(opt) else 0 if k==len(opt) else None
            if i.op=="call":
                if i.callee and i.callee.endswith("sscanf"): return scan
                if i.callee in("atoi","atol","strtol","strtoll"): return val
                if i.callee=="strlen" and s.index(i.ops[0])==s.pos: return len(opt)
                c=compare(s.P,i,text)
                if c: return c[1]
                if i.callee=="malloc": return 0x5000
            return None
        return o
    def solve(s,opt,val=None,scan=1,argc=9):
        r=sccp.solve(s.f,s.world(opt,val,scan),args={s.argc:argc,s.argv:0x7000})
        return r
    def out(s,r):
        """what is set through the parameters: name -> [(value, index of argv, instruction)]"""
        d={}
        for i in s.f.instrs():
            if i.op!="store" or not r.reaches(i): continue
            p=strip(s.f,i.ops[1])
            if not(isinstance(p,int) and p<len(s.f.args)): continue
            x=s.index(i.ops[0]); x=(3 if x==s.pos else r.val(x)) if x is not None else None
            d.setdefault(s.f.args[p][1],[]).append((r.val(i.ops[0]),x,i))
        return d
    def arrays(s,r):
        """arguments put into lists: (list, index of argv, instruction)"""
        out=[]
        for i in s.f.instrs():
            if i.op!="store" or not r.reaches(i): continue
            x=s.index(i.ops[0])
            if x is None: continue
            g=s.f.defs.get(strip(s.f,i.ops[1]))
            if g is None or g.op!="getelementptr": continue
            b=strip(s.f,g.ops[0])
            if b==s.argv: continue
            out.append((s.listname(b),3 if x==s.pos else r.val(x),i))
        return out
    def listname(s,b):
        """the parameter a list is given back through, or the result"""
        for u in s.f.uses.get(b,()):
            if u.op=="store" and u.ops[0]==b:
                p=strip(s.f,u.ops[1])
                if isinstance(p,int) and p<len(s.f.args): return s.f.args[p][1]
        return "result"
    def steps(s,r):
        """positions looked at next"""
        d=s.f.defs[s.pos]; out=set()
        if d.op!="phi": return out
        for z,p in zip(d.ops,d.x):
            if (p,d.bb) in r.edges and d.bb in s.f.dom[p]: out.add(r.val(z))
        return out
    def errors(s,r):
        """the ends with an error: exit, or a return with the return code set"""
        e=[c for c in s.f.instrs() if c.op=="call" and c.callee in NEND and r.reaches(c)]
        return e+[i for v,x,i in s.out(r).get("retcode",()) if v!=0]
def cmdline(P,R):
    k=Cmd(P); f=k.f; at=f.blocks[0].instrs[0]
    ALLOWED={"lstringsptr","ljstringsptr","lfilesptr"}
    def plainout(r): return {n:x for n,x in k.out(r).items() if n not in ALLOWED}
    def expect(opt,r,want,step,what):
        """exactly `want` {param: value} is set and the next argument looked at is step"""
        st=plainout(r)
        for n,x in st.items():
            for v,ix,i in x:
                if n in want and (want[n]==("argv",ix) or (v is not None and v==want[n])): continue
                R.bad("options","%s:%s"%(opt,n),i,"%s sets %s%s"%(what,n,"" if n not in want else " to %s"%v)); return False
        for n in want:
            if n not in st: R.bad("options","%s:%s:lost"%(opt,n),at,"%s does not set %s"%(what,n)); return False
        e=k.errors(r)
        if e: R.bad("options",opt+":error",e[0],"%s is refused"%what); return False
        sp=k.steps(r)
        if sp and sp!={step}: R.bad("options",opt+":step",at,"after %s the argument looked at next is %s places on, not %d"%(what,sorted(str(x if x is None else x-3) for x in sp),step-3)); return False
        return True
    def refused(opt,r,what):
        st={n:x for n,x in plainout(r).items() if n!="retcode"}
        if st: R.bad("options","%s:bad:%s"%(opt,list(st)[0]),list(st.values())[0][0][2],"%s sets %s instead of being refused"%(what,list(st)[0])); return False
        a=[x for x in k.arrays(r)]
        if a: R.bad("options","%s:bad:list"%opt,a[0][2],"%s is used instead of being refused"%what); return False
        if not k.errors(r): R.bad("options",opt+":accepted",at,"%s is not refused"%what); return False
        sp=k.steps(r)
        if sp: R.bad("options",opt+":goes on",at,"%s does not end the program"%what); return False
        return True
    if table(P,R,f,lambda o:k.index(o)==k.pos,"options",20): return
    for opt,(par,good,bad) in sorted(NUM.items()):
        ok=True
        for v in good: ok=ok and expect(opt,k.solve(opt,v),{par:v},5,"%s %d"%(opt,v))
        for v in bad: ok=ok and refused(opt,k.solve(opt,v),"%s %d"%(opt,v))
        for sc,t in ((0,"x"),(-1,"''")): ok=ok and refused(opt,k.solve(opt,None,sc),"%s with %s, which is no number,"%(opt,t))
        ok=ok and refused(opt,k.solve(opt,7,1,argc=4),"%s with no argument"%opt)
        if ok: R.good("options",opt)
    for opt,par in sorted(FLAG.items()):
        if expect(opt,k.solve(opt),{par:1},4,opt): R.good("options",opt)
    for opt,par in sorted(TEXT.items()):
        ok=expect(opt,k.solve(opt),{par:("argv",4)},5,opt) and refused(opt,k.solve(opt,argc=4),"%s with no argument"%opt)
        if ok: R.good("options",opt)
    for opt,par in sorted(LIST.items()):
        r=k.solve(opt); a=k.arrays(r)
        e=[c for c in k.errors(r)]
        if {(n,x) for n,x,i in a}!={(par,4)}: R.bad("options",opt,at,"%s puts %s, not the argument after it into its list"%(opt,[(n,x) for n,x,i in a]))
        elif plainout(r).keys()-{"retcode"}: R.bad("options",opt+":set",at,"%s sets %s"%(opt,", ".join(plainout(r))))
        elif k.steps(r)!={5}: R.bad("options",opt+":step",at,"after %s the next argument is not skipped"%opt)
        elif refused(opt,k.solve(opt,argc=4),"%s with no argument"%opt): R.good("options",opt)
    for opt in CMDS:
        if expect(opt,k.solve(opt),{"cmdstr":("argv",3)},4,opt): R.good("options",opt)
    for opt in ("-nosuchoption","-readkbx","-x","--foo"):
        if refused(opt,k.solve(opt),"the unknown option %s"%opt): R.good("options",opt)
    r=k.solve("some.file"); a={(n,x) for n,x,i in k.arrays(r)}
    if a!={("lfilesptr",3),("result",3)} or plainout(r).keys()-{"retcode"}: R.bad("options","file",at,"an argument which is no option is not taken as a file name (%s)"%a)
    else: R.good("options","file names")
# ------------------------------------------------------------ from the options to the search
HEAD={"parallel":"max_forks","tptp":"tptp","json":"json","convert":"convert","clausify":"clausify","printlevel":"printlevel","printderived":"printderived","seconds":"max_seconds"}
FROM={"printlevel":"print_level_flag","printderived":"print_derived","max_seconds":"max_seconds"}
def dispatch(P,R):
    k=Cmd(P); an=k.an
    for pc in P.callers("parse_cmdline"):
        f=pc.fn; var={n:strip(f,pc.ops[j]) for n,j in an.items()}
        isvar=lambda i,n:i.op=="load" and i.ops[0]==var[n]
        # the values get into the header of the segment searched in
        for c in calls(f,"wg_run_reasoner","wg_run_converter"):
            db=base(f,c.ops[0])
            for n,h in sorted(HEAD.items()):
                if n in("convert","clausify") and c.callee=="wg_run_reasoner": continue
                if n not in("json","tptp") and c.callee!="wg_run_reasoner": continue
                st=[i for i in f.instrs() if fld(i,"store","db_memsegment_header")==h and f.dominates(i,c) and samebase(f,i.ops[1],db)]
                if not st: R.bad("header","%s@%s:%d"%(h,c.callee,site(c)),c,"the value of -%s is not handed over to the search"%n); continue
                i=max(st,key=lambda x:sum(f.dominates(y,x) for y in st))
                if not fromvar(f,i.ops[0],var[n]): R.bad("header","%s@%s:%d:value"%(h,c.callee,site(c)),i,"another value is handed over to the search as %s"%h)
                else: R.good("header","%s for %s"%(h,c.loc()))
            if c.callee=="wg_run_reasoner":
                for j,n in ((2,"stratfile"),(5,"strattext")):
                    if len(c.ops)>j and fromvar(f,c.ops[j],var[n]): R.good("header","%s for %s"%(n,c.loc()))
                    else: R.bad("header","%s@%d"%(n,site(c)),c,"the search is not given the strategy of the command line (%s)"%n)
        # the size
        for v in (10,1000,99999):
            o=lambda i:v if isvar(i,"mbsize") else 0 if isvar(i,"retcode") else None
            r=sccp.solve(f,o)
            for c in calls(f,"wg_attach_local_database","wg_attach_database","wg_attach_local_database_with_kb"):
                if not r.reaches(c): continue
                got=r.val(c.ops[1] if c.callee=="wg_attach_database" else c.ops[0])
                if c.callee=="wg_attach_local_database_with_kb": continue
                if got!=v*1000000: R.bad("header","size@%s:%d"%(c.callee,site(c)),c,"-mbsize %d gives a segment of %s bytes"%(v,got)); break
                R.good("header","size %d at %s"%(v,c.loc()))
        # which command does what
        text=lambda cmd:(lambda o:cmd if isinstance(strip(f,o),int) and strip(f,o) in f.defs and cmdload(f,f.defs[strip(f,o)],var["cmdstr"]) else None)
        for cmd,(must,never) in sorted(DOES.items()):
            def o(i):
                if i.op=="load" and i.ops[0]==var["cmdstr"]: return 0x1000 if cmd!="" else 0
                if isvar(i,"retcode") or isvar(i,"json") or isvar(i,"tptp") or isvar(i,"convert") or isvar(i,"clausify"): return 0
                if i.op=="call":
                    z=compare(P,i,text(cmd or "-prove"))
                    if z: return z[1]
                return None
            r=sccp.solve(f,o); ok=True
            for n in must:
                if not any(r.reaches(c) for c in calls(f,*SAME.get(n,(n,)))): R.bad("commands","%s:%s"%(cmd,n),pc,"the command %s does not %s"%(cmd or "(none given)",WHAT[n])); ok=False
            for n in never:
                for c in calls(f,*SAME.get(n,(n,))):
                    if r.reaches(c): R.bad("commands","%s:%s:never"%(cmd,n),c,"the command %s can %s"%(cmd or "(none given)",WHAT[n])); ok=False; break
            if ok: R.good("commands",cmd or "(none given)")
        # alarm and output kinds
        r=sccp.solve(f,lambda i:1 if isvar(i,"json") or isvar(i,"tptp") else 0 if isvar(i,"retcode") else None)
        w=[c for c in calls(f,*WHAT) if c.callee in ("wg_run_reasoner","wg_run_converter","wg_dump") and r.reaches(c)]
        if w: R.bad("commands","json+tptp",w[0],"-json and -tptp are accepted together")
        else: R.good("commands","-json with -tptp refused")
        for n,stop in (("convert",("wg_run_reasoner",)),("clausify",("wg_run_reasoner",))):
            for cmd in ("-prove","-usekb"):
                def o(i):
                    if i.op=="load" and i.ops[0]==var["cmdstr"]: return 0x1000
                    if isvar(i,n): return 1
                    if isvar(i,"retcode") or isvar(i,"json") or isvar(i,"tptp") or isvar(i,"convert") or isvar(i,"clausify"): return 0
                    if i.op=="call":
                        z=compare(P,i,text(cmd))
                        if z: return z[1]
                    return None
                r=sccp.solve(f,o); w=[c for c in calls(f,"wg_run_reasoner") if r.reaches(c)]
                cv=[c for c in calls(f,"wg_run_converter") if r.reaches(c)]
                if w: R.bad("commands","%s:%s:search"%(cmd,n),w[0],"%s with -%s searches for a proof"%(cmd,n))
                elif n=="clausify" and cmd=="-prove" and not cv: R.bad("commands","clausify",pc,"-clausify does not convert")
                elif n=="clausify" and cmd=="-usekb" and cv: R.bad("commands","clausify:usekb",cv[0],"-clausify is accepted with -usekb")
                else: R.good("commands","%s -%s"%(cmd,n))
    # each run starts with them
    for c in P.callers(SEARCH):
        g=c.fn
        for h,n in sorted(FROM.items()):
            st=[i for i in g.instrs() if fld(i,"store","glb")==n and isinstance(strip(g,i.ops[0]),int) and strip(g,i.ops[0]) in g.defs and fld(g.defs[strip(g,i.ops[0])],"load","db_memsegment_header")==h and reach(g,i,c)]
            if not any(g.dominates(i,c) for i in st): R.bad("header","run:%s:%s:%d"%(g.name,n,site(c)),c,"a run does not start with the %s of the command line"%h)
            else: R.good("header","%s in %s"%(n,g.name))
        # the print level given wins over that of the strategy
        for p in calls(g,"wr_parse_guide_section"):
            if p is not calls(g,"wr_parse_guide_section")[0]: continue
            o=sccp.Onward(g,p,None,lambda i:15 if fld(i,"load","db_memsegment_header")=="printlevel" else None)
            lv=calls(g,*{n for _,n in LEVELS})
            late=[i for i in g.instrs() if fld(i,"store","glb")=="print_level_flag" and isinstance(strip(g,i.ops[0]),int) and fld(g.defs.get(strip(g,i.ops[0])),"load","db_memsegment_header")=="printlevel" and reach(g,p,i)]
            if not late or o.must(lambda i:i in late or i.op=="call" and i.callee in("sys_free","wr_free")): R.bad("header","run:print:%s"%g.name,p,"the print level of the command line does not win over that of the strategy")
            else: R.good("header","print level kept after the strategy was read")
SAME={"wg_dump":("wg_dump","wg_dump_internal"),"wg_import_dump":("wg_import_dump","wg_import_dump_internal")}
SHARED=("wg_attach_database","wg_delete_database","wg_import_dump","wg_dump","init_shared_database")
WHAT={"wg_run_reasoner":"search for a proof","wg_run_converter":"convert","wg_attach_database":"create a shared kb","wg_attach_existing_database":"attach a kb","wg_delete_database":"delete a shared kb","wg_import_dump":"load a kb from a file","wg_dump":"write a kb to a file","init_shared_database":"build a kb","usage":"show the usage","wg_print_code_version":"show the version"}
DOES={
 "":(("wg_run_reasoner",),SHARED),
 "-prove":(("wg_run_reasoner",),SHARED),
 "-usekb":(("wg_run_reasoner","wg_attach_existing_database"),SHARED),
 "-readkb":(("init_shared_database","wg_attach_database"),("wg_dump","wg_import_dump","wg_run_reasoner")),
 "-readwritekb":(("init_shared_database","wg_dump"),("wg_import_dump","wg_run_reasoner")),
 "-writekb":(("wg_dump","wg_attach_existing_database"),("wg_import_dump","wg_run_reasoner","wg_delete_database","init_shared_database","wg_attach_database")),
 "-loadkb":(("wg_import_dump",),("wg_dump","wg_run_reasoner","init_shared_database")),
 "-deletekb":(("wg_delete_database",),("wg_dump","wg_run_reasoner","init_shared_database","wg_import_dump","wg_attach_database")),
 "-help":(("usage",),SHARED+("wg_run_reasoner",)),"--help":(("usage",),SHARED+("wg_run_reasoner",)),
 "-version":(("wg_print_code_version",),SHARED+("wg_run_reasoner",)),"--version":(("wg_print_code_version",),SHARED+("wg_run_reasoner",))}
def cmdload(f,i,v):
    """the command of the command line, also where a default was put in"""
    if i.op=="load": return i.ops[0]==v
    if i.op=="phi": return any(isinstance(z,int) and z in f.defs and cmdload(f,f.defs[z],v) for z in i.ops)
    return False
def base(f,o):
    o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) else None
    if i is not None and i.op=="load": return ("load",str(i.ops[0]))
    return o
def samebase(f,p,db):
    """a header field of the segment given"""
    p=strip(f,p)
    for _ in range(4):
        i=f.defs.get(p) if isinstance(p,int) else None
        if i is not None and i.op=="getelementptr": p=strip(f,i.ops[0])
        else: break
    return base(f,p)==db
def fromvar(f,o,v,d=0):
    o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) else None
    if i is None: return False
    if i.op=="load": return i.ops[0]==v
    if i.op in("phi","select") and d<4: return any(fromvar(f,z,v,d+1) for z in (i.ops if i.op=="phi" else i.ops[1:]))
    return False
def run(R):
    b0=R.bad
    R.bad=lambda rule,key,where,msg,path=None: b0(rule,key,where.loc() if hasattr(where,"loc") else where,msg,path)
    P=Prog("gkc"); R.note("functions_in_program",len(P.fns))
    R.rule("settings","each documented setting of a strategy sets its field of the run to the number given, and nothing else",20)
    R.rule("names","each documented strategy name sets its flags, and nothing else",10)
    R.rule("unknown","an unknown setting or strategy name sets nothing and gives a warning",6)
    R.rule("arith","limits of numeric instantiation which are not given have their documented values, those given stay",8)
    R.rule("limits","a clause over a limit given is dropped, one within it is not, and the search uses the limits of its strategy",12)
    R.rule("levels","each print level switches on the output documented for it",8)
    R.rule("options","each option of the command line sets what it is documented to set, takes its argument, and is refused with a wrong one",20)
    R.rule("header","the values of the command line get to the search",14)
    R.rule("commands","each command does its work, and never another's",8)
    settings(P,R); strategies(P,R); arith(P,R); limits(P,R); levels(P,R); cmdline(P,R); dispatch(P,R)
if __name__=="__main__": check.main("C20","conditional constant propagation of the parsers of settings and options for each documented name and value",run)
