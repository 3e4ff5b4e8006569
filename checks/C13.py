#!/usr/bin/env python3
"""C13: an input which cannot be read whole is refused: no search is started on the part that was read."""
import sys, os, re
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","sa"))
import sccp, check
from core import *
FLAG=("glb","parse_errflag")
IMPORTS=("wr_import_otter_file","wr_import_js_file")
SEARCH=("wg_run_reasoner",)
ERANGE=34
def is_flag(f,p):
    a=addr(f,p)
    return a[0]=="field" and a[1:3]==FLAG
def flagload(i): return i.op=="load" and is_flag(i.fn,i.ops[0])
def flagstore(i): return i.op=="store" and is_flag(i.fn,i.ops[1])
class Setters:
    """functions after which parse_errflag is certainly set (it was set before, or is stored)"""
    def __init__(s,P):
        s.P=P; s.memo={}
        s.names={n for n,f in P.fns.items() if any(flagstore(i) and cint(i.ops[0]) for i in f.instrs()) and n not in IMPORTS}
    def sets(s,n,d=0):
        if n in s.memo: return s.memo[n]
        if n not in s.P.fns or n in IMPORTS: return False
        f=s.P.fns[n]
        if d==0 and n not in s.names and not any(c in s.names for c in s.P.callgraph[n]): return False
        s.memo[n]=False
        # with the flag unset at entry every path to a return stores it
        r=sccp.solve(f,lambda i:0 if flagload(i) else None)
        ok=not escapes(s,f,r,[(0,0)])
        s.memo[n]=ok
        return ok
def escapes(S,f,r,starts):
    """a return is reached from the starts (block,index) over executable edges without the flag being set"""
    w=list(starts); seen=set()
    while w:
        b,k=w.pop()
        if (b,k) in seen: continue
        seen.add((b,k)); hit=False
        for i in f.blocks[b].instrs[k:]:
            if flagstore(i) and cint(i.ops[0]): hit=True; break
            if i.op=="call" and i.callee and S.sets(i.callee,1): hit=True; break
            if i.op=="call" and i.callee in("exit","abort","_exit"): hit=True; break
            if i.op=="ret": return True
        if hit: continue
        for x in f.blocks[b].succs:
            if (b,x) in r.edges: w.append((x,0))
    return False
class Prop:
    """follow one failure from the place where it shows up to the main program"""
    def __init__(s,R,P,S,rule):
        s.R=R; s.P=P; s.S=S; s.rule=rule; s.done=set(); s.tops=0; s.steps=0
        s.search=P_reachers(P,SEARCH); s.imp=P_reachers(P,IMPORTS)
    def from_call(s,c,val,flag,why,depth=0):
        """after the call c gave val (None: unknown) with the error flag set or not"""
        f=c.fn; key=(f.name,c.id,val,flag)
        if key in s.done or depth>25: return
        s.done.add(key); s.steps+=1
        seed={}
        if val is not None: seed[c.id]=val
        s.go(f,c,seed,flag,why,depth,val)
    def go(s,f,at,seed,flag,why,depth,val=None,edge=None):
        P=s.P
        for i in f.blocks[at.bb].instrs:
            if i.op=="phi": seed.setdefault(i.id,None)
            elif i is at: break
        def oracle(i):
            if flag and flagload(i): return 1
            return None
        if edge is None:
            # the rest of this round of the loops around the failure, then the rounds after it
            o=sccp.Onward(f,at,seed.get(at.id),oracle)
            r=sccp.Result(f,{},set().union(*[q.edges for q in o.parts]),set().union(*[q.blocks for q in o.parts]))
            after=[i for i in f.instrs() if o.reaches(i)]
            rets=o.returns()
        else:
            r=sccp.solve(f,oracle,start=edge,seed=seed)
            after=[]; seen=set(); w=[(at.bb,at.idx+1)]
            while w:
                b,k=w.pop()
                if (b,k) in seen: continue
                seen.add((b,k))
                for i in f.blocks[b].instrs[k:]: after.append(i)
                for x in f.blocks[b].succs:
                    if (b,x) in r.edges: w.append((x,0))
            blocks={b for b,k in seen}
            rets=[(v,t,p) for v,t,p in r.returns() if t.bb in blocks and (p in blocks or p==t.bb)]
        for i in after:
            if i.op!="call" or not i.callee: continue
            if i.callee in s.search and not inert(s,i,f):
                s.R.bad(s.rule,"%s:%s:%s"%(f.name,i.callee,why),i,"the search can be started (%s) although %s"%(i.callee,why)); return
            if i.callee in s.imp and i is not at and f.name not in IMPORTS and i.callee in IMPORTS+("wr_process_tptp_import_clause","wr_process_json_import_clause"):
                s.R.bad(s.rule,"%s:%s:%s"%(f.name,i.callee,why),i,"another file is read (%s), which clears the error flag, although %s"%(i.callee,why)); return
        vals=set()
        for v,t,p in rets: vals.add(v)
        if not vals: s.R.good(s.rule,"%s: stops after: %s"%(f.name,why)); return
        fl=flag or not escapes(s.S,f,r,[(at.bb,at.idx+1)])
        if f.name=="main":
            s.tops+=1
            if any(v is None or v==0 for v in vals): s.R.bad(s.rule,"main:%s:exit"%why,at,"the program can end with exit code 0 although %s"%why)
            else: s.R.good(s.rule,"main refuses: %s (%s)"%(why,at.loc()))
            return
        if f.name in IMPORTS or f.name.startswith("wg_import_") :
            if any(v is None or v==0 for v in vals):
                s.R.bad(s.rule,"%s:%s"%(f.name,why),at,"%s can return 0 or an unknown value although %s"%(f.name,why)); return
            s.R.good(s.rule,"%s returns an error: %s"%(f.name,why))
            if f.name in IMPORTS and not fl:
                s.R.bad(s.rule,"%s:%s:flag"%(f.name,why),at,"%s returns without parse_errflag set although %s: a file which includes this one would not notice"%(f.name,why))
        for c in P.callers(f.name):
            if c.op!="call" or c.callee!=f.name: continue
            for v in vals: s.from_call(c,v,fl,why,depth+1)
def inert(s,i,f): return False
def P_reachers(P,names):
    r=set(n for n in names)
    ch=True
    rev={}
    for n in P.fns:
        for c in P.callgraph[n]: rev.setdefault(c,set()).add(n)
    w=list(r)
    while w:
        x=w.pop()
        for y in rev.get(x,()):
            if y not in r: r.add(y); w.append(y)
    return r
def uses_of(f,o):
    """all uses of a value through casts and phis"""
    out=[]; w=[o]; seen=set()
    while w:
        x=w.pop()
        if x in seen: continue
        seen.add(x)
        for u in f.uses.get(x,()):
            out.append(u)
            if u.op in("phi","select","bitcast","ptrtoint","inttoptr"): w.append(u.id)
    return out
def run(R):
    b0=R.bad
    R.bad=lambda rule,key,where,msg,path=None: b0(rule,key,where.loc() if hasattr(where,"loc") else where,msg,path)
    R.rule("P1","a failure to open or parse the input, an included file or a part of it ends the run: every import function on the way returns an error and no search is started",12)
    R.rule("P2","an error shown about a formula is remembered until the import function returns, and makes it return an error",6)
    R.rule("P3","an include either reads the named file or reports an error",2)
    R.rule("P4","every grammar rule whose value is used computes it",20)
    R.rule("P5","a statement loop is left before its end only with an error",4)
    R.rule("J1","JSON nesting is refused before the stack of open lists is full",2)
    R.rule("J2","a JSON value completed at the top level does not replace an earlier one",1)
    R.rule("N1","a number out of range is refused, not replaced: the conversion result is not used when errno says out of range",3)
    R.rule("N2","errno is cleared before each checked conversion, so that a good number is not refused",3)
    for var in("gkc","bison"):
        P=Prog(var); S=Setters(P)
        reading=P.reachable([n for n in P.fns if n in("wg_import_data_file","wg_import_data_string") or n in IMPORTS])
        R.note("%s: functions reading input"%var,len(reading))
        failures(R,P,S,reading,var)
        includes(R,P,S,var)
        grammar(R,P,var)
        loops(R,P,S,var)
        if var=="gkc": json(R,P,reading); numbers(R,P,reading)
def probe_only(f,c):
    """the opened stream is only tested and closed"""
    for u in uses_of(f,c.id):
        if u.op in("icmp","phi","select","br","bitcast"): continue
        if u.op=="call" and u.callee=="fclose": continue
        return False
    return True
def failures(R,P,S,reading,var):
    pr=Prop(R,P,S,"P1"); n=0
    for name in sorted(reading):
        f=P.fns[name]
        for c in f.calls():
            if c.callee in("fopen","freopen"):
                if c.callee=="fopen" and probe_only(f,c): continue
                n+=1; pr.from_call(c,0,False,"a file cannot be opened (%s)"%name)
            elif c.callee in("wg_yyotterparse","yyotterparse"):
                for v in(1,2): n+=1; pr.from_call(c,v,False,"the text is not accepted by the parser")
            elif c.callee=="yajl_complete_parse":
                for v in(1,2): n+=1; pr.from_call(c,v,False,"the json text is not accepted by the parser")
            elif c.callee=="feof" and any(x.callee=="yajl_parse" for x in f.calls()):
                n+=1; pr.from_call(c,0,False,"the input file cannot be read to its end")
    R.note("%s: failure places followed"%var,n); R.note("%s: functions the failures go through"%var,pr.steps)
    if pr.tops==0: R.bad("P1","%s:tops"%var,None,"no failure of reading reaches the main program")
    # errors shown about single formulas
    setters=sorted(x for x in S.names if x in reading)
    shown=[x for x in setters if P.fns[x].va]
    for x in shown:
        if S.sets(x): R.good("P2","%s sets the error flag"%x)
        else: R.bad("P2","%s:%s"%(var,x),None,"%s can show an error without setting the error flag"%x)
    # from the import functions on: once the flag is set it leads to an error
    p2=Prop(R,P,S,"P2"); m=0
    mayset=P_reachers(P,shown)
    for name in sorted(reading):
        f=P.fns[name]
        for c in f.calls():
            if c.callee in mayset and c.callee in reading and c.callee not in IMPORTS and name not in shown:
                if name in IMPORTS or any(x in IMPORTS for x in P.callgraph[name]) or any(x in("wr_process_tptp_import_clause","wr_process_json_import_clause") for x in P.callgraph[name]):
                    m+=1; p2.from_call(c,None,True,"an error was shown by %s"%c.callee)
    R.note("%s: calls which can show an error, followed"%var,m)
    # nothing clears the flag apart from the start of an import
    for name,f in P.fns.items():
        for i in f.instrs():
            if flagstore(i) and not cint(i.ops[0]):
                if name in IMPORTS:
                    # nothing was read yet
                    pre=[c for c in f.calls() if c.callee in mayset and c.callee in reading and i.bb in f.reach()[c.bb]|{c.bb} and not f.dominates(i,c)]
                    if pre: R.bad("P2","%s:reset"%name,i,"the error flag is cleared after %s could have set it"%pre[0].callee)
                    else: R.good("P2","%s clears the flag before reading"%name)
                elif "glb_new" in name or "glb_init" in name: R.good("P2",name)
                elif name in reading: R.bad("P2","%s:reset"%name,i,"the error flag is cleared while reading")
def includes(R,P,S,var):
    """each call of a function which handles an include: all its paths read a file or set the flag"""
    for name,f in sorted(P.fns.items()):
        if name in IMPORTS: continue
        cs=[c for c in f.calls() if c.callee in IMPORTS]
        if not cs or name.startswith("wg_import"): continue
        if "import" not in name and "include" not in name: continue
        r=sccp.solve(f,lambda i:0 if flagload(i) or is_errmsg(i) else None)
        w=[(0,0)]; seen=set(); bad=None
        while w and bad is None:
            b,k=w.pop()
            if b in seen: continue
            seen.add(b); hit=False
            for i in f.blocks[b].instrs:
                if i.op=="call" and (i.callee in IMPORTS or S.sets(i.callee,1)): hit=True; break
                if flagstore(i) and cint(i.ops[0]): hit=True; break
                if i.op=="call" and i.callee=="wg_show_db_error": hit=True; break
                if i.op=="ret": bad=i; break
            if not hit:
                for x in f.blocks[b].succs:
                    if (b,x) in r.edges: w.append((x,0))
        if bad: R.bad("P3","%s"%name,bad,"an include can be passed over: %s can return without reading the named file and without an error"%name)
        else: R.good("P3","%s/%s"%(var,name))
def is_errmsg(i):
    if i.op!="load": return False
    a=addr(i.fn,i.ops[0])
    return a[0]=="field" and a[1:3]==("glb","parse_errmsg")
def ords(g):
    v=g.get("init")
    if isinstance(v,str) and v.startswith("s:"): return [ord(c) for c in v[2:]]
    if isinstance(v,list): return [cint(x) if not isinstance(x,int) else x for x in v]
    return None
def grammar(R,P,var):
    """yacc: a rule without right side has no default value; its action must compute one or abort.
    A rule with several parts on the right side must have an action: the default one keeps only the first part."""
    f=P.fns.get("wg_yyotterparse")
    if f is None: raise check.AnalysisBroken("the generated parser is not found")
    tab={}
    for i in f.instrs():
        for o in i.ops:
            if isinstance(o,str) and re.match(r"@yyr[12](\.\d+)?$",o): tab[o[1:5]]=(ords(P.globals[o[1:]]),i)
    if "yyr1" not in tab or "yyr2" not in tab: raise check.AnalysisBroken("the parser tables are not found")
    r1,r2=tab["yyr1"][0],tab["yyr2"][0]; rule=None
    # the rule number: index into yyr2
    x=strip(f,tab["yyr2"][1].ops[-1])
    sw=[b.term for b in f.blocks if b.term.op=="switch" and strip(f,b.term.ops[0])==x]
    if len(sw)!=1: raise check.AnalysisBroken("the action switch of the parser is not found")
    sw=sw[0]; start=r1[2] if len(r1)>2 else None
    cases={k:t for k,t in sw.x[1]}
    # the default value: the load through 1-yylen before the switch
    dfl={i.id for i in f.blocks[sw.bb].instrs if i.op=="load" and i.ty=="ptr"}
    for k in range(2,len(r2)):
        if r1[k]==start or r2[k]==1: continue
        who="rule %d (%d parts)"%(k,r2[k])
        if k not in cases or cases[k]==sw.x[0]:
            R.bad("P4","%s:rule%d"%(var,k),sw,"grammar %s has no action: its value would be %s"%(who,"undefined" if r2[k]==0 else "that of its first part only")); continue
        r=sccp.solve(f,None,start=(sw.bb,cases[k]),stop=(sw.bb,))
        # joins after the switch where the value is merged
        bad=None; got=False
        for blk in f.blocks:
            for i in blk.instrs:
                if i.op!="phi" or not any(o in dfl for o in i.ops if isinstance(o,int)): continue
                for o,p in zip(i.ops,i.x):
                    if (p,i.bb) in r.edges and (p==cases[k] or p in region(f,cases[k],i.bb,r)):
                        if isinstance(o,int) and o in dfl: bad=i
                        else: got=True
        if bad: R.bad("P4","%s:rule%d"%(var,k),f.blocks[cases[k]].instrs[0],"grammar %s leaves its value as it was: %s"%(who,"undefined" if r2[k]==0 else "that of its first part only"))
        else: R.good("P4","%s %s: %s"%(var,who,"computed" if got else "aborts"))
def region(f,b,stop,r):
    seen=set(); w=[b]
    while w:
        x=w.pop()
        if x in seen or x==stop: continue
        seen.add(x)
        for y in f.blocks[x].succs:
            if (x,y) in r.edges: w.append(y)
    return seen
def natloops(f):
    out={}
    for b in f.rpo():
        for x in f.blocks[b].succs:
            if x in f.dom[b]:
                body={x,b}; w=[b]
                while w:
                    y=w.pop()
                    if y==x: continue
                    for p in f.blocks[y].preds:
                        if p not in body: body.add(p); w.append(p)
                out.setdefault(x,set()).update(body)
    return out
def givesup(S,f,r,b):
    """from block b on every path sets the flag or returns nothing at all"""
    w=[(b,None)]; seen=set()
    while w:
        b,src=w.pop()
        if (b,src) in seen: continue
        seen.add((b,src)); hit=False
        for i in f.blocks[b].instrs:
            if flagstore(i) and cint(i.ops[0]): hit=True; break
            if i.op=="call" and i.callee and S.sets(i.callee,1): hit=True; break
            if i.op=="ret":
                o=i.ops[0] if i.ops else None
                d=f.defs.get(o) if isinstance(o,int) else None
                if d is not None and d.op=="phi" and d.bb==b and src is not None:
                    o=d.ops[d.x.index(src)]
                if o!="null" and cint(o)!=0: return False
                hit=True
        if hit: continue
        for x in f.blocks[b].succs:
            if (b,x) in r.edges: w.append((x,b))
    return True
def loops(R,P,S,var):
    lists=set()
    for im in IMPORTS:
        if im in P.fns:
            for c in P.fns[im].calls():
                if c.callee in P.fns and P.fns[c.callee].ret=="ptr" and c.callee in P.reachable([im]): lists.add(c.callee)
    pr=Prop(R,P,S,"P1"); mayset=P_reachers(P,[x for x in S.names if P.fns[x].va])
    for n in sorted(lists):
        f=P.fns[n]; found=False
        if n not in mayset: continue
        r=sccp.solve(f,lambda i:0 if flagload(i) else None)
        for h,body in natloops(f).items():
            rest={i.id for b in body for i in f.blocks[b].instrs if i.op=="call" and i.callee=="wg_rest"}
            phis=[i for i in f.blocks[h].instrs if i.op=="phi" and any(isinstance(o,int) and o in rest for o in i.ops)]
            if not phis: continue
            ps={p.id for p in phis}; found=True
            w=[h]; seen=set(); bad=None
            while w:
                b=w.pop()
                if b in seen: continue
                seen.add(b)
                if any(i.op=="call" and i.callee and S.sets(i.callee,1) for i in f.blocks[b].instrs): continue
                for x in f.blocks[b].succs:
                    if (b,x) not in r.edges: continue
                    if x in body: w.append(x)
                    elif atend(f,b,ps): pass
                    elif not givesup(S,f,r,x): bad=f.blocks[b].term
            if bad: R.bad("P5","%s:loop"%n,bad,"the loop over statements in %s can be left before the end of the list without an error: the rest of the input would be ignored"%n)
            else: R.good("P5","%s/%s"%(var,n))
            # what is skipped
            for b in body:
                for c in f.blocks[b].instrs:
                    if c.op!="call" or c.callee not in P.fns or P.fns[c.callee].ret!="ptr" or c.callee not in mayset: continue
                    g=P.fns[c.callee]
                    if any(x.startswith("wr_process_json_formula_struct") for x in P.reachable([c.callee])): continue  # an object without any formula is empty
                    if any(x in IMPORTS for x in P.callgraph[c.callee]): continue   # include: P3
                    k=silent(S,g)
                    if k: R.bad("P5","%s:%s"%(n,c.callee),k,"%s can give up a formula (returns NULL) without an error: it would be left out of the input"%c.callee)
                    else: R.good("P5","%s: %s"%(n,c.callee))
def silent(S,f):
    # for an existing formula; the empty one stays empty
    r=sccp.solve(f,lambda i:0 if flagload(i) else None,args={k:4096 for k,t in enumerate(f.args) if "ptr" in str(t)})
    w=[(0,None)]; seen=set()
    while w:
        b,src=w.pop()
        if (b,src) in seen: continue
        seen.add((b,src)); hit=False
        for i in f.blocks[b].instrs:
            if flagstore(i) and cint(i.ops[0]): hit=True; break
            if i.op=="call" and i.callee and S.sets(i.callee,1): hit=True; break
            if i.op=="ret":
                o=i.ops[0]; d=f.defs.get(o) if isinstance(o,int) else None
                if d is not None and d.op=="phi" and d.bb==b and src is not None: o=d.ops[d.x.index(src)]
                if o=="null":
                    for z in f.blocks[src].instrs[::-1] if src is not None else (): return z
                    return i
                hit=True
        if hit: continue
        for x in f.blocks[b].succs:
            if (b,x) in r.edges: w.append((x,b))
    return None
def atend(f,b,ps):
    """the branch tests the list position itself (wg_ispair or NULL)"""
    t=f.blocks[b].term
    if not t.ops: return False
    w=[t.ops[0]]; seen=set()
    while w:
        o=w.pop()
        if o in seen or not isinstance(o,int): continue
        seen.add(o)
        if o in ps: return True
        d=f.defs.get(o)
        if d is None: continue
        if d.op=="call":
            if d.callee=="wg_ispair": w+=d.ops
            continue
        if d.op in("icmp","zext","sext","trunc","ptrtoint","bitcast","and","or","xor","freeze"): w+=d.ops
    return False
class Ctx:
    """stores reached from a function under assumptions, into the functions it calls"""
    def __init__(s,P,oracle): s.P=P; s.o=oracle; s.memo={}
    def oracle(s,stack):
        def h(i):
            v=s.o(i)
            if v is not None: return v
            if i.op=="call" and i.callee in s.P.fns and i.callee not in stack and len(stack)<5 and s.P.fns[i.callee].ret!="void":
                rs={v for v,t,p in s.sol(i.callee,stack+(i.callee,)).returns()}
                if len(rs)==1: return rs.pop()
            return None
        return h
    def sol(s,n,stack):
        if n not in s.memo: s.memo[n]=sccp.solve(s.P.fns[n],s.oracle(stack))
        return s.memo[n]
    def stores(s,root):
        out=[]; seen=set(); w=[root]
        while w:
            n=w.pop()
            if n in seen: continue
            seen.add(n); f=s.P.fns[n]; r=s.sol(n,(n,))
            for b in r.blocks:
                for i in f.blocks[b].instrs:
                    if i.op=="store": out.append((i,r))
                    elif i.op=="call" and i.callee in s.P.fns: w.append(i.callee)
        return out
def pp(i,o,name):
    a=addr(i.fn,o)
    return a[0]=="field" and a[1] in("parse_parm_s","parse_parm") and a[2]==name
def json(R,P,reading):
    roots=[]
    for n,g in P.globals.items():
        if "yajl_callbacks" in g["ty"] and isinstance(g["init"],list): roots+=[x[1:] for x in g["init"] if isinstance(x,str) and x.startswith("&")]
    roots=[x for x in roots if x in P.fns]
    if len(roots)<8: raise check.AnalysisBroken("the json callbacks are not found")
    size=None
    for n in reading|set(roots):
        for i in P.fns[n].instrs():
            if i.op=="getelementptr" and i.x and len(i.ops)==3:
                b=i.fn.defs.get(i.ops[0]) if isinstance(i.ops[0],int) else None
                if b is not None and b.op=="getelementptr" and pp(b,b.id,"nests"):
                    for st in i.x[1]:
                        if st[0]=="a": size=st[1]
    if not size: raise check.AnalysisBroken("the stack of open json lists is not found")
    R.note("json: size of the stack of open lists",size); R.note("json: callbacks",sorted(roots))
    for root in roots:
        for v in(size-1,size,size+7):
            c=Ctx(P,lambda i:v if i.op=="load" and pp(i,i.ops[0],"depth") else None)
            bad=[i for i,r in c.stores(root) if pp(i,i.ops[1],"depth") and (r.val(i.ops[0]) is None or r.val(i.ops[0])>v)]
            if bad: R.bad("J1","%s:depth"%root,bad[0],"the nesting depth is increased beyond the %d places for open lists"%size); break
        else:
            c=Ctx(P,lambda i:None)
            if any(pp(i,i.ops[1],"depth") and inc(i) for i,r in c.stores(root)): R.good("J1",root)
        c=Ctx(P,lambda i:1 if i.op=="load" and pp(i,i.ops[0],"result") else None)
        bad=[i for i,r in c.stores(root) if pp(i,i.ops[1],"result")]
        if bad: R.bad("J2","%s:result"%root,bad[0],"a value completed at the top level replaces an earlier one: the first is lost without an error")
        else: R.good("J2",root)
def inc(i):
    d=i.fn.defs.get(strip(i.fn,i.ops[0])) if isinstance(i.ops[0],int) else None
    return d is not None and d.op=="add" and (cint(d.ops[1]) or 0)>0
CONV=("strtol","strtoul","strtoll","strtoull","strtod","strtof","strtold","yajl_parse_integer")
def iserrno(f,o):
    d=f.defs.get(o) if isinstance(o,int) else None
    return d is not None and d.op=="call" and d.callee=="__errno_location"
def numbers(R,P,reading):
    todo=[n for n in reading|P.reachable(["yajl_do_parse"]) if not n.startswith(("parse_memsize","parse_memmode"))]
    for n in sorted(todo):
        f=P.fns[n]
        for c in f.calls():
            if c.callee in("atoi","atol","atoll","atof"):
                if used(f,c): R.bad("N1","%s:%s"%(n,c.callee),c,"a number of the input is converted by %s, which cannot tell that it is out of range"%c.callee)
                continue
            if c.callee not in CONV: continue
            flt=c.callee in("strtod","strtof","strtold")
            if not used(f,c): continue
            bad=None
            for big in((float('inf'),float('-inf')) if flt else ((1<<63)-1,-(1<<63))):
                def oracle(i):
                    if i.op=="load" and iserrno(f,i.ops[0]): return ERANGE
                    if i.id==c.id and not flt: return big
                    if i.op=="fcmp" and flt:
                        a,b=[fval(f,o,c,big) for o in i.ops]
                        if a is not None and b is not None: return fcmp(i.x[0],a,b)
                    return None
                r=sccp.solve(f,oracle)
                for u in used(f,c):
                    # the errno test comes after the conversion
                    if u.bb in r.blocks: bad=u
            if bad is None:
                tests=[i for i in f.instrs() if i.op=="load" and iserrno(f,i.ops[0])]
                if not any(t.bb in f.reach()[c.bb] or t.bb==c.bb and t.idx>c.idx for t in tests): bad=c
            if bad: R.bad("N1","%s:%s"%(n,c.callee),bad,"the result of %s is used (%s) although the number is out of range"%(c.callee,bad.loc()))
            else: R.good("N1","%s: %s"%(n,c.callee))
            # errno cleared before
            if callee_clears(P,c.callee) or any(i.op=="store" and cint(i.ops[0])==0 and iserrno(f,i.ops[1]) and f.dominates(i,c) for i in f.instrs()): R.good("N2","%s: %s"%(n,c.callee))
            else: R.bad("N2","%s:%s"%(n,c.callee),c,"errno is not cleared before %s: an old value would refuse a good number"%c.callee)
def fval(f,o,c,v,d=0):
    """value of a floating operand when the call c gave v"""
    if isinstance(o,str) and o.startswith("f:"):
        try: return float(o[2:])
        except ValueError: return None
    if o==c.id: return v
    i=f.defs.get(o) if isinstance(o,int) else None
    if i is None or d>6: return None
    if i.op in("fpext","freeze"): return fval(f,i.ops[0],c,v,d+1)
    if i.op=="fneg":
        x=fval(f,i.ops[0],c,v,d+1); return None if x is None else -x
    if i.op=="call" and i.callee and i.callee.startswith(("llvm.fabs","fabs")):
        x=fval(f,i.ops[0],c,v,d+1); return None if x is None else abs(x)
    if i.op=="phi":
        xs={fval(f,x,c,v,d+1) for x in i.ops}
        return xs.pop() if len(xs)==1 else None
    return None
def fcmp(p,a,b):
    return int({"eq":a==b,"ne":a!=b,"gt":a>b,"ge":a>=b,"lt":a<b,"le":a<=b}.get(p[1:],True))
def callee_clears(P,n):
    if n not in P.fns: return False
    f=P.fns[n]
    return any(i.op=="store" and cint(i.ops[0])==0 and iserrno(f,i.ops[1]) for i in f.instrs())
def used(f,c):
    """calls and stores which take the converted number"""
    out=[]; w=[c.id]; seen=set()
    while w:
        o=w.pop()
        if o in seen: continue
        seen.add(o)
        for u in f.uses.get(o,()):
            if u.op in("phi","select","sext","zext","trunc","add","sub","mul","sitofp","fptosi","fneg","bitcast"): w.append(u.id)
            elif u.op=="call" and u.callee and not u.callee.startswith("llvm.") and u.callee not in("printf","snprintf","fprintf"): out.append(u)
            elif u.op=="call" and not u.callee: out.append(u)
    return out
if __name__=="__main__": check.main("C13","flow of read failures",run)
