"""C05: unification, matching and equality answer yes exactly when the terms fit, and bind exactly what that takes."""
import sys, os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"sa"))
from core import *; from ival import *; import check, build, ival, shape
G,X,Y,U=("g",),("X",),("Y",),("U",)
VB=("fld","varbanks",G); VS=("fld","varstack",G)
# class of an encoded value: (known bits value, mask)
TAGS={"smallint":(3,7),"fullint":(1,7),"fullint5":(5,7),"double":(2,7),"shortstr":(6,7),"longstr":(4,7),"char":(0x1f,255),"date":(0x2f,255),"anon":(0x5f,255),"tinystr":(0x4f,255),"rec":(0,7),"var":(7,15)}
CONSTS=["smallint","fullint","fullint5","double","shortstr","longstr","char","anon"]
def slot(x): return ("ld",VB,("ashr",x,("c",4)))
def rec(x): return ("add",("fld","db",G),x)
def lenof(x): return ("add",("ashr",("and",("ld",norm(rec(x)),("c",0)),("c",-4)),("c",3)),("c",-3))
def el(x,i): return CANON(("ld",norm(rec(x)),i))
MAP={}
_varval=None
def varval(a):
    b=a[0]
    if b[0]=="ld" and b[1]==VB and b[2][0]=="ashr": b=b[2][1]
    e=("val",b)
    return MAP.get(e,e)
ival.HEADS["wr_varval"]=varval
class Case:
    """facts about the operands: kinds, bindings, which pairs are equal, answers of calls"""
    def __init__(s,name,x,y,eq=None,calls=None,elems=None,consts=None,cons=(),r=None,fl=1,extra=None):
        s.name=name; s.tags={}; s.consts={("fld","unify_samelen",G):1,("fld","unify_maxuseterms",G):0,("fld","tmp_unify_occcheck",G):1,("fld","tmp_unify_do_occcheck",G):1,U:fl}
        s.map={}; s.eqs={}
        s.x=s.operand(X,x); s.y=s.operand(Y,y)
        ops=[X,Y,s.x,s.y,slot(X),slot(Y)]
        for a in ops:
            for b in ops:
                if a!=b: s.eqs[frozenset((a,b))]=0
        for e in s.same: s.eqs[e]=1
        if eq: s.eqs[frozenset((s.x,s.y))]=1
        s.calls=calls or {}; s.elems=elems; s.extra=extra
        s.consts.update(consts or {}); s.r=dict(r or {}); s.cons=list(cons)
    same=()
    def operand(s,v,kind):
        """kind: a tag name, or ('->',kind) bound directly, or ('->>',kind) bound through a chain"""
        if isinstance(kind,tuple):
            s.tags[v]=TAGS["var"]
            if kind[0]=="->":
                s.tags[slot(v)]=TAGS[kind[1]]; s.consts.pop(slot(v),None); s.map[("val",v)]=slot(v); return slot(v)
            s.tags[slot(v)]=TAGS["var"]; s.tags[("val",v)]=TAGS[kind[1]]
            if kind[1]=="var": s.consts[slot(("val",v))]=255
            return ("val",v)
        s.tags[v]=TAGS[kind]
        if kind=="var": s.consts[slot(v)]=255; s.map[("val",v)]=v
        return v
    def unmasked(s,e):
        while e[0] in("shl","lshr","ashr") and e[2][0]=="c": e=e[1]
        return e
    def scenario(s):
        sc=Scenario(s.r,s.cons,s.consts,s.decide,s.name); sc.cmphook=s.cmp; return sc
    def tagof(s,e):
        if e in s.tags: return s.tags[e]
        return None
    def decide(s,e):
        if s.extra:
            c=s.extra(e)
            if c is not None: return c
        if e[0]=="and" and e[2][0]=="c":
            t=s.tagof(e[1])
            if t and e[2][1]>=0 and (e[2][1]&~t[1])==0: return t[0]&e[2][1]
        if e[0]=="call":
            for (n,args),v in s.calls.items():
                if e[1]==n and (args is None or e[2:] in args): return v
        return None
    def cmp(s,p,x,y):
        if p not in("eq","ne"):
            if s.extra:
                return s.extra(("cmp",p,x,y))
            return None
        if s.extra:
            c=s.extra(("cmp",p,x,y))
            if c is not None: return c
        k=frozenset((x,y))
        if k in s.eqs: return int((p=="eq")==bool(s.eqs[k]))
        for a,b in((x,y),(y,x)):
            if b[0]=="c":
                if a[0]=="and" and a[2][0]=="c" and a[2][1]>=0:
                    t=s.tagof(a[1])
                    if t:
                        m=a[2][1]&t[1]
                        if (b[1]&m)!=(t[0]&m): return int(p=="ne")
                t=s.tagof(a)
                if t:
                    if (b[1]&t[1])!=t[0]: return int(p=="ne")
                    if b[1]==0: return int(p=="ne")      # no operand is the null offset
        if s.elems is not None:
            ia,ib=elem_of(s,x),elem_of(s,y)
            if ia and ib and ia[1]==ib[1] and {ia[0],ib[0]}=={s.x,s.y}:
                return int((p=="eq")==s.elems)
        return None
def elem_of(s,e):
    """(record operand, index) of a loaded element"""
    if e[0]=="ld":
        for v in(s.x,s.y):
            if e[1]==norm(rec(v)): return v,e[2]
    if e[0]=="arg":
        for v in(s.x,s.y):
            if e[1]==norm(rec(v)): return v,("argn",e[2])
    return None
UNK=("v","k","p","gepf")
def understood(e):
    return e[0] not in UNK and all(understood(z) for z in e[1:] if isinstance(z,tuple))
def show(e):
    if e==X: return "x"
    if e==Y: return "y"
    if e[0]=="val": return "value of "+show(e[1])
    if e[0]=="ld" and e[1]==VB: return "binding of "+show(e[2][1]) if e[2][0]=="ashr" else "binding"
    if e[0]=="c": return str(e[1])
    if e[0]=="call": return "%s(%s)"%(e[1],",".join(map(show,e[2:])))
    return e[0]
class Run:
    def __init__(s,f,case,args=None):
        global MAP
        s.f=f; s.case=case
        MAP.clear(); MAP.update(case.map)
        s.v=View(f,args or {0:G,1:X,2:Y,3:U},case.scenario()); s.v.solve(optimistic=True)
        s.ret=s.v.returns()
        s.open=[t for t in s.v.open_branches()]
        s.blind=[t for t in s.open if not understood(s.v.e(t.ops[0])) if isinstance(t.ops[0],int)]
        s.binds=[]; s.trail=[]; s.counts=[]; s.other=[]
        for b in sorted(s.v.res.blocks):
            for i in f.blocks[b].instrs:
                if i.op=="store":
                    val=[s.v.values(i.ops[0],b),s.v.e(i.ops[1])]
                    a=val[1]
                    if a[0]=="elem" and a[1]==VB: s.binds+= [(a[2],q,i) for q in val[0]]
                    elif a[0]=="elem" and a[1]==VS: s.trail+=[(a[2],q,i) for q in val[0]]
                    elif a==("fld","tmp_unify_vc",G): s.counts+=[(q,i) for q in val[0]]
                    elif a[0]=="gepf" and a[1]=="varbanks": s.other.append(i)
        MAP_=dict(case.map)
        s.calls=[i for b in sorted(s.v.res.blocks) for i in f.blocks[b].instrs if i.op=="call"]
    def callexpr(s,i): return ("call",i.callee)+tuple(s.v.e(z) for z in i.ops)
def run(R):
    P=Prog("gkc")
    K=build.macros(["TERM_META_POS","TERMMETA_GROUND_MASK","NROF_VARSINBANK","SHORTSTR_SIZE","UNASSIGNED"],"Reasoner/rincludes.h")
    GROUND=K["TERMMETA_GROUND_MASK"]
    nund=[0]
    def loc(f): return "%s:%d"%(f.file,f.line)
    def judge(rule,fn,case,want,bind=None,args=None):
        """want: set of allowed results; bind: None = don't judge, () none, else list of acceptable (var,value) pairs"""
        f=P.fn(fn); r=Run(f,case,args); key="%s %s"%(fn,case.name)
        res={e[1] if e[0]=="c" else show(e) for e in r.ret}; want=set(want)
        for b in sorted(r.v.res.blocks):
            for i in f.blocks[b].instrs:
                if i.op!="load": continue
                e=r.v.e(i.id)
                if e[0]=="ld" and e[1]==VB and e[2][0]=="ashr" and e[2][2]==("c",4):
                    t=case.tagof(e[2][1])
                    if t and (t[0]&t[1]&15)!=7 and t[1]>=7 and not(t[1]==7 and t[0]==7):
                        return R.bad("var",key+" slot","%s:%d"%(f.file,i.line),"%s, %s: a binding is looked up for something that is no variable"%(fn,case.name))
        if not r.ret: return R.bad(rule,key,loc(f),"%s, %s: cannot return"%(fn,case.name))
        extra=res-want
        if "-d" in sys.argv: print(rule,key,res,[(t.line,r.v.e(t.ops[0])) for t in r.open] if extra else "")
        if extra:
            if (r.blind or any(isinstance(z,str) for z in extra)) and (res&want):
                nund[0]+=1; R.good(rule,None,0); R.notes.append("undecided: "+key); return
            t=r.open[-1].line if r.open else f.line
            return R.bad(rule,key,"%s:%d"%(f.file,t or f.line),"%s, %s: can answer %s, the answer has to be %s"%(fn,case.name,"/".join(map(str,sorted(extra,key=str))),"/".join(map(str,sorted(want)))))
        if bind is not None:
            got=[(a,v) for a,v,i in r.binds]
            ok=[]
            for vv,val in bind: ok.append((norm(("ashr",vv,("c",4))),val))
            for (a,v),(_,_,i) in zip(got,r.binds):
                if (a,v) not in ok:
                    if not(understood(a) and understood(v)): nund[0]+=1; R.notes.append("undecided binding: "+key); continue
                    return R.bad("bind",key,"%s:%d"%(f.file,i.line),"%s, %s: binds %s to %s"%(fn,case.name,show(a[1]) if a[0]=="ashr" else show(a),show(v)))
            if bind and not got and not r.other and not any(i.callee in("wr_setvar","setvar") for i in r.calls):
                return R.bad("bind",key,loc(f),"%s, %s: succeeds without binding the variable"%(fn,case.name))
            if r.binds: trail(key,fn,r)
            R.good("bind",key)
        R.good(rule,key)
    def trail(key,fn,r):
        for a,v,i in r.binds:
            want=("elem",VB,a)
            t=[x for x in r.trail if x[1]==want]
            cnt=("ld",("fld","tmp_unify_vc",G),("c",0))
            if not r.trail: R.bad("trail",key,"%s:%d"%(r.f.file,i.line),"%s: a bound variable is not recorded for undoing"%fn); continue
            if not t: R.bad("trail",key,"%s:%d"%(r.f.file,i.line),"%s: another slot than the one bound is recorded for undoing"%fn); continue
            if any(x[0]!=cnt for x in t if understood(x[0])): R.bad("trail",key,"%s:%d"%(r.f.file,i.line),"%s: the bound slot is not recorded at the next free place of the trail"%fn); continue
            if not any(norm(q)==norm(("add",cnt,("c",1))) for q,_ in r.counts): R.bad("trail",key,"%s:%d"%(r.f.file,i.line),"%s: the trail counter is not moved by one after a binding"%fn); continue
            R.good("trail",key)
    LX,LY=lambda c:lenof(c.x),lambda c:lenof(c.y)
    def nelem(c,n):
        """operands of equal length with n compared elements (n: (lo,hi))"""
        d=lin(("sub",LX(c),LY(c))); c.cons.append((d,0,0))
        for l in(LX(c),LY(c)): c.cons.append((lin(("sub",l,("fld","unify_firstuseterm",G))),)+n)
        c.r[("fld","unify_firstuseterm",G)]=(1,4)
        return c
    def meta(c,kind):
        """facts about the meta fields of two compound terms"""
        mx,my=el(c.x,("c",3+K["TERM_META_POS"])),el(c.y,("c",3+K["TERM_META_POS"]))
        def isg(e,m):
            # ground bit of a small integer meta, before or after shifting the tag away
            if e[0]=="and" and e[2][0]=="c":
                b=e[1]; k=e[2][1]
                if b==("ashr",m,("c",3)) and k==GROUND: return True
                if b==m and k==GROUND<<3: return True
            return False
        gx,gy,rel,small={"none":(None,None,None,0),"var<":(0,0,-1,1),"var=":(0,0,0,1),"var>":(0,0,1,1),"xground<":(1,0,-1,1),"xground>":(1,0,1,1),"yground<":(0,1,-1,1),"yground>":(0,1,1,1),"ground=":(1,1,0,1)}[kind]
        c.tags[mx]=c.tags[my]=TAGS["smallint"] if small else TAGS["longstr"]
        def ex(e):
            if e[0]=="and":
                for m,g in((mx,gx),(my,gy)):
                    if g is not None and isg(e,m): return e[2][1] if g else 0
            if e[0]=="cmp" and rel is not None and {e[2],e[3]}=={mx,my}:
                rr=rel if e[2]==mx else -rel
                return {"eq":rr==0,"ne":rr!=0,"slt":rr<0,"sle":rr<=0,"sgt":rr>0,"sge":rr>=0,"ult":rr<0,"ule":rr<=0,"ugt":rr>0,"uge":rr>=0}[e[1]]
            return None
        old=c.extra
        c.extra=lambda e:(old(e) if old and old(e) is not None else ex(e))
        return c
    PR="wr_equal_ptr_primitives"
    def prims(c,v): 
        c.calls[(PR,((G,c.x,c.y,U),(G,c.y,c.x,U),(G,c.x,c.y,("c",1)),(G,c.y,c.x,("c",1))))]=v; return c
    def elemcalls(c,v,fns,pair=False):
        """answers of the calls that compare the elements at one and the same place of both records"""
        old=c.extra
        def ex(e):
            if e[0]=="call" and e[1] in fns and len(e)>=5:
                a,b=elem_of(c,e[3]),elem_of(c,e[4])
                if a and b and a[1]==b[1] and (a[0],b[0])==(c.x,c.y): return v
                if a and b and a[1]==b[1] and (a[0],b[0])==(c.y,c.x) and e[1] in SYM: return v
            return old(e) if old else None
        c.extra=ex; return c
    SYM={"wr_unify_term_aux","wr_equal_term","wr_equal_term_macroaux","wr_equal_mod_vars_term",PR}|{"wr_equal_term%d"%k for k in(1,2,3,4)}
    EQF={"wr_equal_term","wr_equal_term_macroaux",PR}
    # ---------------- rules
    R.rule("const","two different constants agree only if the stored values agree; a constant never agrees with a compound term",60)
    R.rule("var","a variable stands for what it is bound to and is bound only while free",25)
    R.rule("bind","a success binds the free variable to the other operand, a failure or a comparison of bound values binds nothing",20)
    R.rule("trail","every binding is recorded at the next free place of the trail",8)
    R.rule("occurs","a variable is never bound to a compound term that contains it",6)
    R.rule("elements","compound terms agree exactly when they are of equal length and all elements agree pairwise",30)
    R.rule("meta","the size and groundness summary of compound terms decides a comparison only when it may",30)
    R.rule("extent","the compared elements are all those after the summary fields up to the end of the record, each with its counterpart",3)
    R.rule("stored","stored numbers and strings agree exactly when kind and stored content agree",20)
    R.rule("deref","the value of a variable is the end of its chain of bindings",4)
    R.rule("entry","the entry points start with occurs checks on and the trail cleared for use, and pass the answer on",4)
    R.rule("undo","undoing bindings clears every recorded slot above the kept level and resets the trail to it",5)
    R.rule("config","the comparison extent settings are those the rest of the prover is built for",3)
    # ---------------- unification
    U_="wr_unify_term_aux"; M_="wr_match_term_aux"; E_="wr_eqmodvars_term_aux"; N_="wr_nomatch_term_uniquevars"
    rep=lambda k: k
    judge("const",U_,Case("identical operands","smallint","smallint",eq=True),{1},())
    PTR=["fullint","fullint5","double","shortstr","longstr"]
    for a in CONSTS:
        for b in CONSTS:
            for pv in(0,1):
                c=Case("%s and different %s, stored values %s"%(a,b,"agree" if pv else "differ"),a,b); prims(c,pv)
                if pv and not(a in PTR and b in PTR): continue
                judge("const",U_,c,{pv},())
        judge("const",U_,Case("%s and compound term"%a,a,"rec"),{0},())
        judge("const",U_,Case("compound term and %s"%a,"rec",a),{0},())
    for a in CONSTS+["var"]:
        c=Case("free variable and %s"%a,"var",a); judge("var",U_,c,{1},[(c.x,c.y)]+([(c.y,c.x)] if a=="var" else []))
        if a!="var":
            c=Case("%s and free variable"%a,a,"var"); judge("var",U_,c,{1},[(c.y,c.x)])
    for arrow in("->","->>"):
        for a in("longstr","smallint"):
            c=Case("variable bound%s to %s, equal %s"%(" by a chain" if arrow=="->>" else "",a,a),(arrow,a),a,eq=True); judge("var",U_,c,{1},())
            c=Case("variable bound%s to %s and different %s"%(" by a chain" if arrow=="->>" else "",a,a),(arrow,a),a); prims(c,0); judge("var",U_,c,{0},())
            c=Case("%s and variable bound%s to different %s"%(a," by a chain" if arrow=="->>" else "",a),a,(arrow,a)); prims(c,0); judge("var",U_,c,{0},())
        c=Case("variable bound%s to a compound term and constant"%(" by a chain" if arrow=="->>" else ""),(arrow,"rec"),"longstr"); judge("var",U_,c,{0},())
        c=Case("constant and variable bound%s to a compound term"%(" by a chain" if arrow=="->>" else ""),"longstr",(arrow,"rec")); judge("var",U_,c,{0},())
        c=Case("variable bound%s to a constant and free variable"%(" by a chain" if arrow=="->>" else ""),(arrow,"longstr"),"var"); judge("var",U_,c,{1},[(c.y,c.x)])
    c=Case("variable bound to a free variable and constant",("->>","var"),"longstr"); judge("var",U_,c,{1},[(c.x,c.y)])
    c=Case("constant and variable bound to a free variable","longstr",("->>","var")); judge("var",U_,c,{1},[(c.y,c.x)])
    def occ(c,var,t,v): c.calls[("wr_occurs_in",((G,var,t,VB),))]=v; return c
    for kx,ky in(("var","rec"),(("->>","var"),"rec"),("var",("->","rec")),("var",("->>","rec"))):
        nm=str(kx)+"/"+str(ky)
        c=occ(Case("free variable inside the compound term %s"%nm,kx,ky),None,None,1); c.calls={}; occ(c,c.x,c.y,1); judge("occurs",U_,c,{0},())
        c=Case("free variable not inside the compound term %s"%nm,kx,ky); occ(c,c.x,c.y,0); judge("occurs",U_,c,{1},[(c.x,c.y)])
        c=Case("compound term containing the free variable %s"%nm,ky,kx); occ(c,c.y,c.x,1); judge("occurs",U_,c,{0},())
        c=Case("compound term without the free variable %s"%nm,ky,kx); occ(c,c.y,c.x,0); judge("occurs",U_,c,{1},[(c.y,c.x)])
    # nothing switches the occurs check off
    for fn in P.fns.values():
        for i in fn.instrs():
            if i.op=="store":
                a=addr(fn,i.ops[1])
                if a[0]=="field" and a[2] in("tmp_unify_occcheck","tmp_unify_do_occcheck"):
                    if cint(i.ops[0]) in(None,0): R.bad("occurs",fn.name+" "+a[2],"%s:%d"%(fn.file,i.line),"the occurs check is switched off")
                    else: R.good("occurs",fn.name)
    # ---------------- compound terms
    def complex_rules(fn,elemfns,yes=1,no=0,metas=(),xk="rec",yk="rec",passno=None):
        nos=passno or [no]
        c=nelem(Case("compound terms of different length",xk,yk),(0,60)); c.cons=[z for z in c.cons if len(z[0][0])<2 or True]
        for lo,hi in((1,60),(-60,-1)):
            c=Case("compound terms of different length (%s longer)"%("first" if lo>0 else "second"),xk,yk); c.cons.append((lin(("sub",LX(c),LY(c))),lo,hi)); c.elems=1; elemcalls(c,yes,elemfns)
            judge("elements",fn,c,{no} if passno is None else {passno[-1]},())
        for z in nos:
            c=nelem(Case("compound terms, first elements do not agree%s"%("" if passno is None else " (%d)"%z),xk,yk),(1,60)); c.elems=0; elemcalls(c,z,elemfns); judge("elements",fn,meta(c,"none"),{z})
            for m in metas:
                if passno and len(nos)>1 and z!=nos[0]: continue
                c=nelem(Case("compound terms, summaries %s, first elements do not agree%s"%(m,"" if passno is None else " (%d)"%z),xk,yk),(1,60)); c.elems=0; elemcalls(c,z,elemfns); judge("elements",fn,meta(c,m),{z})
        for m in("none",)+tuple(metas):
            c=nelem(Case("compound terms, all elements agree, summaries %s"%m,xk,yk),(1,60)); c.elems=0; elemcalls(c,yes,elemfns if fn!=U_ or m.startswith("ground") else {U_})
            if fn not in(U_,M_,E_,N_):      # equality of elements is tested in place: let them be compound terms
                c.tagof=lambda e,c=c: c.tags.get(e) or (TAGS["rec"] if elem_of(c,e) and elem_of(c,e)[1][0]!="c" else None)
            judge("meta",fn,meta(c,m),{yes})
            c=nelem(Case("compound terms, all elements identical, summaries %s"%m,xk,yk),(1,60)); c.elems=1; elemcalls(c,yes,elemfns)
            judge("meta",fn,meta(c,m),{yes})
        extent(fn,xk,yk)
    def extent(fn,xk="rec",yk="rec"):
        """start, end, step and pairing of the element loop"""
        f=P.fn(fn); c=nelem(Case("",xk,yk),(1,60)); meta(c,"none"); MAP.clear(); MAP.update(c.map)
        v=View(f,{0:G,1:X,2:Y,3:U},c.scenario()); v.solve()
        # element loads: index expressions by record
        idx={c.x:{},c.y:{}}
        for b in v.res.blocks:
            for i in f.blocks[b].instrs:
                if i.op!="load": continue
                e=v.e(i.id)
                q=elem_of(c,e)
                if q and q[1][0]!="argn" and q[1] not in(("c",0),("c",3+K["TERM_META_POS"])): idx[q[0]].setdefault(q[1],i)
        hx=[h for h in idx[c.x] if h in idx[c.y]]
        loops=[(h,idx[c.x][h]) for h in hx if h[0]=="v" and f.defs[h[1]].op=="phi"]
        for h in hx:
            l=lin(h); k=[(t,q) for t,q in l[0].items() if t[0]=="v"]
            if len(k)==1 and (k[0][1]!=1): return R.bad("extent",fn,"%s:%d"%(f.file,idx[c.x][h].line),"%s: the elements are not walked one by one"%fn)
        for h in idx[c.x]:
            if h not in idx[c.y] and understood(h): return R.bad("extent",fn,"%s:%d"%(f.file,idx[c.x][h].line),"%s: an element of one term is read without its counterpart"%fn)
        odd=[h for h in list(idx[c.x])+list(idx[c.y]) if (h in idx[c.x])!=(h in idx[c.y])]
        if odd:
            for h in odd:
                l=lin(h)
                if any(t[0]=="v" and t in [z[0] for z in loops] for t in l[0]) or loops or len(idx[c.x])==len(idx[c.y])==1 and all(set(lin(a)[0])==set(lin(b)[0]) for a in idx[c.x] for b in idx[c.y]):
                    return R.bad("extent",fn,"%s:%d"%(f.file,(idx[c.x].get(h) or idx[c.y].get(h)).line),"%s: elements at different places are compared"%fn)
        if not loops: R.notes.append("undecided: element loop of %s has another form"%fn); return
        looprange(fn,f,v,f.defs[loops[0][0][1]],("add",("fld","unify_firstuseterm",G),("c",3)),lambda: ("add",lenof(c.x),("c",3)),c)
    def looprange(fn,f,v,phi,start,end,c):
        s0=[v.e(z) for z,p in zip(phi.ops,phi.x) if not(p in f.dom and phi.bb in f.dom[p])]
        st=[v.e(z) for z,p in zip(phi.ops,phi.x) if p in f.dom and phi.bb in f.dom[p]]
        me=("v",phi.id); bad=None
        for z in s0:
            if lin(("sub",z,start))!=({},0) : bad="starts at another element than the first after the summary fields"
        for z in st:
            if lin(("sub",z,me))!=({},1): bad="does not go on to the next element"
        ends=[norm(end())]+([norm(("add",lenof(c.y),("c",3)))] if c.y!=c.x else [])
        tests=0
        for b in shape.loop_body(f,phi.bb):
            t=f.blocks[b].term
            if t.op=="br" and len(t.x)==2 and any(z not in shape.loop_body(f,phi.bb) for z in t.x) and isinstance(t.ops[0],int):
                ci=f.defs.get(t.ops[0])
                if ci is None or ci.op!="icmp": continue
                a,b2=v.e(ci.ops[0]),v.e(ci.ops[1])
                for p,q,pr in((a,b2,ci.x[0]),(b2,a,{"slt":"sgt","sgt":"slt","sle":"sge","sge":"sle"}.get(ci.x[0],ci.x[0]))):
                    l=lin(("sub",p,me))
                    if l[0]: continue
                    k=l[1]      # i+k compared with q
                    stay=t.x[0] in shape.loop_body(f,phi.bb)
                    eff={"slt":0,"ult":0,"ne":0,"sle":1,"ule":1}.get(pr if stay else {"sge":"slt","uge":"ult","eq":"ne","sgt":"sle","ugt":"ule"}.get(pr))
                    lim=[lin(("sub",norm(q),e)) for e in ends]
                    if eff is None or not any(not z[0] for z in lim):
                        if understood(q) and eff is not None: bad=bad or "has another end than that of the record"
                        continue
                    tests+=1
                    off=[z[1]+eff-k for z in lim if not z[0]][0]
                    # test before the first element: k=0; after an element, on the next one: k=1 and first element unchecked
                    first=b==phi.bb
                    if off-(0 if first and k==0 else 0 if k==0 else -1+1)!=0: bad="ends %d element%s %s"%(abs(off),"" if abs(off)==1 else "s","early" if off<0 else "late")
        if bad: R.bad("extent",fn,"%s:%d"%(f.file,phi.line or f.line),"%s: the comparison of elements %s"%(fn,bad))
        elif tests: R.good("extent",fn)
        else: R.notes.append("undecided: end of the element loop of %s"%fn)
    complex_rules(U_,{U_}|EQF,metas=("var<","var>","var=","xground<","xground>","yground<","yground>","ground="))
    complex_rules(U_,{U_}|EQF,metas=("var<","var>"),xk=("->","rec"),yk=("->>","rec"))
    # ---------------- matching
    M_="wr_match_term_aux"
    def eqn(c,v):
        """outcome of an equality test of both operands, whether done in place or by a call"""
        for n in("wr_equal_term","wr_equal_term_macroaux",PR): c.calls[(n,((G,c.x,c.y,U),(G,c.y,c.x,U)))]=v
        return c
    def patterns(fn,rules="var"):
        for a in CONSTS:
            for b in CONSTS:
                for v in((0,1) if a in PTR and b in PTR and (a==b or a[:7]==b[:7]) and a!="longstr" else (0,)):
                    c=eqn(Case("%s and different %s, stored values %s"%(a,b,"agree" if v else "differ"),a,b),v); judge("const",fn,c,{v},())
            judge("const",fn,Case("%s and compound term"%a,a,"rec"),{0},())
            judge("const",fn,Case("%s and variable"%a,a,"var"),{0},())
            c=Case("compound term and %s"%a,"rec",a); judge("const",fn,c,{0},())
            c=Case("identical %s"%a,a,a,eq=True); judge("const",fn,c,{1},())
        judge("const",fn,Case("compound term and variable","rec","var"),{0},())
        for b in("smallint","shortstr","longstr","rec"):
            c=eqn(Case("bound variable and its own value (%s)"%b,("->",b),b,eq=True),1); judge("var",fn,c,{1},())
            c=eqn(Case("variable bound to another %s"%b,("->",b),b),0)
            judge("var",fn,c,{0},())
        c=eqn(Case("variable bound to an agreeing stored value",("->","double"),"double"),1); judge("var",fn,c,{1},())
        c=eqn(Case("variable bound to an equal compound term",("->","rec"),"rec"),1); judge("var",fn,c,{1},())
    patterns(M_)
    for b in CONSTS+["rec","var"]:
        c=Case("free pattern variable and %s"%b,"var",b); judge("var",M_,c,{1},[(c.x,c.y)])
    complex_rules(M_,{M_},metas=("var<","var=","ground=","yground<"))
    E_="wr_eqmodvars_term_aux"
    patterns(E_)
    c=Case("free pattern variable and variable","var","var"); judge("var",E_,c,{1},[(c.x,c.y)])
    for b in CONSTS+["rec"]:
        c=Case("free pattern variable and %s"%b,"var",b); judge("var",E_,c,{0},())
    complex_rules(E_,{M_,E_},metas=("var=","ground="))
    # ---------------- equality
    def equality(fn,self_,ismod=False):
        if fn!="wr_equal_term_macroaux":
            for a in TAGS: judge("const",fn,Case("identical %s"%a,a,a,eq=True),{1},())
        for a in TAGS:
            for b in TAGS:
                if "rec" in(a,b) and a==b: continue
                if ismod and a==b=="var": continue
                if fn=="wr_equal_term_macroaux" and not(a in PTR+["rec"] and b in PTR+["rec"]): continue
                c=prims(Case("%s and different %s"%(a,b),a,b),0); judge("const",fn,c,{0},())
        for a,b in(("fullint","fullint"),("fullint5","fullint"),("fullint","fullint5"),("double","double"),("shortstr","shortstr")):
            c=prims(Case("%s and %s of agreeing stored value"%(a,b),a,b),1); judge("const",fn,c,{1},())
        if fn=="wr_equal_term_macroaux" or True:
            complex_rules(fn,self_,metas=("var=","ground="))
    equality("wr_equal_term",EQF); equality("wr_equal_term_macroaux",EQF); equality("wr_equal_mod_vars_term",{"wr_equal_mod_vars_term"}|EQF,True)
    n=K["NROF_VARSINBANK"]
    for same in(0,1):
        c=Case("variables of %s number in their banks"%("equal" if same else "different"),"var","var")
        def ex(e,same=same):
            if e[0]=="cmp" and e[1] in("eq","ne"):
                def vn(z):
                    if z[0] in("srem","urem") and z[2]==("c",n):
                        w=z[1]
                        if w[0]=="call" and w[1]=="wg_decode_var": w=w[3]
                        elif w[0]=="ashr" and w[2]==("c",4): w=w[1]
                        else: return None
                        return w
                if {vn(e[2]),vn(e[3])}=={X,Y}: return int((e[1]=="eq")==bool(same))
            return None
        c.extra=ex
        judge("var","wr_equal_mod_vars_term",c,{same},())
    # ---------------- matching against variables marked as unique: 0 = matches
    N_="wr_nomatch_term_uniquevars"
    def nm(c,x,fn=N_):
        return c
    for b in TAGS:
        c=Case("pattern variable marked as unique and %s"%b,"var",b); c.consts[slot(X)]=0; judge("var",N_,c,{0},())
        if b!="rec":
            c=Case("pattern variable not marked and other %s"%b,"var",b); judge("var",N_,c,{1},())
    c=eqn(Case("pattern variable not marked and compound term","var","rec"),0); judge("var",N_,c,{1},())
    c=Case("same variable on both sides","var","var",eq=True); judge("var",N_,c,{0},())
    for a in CONSTS:
        judge("const",N_,Case("identical %s"%a,a,a,eq=True),{0},())
        judge("const",N_,Case("%s and variable"%a,a,"var"),{1},())
        judge("const",N_,Case("%s and compound term"%a,a,"rec"),{2},()); judge("const",N_,Case("compound term and %s"%a,"rec",a),{2},())
        for b in CONSTS:
            c=eqn(Case("%s and different %s"%(a,b),a,b),0); judge("const",N_,c,{2},())
    judge("const",N_,Case("compound term and variable","rec","var"),{1},())
    complex_rules(N_,{N_},yes=0,passno=[1,2],metas=("var=","ground=","var<"))
    # ---------------- occurs check
    O_="wr_occurs_in"
    def occase(name,kind,hit=None,recv=None,n=(1,60),ground=0):
        c=Case(name,"var","rec"); c.consts.pop(slot(X),None)
        for l in(LY(c),): c.cons.append((lin(("sub",l,("fld","unify_firstuseterm",G))),)+n)
        c.r[("fld","unify_firstuseterm",G)]=(1,4)
        m=el(Y,("c",3+K["TERM_META_POS"]))
        c.tags[m]=TAGS["smallint"]
        def isel(e): 
            q=elem_of(c,e); return q is not None and q[0]==Y and q[1]!=("c",0) and e!=m
        def eff(e):
            """the element's value, through its binding"""
            if isel(e): return "el"
            if e[0]=="ld" and e[1]==VB and e[2][0]=="ashr" and isel(e[2][1]): return "slot"
            if e[0]=="val" and isel(e[1]): return "val"
            return None
        def tag(e):
            w=eff(e)
            if w is None: return None
            if kind in TAGS: return TAGS[kind] if w=="el" else None
            if w=="el": return TAGS["var"]
            if w=="slot": return TAGS[kind[1]] if kind[0]=="->" else TAGS["var"]
            return TAGS[kind[1]]
        c.tagof=lambda e: c.tags.get(e) or tag(e)
        final={"el"} if kind in TAGS and kind!="var" else {"slot","val"} if kind!="var" and kind[0]=="->" else {"val"} if kind!="var" else {"el","val"}
        def ex(e):
            if e[0]=="and" and ((e[1]==("ashr",m,("c",3)) and e[2]==("c",GROUND)) or (e[1]==m and e[2]==("c",GROUND<<3))): return e[2][1] if ground else 0
            if e[0]=="cmp" and e[1] in("eq","ne") and X in(e[2],e[3]):
                o=e[2] if e[3]==X else e[3]
                if eff(o) in final: return int((e[1]=="eq")==bool(hit))
                if eff(o): return int(e[1]=="ne")       # a bound variable on the way is not the free one
            if e[0]=="cmp" and e[1] in("eq","ne") and ("c",255) in(e[2],e[3]):
                o=e[2] if e[3]==("c",255) else e[3]
                if eff(o)=="slot": return int((e[1]=="eq")==(kind=="var"))
            if e[0]=="call" and e[1]==O_ and e[2]==G and e[3]==X and eff(e[4]) in final and e[5]==("VBK",): return recv
            return None
        c.extra=ex
        return c
    oa={0:G,1:X,2:Y,3:("VBK",)}
    global VB
    # the banks are handed over as an argument here
    VB0=VB; VB=("VBK",)
    try:
        for kind in("var",("->","var"),("->>","var")):
            if kind==("->","var"): continue
            nmk="variable" if kind=="var" else "variable bound to a variable"
            judge("occurs",O_,occase("element is the %s searched for"%nmk,kind,hit=1),{1},args=oa)
            judge("occurs",O_,occase("elements are another %s"%nmk,kind,hit=0),{0},args=oa)
        for kind in("rec",("->","rec"),("->>","rec")):
            nmk="a compound term" if kind=="rec" else "a variable bound to a compound term"
            for v in(0,1): judge("occurs",O_,occase("element is %s %s %s"%(nmk,"containing" if v else "without","directly" if kind=="rec" or kind[0]=="->" else "by a chain"),kind,hit=0,recv=v),{v},args=oa)
        for kind in("smallint","longstr","char",("->","longstr")):
            judge("occurs",O_,occase("elements are constants (%s)"%str(kind),kind,hit=0),{0},args=oa)
        judge("occurs",O_,occase("term without elements","var",hit=1,n=(0,0)),{0},args=oa)
        f=P.fn(O_); c=occase("","var",hit=0); v=View(f,oa,c.scenario()); v.solve()
        for b in v.res.blocks:
            for i in f.blocks[b].instrs:
                q=elem_of(c,v.e(i.id)) if i.op=="load" else None
                if q and q[1][0]!="argn" and any(k!=1 for t,k in lin(q[1])[0].items() if t[0]=="v"): R.bad("extent",O_,"%s:%d"%(f.file,i.line),"%s: the elements are not walked one by one"%O_)
        ph=[f.defs[q[1][1]] for b in v.res.blocks for i in f.blocks[b].instrs if i.op=="load" for q in [elem_of(c,v.e(i.id))] if q and q[1][0]=="v" and f.defs[q[1][1]].op=="phi"]
        if ph: looprange(O_,f,v,ph[0],("add",("fld","unify_firstuseterm",G),("c",3)),lambda: ("add",lenof(Y),("c",3)),c)
        else: R.notes.append("undecided: element loop of wr_occurs_in")
    finally: VB=VB0
    # ---------------- value of a variable
    W_="wr_varval"; VBP=("VBK",); s1=("ld",VBP,("ashr",X,("c",4))); s2=("ld",VBP,("ashr",s1,("c",4)))
    sav=ival.HEADS.pop("wr_varval",None)
    for nm_,tags,consts,want in(("free variable",{},{s1:255},X),("variable bound to a constant",{s1:TAGS["longstr"]},{},s1),("variable bound to a compound term",{s1:TAGS["rec"]},{},s1),
            ("variable bound to a free variable",{s1:TAGS["var"]},{s2:255},s1),("variable bound to a bound variable",{s1:TAGS["var"],s2:TAGS["longstr"]},{},s2),("variable bound to a variable bound to a term",{s1:TAGS["var"],s2:TAGS["rec"]},{},s2)):
        c=Case(nm_,"var","rec"); c.tags=dict(tags); c.tags[X]=TAGS["var"]; c.consts=dict(consts); c.eqs={}
        f=P.fn(W_); v=View(f,{0:X,1:VBP},c.scenario()); v.solve(optimistic=True); ret=v.returns()
        if ret=={want}: R.good("deref",nm_)
        elif all(understood(z) for z in ret): R.bad("deref",nm_,loc(f),"wr_varval of a %s gives something else than %s"%(nm_,"the variable itself" if want==X else "the end of the chain"))
        else: R.notes.append("undecided: wr_varval of "+nm_)
    if sav: ival.HEADS["wr_varval"]=sav
    # ---------------- stored values
    Q_=PR; A,B=("X",),("Y",)
    def mirror(e):
        if e==A: return B
        if e==B: return A
        return tuple(mirror(z) if isinstance(z,tuple) else z for z in e)
    def reads(e,x):
        """reads the stored content through operand x"""
        if e==x: return False
        return contains(e,x) and not contains(e,B if x==A else A)
    def contains(e,x): return e==x or any(contains(z,x) for z in e[1:] if isinstance(z,tuple))
    def content(e): return e[0] in("ld","dd","call","fld","di") and (contains(e,A)!=contains(e,B)) or (e[0] in("add",) and False)
    for fl in(1,):
        for a in PTR:
            for b in PTR+["rec","smallint"]:
                samekind=a==b or (a[:7]=="fullint" and b[:7]=="fullint")
                for agree in((0,1) if samekind else (1,)):
                    if a==b=="longstr" and (fl==0): continue
                    c=Case("%s/%s stored content %s%s"%(a,b,"agrees" if agree else "differs","" if fl else " (strings not unique)"),a,b,fl=fl)
                    def ex(e,agree=agree):
                        if e[0]=="cmp" and e[1] in("eq","ne") and content(e[2]) and mirror(e[2])==e[3]: return int((e[1]=="eq")==bool(agree))
                        if e[0]=="call" and e[1] in("memcmp","bcmp","strncmp","wg_memcmp") and mirror(e[2])==e[3]:
                            if e[4][0]=="c" and e[4][1]>=K["SHORTSTR_SIZE"]: return 0 if agree else 1
                            return None
                        if e[0]=="call" and e[1]=="strcmp" and mirror(e[2])==e[3]: return 0 if agree else 1
                        return None
                    c.extra=ex
                    if content: 
                        c.consts[("rel",("dd",A),("dd",B))]=0 if agree else 1
                    want={1} if agree and samekind and a!="longstr" else {0}
                    judge("stored",Q_,c,want,(),args={0:G,1:A,2:B,3:("c",fl)})
    c=Case("identical long string","longstr","longstr",eq=True); judge("stored",Q_,c,{1},(),args={0:G,1:A,2:B,3:("c",1)})
    # ---------------- entry points
    for fn,aux,occ_ in(("wr_unify_term",U_,True),("wr_match_term",M_,False)):
        f=P.fn(fn)
        for v_ in(0,1):
            c=Case("answer %d"%v_,"rec","rec"); c.calls[(aux,((G,X,Y,U),))]=v_; c.consts.pop(U)
            judge("entry",fn,c,{v_})
        v=View(f,{0:G,1:X,2:Y,3:U},Scenario()); v.solve()
        st={}
        for i in f.instrs():
            if i.op=="store": st[v.e(i.ops[1])]=(v.e(i.ops[0]),i)
        w=st.get(("gepf","tmp_unify_vc",G))
        if not w or w[0]!=("elem",VS,("c",1)): R.bad("entry",fn+" trail",loc(f),"%s: the trail counter does not point to the trail"%fn)
        else: R.good("entry",fn)
        if occ_:
            for k in("tmp_unify_occcheck","tmp_unify_do_occcheck"):
                w=st.get(("gepf",k,G)); call=[i for i in f.instrs() if i.op=="call" and i.callee==aux]
                if not w or w[0]==("c",0): R.bad("entry",fn+" "+k,loc(f),"%s: starts without the occurs check switched on"%fn)
                elif call and not f.dominates(w[1],call[0]) if hasattr(f,"dominates") else False: R.bad("entry",fn+" "+k,loc(f),"%s: the occurs check is switched on too late"%fn)
                else: R.good("entry",fn+" "+k)
    # ---------------- undoing
    V=("VS",)
    for fn,level in(("wr_clear_varstack",("c",2)),("wr_clear_varstack_topslice",("lvl",))):
        f=P.fn(fn); av={0:G,1:V}
        if level!=("c",2): av[2]=("lvl",)
        cnt=("ld",V,("c",1))
        sc=Scenario({},[(lin(("sub",cnt,level)),1,1000)],{}); sc.r[cnt]=(3,100000)
        if level!=("c",2): sc.r[level]=(2,100000)
        v=View(f,av,sc); v.solve()
        clears=[]; sets=[]
        for b in v.res.blocks:
            for i in f.blocks[b].instrs:
                if i.op=="store":
                    a=v.e(i.ops[1])
                    if a==("elem",V,("c",1)): sets.append((v.e(i.ops[0]),i))
                    elif a[0]=="ld" or a[0]=="v": clears.append((v.e(i.ops[0]),a,i))
        if not sets or any(e!=level for e,_ in sets): R.bad("undo",fn+" level",loc(f),"%s: the trail is not reset to the kept level"%fn)
        elif not all(any(i.bb in f.dom[b.n] for _,i in sets) for b in f.blocks if b.term.op=="ret" and b.n in f.dom): R.bad("undo",fn+" level",loc(f),"%s: the trail is not reset on every path"%fn)
        else: R.good("undo",fn)
        if not clears: R.bad("undo",fn+" clear",loc(f),"%s: no recorded slot is cleared"%fn); continue
        for val,a,i in clears:
            if val!=("c",255): R.bad("undo",fn+" clear","%s:%d"%(f.file,i.line),"%s: a slot is set to something else than unassigned"%fn); continue
            # the cursor over the trail
            ad=f.defs.get(strip(f,i.ops[1])) if isinstance(strip(f,i.ops[1]),int) else None
            cur=inst_load_ptr(f,ad)
            phi=f.defs.get(cur) if isinstance(cur,int) else None
            h=None
            if phi is not None and phi.op=="phi": s0=[v.e(z) for z,p in zip(phi.ops,phi.x) if not(phi.bb in f.dom[p])]; st_=[v.e(z) for z,p in zip(phi.ops,phi.x) if phi.bb in f.dom[p]]
            else: R.notes.append("undecided: cursor of %s"%fn); continue
            me=("v",phi.id); bad=None
            def pos(e):
                if e[0]=="elem" and e[1]==V: return e[2]
                return None
            for z in s0:
                p=pos(z)
                if p is None: R.notes.append("undecided: start of %s"%fn); break
                if p!=level: bad="the first cleared slot is not the first one above the kept level"
            for z in st_:
                if not(z[0]=="elem" and z[1]==me and z[2]==("c",1)): bad=bad or "the next recorded slot is skipped"
            for b in shape.loop_body(f,phi.bb):
                t=f.blocks[b].term
                if t.op=="br" and len(t.x)==2 and any(z not in shape.loop_body(f,phi.bb) for z in t.x):
                    ci=f.defs.get(t.ops[0])
                    if ci is None or ci.op!="icmp": continue
                    x_,y_=v.e(ci.ops[0]),v.e(ci.ops[1]); pr=ci.x[0]
                    if y_==me: x_,y_,pr=y_,x_,{"ult":"ugt","ugt":"ult","ule":"uge","uge":"ule"}.get(pr,pr)
                    if x_!=me or pos(y_) is None: R.notes.append("undecided: end of %s"%fn); continue
                    stay=t.x[0] in shape.loop_body(f,phi.bb)
                    pr2=pr if stay else {"uge":"ult","ugt":"ule","eq":"ne"}.get(pr)
                    off={"ult":0,"ne":0,"slt":0,"ule":1}.get(pr2)
                    if off is None: continue
                    l=lin(("sub",pos(y_),cnt))
                    if l[0] or l[1]+off!=0: bad=bad or "the last recorded slots are not cleared"
            if bad: R.bad("undo",fn+" clear","%s:%d"%(f.file,i.line),"%s: %s"%(fn,bad))
            else: R.good("undo",fn+" clear")
        # an early exit must mean that nothing is recorded above the level
        for b in v.res.blocks:
            t=f.blocks[b].term
        if level==("c",2):
            sc=Scenario({cnt:(3,3)}); v2=View(f,av,sc); v2.solve()
            if not any(i.bb in v2.res.blocks for _,_,i in clears): R.bad("undo",fn+" single",loc(f),"%s: a single recorded binding is not cleared"%fn)
            else: R.good("undo",fn+" single")
    # ---------------- settings
    for k,want in(("unify_samelen",1),("unify_maxuseterms",0),("unify_firstuseterm",None)):
        st=[]
        for fn in P.fns.values():
            for i in fn.instrs():
                if i.op=="store":
                    a=addr(fn,i.ops[1])
                    if a[0]=="field" and a[2]==k: st.append((fn,i,cint(i.ops[0])))
        vals={z[2] for z in st}
        if not st: R.bad("config",k,"Reasoner/glb.c","the setting %s is never given a value"%k)
        elif None in vals: R.notes.append("undecided: value of "+k)
        elif want is not None and vals!={want}: R.bad("config",k,"%s:%d"%(st[0][0].file,st[0][1].line),"%s can be %s, the comparison functions are judged for %d"%(k,vals,want))
        elif want is None and (len(vals)!=1 or min(vals)<1+K["TERM_META_POS"]): R.bad("config",k,"%s:%d"%(st[0][0].file,st[0][1].line),"the compared part of a term includes its summary field, or differs between runs")
        else: R.good("config",k)
    R.note("scenarios undecided",nund[0])
    R.note("functions",[U_,M_,E_,N_,O_,W_,PR,"wr_equal_term","wr_equal_term_macroaux","wr_equal_mod_vars_term","wr_unify_term","wr_match_term","wr_clear_varstack","wr_clear_varstack_topslice"])
def inst_load_ptr(f,ad):
    if ad is None: return None
    if ad.op=="inttoptr": 
        o=strip(f,ad.ops[0]); ad=f.defs.get(o) if isinstance(o,int) else None
    if ad is not None and ad.op=="load": return strip(f,ad.ops[0])
    return None
if __name__=="__main__":
    check.main("C05","Conditional constant propagation with symbolic operands over LLVM IR: each comparison function is followed under every combination of operand kinds, bindings, equal or different contents, summary values and answers of the calls it makes, and its possible answers and bindings are compared with the definition of unification, one-sided matching and equality; loop extents are compared as linear forms.",run)
