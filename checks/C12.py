"""C12: built-in arithmetic, comparison, type and string functions compute what their definition says, or are left alone."""
import sys, os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"sa"))
from core import *; from ival import *; import check, build, shape, ival
FOLD=("wr_gint_add_checked","wr_gint_sub_checked","wr_gint_mul_checked","wr_double_to_gint_checked","wr_gint_divide","wr_arith_checked_add","wr_arith_checked_sub","wr_uri_is_unique","wr_uri_is_list")
G,T=("g",),("tptr",)
A1,A2,A3,FUN=[("arg",T,k) for k in(1,2,3,0)]
def di(x): return ("di",x)
def dd(x): return ("dd",x)
def lenof(rec): return ("sub",("ashr",("and",("ld",rec,("c",0)),("c",-4)),("c",3)),("c",3))
FIRST=("fld","unify_firstuseterm",G)
UNEV=norm(("sub",T,("fld","db",G)))
def longrec(rec=T,g=G): return (lin(("sub",lenof(rec),("fld","unify_firstuseterm",g))),8,60)
class Eval:
    """possible results of a computed term, through the dispatcher and whatever it calls"""
    def __init__(s,P,tv): s.P=P; s.TRUE,s.FALSE=tv; s.open=[]; s.views=[]; s.depth=0
    def run(s,fn,args,sc):
        f=s.P.fn(fn)
        def hook(e,orig=sc.decide):
            if orig:
                c=orig(e)
                if c is not None: return c
            if e[0]=="call" and e[1].startswith("wr_compute_") and e[1] in s.P.fns and s.depth<4:
                r=s.sub(e,sc0)
                if len(r)==1:
                    x=list(r)[0]
                    if x[0]=="c": return x[1]
                    nonconst.add(e)     # some term, not a truth value
            return None
        sc0=sc; nonconst=set()
        v=View(f,dict(enumerate(args)),Scenario(sc.r,sc.cons,sc.consts,hook,sc.name)); v.sc.nonconst=nonconst; v.solve(); s.views.append(v)
        s.open+=v.open_branches()
        out=set()
        for e in v.returns():
            if e[0]=="call" and e[1].startswith("wr_compute_") and e[1] in s.P.fns and s.depth<4: out|=s.sub(e,sc)
            else: out.add(e)
        return out
    def sub(s,e,sc):
        s.depth+=1
        try: return s.run(e[1],list(e[2:]),sc)
        finally: s.depth-=1
def strip_enc(e,TV):
    if e==("c",TV[0]): return "true"
    if e==("c",TV[1]): return "false"
    if e==UNEV: return "unevaluated"
    if e[0]=="call" and e[1]=="wg_get_field" and contains(e[3],A1) and e[4][0]=="c": return ("FF",e[4][1])
    if e[0]=="arg" and e[1]!=T and contains(e[1],A1): return ("FF",e[2]+1)
    if e[0]=="call" and e[1]=="wg_encode_int": return ("int",norm(e[3]))
    if e[0]=="call" and e[1]=="wg_encode_double": return ("dbl",fnorm(e[3]))
    return e
def fnorm(e):
    if e[0]=="fsub" and e[1]==("f",0.0): return ("fneg",e[2])
    if e[0] in("fadd","fmul"): return (e[0],)+tuple(sorted(e[1:],key=repr))
    return e
def say(e):
    """readable form"""
    if isinstance(e,str): return e
    if e[0]=="c" or e[0]=="f": return str(e[1])
    if e[0]=="arg": return "argument %d"%e[2] if e[2] else "functor"
    if e[0] in("di","dd","sitofp"): return say(e[1])
    if e[0] in("int","dbl"): return "%s %s"%({"int":"integer","dbl":"real"}[e[0]],say(e[1]))
    if e[0] in("add","sub","mul","sdiv","srem","fadd","fsub","fmul","fdiv"): return "(%s %s %s)"%(say(e[1]),{"add":"+","sub":"-","mul":"*","sdiv":"/","srem":"%","fadd":"+","fsub":"-","fmul":"*","fdiv":"/"}[e[0]],say(e[2]))
    if e[0]=="call": return "%s(%s)"%(e[1],",".join(say(z) for z in e[2:]))
    if e[0]=="FF": return "field %d of the argument"%e[1]
    if e[0] in("fptosi","fneg","uri","pre"): return "%s(%s)"%({"fptosi":"int","fneg":"-","uri":"name","pre":"prefix"}[e[0]],say(e[1]))
    return e[0]
def run(R):
    P=Prog("gkc",fold=FOLD)
    TV=shape.truthconsts(P); TV=(TV["ACONST_TRUE"],TV["ACONST_FALSE"])
    names=[l.split()[1] for l in open(os.path.join(build.REPO,"Reasoner/build.h")) if l.startswith("#define COMP_FUN_")]
    C=build.macros(names,"Reasoner/rincludes.h")
    TY=build.macros(["WG_INTTYPE","WG_DOUBLETYPE","WG_URITYPE","WG_RECORDTYPE","WG_VARTYPE","WG_ANONCONSTTYPE"],"Reasoner/rincludes.h")
    INT,DBL,URI,REC,VAR,ANON=[TY[k] for k in("WG_INTTYPE","WG_DOUBLETYPE","WG_URITYPE","WG_RECORDTYPE","WG_VARTYPE","WG_ANONCONSTTYPE")]
    DISP="wr_compute_from_termptr"
    where="Reasoner/build.c"
    und=[0]; nsc=[0]
    def judge(rule,key,title,comp,sc,allowed,must=None,fn=DISP,args=None,exactopen=False):
        """all results must be among allowed; and one of must has to be among them"""
        E=Eval(P,TV)
        res={strip_enc(e,TV) if fn==DISP else e for e in E.run(fn,args or [G,T,("c",comp)],sc)}
        nsc[0]+=1
        al=set(allowed); wrong=[e for e in res if e not in al]
        opaque=[e for e in wrong if not known_form(e)]
        if opaque or (wrong and E.open and (res&al) and not exactopen):
            # a result this check has no form for, or conditions it cannot follow: not decided
            und[0]+=1; R.good(rule,None,0); R.notes.append("undecided: %s (%s)"%(title,key)); dbg(res,E); return res
        loc=where
        for v in E.views[-1:]: loc="%s:%d"%(v.f.file,v.f.line)
        if wrong: R.bad(rule,key,loc,"%s: the result can be %s, it has to be %s"%(title,", ".join(sorted(map(say,wrong))),", ".join(sorted(map(say,al)))))
        elif must is not None and not (res&set(must)): R.bad(rule,key,loc,"%s: never gives %s (only %s)"%(title,", ".join(sorted(map(say,must))),", ".join(sorted(map(say,res))) or "nothing"))
        else: R.good(rule,title)
        return res
    def known_form(e):
        if isinstance(e,str): return True
        if e[0] in("c","f","arg","di","dd","FF"): return True
        if e[0] in("v","k","p","fld","ld","elem","trunc","and","or","xor","ashr","lshr","shl"): return False
        if e[0]=="call" and e[1] not in("floor","ceil","trunc","round","strlen","wg_get_field"): return False
        return all(known_form(z) for z in e[1:] if isinstance(z,tuple))
    LONG=[longrec()]
    # ---- names
    R.rule("names","a functor is treated as a built-in exactly under its documented name",40)
    TABLE={"$sum":"PLUS","$product":"MULT","$difference":"MINUS","$quotient":"DIV","$less":"LESS","$lesseq":"LESSEQ","$greater":"GREATER","$greatereq":"GREATEREQ",
      "$to_int":"TO_INT","$to_real":"TO_REAL","$floor":"FLOOR","$ceiling":"CEILING","$truncate":"TRUNCATE","$round":"ROUND","$uminus":"UMINUS","$first":"FIRST","$rest":"REST",
      "$strlen":"STRLEN","$substr":"IS_SUBSTR","$substrat":"IS_SUBSTRAT","$quotient_e":"QUOTIENT_E","$quotient_t":"QUOTIENT_T","$quotient_f":"QUOTIENT_F",
      "$remainder":"REMAINDER_E","$remainder_e":"REMAINDER_E","$remainder_t":"REMAINDER_T","$remainder_f":"REMAINDER_F",
      "$is_int":"IS_INT","$is_real":"IS_REAL","$is_number":"IS_NUMBER","$is_list":"IS_LIST","$is_distinct":"IS_UNIQUE",
      "=":"EQUAL","+":"PLUS","-":"MINUS","*":"MULT","/":"DIV"}
    OTHER=["a","p","ab","sum","less","$sumx","$su","$ans","$pr","$list","$nil","$is_","$is_intx","$quotient_x","$remainder_x","$","==","++","=a","0","A",""]
    def namehook(subj,name,prefix=None,also=None):
        def h(e):
            if e[0]=="ld" and e[1]==("uri",subj) and e[2][0]=="c":
                k=e[2][1]; return ord(name[k]) if k<len(name) else 0 if k==len(name) else None
            if e[0]=="call" and e[1] in("strcmp","strncmp","strlen"):
                z=[x for x in e[2:4]]
                if e[1]=="strlen" and e[2]==("uri",subj): return len(name)
                if ("uri",subj) in z:
                    o=[x for x in z if x!=("uri",subj)]
                    if len(o)==1 and o[0][0]=="str":
                        a,b=name,o[0][1]
                        if e[1]=="strncmp":
                            if e[4][0]!="c": return None
                            a,b=a[:e[4][1]],b[:e[4][1]]
                        return 0 if a==b else (1 if (a>b)==(z[0]==("uri",subj)) else -1)
            if e==("pre",subj): return None if prefix else 0
            if e[0]=="ld" and e[1]==("pre",subj) and e[2][0]=="c" and prefix:
                k=e[2][1]; return ord(prefix[k]) if k<len(prefix) else 0 if k==len(prefix) else None
            return also(e) if also else None
        return h
    nn={("uri",FUN):(1,1<<48),("uri",A1):(1,1<<48),("uri",A2):(1,1<<48),("pre",FUN):(1,1<<48),("pre",A1):(1,1<<48),("pre",A2):(1,1<<48)}
    def nsc_(name,arith,prefix=None): return Scenario(nn,[],{("ty",FUN):URI,("fld","use_comp_arithmetic",G):arith},namehook(FUN,name,prefix))
    CT="wr_computable_termptr"
    for n,c in TABLE.items():
        judge("names",n,"the name %s"%n,0,nsc_(n,1),[("c",C["COMP_FUN_"+c])],fn=CT,args=[G,T])
        if n!="=": judge("names",n+"|off","the name %s without arithmetic"%n,0,nsc_(n,0),[("c",0)],fn=CT,args=[G,T])
    judge("names","=|off","the name = without arithmetic",0,nsc_("=",0),[("c",C["COMP_FUN_EQUAL"])],fn=CT,args=[G,T])
    for n in OTHER:
        for pf in(None,): judge("names","other "+n,"the name '%s'"%n,0,nsc_(n,1,pf),[("c",0)],fn=CT,args=[G,T])
    for n in("=","+","-","*","/","a"): judge("names","prefixed "+n,"the name '%s' inside a namespace or quotes"%n,0,nsc_(n,1,"x"),[("c",0)],fn=CT,args=[G,T])
    for t in(INT,DBL,REC,VAR,ANON): judge("names","type %d"%t,"a functor that is not a name",0,Scenario(nn,[],{("ty",FUN):t,("fld","use_comp_arithmetic",G):1}),[("c",0)],fn=CT,args=[G,T])
    # ---- integer arithmetic
    R.rule("integers","on two integers a binary operation gives exactly its mathematical value",60)
    a,b=di(A1),di(A2); q,r=("sdiv",a,b),("srem",a,b)
    types=lambda x,y:{("ty",A1):x,("ty",A2):y}
    def both(x): return [("int",norm(x))]
    signs=[((1,1000),"a>0"),((-1000,-2),"a<0")]; bs=[((2,1000),"b>0"),((-1000,-2),"b<0")]
    for cn,ex in(("PLUS",("add",a,b)),("MINUS",("sub",a,b)),("MULT",("mul",a,b)),("DIV",q)):
        for ra,na in signs:
            if cn=="MULT" and ra[0]==1: ra=(2,1000)
            for rb,nb in bs:
                judge("integers","%s %s %s"%(cn,na,nb),"%s of integers, %s, %s"%(cn,na,nb),C["COMP_FUN_"+cn],Scenario({a:ra,b:rb},LONG,types(INT,INT)),both(ex))
    for (x,y,e) in((0,(1,1000),("c",0)),((1,1000),0,("c",0)),(-1,(2,1000),("sub",("c",0),b)),((2,1000),-1,("sub",("c",0),a)),(1,(2,1000),b),((2,1000),1,a)):
        rx=(x,x) if isinstance(x,int) else x; ry=(y,y) if isinstance(y,int) else y
        judge("integers","MULT %s %s"%(rx,ry),"MULT of integers in %s and %s"%(rx,ry),C["COMP_FUN_MULT"],Scenario({a:rx,b:ry},LONG,types(INT,INT)),both(e)+both(subst(("mul",a,b),a if rx[0]==rx[1] else b,rx[0] if rx[0]==rx[1] else ry[0]))+both(("mul",a,b)))
    def qr(kind,rs,rb):
        """expected quotient and remainder"""
        if rs[0]==0==rs[1] or kind=="T": return q,r
        neg=rs[1]<0; bneg=rb[1]<0
        if kind=="E":
            if not neg: return q,r
            return (("sub",q,("c",1)),("add",r,b)) if not bneg else (("add",q,("c",1)),("sub",r,b))
        if neg==bneg: return q,r
        return ("sub",q,("c",1)),("add",r,b)
    for kind in "ETF":
        for ra,na in signs:
            for rb,nb in bs:
                for rs,nr in(((0,0),"exact"),((1,900) if ra[0]>0 else (-900,-1),"inexact")):
                    eq,er=qr(kind,rs,rb)
                    for cn,ex in(("QUOTIENT_",eq),("REMAINDER_",er)):
                        ok=both(ex)
                        if rs==(0,0) and cn=="REMAINDER_": ok+=both(("c",0))
                        judge("integers","%s%s %s %s %s"%(cn,kind,na,nb,nr),"%s%s of integers, %s, %s, %s"%(cn,kind,na,nb,nr),C["COMP_FUN_"+cn+kind],Scenario({a:ra,b:rb,r:rs},LONG,types(INT,INT)),ok)
    R.rule("undefined","an operation without a representable value (overflow, zero divisor, not a number) leaves the term as it is",60)
    DIVS=["DIV"]+["%s_%s"%(x,y) for x in("QUOTIENT","REMAINDER") for y in "ETF"]
    for cn in DIVS:
        for ra,na in signs: judge("undefined",cn+" by zero "+na,"%s of integers by zero"%cn,C["COMP_FUN_"+cn],Scenario({a:ra,b:(0,0)},LONG,types(INT,INT)),["unevaluated"])
    for cn in DIVS: judge("undefined",cn+" MIN/-1","%s of the smallest integer by -1"%cn,C["COMP_FUN_"+cn],Scenario({a:(MIN,MIN),b:(-1,-1)},LONG,types(INT,INT)),["unevaluated"]+([("int",("c",0))] if cn.startswith("REM") else []))
    for cn,op in(("PLUS","add"),("MINUS","sub"),("MULT","mul")):
        for sc,n in overflow(op,a,b):
            sc.cons+=LONG; sc.consts.update(types(INT,INT))
            judge("undefined","%s overflow %s"%(cn,n),"%s of integers with overflow (%s)"%(cn,n),C["COMP_FUN_"+cn],sc,["unevaluated"])
    judge("undefined","UMINUS MIN","UMINUS of the smallest integer",C["COMP_FUN_UMINUS"],Scenario({a:(MIN,MIN)},LONG,types(INT,INT)),["unevaluated"])
    BIN=["PLUS","MINUS","MULT"]+DIVS
    NONNUM=[(URI,"a constant"),(REC,"a compound term"),(VAR,"a variable"),(ANON,"a Skolem constant")]
    for cn in BIN+["LESS","LESSEQ","GREATER","GREATEREQ"]:
        for t,n in NONNUM:
            for x,y,k in((t,INT,1),(INT,t,2),(t,DBL,1),(DBL,t,2)):
                judge("undefined","%s %d %d"%(cn,x,y),"%s with %s as argument %d"%(cn,n,k),C["COMP_FUN_"+cn],Scenario(nn,LONG,types(x,y),eqhook(0)),["unevaluated"])
    # ---- reals
    R.rule("reals","with a real operand a binary operation gives the value of the operation on reals, rounded to integer in the direction its name says",40)
    for x,y in((DBL,DBL),(INT,DBL),(DBL,INT)):
        A=dd(A1) if x==DBL else ("sitofp",a); B=dd(A2) if y==DBL else ("sitofp",b)
        tn="%s,%s"%("real" if x==DBL else "integer","real" if y==DBL else "integer")
        for rb,nb in(((2,1000),"b>0"),((-1000,-2),"b<0")):
            rr={A:(1,1000),B:rb}
            if x==INT: rr[a]=(1,1000)
            if y==INT: rr[b]=rb
            S=lambda **k:Scenario(dict(rr,**k),LONG,types(x,y))
            for cn,ex in(("PLUS",("fadd",A,B)),("MINUS",("fsub",A,B)),("MULT",("fmul",A,B)),("DIV",("fdiv",A,B))):
                judge("reals","%s %s %s"%(cn,tn,nb),"%s of %s, %s"%(cn,tn,nb),C["COMP_FUN_"+cn],S(),[("dbl",fnorm(ex))])
                for inf in(INF,-INF):
                    sc=S(); sc.r[ex]=(inf,inf)
                    if ex[0]in("fadd","fmul"): sc.r[(ex[0],ex[2],ex[1])]=(inf,inf)
                    judge("undefined","%s %s infinite"%(cn,tn),"%s of %s with an infinite result"%(cn,tn),C["COMP_FUN_"+cn],sc,["unevaluated"])
            Q=("fdiv",A,B)
            for kind,ro in(("E","ceil" if rb[0]<0 else "floor"),("T","trunc"),("F","floor")):
                ex=("call",ro,Q)
                judge("reals","QUOTIENT_%s %s %s"%(kind,tn,nb),"QUOTIENT_%s of %s, %s"%(kind,tn,nb),C["COMP_FUN_QUOTIENT_"+kind],S(),[("int",("fptosi",ex))])
                for v,vn in(((1<<63),"large"),(-(1<<64),"small"),(INF,"infinite")):
                    sc=S(); sc.r[ex]=(v,v)
                    judge("undefined","QUOTIENT_%s %s %s"%(kind,tn,vn),"QUOTIENT_%s of %s with a too %s quotient"%(kind,tn,vn),C["COMP_FUN_QUOTIENT_"+kind],sc,["unevaluated"])
                ia,ib=("fptosi",A),("fptosi",B); rem=("srem",ia,ib)
                intg={("rel",A,("sitofp",ia)):0,("rel",B,("sitofp",ib)):0}
                for rs in((0,0),(1,900)):
                    sc=S(); sc.consts.update(intg); sc.r.update({ia:(1,1000),ib:rb,rem:rs})
                    bneg=rb[0]<0
                    e=("add",rem,ib) if rs[0] and bneg and kind=="F" else rem
                    judge("reals","REMAINDER_%s %s %s %s"%(kind,tn,nb,rs),"REMAINDER_%s of whole %s, %s"%(kind,tn,nb),C["COMP_FUN_REMAINDER_"+kind],sc,both(e)+([("int",("c",0))] if rs==(0,0) else []))
                for w,(E_,i_) in enumerate(((A,ia),(B,ib))):
                    if (x,y)[w]==INT: continue
                    sc=S(); sc.consts.update(intg); sc.consts[("rel",E_,("sitofp",i_))]=1; sc.r.update({ia:(1,1000),ib:rb})
                    judge("undefined","REMAINDER_%s %s fraction %d"%(kind,tn,w+1),"REMAINDER_%s with a fraction as argument %d"%(kind,w+1),C["COMP_FUN_REMAINDER_"+kind],sc,["unevaluated"])
        for cn in DIVS:
            sc=Scenario({A:(1,1000),B:(0,0),b:(0,0),a:(1,1000)},LONG,types(x,y)); sc.r[("fptosi",B)]=(0,0)
            judge("undefined","%s %s by zero"%(cn,tn),"%s of %s by zero"%(cn,tn),C["COMP_FUN_"+cn],sc,["unevaluated"])
    # ---- comparisons
    R.rule("compare","a comparison of numbers is decided by their values",24)
    EXP={"LESS":(1,0,0),"LESSEQ":(1,1,0),"GREATER":(0,0,1),"GREATEREQ":(0,1,1)}
    tf=lambda v:["true" if v else "false"]
    for cn,(lt,eq_,gt) in EXP.items():
        code=C["COMP_FUN_"+cn]
        d=lin(("sub",a,b))
        judge("compare",cn+" int <","%s of integers a<b"%cn,code,Scenario({},LONG+[(d,-1000,-1)],types(INT,INT),eqhook(0)),tf(lt))
        judge("compare",cn+" int >","%s of integers a>b"%cn,code,Scenario({},LONG+[(d,1,1000)],types(INT,INT),eqhook(0)),tf(gt))
        judge("compare",cn+" same","%s of a number with itself"%cn,code,Scenario({},LONG+[(d,0,0)],types(INT,INT),eqhook(1)),tf(eq_))
        for x,y in((DBL,DBL),(INT,DBL),(DBL,INT)):
            A=dd(A1) if x==DBL else ("sitofp",a); B=dd(A2) if y==DBL else ("sitofp",b)
            for rel,v in((-1,lt),(0,eq_),(1,gt)):
                judge("compare","%s %d %d rel %d"%(cn,x,y,rel),"%s of numbers with a %s b, types %d %d"%(cn,{-1:"<",0:"=",1:">"}[rel],x,y),code,Scenario({A:(-1000,1000),B:(-1000,1000)},LONG,dict(types(x,y),**{("rel",A,B):rel} ) if 0 else upd(types(x,y),("rel",A,B),rel),eqhook(0)),tf(v))
    # ---- equality
    R.rule("equal","an equality of ground typed values is decided; it is true only for identical terms and false only between numbers, distinct symbols and lists",40)
    KIND={"integer":(INT,None),"real":(DBL,None),"distinct symbol":(URI,"#"),"empty list":(URI,"$nil"),"list":(REC,"list"),"constant":(URI,"c"),"compound term":(REC,"f"),"variable":(VAR,None),"Skolem constant":(ANON,None)}
    def khook(k1,k2,eqv):
        hs=[]
        for A,k in((A1,k1),(A2,k2)):
            t,n=KIND[k]
            if t==URI: hs.append(namehook(A,{"#":"ab","$nil":"$nil","c":"c"}[n],"#" if n=="#" else None))
        def h(e):
            if e[0]=="call" and e[1]=="wr_equal_term" and e[2:5]==(G,A1,A2): return eqv
            if e[0]=="call" and e[1]=="wr_record_is_list":
                for A,k in((A1,k1),(A2,k2)):
                    if contains(e,A): return int(k=="list")
            for z in hs:
                c=z(e)
                if c is not None: return c
            return None
        return h
    TYPED={"integer","real","distinct symbol","empty list","list"}
    for k1 in KIND:
        for k2 in KIND:
            sc=Scenario(nn,LONG,types(KIND[k1][0],KIND[k2][0]),khook(k1,k2,0))
            if k1 in TYPED and k2 in TYPED and not(k1=="list" and k2=="list"):
                al=["false"] if not {k1,k2}=={"integer","real"} else ["false","unevaluated"]
                judge("equal","%s|%s"%(k1,k2),"equality of a different %s and %s"%(k1,k2),C["COMP_FUN_EQUAL"],sc,al)
            elif not(k1=="list" and k2=="list"):
                judge("equal","%s|%s"%(k1,k2),"equality of a %s and a different %s"%(k1,k2),C["COMP_FUN_EQUAL"],sc,["unevaluated"])
            judge("equal","same %s|%s"%(k1,k2),"equality of equal terms",C["COMP_FUN_EQUAL"],Scenario(nn,LONG,types(KIND[k1][0],KIND[k2][0]),khook(k1,k2,1)),["true"])
    # ---- one argument
    R.rule("unary","type tests answer by the type of the argument and conversions round in the direction their name says",40)
    def un(cn,kind,allowed,must=None,rng=None,**kw):
        t=KIND[kind][0]
        sc=Scenario(dict(nn),[(lin(("sub",lenof(T),FIRST)),2,2)],{("ty",A1):t},listhook(khook(kind,"integer",0),kind))
        if rng: sc.r.update(rng)
        judge("unary","%s %s%s"%(cn,kind,kw.get("tag","")),"%s of a %s%s"%(cn,kind,kw.get("tag","")),C["COMP_FUN_"+cn],sc,allowed,must)
    def listhook(h,kind):
        def k(e):
            if e[0]=="call" and e[1]=="wr_record_is_list": return int(kind=="list")
            if e[0]=="ty" and e[1][0]=="call" and e[1][1]=="wg_get_field": return URI
            # functor of the argument
            if e[0] in("ld",) and e[1][0]=="uri" and e[1][1][0]=="call" and e[2][0]=="c":
                n="$list" if kind=="list" else "f"; j=e[2][1]
                return ord(n[j]) if j<len(n) else 0 if j==len(n) else None
            return h(e)
        return k
    X=dd(A1)
    fin={X:(-1000,1000)}
    for cn,v in(("IS_INT",1),("IS_REAL",0),("IS_NUMBER",1),("IS_LIST",0),("IS_UNIQUE",0)): un(cn,"integer",tf(v))
    for cn,v in(("IS_INT",0),("IS_REAL",1),("IS_NUMBER",1),("IS_LIST",0),("IS_UNIQUE",0)): un(cn,"real",tf(v),rng=fin)
    for cn,v in(("IS_INT",0),("IS_REAL",0),("IS_NUMBER",0),("IS_LIST",0),("IS_UNIQUE",1)): un(cn,"distinct symbol",tf(v))
    un("IS_LIST","empty list",["true"]); un("IS_LIST","list",["true","unevaluated"],["true"]); un("IS_UNIQUE","list",["false","unevaluated"],["false"])
    un("FIRST","list",["unevaluated"]+fieldforms(P,2),fieldforms(P,2)); un("REST","list",["unevaluated"]+fieldforms(P,3),fieldforms(P,3))
    un("STRLEN","distinct symbol",[("int",("call","strlen",("uri",A1)))])
    for cn in("TO_INT","FLOOR","CEILING","TRUNCATE","ROUND"): un(cn,"integer",[A1,("int",a)])
    un("TO_REAL","integer",[("dbl",("sitofp",a))]); un("UMINUS","integer",both(("sub",("c",0),a)),rng={a:(-1000,1000)})
    un("TO_REAL","real",[A1,("dbl",X)],rng=fin); un("UMINUS","real",[("dbl",("fneg",X))],rng=fin)
    for cn,ro in(("TO_INT","floor"),("FLOOR","floor"),("CEILING","ceil"),("TRUNCATE","trunc"),("ROUND","round")):
        un(cn,"real",[("int",("fptosi",("call",ro,X)))],rng=fin)
        for v,vn in(((1<<63),"too large"),(-(1<<64),"too small"),(INF,"infinite")):
            un(cn,"real",["unevaluated"],rng={X:(v,v),("call",ro,X):(v,v)},tag=" that is "+vn)
    un("UMINUS","real",["unevaluated"],rng={X:(INF,INF)},tag=" that is infinite")
    for cn in("TO_INT","TO_REAL","FLOOR","CEILING","TRUNCATE","ROUND","UMINUS","IS_INT","IS_REAL","IS_NUMBER","IS_UNIQUE","IS_LIST","STRLEN","FIRST","REST"):
        for k in("constant","compound term","variable","Skolem constant"): un(cn,k,["unevaluated"])
    for cn in("TO_INT","TO_REAL","FLOOR","CEILING","TRUNCATE","ROUND","UMINUS"): un(cn,"distinct symbol",["unevaluated"])
    for cn in("STRLEN",):
        for k in("integer","real"): un(cn,k,["unevaluated"])
    # ---- strings
    R.rule("strings","string tests are decided for distinct symbols only, by their whole text, and never read outside of it",10)
    U1,U2=("uri",A1),("uri",A2); L1,L2=("call","strlen",U1),("call","strlen",U2); c3=di(A3)
    def pfx(p1,p2,extra):
        def h(e):
            for A,p in((A1,p1),(A2,p2)):
                if e==("pre",A): return None if p else 0
                if e[0]=="ld" and e[1]==("pre",A) and e[2][0]=="c" and p:
                    k=e[2][1]; return ord(p[k]) if k<len(p) else 0 if k==len(p) else None
            return extra(e)
        return h
    def strs(cn,p1,p2,extra,allowed,tag,ranges={},cons=(),t=(URI,URI,INT),must=None):
        sc=Scenario(dict(nn,**{}),LONG+list(cons),{("ty",A1):t[0],("ty",A2):t[1],("ty",A3):t[2]},pfx(p1,p2,extra)); sc.r.update(ranges)
        return judge("strings","%s %s"%(cn,tag),"%s %s"%(cn,tag),C["COMP_FUN_"+cn],sc,allowed,must,exactopen=True)
    no=lambda e:None
    ss=("call","strstr",U2,U1)
    for v,w in((0,"false"),(None,"true")):
        sc={ss:(1,1<<48)} if v is None else {}
        usesstr=any(i.callee=="strstr" for f in P.fns.values() if f.file=="Reasoner/build.c" for i in f.calls())
        if usesstr: strs("IS_SUBSTR","#","#",lambda e:0 if(v==0 and e==ss) else None,[w],"when the first does%s occur in the second"%("" if w=="true" else " not"),sc)
    inr={c3:(0,10),L1:(1,10),L2:(30,40)}
    def cmp_(val):
        def h(e):
            if e[0]=="call" and e[1] in("memcmp","strncmp","bcmp") and norm(e[4])==L1:
                x=[e[2],e[3]]; y=[z for z in x if z!=U1]
                if len(y)==1 and y[0][0]=="elem" and y[0][1]==U2 and y[0][2]==c3: return val
            return None
        return h
    usesmem=any(i.callee in("memcmp","strncmp","bcmp") for f in P.fns.values() if f.name.startswith("wr_compute_") for i in f.calls())
    if usesmem:
        for v,w in((0,"true"),(1,"false"),(-1,"false")): strs("IS_SUBSTRAT","#","#",cmp_(v),[w],"with texts that compare %d"%v,inr)
    for n,rg,cons in(("a negative position",dict(inr,**{c3:(-10,-1)}) if 0 else upd(inr,c3,(-10,-1)),[]),("a position past the end",upd(inr,c3,(50,60)),[]),("a pattern reaching past the end",{c3:(0,40),L1:(1,40),L2:(30,40)},[(lin(("sub",("add",c3,L1),L2)),1,40)])):
        strs("IS_SUBSTRAT","#","#",no,["unevaluated","false"],"at "+n,rg,cons)
    for cn in("IS_SUBSTR","IS_SUBSTRAT"):
        for p1,p2 in((None,"#"),("#",None),("x","#"),("#","x")): strs(cn,p1,p2,no,["unevaluated"],"with an ordinary constant %s %s"%(p1,p2),inr)
        for t in((INT,URI,INT),(URI,INT,INT),(URI,REC,INT),(VAR,URI,INT)): strs(cn,"#","#",no,["unevaluated"],"with types %s"%(t,),inr,t=t)
    for t in(DBL,URI,REC,VAR): strs("IS_SUBSTRAT","#","#",no,["unevaluated"],"with a position of type %d"%t,inr,t=(URI,URI,t))
    # ---- arity
    R.rule("arity","an argument of a term recognised only by its functor is read only when the term has that argument",10)
    files={"Reasoner/build.c","Reasoner/arithinst.c"}
    nload=0
    for f in P.fns.values():
        if f.file not in files or not(f.name.startswith("wr_compute_") or f.file=="Reasoner/arithinst.c"): continue
        v0=View(f); obs={}
        for i in f.instrs():
            if i.op!="load": continue
            e=v0.e(i.id)
            if e[0]=="arg" and e[2]>=1: obs.setdefault((e[1],e[2]),[]).append(i)
        for (rec,k),ls in obs.items():
            fl=None
            # g is the first argument
            sc=Scenario({},[(lin(("sub",lenof(rec),("fld","unify_firstuseterm",("p",0)))),-60,k)])
            v=View(f,{},sc); res=v.solve()
            for i in ls:
                if i.bb in res.blocks: R.bad("arity","%s arg %d"%(f.name,k),i.loc(),"%s() reads argument %d of a term that may have fewer arguments"%(f.name,k))
                else: R.good("arity","%s argument %d (%s)"%(f.name,k,i.loc()))
    # ---- overflow
    R.rule("overflow","no signed operation on integers taken from terms can overflow or divide by zero",12)
    for f in P.fns.values():
        if f.file not in files: continue
        v0=View(f)
        for i in f.instrs():
            if i.ty!="i64" or i.op not in("add","sub","mul","sdiv","srem"): continue
            x,y=v0.e(i.ops[0]),v0.e(i.ops[1])
            if not(isval(x) or isval(y)): continue
            bad=None
            if i.op in("sdiv","srem"):
                scs=[]
                if y[0]!="c": scs+=[(Scenario({y:(0,0)}),"a zero divisor")]
                if y==("c",-1) or y[0]!="c":
                    if x[0]!="c" or x[1]==MIN:
                        sc=Scenario({} if x[0]=="c" else {x:(MIN,MIN)}); 
                        if y[0]!="c": sc.r[y]=(-1,-1)
                        scs.append((sc,"the smallest integer divided by -1"))
                if y==("c",0): bad="a zero divisor"
            else:
                if not getattr(i,"nsw",True) and not isnsw(i): continue
                scs=overflow(i.op,x,y)
            for sc,n in scs:
                v=View(f,{},sc)
                if not v.tighten(): continue
                res=v.solve()
                if i.bb in res.blocks: bad=n
            if bad: R.bad("overflow","%s %s"%(f.name,i.op),i.loc(),"%s() computes %s %s %s where %s is possible"%(f.name,say(x),{"add":"+","sub":"-","mul":"*","sdiv":"/","srem":"%"}[i.op],say(y),bad))
            else: R.good("overflow","%s %s (%s)"%(f.name,i.op,i.loc()))
    R.rule("toint","a real is converted to an integer only when it is finite and in range",8)
    for f in P.fns.values():
        if f.file not in files: continue
        v0=View(f)
        for i in f.instrs():
            if i.op!="fptosi": continue
            x=v0.e(i.ops[0]); bad=None
            for v,n in(((1<<63),"too large"),(-(1<<63)-2048,"too small"),(float("nan"),"not a number"),(INF,"infinite")):
                v1=View(f,{},Scenario({x:(v,v)})); res=v1.solve()
                if i.bb in res.blocks: bad=n; break
            if bad: R.bad("toint",f.name,i.loc(),"%s() converts %s to an integer when it may be %s"%(f.name,say(x),bad))
            else: R.good("toint","%s (%s)"%(f.name,i.loc()))
    # ---- narrowing
    R.rule("narrow","an integer constant keeps all its bits between input, term and output",4)
    SRC={"strtol","strtoll","atol","atoll","wg_decode_int"}; src_n=0
    for f in P.fns.values():
        if not f.file.startswith(("Parser/","Printer/","Reasoner/","Db/","Builtparser/")): continue
        for i in f.instrs():
            if i.op=="call" and i.callee=="wg_encode_int":
                o=i.ops[1]; src_n+=1
                p=narrowed(f,o,SRC)
                if p: R.bad("narrow","%s encode"%f.name,i.loc(),"%s() makes an integer constant out of %s cut to 32 bits"%(f.name,p))
                elif srcof(f,o,SRC|{"atoi"}): R.good("narrow","%s makes an integer constant (%s)"%(f.name,i.loc()))
            elif i.op=="call" and i.callee in("snprintf","printf","sprintf","fprintf","wr_printf","wr_str_snprintf","wr_push_cvec_str"):
                if f.file.startswith("Reasoner/"): continue     # those print record numbers and step positions
                for o in i.ops:
                    if srcof(f,o,{"wg_decode_int"}):
                        p=narrowed(f,o,{"wg_decode_int"})
                        if p: R.bad("narrow","%s print"%f.name,i.loc(),"%s() prints %s cut to 32 bits"%(f.name,p))
                        else: R.good("narrow","%s prints an integer constant (%s)"%(f.name,i.loc()))
    R.note("scenarios",nsc[0]); R.note("undecided_scenarios",und[0])
    R.assume=["wr_equal_term answers correctly (C05)","a functor's name is read with wg_decode_uri"]
def dbg(res,E):
    if "-d" in sys.argv: print(res,[(o.loc()) for o in E.open])
def upd(d,k,v):
    d=dict(d); d[k]=v; return d
def contains(e,x):
    if e==x: return True
    return isinstance(e,tuple) and any(contains(z,x) for z in e[1:] if isinstance(z,tuple))
def eqhook(v):
    def h(e):
        if e[0]=="call" and e[1]=="wr_equal_term" and e[2:5] in((G,A1,A2),(G,A2,A1)): return v
        return None
    return h
def fieldforms(P,k):
    """forms of 'element k of the argument': wg_get_field(db,argument,k) or a direct load"""
    return [("FF",k)]
def isval(e):
    if e[0]=="di": return True
    if e[0]=="fld" and e[1]=="integer_value": return True
    if e[0]=="fptosi": return True
    return e[0] in("add","sub","mul","sdiv","srem") and any(isval(z) for z in e[1:] if isinstance(z,tuple))
def isnsw(i): return i.x=="nsw" or (isinstance(i.x,(list,tuple)) and "nsw" in i.x)
def overflow(op,x,y):
    """scenarios in which op(x,y) does not fit"""
    out=[]
    if op in("add","sub"):
        l=lin((op,x,y))
        out.append((Scenario({},[(l,MAX+1,2*MAX+2)]),"too large")); out.append((Scenario({},[(l,2*MIN-2,MIN-1)]),"too small"))
        res=[]
        for sc,n in out:
            # every sign combination of the operands that can lead there
            ts=[t for t in l[0] if t[0]!="c"]
            for m in range(1<<len(ts)):
                rg={t:((1,1<<47 if t[:2]==("call","strlen") else MAX) if m>>k&1 else (MIN,0)) for k,t in enumerate(ts)}
                lo=hi=l[1]
                for t,c in l[0].items():
                    p,q=rg[t][0]*c,rg[t][1]*c; lo+=min(p,q); hi+=max(p,q)
                if hi<sc.cons[0][1] or lo>sc.cons[0][2]: continue
                res.append((Scenario(rg,sc.cons),n))
        return [z for z in res if tight(z[0])]
    # mul
    for x_,y_ in((x,y),):
        if x[0]=="c" or y[0]=="c":
            c,t=(x[1],y) if x[0]=="c" else (y[1],x)
            if c in(0,1): return []
            q=MAX//abs(c)
            return [(Scenario({t:(q+1,MAX)}),"overflow"),(Scenario({t:(MIN,-q-2)}),"overflow")]
        l=lin(("mul",x,y))
        big=(MAX+1,MAX*MAX); small=(MIN*MAX,MIN-1)
        for rx,ry,b in(((2,MAX),(2,MAX),big),((MIN,-2),(MIN,-2),big),((2,MAX),(MIN,-2),small),((MIN,-2),(2,MAX),small)):
            out.append((Scenario({x:rx,y:ry},[(l,)+b]),"overflow"))
        out.append((Scenario({x:(-1,-1),y:(MIN,MIN)}),"the smallest integer times -1")); out.append((Scenario({x:(MIN,MIN),y:(-1,-1)}),"the smallest integer times -1"))
    return out
def tight(sc):
    class F: pass
    v=View.__new__(View); v.sc=sc; v.alias={}; v.memo={}; v.args={}; v.f=None
    return v.tighten()
def subst(e,x,c):
    if e==x: return ("c",c)
    return tuple(subst(z,x,c) if isinstance(z,tuple) else z for z in e)
def srcof(f,o,SRC,seen=None):
    """name of a source call this value is (a cast or merge of)"""
    seen=seen if seen is not None else set()
    if not isinstance(o,int) or o in seen: return None
    seen.add(o); i=f.defs.get(o)
    if i is None: return None
    if i.op=="call": return i.callee if i.callee in SRC else None
    if i.op in("sext","zext","trunc","freeze","phi","select","add","sub"):
        for z in (i.ops[1:] if i.op=="select" else i.ops):
            r=srcof(f,z,SRC,seen)
            if r: return r
    return None
def narrowed(f,o,SRC,seen=None):
    seen=seen if seen is not None else set()
    if not isinstance(o,int) or o in seen: return None
    seen.add(o); i=f.defs.get(o)
    if i is None: return None
    if i.op=="trunc" and i.ty in("i32","i16","i8"):
        return srcof(f,i.ops[0],SRC)
    if i.op=="call" and i.callee in("atoi",): return "a number"
    if i.op in("sext","zext","freeze","phi","select","add","sub"):
        for z in (i.ops[1:] if i.op=="select" else i.ops):
            r=narrowed(f,z,SRC,seen)
            if r: return r
    return None
if __name__=="__main__":
    check.main("C12","Conditional constant propagation with interval and linear-form facts over LLVM IR: every built-in is followed through the dispatcher under each class of argument (types, signs, remainder signs, overflow, zero divisors) and the form of the value it encodes is compared with its definition. No value is ever run.",run)
