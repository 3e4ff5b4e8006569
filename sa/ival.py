"""Interval and linear-form reasoning over named unknowns, as an oracle for conditional constant propagation.

A Scenario states facts about unknowns (ranges of expressions, bounds on linear forms, nullness, types). solve() runs
sccp under these facts and repeats it with merge points resolved while fewer edges turn out to be possible.  Everything is
an over-approximation of the executions that satisfy the facts."""
from core import *
import sccp
INF=float("inf")
MIN,MAX=-(1<<63),(1<<63)-1
def CANON(e):
    """arguments of a term record: ('arg',record,k)"""
    l=lin(e[2])
    if len(l[0])==1:
        (t,c),=l[0].items()
        if c==1 and t[0]=="fld" and t[1] in("unify_funarg1pos","unify_funarg2pos","unify_funpos"):
            k=l[1]-3+{"unify_funarg1pos":1,"unify_funarg2pos":2,"unify_funpos":0}[t[1]]
            if k>=0: return ("arg",e[1],k)
    return e
CASTS=("freeze","bitcast","fpext")
class Scenario:
    def __init__(s,ranges=None,cons=(),consts=None,decide=None,name=""):
        s.r=dict(ranges or {})      # expr -> (lo,hi)
        s.cons=list(cons)           # (linform dict, lo, hi) about mathematical (unwrapped) values
        s.consts=dict(consts or {}) # expr -> int (for calls, loads, pointer nullness as 0/1)
        s.decide=decide             # f(expr)->int|None
        s.cmphook=None              # f(pred,x,y)->int|None
        s.name=name; s.nonconst=()
def lin(e):
    """expr -> (dict expr->coef, const)"""
    if e[0]=="c": return {},e[1]
    if e[0] in("add","sub"):
        (a,x),(b,y)=lin(e[1]),lin(e[2]); k=1 if e[0]=="add" else -1
        r=dict(a)
        for t,c in b.items():
            r[t]=r.get(t,0)+k*c
            if not r[t]: del r[t]
        return r,x+k*y
    if e[0]=="mul":
        (a,x),(b,y)=lin(e[1]),lin(e[2])
        if not a: return {t:c*x for t,c in b.items() if c*x},x*y
        if not b: return {t:c*y for t,c in a.items() if c*y},x*y
        if len(a)==1 and len(b)==1 and not x and not y and list(a.values())==[1] and list(b.values())==[1]:
            p,q=list(a)[0],list(b)[0]
            for u,v in((p,q),(q,p)):
                if u[0]=="sdiv" and u[2]==v:       # (a/b)*b = a - a%b
                    l,k=lin(u[1]); l=dict(l); t=("srem",u[1],u[2]); l[t]=l.get(t,0)-1; return l,k
            return {("mul",)+tuple(sorted((p,q),key=repr)):1},0
        return {e:1},0
    if e[0]=="shl" and e[2][0]=="c" and 0<=e[2][1]<62:
        a,x=lin(e[1]); k=1<<e[2][1]; return {t:c*k for t,c in a.items()},x*k
    if e[0]=="neg": 
        a,x=lin(e[1]); return {t:-c for t,c in a.items()},-x
    return {e:1},0
def lkey(l): return (frozenset(l[0].items()),l[1])
class View:
    """expressions of one function under a scenario, with arguments bound to expressions"""
    def __init__(s,f,args=None,sc=None):
        s.f=f; s.args=args or {}; s.sc=sc or Scenario(); s.alias={}; s.memo={}
    # ---- expressions
    def e(s,o,d=0):
        if isinstance(o,str):
            if o.startswith("c:"): return ("c",int(o[2:]))
            if o.startswith("f:"):
                try: return ("f",int(o[2:]) if o[2:].lstrip("-").isdigit() and len(o)>8 else float(o[2:]))
                except ValueError: return ("f?",o)
            if o=="null": return ("c",0)
            if o.startswith("@"):
                g=gstring(s.f.prog,o)
                if g is not None: return ("str",g)
            return ("k",o)
        if isinstance(o,list):
            c=cint(o)
            if c is not None: return ("c",c)
            g=gstring(s.f.prog,o)
            if g is not None: return ("str",g)
            return ("k",repr(o))
        if o<len(s.f.args): return s.args.get(o,("p",o))
        if o in s.memo: return s.memo[o]
        s.memo[o]=("v",o)
        r=s._e(o,d); s.memo[o]=r
        return r
    def _e(s,o,d):
        f=s.f; i=f.defs[o]; op=i.op
        if o in s.alias: return s.e(s.alias[o],d+1)
        if op in CASTS: return s.e(i.ops[0],d+1)
        if op in("sext","zext"):
            e=s.e(i.ops[0],d+1)
            if i.x=="i1" and op=="sext" and e[0]=="c": return ("c",-e[1])
            return e
        if op=="trunc":
            e=s.e(i.ops[0],d+1)
            if e[0]=="c": return e
            lo,hi=s.rng(e); b={"i32":31,"i16":15,"i8":7}.get(i.ty)
            if b and lo>=-(1<<b) and hi<(1<<b): return e
            return ("trunc",i.ty,e)
        if op in("ptrtoint","inttoptr"): return s.e(i.ops[0],d+1)
        if op=="phi":
            return ("v",o)
        if op=="select": return ("v",o)
        if op=="getelementptr":
            a=addr(f,o)
            if a[0]=="field":
                if any(cint(z)!=0 for z in a[4] if isinstance(z,int) or cint(z) is None): pass
                return ("gepf",a[2],s.e(a[3],d+1))
            if a[0]=="elem" and len(i.ops)==2:
                b=s.e(a[1],d+1); x=s.e(a[2],d+1)
                if i.x[0]=="i8" and b[0]=="fld" and b[1]=="db": return norm(("add",b,x))    # offset in the database
                if b[0]=="elem": return ("elem",b[1],norm(("add",b[2],x)))
                return ("elem",b,norm(x))
            return ("v",o)
        if op=="load":
            p=s.e(i.ops[0],d+1)
            if p[0]=="gepf": return ("fld",p[1],p[2])
            if p[0]=="elem": return CANON(("ld",p[1],p[2]))
            if p[0] in("v","k"): 
                a=addr(f,i.ops[0])
                if a[0]=="field": return ("fld",a[2],s.e(a[3],d+1))
                return ("v",o)
            return ("ld",p,("c",0))
        if op in("add","sub","mul","sdiv","srem","and","or","xor","shl","ashr","lshr","udiv","urem"):
            x,y=s.e(i.ops[0],d+1),s.e(i.ops[1],d+1)
            if op in("add","sub","mul"): return norm((op,x,y))
            return (op,x,y)
        if op in("fadd","fsub","fmul","fdiv"): return (op,s.e(i.ops[0],d+1),s.e(i.ops[1],d+1))
        if op in("fneg","sitofp","fptosi"): return (op,s.e(i.ops[0],d+1))
        if op in("icmp","fcmp"): return (op,i.x[0] if isinstance(i.x,list) else i.x,s.e(i.ops[0],d+1),s.e(i.ops[1],d+1))
        if op=="call" and i.callee:
            n=i.callee
            a=tuple(s.e(z,d+1) for z in i.ops)
            h=HEADS.get(n)
            if h: return h(a)
            return ("call",n)+a
        return ("v",o)
    # ---- ranges
    def rng(s,e):
        if e[0]=="c": return (e[1],e[1])
        if e[0]=="f": return (e[1],e[1])
        c=s.sc.consts.get(e)
        if c is not None: return (c,c)
        r=s.sc.r.get(e)
        if r: return r
        if e[0] in("add","sub","mul"):
            l=lin(e)
            if not(len(l[0])==1 and e in l[0]): return s.rlin(l)
        if e[0]=="mul":
            a,b=s.rng(e[1]),s.rng(e[2])
            p=[mulx(x,y) for x in a for y in b]; return (min(p),max(p))
        if e[0]=="sdiv":
            (al,ah),(bl,bh)=s.rng(e[1]),s.rng(e[2])
            if bl>0 or bh<0:
                q=[]
                for x in(al,ah):
                    for y in(bl,bh): q.append(tdiv(x,y))
                if al<=0<=ah: q.append(0)
                return (min(q),max(q))
            return (MIN,MAX)
        if e[0]=="srem":
            (al,ah),(bl,bh)=s.rng(e[1]),s.rng(e[2])
            m=max(abs(bl),abs(bh))-1
            return (max(-m,al) if al<0 else 0,min(m,ah) if ah>0 else 0)
        if e[0]=="and":
            for z in(e[1],e[2]):
                r=s.rng(z)
                if r[0]>=0: return (0,r[1])
        if e[0]=="ashr" and e[1][0]=="and" and e[1][2]==("c",-4): return (0,1<<28)     # length of a record
        if e[0]=="call" and e[1]=="strlen": return (0,1<<47)
        if e[0]=="sitofp": return s.rng(e[1])
        if e[0]=="fneg":
            lo,hi=s.rng(e[1]); return (-hi,-lo)
        if e[0] in("fadd","fsub"):
            (al,ah),(bl,bh)=s.rng(e[1]),s.rng(e[2])
            r=(al+bl,ah+bh) if e[0]=="fadd" else (al-bh,ah-bl)
            return r if r[0]==r[0] and r[1]==r[1] else (-INF,INF)
        if e[0]=="fmul":
            a,b=s.rng(e[1]),s.rng(e[2]); p=[mulx(x,y) for x in a for y in b]; return (min(p),max(p))
        if e[0]=="fdiv":
            a,(bl,bh)=s.rng(e[1]),s.rng(e[2])
            if bl>0 or bh<0:
                q=[]
                for x in a:
                    for y in(bl,bh):
                        if abs(x)==INF and abs(y)==INF: return (-INF,INF)
                        q.append(x/y)
                return (min(q),max(q))
            return (-INF,INF)
        if e[0]=="fptosi": 
            lo,hi=s.rng(e[1]); return (max(lo,MIN),min(hi,MAX))
        if e[0]=="call" and e[1] in("floor","ceil","trunc","round") and len(e)==3:
            lo,hi=s.rng(e[2]); return (lo-1,hi+1)
        if e[0] in("dd","fadd","fsub","fmul","fdiv","call","fneg"): return (-INF,INF)
        return (MIN,MAX)
    def rlin(s,l):
        """range of a linear form, using the constraints"""
        lo=hi=l[1]
        for t,c in l[0].items():
            a,b=s.rng(t)
            p,q=mulx(a,c),mulx(b,c); lo+=min(p,q); hi+=max(p,q)
        if l[0]:
            k=frozenset(l[0].items()); kn=frozenset((t,-c) for t,c in l[0].items())
            for f,cl,ch in s.sc.cons:
                kf=frozenset(f[0].items())
                if kf==k: lo=max(lo,cl-f[1]+l[1]); hi=min(hi,ch-f[1]+l[1])
                elif kf==kn: lo=max(lo,-(ch-f[1])+l[1]); hi=min(hi,-(cl-f[1])+l[1])
        return lo,hi
    def tighten(s):
        """ranges of the unknowns from the constraints"""
        for _ in range(3):
            for f,cl,ch in s.sc.cons:
                for t,c in f[0].items():
                    lo,hi=s.rng(t)
                    ol,oh=f[1],f[1]
                    for u,k in f[0].items():
                        if u==t: continue
                        a,b=s.rng(u); p,q=mulx(a,k),mulx(b,k); ol+=min(p,q); oh+=max(p,q)
                    # cl <= c*t + other <= ch
                    a,b=cl-oh,ch-ol
                    if c==1: lo,hi=max(lo,a),min(hi,b)
                    elif c==-1: lo,hi=max(lo,-b),min(hi,-a)
                    s.sc.r[t]=(lo,hi)
                    if t[0]=="sdiv" and (hi<-(1<<62) or lo>(1<<62)):
                        s.sc.r[("srem",t[1],t[2])]=(0,0)   # such a quotient only for a divisor of 1 or -1
        return all(lo<=hi for lo,hi in s.sc.r.values())
    # ---- decisions
    def decide(s,i):
        op=i.op
        if op=="icmp":
            x,y=s.e(i.ops[0]),s.e(i.ops[1]); p=i.x[0]
            return s.cmp(p,x,y)
        if op=="fcmp":
            x,y=s.e(i.ops[0]),s.e(i.ops[1]); p=i.x[0]
            return s.fcmp(p,x,y)
        if op in("call","load","and"):
            e=s.e(i.id)
            return s.known(e)
        return None
    def known(s,e):
        c=s.sc.consts.get(e)
        if c is not None: return c
        if s.sc.decide:
            c=s.sc.decide(e)
            if c is not None: return c
        if e[0]=="call" and e[1].startswith("llvm.is.fpclass") and e[3]==("c",504):
            if e[2] in s.sc.r:
                lo,hi=s.sc.r[e[2]]
                if lo!=lo: return 0
            lo,hi=s.rng(e[2])
            if lo>-INF and hi<INF: return 1
            if lo==hi and abs(lo)==INF: return 0
        r=s.sc.r.get(e)
        if r and r[0]==r[1] and isinstance(r[0],int): return r[0]
        return None
    def cmp(s,p,x,y):
        if s.sc.cmphook:
            c=s.sc.cmphook(p,x,y)
            if c is not None: return c
        if x==y: return int(p in("eq","sge","sle","uge","ule"))
        for a,b in((x,y),(y,x)):
            if b==("c",0) and p in("eq","ne") and a[0] in("xor","or","and"):
                pass
        # sign of an xor
        if x[0]=="xor" and y==("c",0) and p in("slt","sge"):
            a,b=s.sgn(x[1]),s.sgn(x[2])
            if a is not None and b is not None: return int((a!=b)==(p=="slt"))
        # x against C/y when x*y is known to be out of range
        for a,b,pp in((x,y,p),(y,x,{"sgt":"slt","slt":"sgt","sge":"sle","sle":"sge"}.get(p,p))):
            if b[0]=="sdiv" and b[1][0]=="c" and b[1][1] in(MIN,MAX):
                l=lin(("mul",a,b[2]))
                lo,hi=s.rlin(l)
                if (lo>MAX and b[1][1]==MAX) or (hi<MIN and b[1][1]==MIN):
                    sg=s.sgn(a)
                    if sg is not None:
                        if sg==0: return {"sgt":1,"sge":1,"slt":0,"sle":0,"eq":0,"ne":1}.get(pp)
                        return {"sgt":0,"sge":0,"slt":1,"sle":1,"eq":0,"ne":1}.get(pp)
        kx,ky=s.known(x) if x[0] not in("c",) else x[1],s.known(y) if y[0]!="c" else y[1]
        if p in("eq","ne"):
            for z,w in((x,y),(y,x)):
                if z in s.sc.nonconst and w[0]=="c": return int(p=="ne")
        if isinstance(kx,int) and isinstance(ky,int):
            return sccp_cmp(p,kx,ky)
        if x[0] in("v","k","p","str") or y[0] in("v","k","p","str"): 
            if not(x[0] in("v","p") and x in s.sc.r) and not(y[0] in("v","p") and y in s.sc.r): return None
        d=lin(("sub",x,y)); lo,hi=s.rlin(d)
        if p=="eq": return 0 if(lo>0 or hi<0) else 1 if lo==hi==0 else None
        if p=="ne": return 1 if(lo>0 or hi<0) else 0 if lo==hi==0 else None
        if p[0]=="u":
            if s.rng(x)[0]<0 or s.rng(y)[0]<0: return None
            p="s"+p[1:]
        if p=="sgt": return 1 if lo>0 else 0 if hi<=0 else None
        if p=="sge": return 1 if lo>=0 else 0 if hi<0 else None
        if p=="slt": return 1 if hi<0 else 0 if lo>=0 else None
        if p=="sle": return 1 if hi<=0 else 0 if lo>0 else None
        return None
    def sgn(s,e):
        """1 negative, 0 nonnegative"""
        lo,hi=s.rng(e)
        if e[0] in("add","sub","mul"): lo,hi=s.rlin(lin(e))
        if hi<0: return 1
        if lo>=0: return 0
        return None
    def fcmp(s,p,x,y):
        nan=False
        for z in(x,y):
            lo,hi=s.rng(z)
            if lo!=lo: nan=True
        if nan: return int(p[0]=="u" and p!="uno" or p=="uno") if p!="ord" else 0
        rel=s.sc.consts.get(("rel",x,y))
        if rel is None:
            r2=s.sc.consts.get(("rel",y,x))
            if r2 is not None: rel=-r2
        if rel is None and x==y: rel=0 if x in s.sc.r or x[0]=="f" else None
        if rel is None:
            (al,ah),(bl,bh)=s.rng(x),s.rng(y)
            q=p[1:]
            if p in("ord","uno"): return None
            if al>-INF or ah<INF or bl>-INF or bh<INF or True:
                t={"lt":(ah<bl,al>=bh),"le":(ah<=bl,al>bh),"gt":(al>bh,ah<=bl),"ge":(al>=bh,ah<bl),"eq":(al==ah==bl==bh,ah<bl or al>bh),"ne":(ah<bl or al>bh,al==ah==bl==bh)}.get(q)
                if t is None: return None
                if t[0]: return 1
                if t[1]: return 0
            return None
        return {"lt":rel<0,"le":rel<=0,"gt":rel>0,"ge":rel>=0,"eq":rel==0,"ne":rel!=0}.get(p[1:],None) and 1 if p not in("ord","uno") else int(p=="ord")
    # ---- solving
    def entries(s):
        """loop counters and cursors, taken as their value on entry until the loop turns out to go round"""
        f=s.f; out={}
        for b in f.blocks:
            if b.n not in f.dom: continue
            back={p for p in b.preds if p in f.dom and b.n in f.dom[p]}
            if not back: continue
            for i in b.instrs:
                if i.op=="phi":
                    vs=[z for z,p in zip(i.ops,i.x) if p not in back]
                    if vs and all(z==vs[0] for z in vs) and vs[0]!="undef": out[i.id]=(vs[0],b.n,back)
        return out
    def solve(s,rounds=6,optimistic=False):
        """optimistic: assume that loops do not go round and drop the assumption for those that do (the assumption is
        kept only where it is confirmed by its own result, as in conditional constant propagation)"""
        if not optimistic: return s._solve(rounds,{})
        pre=s.entries()
        while True:
            s.alias={}
            s._solve(rounds,{k:v[0] for k,v in pre.items()})
            bad=[k for k,(v,h,back) in pre.items() if any((p,h) in s.res.edges for p in back)]
            if not bad: return s.res
            for k in bad: del pre[k]
    def _solve(s,rounds,pre):
        f=s.f; res=None; sig=None
        args={k:e[1] for k,e in s.args.items() if e[0]=="c"}
        s.alias=dict(pre)
        for _ in range(rounds):
            s.memo={}
            res=sccp.solve(f,lambda i:(lambda v:None if v is None else int(v))(s.decide(i)) if i.op in("icmp","fcmp","call","load","and") else None,args)
            al=dict(pre)
            for b in res.blocks:
                for i in f.blocks[b].instrs:
                    if i.op=="phi" and i.id not in pre:
                        vs=[z for z,p in zip(i.ops,i.x) if (p,b) in res.edges and z!="undef" and z!=i.id]
                        if not vs: continue
                        if all(z==vs[0] for z in vs): al[i.id]=vs[0]
                        else:
                            v=res.val(i.id)
                            if v is not None: al[i.id]="c:%d"%v
                            else:
                                s.alias=dict(s.alias)
                                es={s.e(z) for z in vs}
                                if len(es)==1 and list(es)[0][0]!="v": al[i.id]=vs[0]
                    elif i.op=="select":
                        c=res.val(i.ops[0])
                        if c is not None: al[i.id]=i.ops[1] if c else i.ops[2]
            k=(frozenset(res.edges),frozenset((a,repr(b)) for a,b in al.items()))
            if k==sig: break
            sig=k; s.alias=al
        s.memo={}
        s.res=res
        return res
    def open_branches(s):
        """executable two-way branches whose condition the scenario leaves open"""
        out=[]
        for b in s.res.blocks:
            t=s.f.blocks[b].term
            if t.op=="br" and len(t.x)==2 and t.x[0]!=t.x[1] and s.res.val(t.ops[0]) is None: out.append(t)
            elif t.op=="switch" and s.res.val(t.ops[0]) is None: out.append(t)
        return out
    def values(s,o,b,d=0):
        """possible expressions of operand o at block b"""
        if isinstance(o,int) and o in s.alias and d<12: return s.values(s.alias[o],b,d+1)
        i=s.f.defs.get(o) if isinstance(o,int) else None
        if i is not None and i.op in("sext","zext","bitcast","freeze") and d<12: return s.values(i.ops[0],b,d+1)
        if i is not None and i.op=="phi" and d<12:
            r=set()
            for z,p in zip(i.ops,i.x):
                if (p,i.bb) in s.res.edges and z!="undef": r|=s.values(z,p,d+1)
            return r
        if i is not None and i.op=="select" and d<12:
            return s.values(i.ops[1],b,d+1)|s.values(i.ops[2],b,d+1)
        v=s.res.val(o)
        if v is not None: return {("c",v)}
        return {s.e(o)}
    def returns(s):
        out=set()
        for b in s.res.blocks:
            t=s.f.blocks[b].term
            if t.op=="ret" and t.ops: out|=s.values(t.ops[0],b)
        return out
def norm(e):
    l=lin(e)
    if not l[0]: return ("c",l[1])
    if len(l[0])==1 and not l[1] and list(l[0].values())==[1]: return list(l[0])[0]
    # canonical sum
    r=None
    for t,c in sorted(l[0].items(),key=lambda z:(-z[1],repr(z[0]))):
        u=t if abs(c)==1 else ("mul",t,("c",abs(c)))
        if r is None: r=u if c>0 else ("sub",("c",0),u)
        else: r=("add" if c>0 else "sub",r,u)
    if l[1]: r=("add",r,("c",l[1]))
    return r
def mulx(x,y):
    if x==0 or y==0: return 0
    return x*y
def tdiv(x,y):
    if abs(x)==INF: return x if y>0 else -x
    if abs(y)==INF: return 0
    q=abs(x)//abs(y); return q if (x>=0)==(y>0) else -q
def sccp_cmp(p,a,b):
    u=lambda z:z if z>=0 else z+(1<<64)
    return int({"eq":a==b,"ne":a!=b,"sgt":a>b,"sge":a>=b,"slt":a<b,"sle":a<=b,"ugt":u(a)>u(b),"uge":u(a)>=u(b),"ult":u(a)<u(b),"ule":u(a)<=u(b)}[p])
HEADS={"wg_decode_int":lambda a:("di",a[1]),"wg_decode_double":lambda a:("dd",a[1]),"wg_get_encoded_type":lambda a:("ty",a[1]),
       "wg_decode_uri":lambda a:("uri",a[1]),"wg_decode_uri_prefix":lambda a:("pre",a[1]),
       "llvm.floor.f64":lambda a:("call","floor",a[0]),"llvm.ceil.f64":lambda a:("call","ceil",a[0]),"llvm.trunc.f64":lambda a:("call","trunc",a[0]),"llvm.round.f64":lambda a:("call","round",a[0])}
