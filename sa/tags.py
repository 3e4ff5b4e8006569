"""Type tags of encoded values: for every value the set of possible low bytes (256-bit mask) on each path, and the places
where a value is used as the offset of a record, number or string."""
from core import *
from shape import *
from prov import Prov
ALL=(1<<256)-1
def maskset(m,k):
    """low bytes b with b & m == k (m, k may exceed a byte: only the low byte decides)"""
    r=0; m&=255; k&=255
    for b in range(256):
        if b&m==k: r|=1<<b
    return r
REC=maskset(7,0); FULLINT=maskset(3,1); DBL=maskset(7,2); LSTR=maskset(7,4); SSTR=maskset(7,6)
OFFPTR=DBL|LSTR|SSTR
def maskof(f,o):
    """(value, mask) when o is value & mask or the value itself"""
    i=inst(f,o)
    if i is not None and i.op=="and":
        for a,b in(i.ops,i.ops[::-1]):
            k=cint(b)
            if k is not None: return strip(f,a),k
    return strip(f,o),None
def shared(ms):
    """a tag that does not decide the type alone (long strings of several types)"""
    return bool(ms&LSTR)
class Tags:
    def __init__(s,P): s.P=P; s.pv=Prov(P); s.cache={}; s._types=None; s._to={}
    def sites(s,f):
        """[(use instr, value, wanted tags, kind)]: every place where the memory a value points to is used"""
        out=[]
        for i in f.instrs():
            if i.op!="getelementptr" or len(i.ops)!=2: continue
            if not s.pv.dblike(f,i.ops[0]): continue
            v,m=maskof(f,i.ops[1])
            if cint(v) is not None or not isinstance(v,int): continue
            us=[]; w=[i.id]; seen=set()
            while w:
                x=w.pop()
                if x in seen: continue
                seen.add(x)
                for u in f.uses.get(x,()):
                    if u.op in("getelementptr","bitcast") and u.ops[0]==x: w.append(u.id)
                    elif u.op=="load" or u.op=="store" and strip(f,u.ops[1])==x: us.append(u)
                    elif u.op=="call" and u.callee and not u.callee.startswith("llvm."): us.append(u)
            for u in us:
                if m is None: out.append((u,v,REC,"record"))
                elif m==-4: out.append((u,v,FULLINT,"integer"))
                elif m==-8:
                    if u.op=="load" and u.ty=="double": out.append((u,v,DBL,"double"))
                    else: out.append((u,v,OFFPTR,"string or double"))
        return out
    # ---- type numbers
    def types(s):
        if s._types is None:
            N={"WG_RECORDTYPE":REC,"WG_INTTYPE":FULLINT|maskset(7,3),"WG_DOUBLETYPE":DBL,"WG_VARTYPE":maskset(15,7),
               "WG_URITYPE":LSTR,"WG_XMLLITERALTYPE":LSTR,"WG_BLOBTYPE":LSTR,"WG_STRTYPE":LSTR|SSTR|maskset(255,0x4f),
               "WG_CHARTYPE":maskset(255,0x1f),"WG_DATETYPE":maskset(255,0x2f),"WG_TIMETYPE":maskset(255,0x3f),"WG_FIXPOINTTYPE":maskset(255,0xf),"WG_ANONCONSTTYPE":maskset(255,0x5f)}
            m=build.macros(list(N),"Reasoner/rincludes.h")
            if len(m)<10: raise AnalysisBroken("type numbers of encoded values not found")
            s._types={m[k]:N[k] for k in m}
        return s._types
    def typeof(s,f,o,d=0):
        """value whose type number o is"""
        o=strip(f,o)
        if not isinstance(o,int) or d>4: return None
        if o<len(f.args):
            vs=None
            for c in s.P.callers(f.name):
                if o>=len(c.ops): return None
                t=s.typeof(c.fn,c.ops[o],d+1)
                ks={k for k in range(len(f.args)) if k<len(c.ops) and t is not None and strip(c.fn,c.ops[k])==t}
                vs=ks if vs is None else vs&ks
            return min(vs) if vs else None
        i=f.defs[o]
        if i.op=="call" and i.callee=="wg_get_encoded_type": return strip(f,i.ops[1])
        if i.op=="phi":
            for b in f.blocks[i.bb].instrs:
                if b.op=="phi" and b is not i and b.ty=="i64" and s._istype(f,i.id,b.id,set()): return b.id
        return None
    def _istype(s,f,x,y,seen):
        """x is the type number of y: coinductively through phis of one block"""
        x=strip(f,x); y=strip(f,y)
        if (x,y) in seen: return True
        if s.typeof0(f,x)==y: return True
        a=inst(f,x); b=inst(f,y)
        if a is None or b is None or a.op!="phi" or b.op!="phi" or a.bb!=b.bb or len(seen)>30: return False
        seen.add((x,y))
        return all(s._istype(f,p,b.ops[b.x.index(q)],seen) for p,q in zip(a.ops,a.x))
    def typeof0(s,f,o):
        i=inst(f,o)
        return strip(f,i.ops[1]) if i is not None and i.op=="call" and i.callee=="wg_get_encoded_type" else None
    # ---- per function path-sensitive propagation
    def solve(s,f,vals,K=48,at=()):
        """env at each instruction block entry: {bb: [dict]}; only for values in the phi closure of vals"""
        rel=set(); w=list(vals); tof={}
        while w:
            v=strip(f,w.pop())
            if not isinstance(v,int) or v in rel: continue
            rel.add(v); i=inst(f,v)
            if i is not None and i.op=="phi": w+=i.ops
            elif i is not None and i.op=="select": w+=i.ops[1:]
        # values that are compared with a relevant value are relevant too (tag bits compared)
        for i in f.instrs():
            if i.op=="icmp" or i.op=="switch":
                for o in i.ops:
                    o=strip(f,o)
                    if isinstance(o,int) and o not in tof and not(i.op=="icmp" and i.x[1]=="ptr"):
                        t=s.typeof(f,o)
                        tof[o]=t
            if i.op=="icmp":
                a,b=maskof(f,i.ops[0])[0],maskof(f,i.ops[1])[0]
                if a in rel and isinstance(b,int): rel.add(b)
                elif b in rel and isinstance(a,int): rel.add(a)
        bphi={i.id for i in f.instrs() if i.op=="phi" and i.ty!="ptr" and any(cint(z) is not None for z in i.ops)}
        # last block where each relevant value still matters
        need=[set() for _ in f.blocks]
        gen=[set() for _ in f.blocks]
        for b in f.blocks:
            for i in b.instrs:
                for o in flat_ops(i):
                    o=strip(f,o)
                    if o in rel or o in bphi: gen[b.n].add(o)
                    v,_=maskof(f,o) if isinstance(o,int) else (None,None)
                    if v in rel: gen[b.n].add(v)
        for bb,v in at:
            if v in rel: gen[bb].add(v)
        ch=True
        while ch:
            ch=False
            for b in reversed(f.blocks):
                n=set(gen[b.n])
                for x in b.succs: n|=need[x]
                if n!=need[b.n]: need[b.n]=n; ch=True
        states=defaultdict(set); joined={}
        def get(env,v):
            v=strip(f,v); c=cint(v)
            if c is not None: return 1<<(c&255)
            return env.get(v,ALL) if v in rel else ALL
        def const(env,o,d=0):
            """known truth/number of a condition value along the path"""
            c=cint(o)
            if c is not None: return c
            o=strip(f,o)
            if isinstance(o,int) and ("b",o) in env: return env[("b",o)]
            i=inst(f,o)
            if i is not None and d<6:
                if i.op=="icmp":
                    a,b=const(env,i.ops[0],d+1),const(env,i.ops[1],d+1)
                    if a is not None and b is not None and i.x[0] in("eq","ne"): return int((a==b)==(i.x[0]=="eq"))
                if i.op=="xor" and cint(i.ops[1]) in(1,-1) and i.ty=="i1":
                    a=const(env,i.ops[0],d+1); return None if a is None else int(not a)
            return None
        def refine(env,o,tr,d=0):
            if d>8: return env
            c=const(env,o)
            if c is not None and o!=None:
                if bool(c)!=tr: return None
            i=inst(f,o)
            if i is None: return env
            if i.op=="xor" and i.ty=="i1" and cint(i.ops[1]) in(1,-1): return refine(env,i.ops[0],not tr,d+1)
            if i.op=="phi" and i.id in bphi:
                env=dict(env)
                if not tr: env[("b",i.id)]=0
                return env
            if i.op=="icmp" and i.x[0] in("eq","ne"):
                eq=(i.x[0]=="eq")==tr
                a,b=i.ops
                for x,y in((a,b),(b,a)):
                    k=cint(y)
                    if k is None: continue
                    z=inst(f,x)
                    if k in(0,1) and z is not None and z.op in("phi","icmp","xor") and (z.op=="icmp" or z.id in bphi):
                        return refine(env,x,(k!=0)==eq,d+1) if (k==0 or z.op=="icmp") else env
                    tv=tof.get(strip(f,x)) if isinstance(strip(f,x),int) else None
                    if tv is not None and tv in rel and k in s.types():
                        ms=s.types()[k]
                        if not eq: ms=ALL if shared(ms) else ALL&~ms
                        n=env.get(tv,ALL)&ms
                        if n==0: return None
                        env=dict(env); env[tv]=n; return env
                    v,m=maskof(f,x)
                    if v in rel:
                        if m is None: ms=1<<(k&255) if k!=0 or True else ALL; exact=False
                        if m is not None:
                            if m&~255 and m>=0 or m<0: return env
                            ms=maskset(m,k) if not (k&~m) else 0
                        if not eq:
                            if m is None: return env
                            ms=ALL&~ms
                        n=env.get(v,ALL)&ms
                        if n==0: return None
                        env=dict(env); env[v]=n; return env
                    return env
                va,ma=maskof(f,a); vb,mb=maskof(f,b)
                if eq and (va in rel or vb in rel) and (ma==mb) and (ma is None or 0<=ma<256):
                    m=255 if ma is None else ma
                    A,B=get(env,va),get(env,vb)
                    pa={x&m for x in range(256) if A>>x&1}; pb={x&m for x in range(256) if B>>x&1}
                    c=pa&pb
                    if not c: return None
                    ms=sum(1<<x for x in range(256) if x&m in c)
                    env=dict(env)
                    if va in rel: env[va]=A&ms
                    if vb in rel: env[vb]=B&ms
                    return env
            return env
        w=[(0,frozenset())]; res=defaultdict(set)
        n=0
        while w:
            bb,ef=w.pop()
            if ef in states[bb]: continue
            if len(states[bb])>=K:
                j=joined.get(bb); e=dict(ef)
                if j is not None:
                    jd=dict(j); e={k:(v|jd[k] if not isinstance(k,tuple) else v) for k,v in e.items() if k in jd and (not isinstance(k,tuple) or jd[k]==v)}
                nf=frozenset(e.items())
                if nf==j: continue
                joined[bb]=nf; ef=nf
                if ef in states[bb]: continue
            states[bb].add(ef); env=dict(ef); n+=1
            if n>60000: raise AnalysisBroken("tag analysis of %s does not converge"%f.name)
            t=f.blocks[bb].term; outs=[]
            if t.op=="br":
                if len(t.x)==1: outs=[(t.x[0],env)]
                else:
                    for d,tr in((t.x[0],True),(t.x[1],False)):
                        e=refine(env,t.ops[0],tr)
                        if e is not None: outs.append((d,e))
            elif t.op=="switch":
                v,m=maskof(f,t.ops[0]); cs=t.x[1]
                for d in {t.x[0]}|{d for _,d in cs}:
                    if v in rel and m is not None and 0<=m<256:
                        ms=0
                        for k,dd in cs:
                            if dd==d: ms|=maskset(m,k)
                        if d==t.x[0]:
                            rest=ALL
                            for k,dd in cs: rest&=~maskset(m,k)
                            ms|=rest
                        nn=env.get(v,ALL)&ms
                        if nn==0: continue
                        e=dict(env); e[v]=nn; outs.append((d,e))
                    elif tof.get(v) in rel and m is None:
                        tv=tof[v]; ms=0
                        for k,dd in cs:
                            if dd==d: ms|=s.types().get(k,ALL)
                        if d==t.x[0]:
                            rest=ALL
                            for k,dd in cs: rest&=~(s.types().get(k,0) if not shared(s.types().get(k,0)) else 0)
                            ms|=rest
                        nn=env.get(tv,ALL)&ms
                        if nn==0: continue
                        e=dict(env); e[tv]=nn; outs.append((d,e))
                    else: outs.append((d,env))
            for d,e in outs:
                ne=dict(e)
                for ph in f.blocks[d].instrs:
                    if ph.op!="phi": break
                    z=ph.ops[ph.x.index(bb)]
                    if ph.id in rel:
                        g=get(e,z)
                        if g!=ALL: ne[ph.id]=g
                        else: ne.pop(ph.id,None)
                    if ph.id in bphi:
                        c=const(e,z)
                        if c is not None: ne[("b",ph.id)]=c
                        else: ne.pop(("b",ph.id),None)
                # a value redefined in a loop loses its tags when its block is entered again
                for i in f.blocks[d].instrs:
                    if i.op!="phi" and i.id in ne: ne.pop(i.id)
                nd=need[d]; ph={i.id for i in f.blocks[d].instrs if i.op=="phi"}
                ne={k:v for k,v in ne.items() if ((k[1] if isinstance(k,tuple) else k) in nd or (k[1] if isinstance(k,tuple) else k) in ph) and v!=ALL}
                w.append((d,frozenset(ne.items())))
        return states,get
    def at(s,f,vals):
        k=(f.name,)
        if k not in s.cache: s.cache[k]=s.solve(f,vals)
        return s.cache[k]
    def tagset(s,sol,bb,v):
        st,get=sol; r=0
        for e in st.get(bb,()): r|=get(dict(e),v)
        return r
# ---- which values may be an arbitrary encoded term
def term_seed(f,i):
    """load of an argument of a term: [decoded record or record pointer + loop counter], the side of an equation, or the value of a variable"""
    if i.op!="load" or i.ty!="i64": return False
    if argpos(f,i): return True
    a=addr(f,i.ops[0])
    if a[0]!="elem": return False
    l=load_of_field(f,a[1])
    if l and l[1]=="varbanks": return True
    return False
def arg_loop_load(f,i,pv):
    """load through [p+k] with k a loop counter that steps by one and is not scaled"""
    if i.op!="load" or i.ty!="i64": return False
    a=addr(f,i.ops[0])
    if a[0]!="elem": return False
    k=inst(f,a[2])
    if k is None or k.op!="phi" or k.bb not in headers(f): return False
    return any(j is not None and j.op=="add" and cint(j.ops[1])==1 and strip(f,j.ops[0])==k.id for j in(inst(f,z) for z in k.ops))
SIDE=("unify_funarg1pos","unify_funarg2pos")
def kind_of_seed(f,i,pv):
    if i is None or i.op!="load" or i.ty!="i64": return None
    p=argpos(f,i)
    if p in SIDE: return "equation side or argument"
    a=addr(f,i.ops[0])
    if a[0]=="elem":
        l=load_of_field(f,a[1])
        if l and l[1]=="varbanks": return "value of a variable"
    return None
class TermTags:
    """which parameters and values may be any encoded term, and which uses need a particular tag"""
    def __init__(s,P,inscope):
        s.P=P; s.T=Tags(P); s.inscope=inscope; s.fns=[f for f in P.fns.values() if inscope(f)]
        s.sites={f.name:s.T.sites(f) for f in s.fns}
        s.need={}; s.findneeds()
    def argloads(s,f):
        """loads of arguments in loops of a function that descends into terms: passed on to a function that takes terms"""
        return {}
    def origins(s,f,v,seen=None):
        """[(kind, id)] sources of a value through phis"""
        seen=set() if seen is None else seen
        v=strip(f,v)
        if not isinstance(v,int) or v in seen: return []
        seen.add(v)
        if v<len(f.args): return [("param",v)]
        i=f.defs[v]
        if i.op=="phi": return [z for o in i.ops for z in s.origins(f,o,seen)]
        if i.op=="select": return [z for o in i.ops[1:] for z in s.origins(f,o,seen)]
        k=kind_of_seed(f,i,s.T.pv)
        if k: return [("seed",v)]
        if i.op=="load" and i.ty=="i64" and arg_loop_load(f,i,s.T.pv):
            d=inst(f,addr(f,i.ops[0])[1])
            if d is not None and d.op=="getelementptr" and s.T.pv.dblike(f,d.ops[0]) and len(d.ops)==2 and d.ops[1]!=v:
                w=strip(f,d.ops[1])
                if isinstance(w,int) and (w<len(f.args) or any(k in("seed","loop") for k,_ in s.origins(f,w,seen))): return [("loop",v)]
            return [("other",v)]
        if i.op=="call": return [("call",v)]
        return [("other",v)]
    def findneeds(s):
        # sites and calls per function; solved per function with every value of interest
        P=s.P
        callers=defaultdict(list)
        for f in s.fns:
            for c in f.calls():
                if c.callee in P.fns: callers[c.callee].append(c)
        s.callers=callers
        # interesting values: decoded values and every argument of a call whose type is i64
        s.sol={}
        for f in s.fns:
            vals={v for _,v,_,_ in s.sites[f.name]}
            for c in f.calls():
                if c.callee in P.fns and s.inscope(P.fns[c.callee]):
                    for o in c.ops:
                        o=strip(f,o)
                        if isinstance(o,int) and (o<len(f.args) and f.args[o][0]=="i64" or o>=len(f.args) and f.defs[o].ty=="i64"): vals.add(o)
            if vals: s.sol[f.name]=s.T.solve(f,vals,at=[(i.bb,v) for i,v,_,_ in s.sites[f.name]])
        # fixpoint of requirements on parameters
        ch=True
        while ch:
            ch=False
            for f in s.fns:
                for (i,v,wt,kind,via) in s.uses(f):
                    ts=s.T.tagset(s.sol[f.name],i.bb,v)
                    if ts&~wt==0: continue
                    for k,o in s.origins(f,v):
                        if k=="param" and f.args[o][0]=="i64":
                            old=s.need.get((f.name,o))
                            new=wt if old is None else old&wt
                            if new!=old: s.need[(f.name,o)]=new; ch=True
    def uses(s,f):
        """uses that need a tag: decode sites and calls that pass a value on to a parameter with a requirement"""
        for i,v,wt,k in s.sites[f.name]: yield i,v,wt,k,None
        for c in f.calls():
            g=s.P.fns.get(c.callee)
            if g is None: continue
            for k,o in enumerate(c.ops[:len(g.args)]):
                wt=s.need.get((g.name,k))
                if wt is not None:
                    o=strip(f,o)
                    if isinstance(o,int): yield c,o,wt,"parameter %s of %s"%(g.args[k][1],g.name),(g.name,k)
