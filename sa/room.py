"""Room analysis: how much space is known to be left in a text buffer at every append.

A buffer is either growable (a pointer variable paired with a length variable, enlarged by a grower function) or fixed (a local
array / an allocation of constant size).  The state holds lower bounds of the buffer's length as linear forms over SSA values,
constants and string lengths; an append at position V of cost C is covered when some bound L gives L-V >= C."""
import re
from core import *
INF=10**6
def ladd(a,b,k=1):
    r=dict(a)
    for s,c in b.items():
        n=r.get(s,0)+k*c
        if n: r[s]=n
        else: r.pop(s,None)
    return r
class Str:
    """string lengths"""
    def __init__(s,P): s.P=P; s.memo={}; s.act=set(); s.strict=True
    def canon(s,f,o):
        o=strip(f,o)
        if isinstance(o,int):
            i=f.defs.get(o)
            if i is not None and i.op=="load":
                a=addr(f,i.ops[0])
                if a[0]=="field": return ("fld",a[2],s.canon(f,a[3]),tuple(s.canon(f,x) if isinstance(x,int) else x for x in (a[4] or ())))
                if a[0]=="alloca": return ("ldslot",a[1].id)
                if a[0]=="global": return ("ldg",a[1])
                g=f.defs.get(i.ops[0]) if isinstance(i.ops[0],int) else None
                if a[0] in("val","elem") and g is not None and g.op=="getelementptr" and len(g.ops)==2: return ("ldx",s.canon(f,g.ops[0]),strip(f,g.ops[1],("sext","zext")) if isinstance(g.ops[1],int) else g.ops[1])
            if i is not None and i.op=="getelementptr":
                a=addr(f,o)
                if a[0]=="field": return ("afld",a[2],s.canon(f,a[3]),tuple(s.canon(f,x) if isinstance(x,int) else x for x in (a[4] or ())))
            if i is not None and i.op=="call" and i.callee in PURE: return ("call",i.callee)+tuple(s.canon(f,x) for x in i.ops)
        return o if not isinstance(o,list) else ("ce",str(o))
    def content(s,f,al):
        """longest string a local array can hold: the longest over all writes into it"""
        N=al.x[2]; k=("c",f.name,al.id)
        if k in s.memo: return s.memo[k]
        s.memo[k]=N-1
        best=0
        def ali(o):
            return isinstance(o,int) and (o==al.id or (f.defs.get(o) is not None and f.defs[o].op in("getelementptr","bitcast") and ali(f.defs[o].ops[0])))
        roots={al.id}; w=[al.id]
        while w:
            x=w.pop()
            for u in f.uses[x]:
                if u.op in("getelementptr","bitcast"):
                    if u.id not in roots: roots.add(u.id); w.append(u.id)
        for x in roots:
            for u in f.uses[x]:
                if u.op in("getelementptr","bitcast","load","icmp"): continue
                if u.op=="store":
                    if u.ops[1]==x and cint(u.ops[0])==0: continue
                    if u.ops[1]!=x: best=N-1
                    else: best=N-1
                elif u.op=="call":
                    n=u.callee
                    if n in("snprintf",) and u.ops[0]==x:
                        c=fmtcost(s,f,u,2)
                        sz=cint(u.ops[1]); m=None
                        if c is not None and set(c)<={1}: m=c.get(1,0)
                        if sz is not None: m=sz-1 if m is None else min(m,sz-1)
                        best=max(best,N-1 if m is None or x!=al.id else m)
                    elif n=="sprintf" and u.ops[0]==x:
                        c=fmtcost(s,f,u,1)
                        best=max(best,c.get(1,0) if c is not None and set(c)<={1} and x==al.id else N-1)
                    elif n=="strcpy" and u.ops[0]==x:
                        l=s.bound(f,u.ops[1]); best=max(best,l if l is not None and x==al.id else N-1)
                    elif n in READERS or (n and n.startswith("llvm.lifetime")): pass
                    elif n in s.P.fns and s.readonly(n,[k for k,o in enumerate(u.ops) if o==x]): pass
                    elif n in s.P.fns and x==al.id and s.boundedwriter(n,[k for k,o in enumerate(u.ops) if o==x]) is not None:
                        best=max(best,min(N-1,s.boundedwriter(n,[k for k,o in enumerate(u.ops) if o==x])))
                    elif n in("snprintf","sprintf","printf","fprintf") : pass
                    else: best=N-1
                elif u.op in("phi","select"): pass
                else: best=N-1
        s.memo[k]=best
        return best
    def canonU(s,f,o,d=0):
        """a string at least as long as the one at o: suffixes and merges of suffixes of one string stand for that string"""
        o=strip(f,o)
        i=f.defs.get(o) if isinstance(o,int) else None
        if i is not None and d<8:
            if i.op=="getelementptr" and len(i.ops)==2 and cint(i.ops[1]) is not None and cint(i.ops[1])>=0: return s.canonU(f,i.ops[0],d+1)
            if i.op=="call" and i.callee in("strchr","strrchr","strstr"): return s.canonU(f,i.ops[0],d+1)
            if i.op in("phi","select"):
                r=set(s.canonU(f,x,d+1) for x in (i.ops if i.op=="phi" else i.ops[1:]) if x!=o)
                if len(r)==1: return r.pop()
        return s.canon(f,o)
    def boundedwriter(s,n,ks):
        """longest string a function leaves in an array given to it, when all it does with it is snprintf with a fixed size"""
        g=s.P.fns[n]; m=0
        for k in ks:
            if k>=len(g.args): return None
            for u in g.uses[k]:
                if u.op=="call" and u.callee=="snprintf" and u.ops[0]==k and cint(u.ops[1]) is not None: m=max(m,cint(u.ops[1])-1)
                else: return None
        return m
    def readonly(s,n,ks):
        g=s.P.fns[n]
        for k in ks:
            if k>=len(g.args): return False
            w=[k]; seen=set()
            while w:
                x=w.pop()
                if x in seen: continue
                seen.add(x)
                for u in g.uses[x]:
                    if u.op in("getelementptr","bitcast","phi","select"): w.append(u.id)
                    elif u.op=="store" and u.ops[1]==x: return False
                    elif u.op=="store": return False
                    elif u.op=="call":
                        if u.callee in("snprintf","sprintf","strcpy","memcpy","strcat","strncpy") and u.ops[0]==x: return False
                        if u.callee in s.P.fns:
                            kk=[q for q,o in enumerate(u.ops) if o==x]
                            key=("ro",u.callee,tuple(kk))
                            if key in s.act: continue
                            s.act.add(key); r=s.readonly(u.callee,kk); s.act.discard(key)
                            if not r: return False
                        elif u.callee not in READERS and u.callee not in("snprintf","sprintf","printf","fprintf","strcpy"): return False
        return True
    def bound(s,f,o,d=0):
        """constant upper bound of the length of the string at o, or None"""
        o=strip(f,o)
        g=gstring(s.P,o)
        if g is not None: return len(g.encode("latin-1","replace")) if isinstance(g,str) else len(g)
        if o=="null": return 6
        k=("b",f.name,o if not isinstance(o,list) else str(o))
        if k in s.memo: return s.memo[k]
        if k in s.act: return 0
        s.act.add(k); r=s.bound0(f,o,d); s.act.discard(k)
        if not s.act: s.memo[k]=r
        return r
    def fieldbound(s,fld,d):
        """a string field that is only ever set to constants"""
        if not hasattr(s,"fst"):
            s.fst={}
            for f in s.P.fns.values():
                for i in f.instrs():
                    if i.op=="store":
                        a=addr(f,i.ops[1])
                        if a[0]=="field": s.fst.setdefault(a[1:3],[]).append((f,i.ops[0]))
        k=("fb",fld)
        if k in s.memo: return s.memo[k]
        s.memo[k]=None
        m=0
        L=[(f,o) for f,o in s.fst.get(fld,()) if cint(o)!=0]
        if not L: return None
        for f,o in L:
            i=f.defs.get(strip(f,o)) if isinstance(o,int) else None
            if i is not None and i.op=="call" and i.callee in("wr_str_new","wr_malloc","malloc","calloc"):
                b=s.fieldwrites(fld)
            else: b=s.bound(f,o,d+1)
            if b is None: return None
            m=max(m,b)
        s.memo[k]=m
        return m
    def fieldwrites(s,fld):
        """longest string written into the allocated buffer a field points to; None when something else than a plain copy writes it"""
        m=0
        for f in s.P.fns.values():
            for i in f.instrs():
                if i.op!="load" : continue
                a=addr(f,i.ops[0])
                if a[0]!="field" or a[1:3]!=fld: continue
                for u in f.uses[i.id]:
                    if u.op in("icmp","phi","select"): continue
                    if u.op=="getelementptr":
                        if all(v.op=="load" for v in f.uses[u.id]): continue
                        return None
                    if u.op!="call": return None
                    n=u.callee
                    if n in("strcpy","strncpy") and u.ops[0]==i.id:
                        b=s.bound(f,u.ops[1])
                        if b is None and n=="strncpy": b=cint(u.ops[2])
                        if b is None: return None
                        m=max(m,b)
                    elif n in READERS or n in("snprintf","sprintf","wr_str_free","wr_free"): pass
                    elif n in("strcpy","strncpy","strcat"): pass
                    elif n in s.P.fns and s.readonly(n,[q for q,o in enumerate(u.ops) if o==i.id]): pass
                    else: return None
        return m
    def endbefore(s,f,al,use):
        """a terminator stored at a fixed index of the array just before its use"""
        best=None
        for i in f.blocks[use.bb].instrs[:use.idx]:
            if i.op=="store" and cint(i.ops[0])==0:
                q=f.defs.get(i.ops[1]) if isinstance(i.ops[1],int) else None
                if q is not None and q.op=="getelementptr" and q.ops[0]==al.id and cint(q.ops[-1]) is not None: best=cint(q.ops[-1])
                elif i.ops[1]==al.id: best=0
            elif i.op=="call" and al.id in i.ops: best=None
        # the block may have been entered only through blocks that do not touch the array: walk up single predecessors
        if best is None:
            b=use.bb; hops=0
            touched=any(i.op=="call" and al.id in i.ops for i in f.blocks[b].instrs[:use.idx])
            while not touched and len(f.blocks[b].preds)==1 and hops<8:
                b=f.blocks[b].preds[0]; hops+=1
                for i in f.blocks[b].instrs:
                    if i.op=="store" and cint(i.ops[0])==0:
                        q=f.defs.get(i.ops[1]) if isinstance(i.ops[1],int) else None
                        if q is not None and q.op=="getelementptr" and q.ops[0]==al.id and cint(q.ops[-1]) is not None: best=cint(q.ops[-1])
                    elif i.op=="call" and al.id in i.ops: best=None; touched=True
                if best is not None: break
        return best
    def lastwrite(s,f,al,use):
        """length of the text the nearest write before use in its block puts into the array"""
        for i in reversed(f.blocks[use.bb].instrs[:use.idx]):
            if i.op=="call" and al.id in i.ops:
                if i.callee in("snprintf","sprintf") and i.ops[0]==al.id:
                    c=fmtcost(s,f,i,2 if i.callee=="snprintf" else 1)
                    return c.get(1,0) if c is not None and set(c)<={1} else None
                if i.callee=="strcpy" and i.ops[0]==al.id: return s.bound(f,i.ops[1])
                if i.callee=="strncpy" and i.ops[0]==al.id:
                    b=s.bound(f,i.ops[1]); n=cint(i.ops[2])
                    return b if b is not None and n is not None and b<n else None
                if i.callee in READERS: continue
                return None
        return None
    def bound0(s,f,o,d):
        if d>12: return None
        if isinstance(o,list):
            return None
        if isinstance(o,str): return None
        if o<len(f.args):
            cs=s.P.callers(f.name)
            if not cs or f.name in s.P.taken: return None
            m=0
            for c in cs:
                if o>=len(c.ops): return None
                b=s.bound(c.fn,c.ops[o],d+1)
                if b is None: return None
                m=max(m,b)
            return m
        i=f.defs[o]
        if i.op in("phi","select"):
            m=0
            for x in (i.ops if i.op=="phi" else i.ops[1:]):
                b=s.bound(f,x,d+1)
                if b is None: return None
                m=max(m,b)
            return m
        if i.op=="alloca" and len(i.x)>2 and i.x[0].endswith("x i8]"): return s.content(f,i)
        if i.op=="load" and addr(f,i.ops[0])[0]=="field": return s.fieldbound(addr(f,i.ops[0])[1:3],d)
        if i.op=="getelementptr":
            b=s.bound(f,i.ops[0],d+1) # a suffix of the string
            return b
        if i.op=="load":
            a=addr(f,i.ops[0])
            if a[0]=="alloca":
                m=0; ok=False
                for u in f.uses[a[1].id]:
                    if u.op=="store" and u.ops[1]==a[1].id:
                        b=s.bound(f,u.ops[0],d+1); ok=True
                        if b is None: return None
                        m=max(m,b)
                    elif u.op=="call": return None
                return m if ok else None
            return None
        if i.op=="call" and i.callee=="wg_atomstr1" and len(i.ops)>1:
            # the text an atom made right here was given
            q=strip(f,i.ops[1]); v=f.defs.get(q) if isinstance(q,int) else None
            if v is not None and v.op=="call" and v.callee=="wg_mkatom" and len(v.ops)>3:
                x=strip(f,v.ops[3]); al=f.defs.get(x) if isinstance(x,int) else None
                if al is not None and al.op=="alloca":
                    b=s.lastwrite(f,al,v)
                    if b is not None: return b
                return s.bound(f,v.ops[3],d+1)
        if i.op=="call" and i.callee in s.P.fns:
            g=s.P.fns[i.callee]; m=0; any_=False
            for b in g.blocks:
                t=b.term
                if t.op=="ret" and t.ops:
                    x=s.bound(g,t.ops[0],d+1)
                    if x is None: return None
                    any_=True; m=max(m,x)
            return m if any_ else None
        return None
PURE={"wg_decode_str","wg_decode_uri","wg_atomstr1","wg_atomstr2","wg_decode_str_lang","wg_decode_uri_prefix"}
READERS={"strlen","strcmp","strncmp","strstr","strchr","puts","fputs","atoi","atol","strtol","strtod","fopen","free","memcmp","strdup","strncasecmp","strcasecmp","__isoc99_sscanf","printf","fprintf","wr_printf","fopen64"}
SPEC=re.compile(r"%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|L|q)?([a-zA-Z%])")
def fmtcost(S,f,i,fi):
    """upper bound (linear form) of the number of characters a printf-style call produces, None when the format is not constant.
       key 1 holds the constant, ("len",x) a string length, ("unb",text) something unbounded"""
    fmt=gstring(S.P,i.ops[fi])
    if fmt is None:
        # several constant formats
        o=strip(f,i.ops[fi]); d=f.defs.get(o) if isinstance(o,int) else None
        return None
    args=list(i.ops[fi+1:]); c={1:0}; pos=0; k=0
    for m in SPEC.finditer(fmt):
        c[1]+=m.start()-pos; pos=m.end()
        fl,w,pr,ln,cv=m.groups()
        if cv=="%": c[1]+=1; continue
        if w=="*" or pr=="*": c[("unb","*")]=1; continue
        if k>=len(args): c[("unb","missing argument")]=1; continue
        a=args[k]; k+=1
        wd=int(w or 0)
        if cv in "diouxX": n=20 if ln in("l","ll","z","j","t","q") else 11
        elif cv=="c": n=1
        elif cv=="p": n=18
        elif cv in "fF": n=311+(int(pr) if pr else 6)
        elif cv in "eE": n=9+(int(pr) if pr else 6)
        elif cv in "gG": n=8+(int(pr) if pr else 6)
        elif cv=="s":
            b=S.bound(f,a)
            dd=f.defs.get(strip(f,a)) if isinstance(a,int) else None
            if dd is not None and dd.op=="alloca":
                e=S.endbefore(f,dd,i)
                if e is not None: b=e if b is None else min(b,e)
            if b is not None:
                if pr: b=min(b,int(pr))
                n=b
            elif pr: n=int(pr)
            else:
                c=ladd(c,{("len",S.canonU(f,a)):1}); n=0
        else: c[("unb",cv)]=1; n=0
        c[1]+=max(wd,n)
    c[1]+=len(fmt)-pos
    return c
class Room:
    def __init__(s,P,growers={"wr_str_guarantee_space":(1,2,3),"wg_str_guarantee_space":(1,2,3)}):
        s.P=P; s.S=Str(P); s.grow=growers; P.callgraph
        s.pairs_of={}      # fn -> {(bufarg,lenarg,posarg)}
        s.find_growable()
        s.exit={}          # fn -> room left at its returned position
        s.cost={}          # quoting functions: (bufarg,posarg) -> cost
        s.findings=[]; s.sinks=[]
    # ---- which functions append into a growable buffer given by the caller
    def find_growable(s):
        P=s.P; s.growable={}
        ch=True
        for n,(b,l,_) in s.grow.items(): s.growable[n]=(b,l)
        while ch:
            ch=False
            for f in P.fns.values():
                if f.name in s.growable: continue
                for c in f.calls(set(s.growable)):
                    b,l=s.growable[c.callee]
                    if len(c.ops)<=max(b,l): continue
                    B,L=c.ops[b],c.ops[l]
                    if isinstance(B,int) and isinstance(L,int) and B<len(f.args) and L<len(f.args):
                        s.growable[f.name]=(B,L); ch=True; break
        s.pairs={}
        for f in P.fns.values():
            for c in f.calls(set(s.growable)):
                b,l=s.growable[c.callee]
                if len(c.ops)<=max(b,l): continue
                s.pairs.setdefault(f.name,{})[s.S.canon(f,c.ops[b])]=s.S.canon(f,c.ops[l])
        for n,(b,l) in s.growable.items():
            if n in s.grow: continue
            s.pairs.setdefault(n,{})[b]=l
    # ---- linear forms
    def nullcond(s,f,c,truth,L):
        """does condition c having this truth mean that the string measured in L is NULL"""
        for q,v in s.truths(f,c,truth):
            i=f.defs.get(q)
            if i is None or i.op!="icmp" or i.x[0] not in("eq","ne") or (i.x[0]=="eq")!=v: continue
            for a,b in((i.ops[0],i.ops[1]),(i.ops[1],i.ops[0])):
                if (b=="null" or cint(b)==0) and all(k[1]==s.S.canon(f,a) for k in L): return True
        return False
    def nulledge(s,f,p,b,L):
        for _ in range(6):
            t=f.blocks[p].term
            if t.op=="br" and len(t.x)==2 and t.x[0]!=t.x[1]:
                c=cint(t.ops[0])
                if c is not None: return (c!=0)!=(t.x[0]==b)      # never taken
                return s.nullcond(f,t.ops[0],t.x[0]==b,L)
            if len(f.blocks[p].preds)!=1: return False
            b=p; p=f.blocks[p].preds[0]
        return False
    def lin(s,f,o,d=0):
        o=strip(f,o,("zext","sext","trunc","freeze"))
        k=cint(o)
        if k is not None: return {1:k} if k else {}
        if not isinstance(o,int): return {("v",str(o)):1}
        if o<len(f.args): return {("v",o):1}
        i=f.defs[o]
        if d<30:
            if i.op=="add": return ladd(s.lin(f,i.ops[0],d+1),s.lin(f,i.ops[1],d+1))
            if i.op=="sub": return ladd(s.lin(f,i.ops[0],d+1),s.lin(f,i.ops[1],d+1),-1)
            if i.op in("mul","shl"):
                c=cint(i.ops[1]); x=i.ops[0]
                if c is None: c=cint(i.ops[0]); x=i.ops[1]
                if c is not None:
                    if i.op=="shl": c=1<<c
                    return {a:b*c for a,b in s.lin(f,x,d+1).items()}
            if i.op=="call" and i.callee=="strlen":
                g=gstring(s.P,i.ops[0])
                if g is not None: return {1:len(g)} if len(g) else {}
                return {("len",s.S.canon(f,i.ops[0])):1}
            if i.op=="phi":
                r=[x for x in i.ops if cint(x)!=0]
                if len(r)<len(i.ops) and r:
                    L=[s.lin(f,x,d+1) for x in r if x!=o]
                    if L and all(x==L[0] for x in L) and all(isinstance(k,tuple) and k[0]=="len" for k in L[0]) \
                      and all(s.nulledge(f,p,i.bb,L[0]) for x,p in zip(i.ops,i.x) if cint(x)==0): return L[0]
            if i.op=="select":
                a,b=i.ops[1],i.ops[2]
                for x,y in((a,b),(b,a)):
                    if cint(x)==0:
                        L=s.lin(f,y,d+1)
                        if L and s.nullcond(f,i.ops[0],x is a,L) and all(isinstance(k,tuple) and k[0]=="len" for k in L): return L
            if i.op=="load":
                a=addr(f,i.ops[0])
                if a[0]=="alloca" or (a[0]=="val" and isinstance(a[1],int) and a[1]<len(f.args)):
                    return {("lens",a[1].id if a[0]=="alloca" else a[1]):1}
        return {("v",o):1}
    # ---- functions that copy a string with escapes into the buffer at a position given by the caller, returning the count
    def quoting(s,n,bufarg):
        """-> dict posarg, need (linear form over ('len',argindex)), ret (linear upper bound of the result) or None"""
        k=(n,bufarg)
        if k in s.cost: return s.cost[k]
        s.cost[k]=None
        f=s.P.fns[n]
        hdr={}
        for b in f.blocks:
            for p in b.preds:
                if b.n in f.dom.get(p,()): hdr.setdefault(b.n,[]).append(p)
        def loopblocks(h):
            body={h}; w=list(hdr[h])
            while w:
                x=w.pop()
                if x in body: continue
                body.add(x); w.extend(f.blocks[x].preds)
            return body
        def trips(h):
            """linear bound of the number of iterations: a walk of a string up to its final zero"""
            body=loopblocks(h)
            for i in f.blocks[h].instrs:
                if i.op!="phi": continue
                ini=[x for x,p in zip(i.ops,i.x) if p not in body]; nxt=[x for x,p in zip(i.ops,i.x) if p in body]
                if len(set(map(str,ini)))!=1 or not nxt: continue
                ok=True
                for x in nxt:
                    d=f.defs.get(strip(f,x)) if isinstance(x,int) else None
                    if not(d is not None and d.op=="getelementptr" and d.ops[0]==i.id and cint(d.ops[-1])==1): ok=False
                if not ok: continue
                # the loop is left when the byte is zero
                for e in f.blocks[h].instrs:
                    if e.op=="icmp" and e.x[0] in("ne","eq") and cint(e.ops[1])==0:
                        l=strip(f,e.ops[0]); d=f.defs.get(l) if isinstance(l,int) else None
                        if d is not None and d.op=="load" and d.ops[0]==i.id:
                            t=f.blocks[h].term
                            if t.op=="br" and t.ops==[e.id] and len(t.x)==2:
                                stay=t.x[0] if e.x[0]=="ne" else t.x[1]
                                out=t.x[1] if e.x[0]=="ne" else t.x[0]
                                if stay in body and out not in body:
                                    a=strip(f,ini[0])
                                    if isinstance(a,int) and a<len(f.args): return {("len",a):1}
            return None
        act=[]
        def mx(L):
            r={}
            for a in L:
                for q,c in a.items(): r[q]=max(r.get(q,0),c)
            return r
        def step(o,ph,d=0):
            """largest increment of o over phi ph, within one iteration"""
            o=strip(f,o)
            if o==ph: return 0
            if d>40 or not isinstance(o,int): return None
            i=f.defs.get(o)
            if i is None: return None
            if i.op=="add":
                for a,b in((i.ops[0],i.ops[1]),(i.ops[1],i.ops[0])):
                    c=cint(b)
                    if c is not None:
                        r=step(a,ph,d+1)
                        return None if r is None else r+c
                return None
            if i.op=="phi" and i.bb not in hdr or i.op=="select":
                best=None
                for x in (i.ops if i.op=="phi" else i.ops[1:]):
                    r=step(x,ph,d+1)
                    if r is None: return None
                    best=r if best is None else max(best,r)
                return best
            return None
        def ub(o,d=0):
            o=strip(f,o)
            c=cint(o)
            if c is not None: return {1:c} if c else {}
            if not isinstance(o,int) or d>60: return None
            if o<len(f.args): return {("v",o):1}
            i=f.defs[o]
            if i.op=="add":
                a,b=ub(i.ops[0],d+1),ub(i.ops[1],d+1)
                return None if a is None or b is None else ladd(a,b)
            if i.op=="sub" and cint(i.ops[1]) is not None:
                a=ub(i.ops[0],d+1); return None if a is None else ladd(a,{1:-cint(i.ops[1])})
            if i.op in("phi","select"):
                if i.op=="phi" and i.bb in hdr:
                    body=loopblocks(i.bb)
                    t=trips(i.bb)
                    if t is None: return None
                    inc=0; r=[]
                    for x,p in zip(i.ops,i.x):
                        if p in body:
                            q=step(x,i.id)
                            if q is None: return None
                            inc=max(inc,q)
                        else:
                            q=ub(x,d+1)
                            if q is None: return None
                            r.append(q)
                    return ladd(mx(r),t,inc)
                r=[]
                for x in (i.ops if i.op=="phi" else i.ops[1:]):
                    q=ub(x,d+1)
                    if q is None: return None
                    r.append(q)
                return mx(r)
            return None
        need=[]; posarg=None; nst=0
        for i in f.instrs():
            if i.op!="store" or i.x!="i8": continue
            o=i.ops[1]; idx={}
            ok=True
            while isinstance(o,int) and f.defs.get(o) is not None and f.defs[o].op=="getelementptr":
                q=ub(f.defs[o].ops[-1])
                if q is None: ok=False; break
                idx=ladd(idx,q); o=f.defs[o].ops[0]
            if not ok: return None
            d=f.defs.get(o) if isinstance(o,int) else None
            if d is None or d.op!="load" or d.ops[0]!=bufarg: continue
            nst+=1; need.append(ladd(idx,{1:1}))
        ps=set(q[1] for a in need for q in a if isinstance(q,tuple) and q[0]=="v")
        if len(ps)!=1: return None
        posarg=ps.pop()
        if any(a.get(("v",posarg))!=1 for a in need): return None
        nd=mx([{q:c for q,c in a.items() if q!=("v",posarg)} for a in need])
        rs=[]
        for b in f.blocks:
            if b.term.op=="ret" and b.term.ops:
                q=ub(b.term.ops[0])
                if q is None: return None
                rs.append(q)
        rt=mx(rs)
        if any(isinstance(q,tuple) and q[0]=="v" for q in rt): return None
        s.cost[k]={"pos":posarg,"need":nd,"ret":rt}
        return s.cost[k]
    # ---- the buffers a function writes
    def base(s,f,o):
        """(bufferkey, kind, position linear form) of a destination pointer, or None"""
        pos={}
        while isinstance(o,int):
            i=f.defs.get(o)
            if i is None: break
            if i.op in("bitcast","freeze"): o=i.ops[0]; continue
            if i.op=="getelementptr":
                if i.x[0][0] not in("i8","[1 x i8]") and not re.match(r"\[\d+ x i8\]",str(i.x[0])) :
                    pass
                st=i.x[1]
                if any(z[0]=="s" for z in st): return None
                for z,x in zip(st,i.ops[1:]):
                    if z[0]=="a" or z[0]=="p" or z[0]=="i": pos=ladd(pos,s.lin(f,x))
                o=i.ops[0]; continue
            break
        if isinstance(o,int):
            i=f.defs.get(o)
            if i is not None:
                if i.op=="load":
                    S=s.S.canon(f,i.ops[0])
                    pr=s.pairs.get(f.name,{})
                    if S in pr: return (("slot",pr[S]),i,pos)
                if i.op=="alloca" and re.match(r"\[\d+ x i8\]",i.x[0]): return (("fix",i.id),i,pos)
                if i.op=="call" and i.callee in("malloc","calloc","wr_malloc"): return (("fix",i.id),i,pos)
        return None
    # ---- forward analysis of one function
    APP={"snprintf":(0,1,2),"sprintf":(0,None,1)}
    def posvalues(s,f):
        """SSA values that take part in positions"""
        w=[]
        def addlin(L):
            for q in L:
                if isinstance(q,tuple) and q[0]=="v" and isinstance(q[1],int): w.append(q[1])
        for i in f.instrs():
            if i.op=="store" and i.x=="i8":
                b=s.base(f,i.ops[1])
                if b: addlin(b[2])
            elif i.op=="call" and i.callee:
                n=i.callee
                if n in s.APP or n in("strcpy","strcat","memcpy"):
                    b=s.base(f,i.ops[0])
                    if b: addlin(b[2])
                if n in s.grow: addlin(s.lin(f,i.ops[s.grow[n][2]]))
                elif n in s.growable: 
                    l=s.growable[n][1]
                    if l+1<len(i.ops): addlin(s.lin(f,i.ops[l+1]))
                    w.append(i.id)
        if f.name in s.growable:
            for b in f.blocks:
                if b.term.op=="ret" and b.term.ops: addlin(s.lin(f,b.term.ops[0]))
        seen=set()
        while w:
            o=w.pop()
            o=strip(f,o)
            if o in seen or not isinstance(o,int) or o<len(f.args): continue
            seen.add(o); i=f.defs[o]
            if i.op in("phi","select"):
                for x in i.ops: 
                    for q in s.lin(f,x):
                        if isinstance(q,tuple) and q[0]=="v" and isinstance(q[1],int): w.append(q[1])
        return seen
    def root(s,L): return frozenset((q,c) for q,c in L.items() if isinstance(q,tuple) and q[0] in("v","lens"))
    def addfact(s,st,key,L):
        d=st.setdefault(key,{}); r=s.root(L)
        v=(L.get(1,0),frozenset((q,c) for q,c in L.items() if isinstance(q,tuple) and q[0]=="len" and c>0))
        if any(isinstance(q,tuple) and q[0]=="len" and c<0 for q,c in L.items()): return
        S=d.setdefault(r,set())
        for o in list(S):
            if s.le(v,o): return
            if s.le(o,v): S.discard(o)
        S.add(v)
        while len(S)>4: S.discard(min(S,key=lambda x:(len(x[1]),x[0])))
    def le(s,a,b):
        if a[0]>b[0]: return False
        da=dict(a[1]); db=dict(b[1])
        return all(db.get(q,0)>=c for q,c in da.items())
    def form(s,r,v):
        L=dict(r); L[1]=v[0]
        for q,c in v[1]: L[q]=L.get(q,0)+c
        if not L[1]: L.pop(1)
        return L
    def kill(s,st,v):
        t=("v",v)
        for key,d in st.items():
            for r in list(d):
                if any(q==t for q,_ in r): del d[r]
    def settle(s,f,D,ups,keep=()):
        """lower bound of D with unknown non-negative terms dropped and appended counts replaced by their bounds; None if unknown"""
        D=dict(D)
        for _ in range(40):
            done=True
            for q in list(D):
                if isinstance(q,tuple) and q[0]=="v" and q not in keep:
                    c=D[q]
                    if c>0:
                        if q[1] in ups: del D[q]; continue   # a count, never negative
                        return None
                    u=ups.get(q[1])
                    if u is None: return None
                    del D[q]; D=ladd(D,u,c); done=False
                elif isinstance(q,tuple) and q[0]=="lens" and q not in keep: return None
            if done: break
        return D
    def nonneg(s,f,D):
        """is the linear form (const + string lengths) certainly >= 0"""
        return D is not None and D.get(1,0)>=0 and all(c>=0 for q,c in D.items() if q!=1)
    def analyse(s,f,report=None):
        P=s.P
        pv=s.posvalues(f)
        ups={}
        # static bounds of counts
        for i in f.instrs():
            if i.op!="call" or not i.callee: continue
            n=i.callee
            if n in s.APP:
                c=fmtcost(s.S,f,i,s.APP[n][2])
                if c is not None: ups[i.id]=c
            elif n in P.fns and n not in s.growable:
                for S in s.pairs.get(f.name,{}):
                    ks=[k for k,o in enumerate(i.ops) if not isinstance(o,list) and s.S.canon(f,o)==S]
                    if ks:
                        q=s.quoting(n,ks[0])
                        if q: ups[i.id]=s.subst(f,i,q["ret"])
        pairs=s.pairs.get(f.name,{}); 
        ent={}
        if f.name in s.growable and f.name not in s.grow:
            b,l=s.growable[f.name]
            if l+1<len(f.args): s.addfact(ent,("slot",l),{("v",l+1):1})
        for i in f.instrs():
            if i.op=="alloca" and re.match(r"\[\d+ x i8\]",i.x[0]): s.addfact(ent,("fix",i.id),{1:i.x[2]})
        instate={0:ent}; work=[0]; visits=defaultdict(int); inrep={}
        exitrooms=[]
        order={b:k for k,b in enumerate(f.rpo())}
        import heapq
        heap=[(0,0)]; inq={0}
        while heap:
            _,b=heapq.heappop(heap); inq.discard(b)
            visits[b]+=1
            if visits[b]>200: break
            st={k:{r:set(v) for r,v in d.items()} for k,d in instate[b].items()}
            s.block(f,b,st,pv,ups,None)
            for t in dict.fromkeys(f.blocks[b].succs):
                ns=s.edge(f,b,t,st,pv,ups)
                if t not in instate: instate[t]=ns; ch=True
                else:
                    m=s.meet(instate[t],ns,visits[t]>60)
                    ch=m!=instate[t]; instate[t]=m
                if ch and t not in inq: heapq.heappush(heap,(order[t],t)); inq.add(t)
        rooms=[]
        for b in sorted(instate):
            st={k:{r:set(v) for r,v in d.items()} for k,d in instate[b].items()}
            s.block(f,b,st,pv,ups,report)
            t=f.blocks[b].term
            if t.op=="ret" and t.ops and f.name in s.growable:
                rooms+=s.retroom(f,b,t,st,ups,instate)
        return min(rooms) if rooms else INF
    def retroom(s,f,b,t,st,ups,instate):
        key=("slot",s.growable[f.name][1]); o=t.ops[0]
        c=cint(o)
        if c is not None and c<0: return []
        d=f.defs.get(o) if isinstance(o,int) else None
        # a returned phi: one room per incoming edge
        if d is not None and d.op=="phi" and d.bb==b and all(i.op in("phi","ret") for i in f.blocks[b].instrs if i.id!=o):
            out=[]
            for x,p in zip(d.ops,d.x):
                if p not in instate: continue
                c=cint(x)
                if c is not None and c<0: continue
                ps={k:{r:set(v) for r,v in dd.items()} for k,dd in instate[p].items()}
                s.block(f,p,ps,(),ups,None)
                dx=f.defs.get(x) if isinstance(x,int) else None
                if dx is not None and dx.op=="phi" and dx.bb==p:
                    # nested merge of returned values
                    pass
                out.append(s.best(f,ps,key,s.lin(f,x),ups))
            return out
        return [s.best(f,st,key,s.lin(f,o),ups)]
    def best(s,f,st,key,V,ups):
        best=None
        for r,vs in st.get(key,{}).items():
            for v in vs:
                D=s.settle(f,ladd(s.form(r,v),V,-1),ups)
                if D is None or any(c<0 for q,c in D.items() if q!=1): continue
                k=D.get(1,0)
                best=k if best is None else max(best,k)
        return best if best is not None else -INF
    def subst(s,f,i,L):
        r={1:L.get(1,0)}
        for q,c in L.items():
            if isinstance(q,tuple) and q[0]=="len":
                b=s.S.bound(f,i.ops[q[1]])
                if b is not None: r[1]+=c*b
                else: r=ladd(r,{("len",s.S.canonU(f,i.ops[q[1]])):c})
        return r
    def meet(s,A,B,widen):
        out={}
        for k in A:
            if k not in B: continue
            d={}
            for r in A[k]:
                if r not in B[k]: continue
                res=set()
                for a in A[k][r]:
                    for b in B[k][r]:
                        if widen and b[0]<a[0]: continue
                        da,db=dict(a[1]),dict(b[1])
                        res.add((min(a[0],b[0]),frozenset((q,min(c,db[q])) for q,c in da.items() if q in db)))
                red=set()
                for x in res:
                    if not any(y!=x and s.le(x,y) for y in res): red.add(x)
                if red: d[r]=red
            out[k]=d
        return out
    def edge(s,f,b,t,st,pv,ups):
        B=f.blocks[b]; term=B.term
        ns={k:{r:set(v) for r,v in d.items()} for k,d in st.items()}
        if term.op=="br" and len(term.x)==2 and term.x[0]!=term.x[1]:
            for q,truth in s.truths(f,term.ops[0],term.x[0]==t):
                i=f.defs.get(q)
                if i is not None and i.op=="call" and i.callee in s.grow and truth:
                    g=s.grow[i.callee]
                    s.addfact(ns,("slot",s.S.canon(f,i.ops[g[1]])),s.lin(f,i.ops[g[2]]))
        phis=[i for i in f.blocks[t].instrs if i.op=="phi" and i.id in pv]
        if phis:
            new=[]
            for p in phis:
                x=[o for o,pb in zip(p.ops,p.x) if pb==b][0]
                X=s.lin(f,x)
                if X=={("v",p.id):1}: 
                    new.append((p,None)); continue
                fs=[]
                for k,d in ns.items():
                    for r,vs in d.items():
                        for v in vs:
                            L=s.form(r,v)
                            D=s.settle(f,ladd(L,X,-1),ups)
                            if D is None: continue
                            if any(c<0 for q,c in D.items() if q!=1): continue
                            fs.append((k,ladd(D,{("v",p.id):1})))
                new.append((p,fs))
            for p,fs in new:
                if fs is not None: s.kill(ns,p.id)
            for p,fs in new:
                for k,L in fs or (): s.addfact(ns,k,L)
        return ns
    def truths(s,f,o,pol,d=0):
        """(value, is non-zero) facts implied by condition o having truth pol"""
        out=[]
        i=f.defs.get(o) if isinstance(o,int) else None
        if i is None or d>10: return out
        out.append((o,pol))
        if i.op=="icmp" and cint(i.ops[1])==0 and i.x[0] in("eq","ne"):
            out+=s.truths(f,i.ops[0],pol==(i.x[0]=="ne"),d+1)
        elif i.op=="icmp" and cint(i.ops[1])==1 and i.x[0]=="eq" and pol: out+=s.truths(f,i.ops[0],True,d+1)
        elif i.op=="icmp" and cint(i.ops[1])==0 and i.x[0]=="sgt" and pol: out+=s.truths(f,i.ops[0],True,d+1)
        elif i.op in("zext","sext","trunc","freeze"): out+=s.truths(f,i.ops[0],pol,d+1)
        elif i.op=="xor" and cint(i.ops[1]) in(1,-1): out+=s.truths(f,i.ops[0],not pol,d+1)
        elif i.op=="and" and pol: out+=s.truths(f,i.ops[0],True,d+1)+s.truths(f,i.ops[1],True,d+1)
        elif i.op=="or" and not pol: out+=s.truths(f,i.ops[0],False,d+1)+s.truths(f,i.ops[1],False,d+1)
        return out
    def covered(s,f,st,key,V,C,ups,blk=None):
        """is some length bound at least V+C"""
        if C is None: return False,None
        gap=None
        for r,vs in st.get(key,{}).items():
            for v in vs:
                if s.nonneg(f,ladd(ladd(s.form(r,v),V,-1),C,-1)): return True,None
                D=s.settle(f,ladd(s.form(r,v),V,-1),ups)
                if D is None: continue
                D=ladd(D,C,-1)
                if s.nonneg(f,D): return True,None
                if gap is None or D.get(1,0)>gap.get(1,0): gap=D
                if blk is not None and any(c<0 for q,c in D.items() if q!=1):
                    F=s.ineqs(f,blk)
                    for a in F:
                        E=ladd(D,a,-1)
                        E=s.settle(f,E,ups)
                        if E is not None and s.nonneg(f,E): return True,None
        return False,gap
    def ineqs(s,f,blk):
        """linear forms known to be >= 0 in a block because of the branches that lead to it"""
        k=("ineq",f.name,blk)
        if k in s.S.memo: return s.S.memo[k]
        out=[]; dom=f.dom
        for b in range(len(f.blocks)):
            t=f.blocks[b].term
            if t.op!="br" or len(t.x)!=2 or t.x[0]==t.x[1]: continue
            for side in (0,1):
                e=t.x[side]
                if len(f.blocks[e].preds)!=1 or e not in dom[blk]: continue
                for q,truth in s.truths(f,t.ops[0],side==0):
                    i=f.defs.get(q)
                    if i is None or i.op!="icmp": continue
                    p=i.x[0]
                    if not truth: p={"ult":"uge","ule":"ugt","ugt":"ule","uge":"ult","slt":"sge","sle":"sgt","sgt":"sle","sge":"slt"}.get(p)
                    if p not in("ult","ule","ugt","uge","slt","sle","sgt","sge"): continue
                    A=s.lin(f,i.ops[0]); B=s.lin(f,i.ops[1])
                    if p[1:]=="lt": L=ladd(ladd(B,A,-1),{1:1},-1)
                    elif p[1:]=="le": L=ladd(B,A,-1)
                    elif p[1:]=="gt": L=ladd(ladd(A,B,-1),{1:1},-1)
                    else: L=ladd(A,B,-1)
                    if any(isinstance(z,tuple) and z[0]=="len" for z in L): out.append(L)
        s.S.memo[k]=out
        return out
    def sink(s,f,i,st,key,V,C,ups,report,kind):
        if report is None: return
        ok,gap=s.covered(f,st,key,V,C,ups,i.bb)
        report(f,i,key,ok,gap,C,kind)
    def block(s,f,b,st,pv,ups,report):
        P=s.P
        for i in f.blocks[b].instrs:
            if i.op=="store":
                if i.x=="i8":
                    bb=s.base(f,i.ops[1])
                    if bb: s.sink(f,i,st,bb[0],bb[2],{1:1},ups,report,"byte")
                elif i.x=="i32":
                    k=("slot",s.S.canon(f,i.ops[1]))
                    if k[1] in s.pairs.get(f.name,{}).values():
                        st[k]={}; s.addfact(st,k,s.lin(f,i.ops[0]))
            elif i.op=="call":
                n=i.callee
                if n is None: s.kill(st,i.id); continue
                if n in s.APP:
                    di,zi,fi=s.APP[n]
                    bb=s.base(f,i.ops[di])
                    c=fmtcost(s.S,f,i,fi)
                    if report is not None and bb is None: report(f,i,None,None,None,c,"unknown")
                    if bb:
                        C=ladd(c,{1:1}) if c is not None else None
                        if bb[0][0]=="slot" or zi is None: s.sink(f,i,st,bb[0],bb[2],C,ups,report,n)
                        else:
                            # fixed array with an explicit size: the size must fit the array
                            Z=s.lin(f,i.ops[zi])
                            s.sink(f,i,st,bb[0],bb[2],Z,ups,report,n)
                            if report is not None and C is not None and set(Z)<={1}:
                                report(f,i,bb[0],C.get(1,0)<=Z.get(1,0) and set(C)<={1},ladd(Z,C,-1),C,"fits")
                    s.kill(st,i.id)
                elif n in("strcpy",):
                    bb=s.base(f,i.ops[0]); x=s.S.bound(f,i.ops[1])
                    C={1:x+1} if x is not None else {1:1,("len",s.S.canonU(f,i.ops[1])):1}
                    if bb: s.sink(f,i,st,bb[0],bb[2],C,ups,report,n)
                    elif report is not None: report(f,i,None,None,None,C,"unknown")
                elif n in("malloc","calloc","wr_malloc"):
                    o=i.ops[1] if n=="wr_malloc" else i.ops[0]
                    s.kill(st,i.id); st.pop(("fix",i.id),None)
                    if n!="calloc": s.addfact(st,("fix",i.id),s.lin(f,o))
                elif n in s.grow: s.kill(st,i.id)
                elif n in s.growable:
                    bi,l=s.growable[n]
                    s.kill(st,i.id)
                    key=("slot",s.S.canon(f,i.ops[l]))
                    if l+1<len(i.ops): s.sink(f,i,st,key,s.lin(f,i.ops[l+1]),{},ups,report,"call")
                    e=s.exit.get(n,INF)
                    if e>-INF: s.addfact(st,key,{("v",i.id):1,1:e})
                elif n in P.fns:
                    for S,L in s.pairs.get(f.name,{}).items():
                        ks=[k for k,o in enumerate(i.ops) if not isinstance(o,list) and s.S.canon(f,o)==S]
                        if ks:
                            q=s.quoting(n,ks[0])
                            if q is None:
                                if report is not None: report(f,i,("slot",L),False,None,None,"opaque writer")
                            else: s.sink(f,i,st,("slot",L),s.lin(f,i.ops[q["pos"]]),s.subst(f,i,q["need"]),ups,report,n)
                    s.kill(st,i.id)
                else: s.kill(st,i.id)
    # ---- strings put together with strcpy / strcat
    def strlenform(s,f,o):
        b=s.S.bound(f,o)
        if b is not None: return {1:b} if b else {}
        return {("len",s.S.canonU(f,o)):1}
    def region(s,f,o):
        """(size of the memory a destination pointer starts, as a linear form) or None; a parameter counts when another parameter tells its size"""
        o=strip(f,o)
        if not isinstance(o,int): return None
        if o<len(f.args):
            if f.name in s.P.taken: return None
            cs=s.P.callers(f.name)
            if not cs: return None
            for k in range(len(f.args)):
                if k==o or f.args[k][0]!="i32": continue
                ok=True
                for c in cs:
                    q=strip(c.fn,c.ops[o]) if not isinstance(c.ops[o],list) else None
                    al=c.fn.defs.get(q) if isinstance(q,int) else None
                    if al is None or al.op!="alloca" or cint(c.ops[k]) is None or cint(c.ops[k])>al.x[2] or cint(c.ops[k])<50: ok=False
                if ok: return {("v",k):1}
            return None
        i=f.defs[o]
        if i.op=="alloca" and re.match(r"\[\d+ x i8\]",i.x[0]): return {1:i.x[2]}
        if i.op=="call" and i.callee in("malloc","wr_malloc","wg_alloc_mpool"): return s.lin(f,i.ops[{"malloc":0,"wr_malloc":1,"wg_alloc_mpool":2}[i.callee]])
        return None
    def before(s,f,p,b,idx,seen):
        """upper bounds of the length of the string at p before instruction idx of block b: list of linear forms, None when unknown"""
        acc={}
        while True:
            for i in reversed(f.blocks[b].instrs[:idx]):
                if i.op=="store" and strip(f,i.ops[1])==p or i.op=="store" and i.x=="i8" and isinstance(i.ops[1],int) and f.defs.get(i.ops[1]) is not None and f.defs[i.ops[1]].op=="getelementptr" and strip(f,f.defs[i.ops[1]].ops[0])==p and all(cint(x)==0 for x in f.defs[i.ops[1]].ops[1:]):
                    if i.x=="i8" and cint(i.ops[0])==0: return [acc]
                    return None
                if i.op!="call": 
                    if i.id==p: return None
                    continue
                a=[strip(f,x) if not isinstance(x,list) else None for x in i.ops]
                if p not in a:
                    if i.id==p: return None
                    continue
                n=i.callee
                if n=="strcpy" and a[0]==p: return [ladd(acc,s.strlenform(f,i.ops[1]))]
                if n=="strcat" and a[0]==p: acc=ladd(acc,s.strlenform(f,i.ops[1])); continue
                if n=="strlen": return [ladd(acc,{("len",s.S.canon(f,i.ops[0])):1})]
                if n in READERS: continue
                if n in s.P.fns and s.S.readonly(n,[k for k,x in enumerate(a) if x==p]): continue
                return None
            ps=f.blocks[b].preds
            if len(ps)==1:
                if ps[0] in seen and len(seen)>60: return None
                b=ps[0]; idx=len(f.blocks[b].instrs); seen=seen|{b}; continue
            if not ps or len(seen)>60 or b in seen and len(seen)>1 and (b,) in seen: return None
            out=[]
            for q in ps:
                if (q,b) in seen: return None
                r=s.before(f,p,q,len(f.blocks[q].instrs),seen|{b,(b,),(q,b)})
                if r is None: return None
                out+=r
            res=[]
            for x in out:
                x=ladd(x,acc)
                if x not in res: res.append(x)
            return res if len(res)<=8 else None
    def cats(s,f,report):
        for i in f.instrs():
            if i.op!="call" or i.callee not in("strcat","strcpy") or isinstance(i.ops[0],list): continue
            Z=s.region(f,i.ops[0]); p=strip(f,i.ops[0])
            if Z is None: continue
            if i.callee=="strcpy":
                if s.base(f,i.ops[0]): continue
                B=[{}]
            else:
                B=s.before(f,p,i.bb,i.idx,frozenset())
                if B is None and s.onlyzero(f,p,i): B=[{}]
            c=s.strlenform(f,i.ops[1]); ok=B is not None; gap=None
            c2={("len",s.S.canon(f,i.ops[1])):1}
            for L in B or ():
                D=ladd(ladd(Z,L,-1),{1:-1})
                if not any(s.nonneg(f,s.settlelen(f,ladd(D,x,-1),i.bb)) for x in (c,c2)): ok=False; gap=ladd(D,c,-1)
            report(f,i,("cat",p),ok,gap,c,i.callee)
    def onlyzero(s,f,p,use):
        """does every path to use end its writes to the string at p with a terminator at its start"""
        def last(b,idx):
            for i in reversed(f.blocks[b].instrs[:idx]):
                if i.op=="store":
                    d=strip(f,i.ops[1]); g=f.defs.get(i.ops[1]) if isinstance(i.ops[1],int) else None
                    if d==p or g is not None and g.op=="getelementptr" and strip(f,g.ops[0])==p:
                        return "zero" if cint(i.ops[0])==0 and (d==p or all(cint(x)==0 for x in g.ops[1:])) else "write"
                elif i.op=="call" and any(strip(f,x)==p for x in i.ops if not isinstance(x,list)):
                    if i.callee in READERS or i.callee in("snprintf","sprintf") and strip(f,i.ops[0])!=p: continue
                    if i.callee in s.P.fns and s.S.readonly(i.callee,[k for k,x in enumerate(i.ops) if strip(f,x)==p]): continue
                    return "write"
                elif i.id==p: return "write"
            return None
        r=last(use.bb,use.idx)
        if r: return r=="zero"
        seen=set(); w=list(f.blocks[use.bb].preds)
        if not w: return False
        while w:
            b=w.pop()
            if b in seen: continue
            seen.add(b); r=last(b,len(f.blocks[b].instrs))
            if r=="zero": continue
            if r or not f.blocks[b].preds: return False
            w+=f.blocks[b].preds
        return True
    def settlelen(s,f,D,blk):
        if s.nonneg(f,D): return D
        for a in s.ineqs(f,blk):
            E=ladd(D,a,-1)
            if s.nonneg(f,E): return E
        return D
    def solve(s):
        todo=[n for n in s.growable if n not in s.grow]
        for n in todo: s.exit[n]=INF
        for _ in range(30):
            ch=False
            for n in todo:
                e=s.analyse(s.P.fns[n])
                if e<s.exit[n]: s.exit[n]=e; ch=True
            if not ch: break
        return s.exit
