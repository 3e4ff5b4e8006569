"""Literal sign tests: which values carry the sign of a literal and which branches depend on it."""
from core import *
NEGBIT=1<<25        # ATOM_META_NEG_RAWMASK, re-derived from the IR by negmask()
def negmask(prog):
    """the mask that the program uses for the sign: the most frequent single-bit mask of literal metas loaded by wr_factor-like code"""
    from collections import Counter
    c=Counter()
    for f in prog.fns.values():
        if not f.file.startswith("Reasoner/"): continue
        for i in f.instrs():
            if i.op=="and":
                m=cint(i.ops[1])
                if m is not None and m>2**10 and m&(m-1)==0: c[m]+=1
    return c.most_common(1)[0][0] if c else NEGBIT
class Signs:
    def __init__(s,prog,mask=None): s.p=prog; s.mask=mask or negmask(prog); s.c={}
    def val(s,f,o,d=0):
        """(key,inv): value o is nonzero exactly when the literal with meta `key` is negative (inv False) or positive (inv True)"""
        k=(f.name,str(o))
        if k in s.c: return s.c[k]
        s.c[k]=None
        r=s._val(f,o,d); s.c[k]=r
        return r
    def _val(s,f,o,d):
        if not isinstance(o,int) or d>12: return None
        if o<len(f.args):
            n=f.args[o][1]
            return (("p",o),False) if "neg" in n else ((("p",o),True) if n in("positive","posflag") else None)
        i=f.defs[o]
        if i.op in("zext","sext","trunc","freeze"): return s.val(f,i.ops[0],d+1)
        if i.op=="and":
            for a,b in((i.ops[0],i.ops[1]),(i.ops[1],i.ops[0])):
                if cint(b)==s.mask: return (("m",a),False)
                if cint(b)==1:
                    j=f.defs.get(a) if isinstance(a,int) and a>=len(f.args) else None
                    if j is not None and j.op in("lshr","ashr") and cint(j.ops[1]) is not None and 1<<cint(j.ops[1])==s.mask: return (("m",j.ops[0]),False)
                    return s.val(f,a,d+1) if j is not None and j.op!="add" else None
        if i.op=="xor" and cint(i.ops[1]) in(1,-1):
            r=s.val(f,i.ops[0],d+1); return None if r is None else (r[0],not r[1])
        if i.op=="lshr" or i.op=="ashr":
            return s.val(f,i.ops[0],d+1) if cint(i.ops[1]) is not None and 1<<cint(i.ops[1])<=s.mask else None
        if i.op=="icmp" and i.x[0] in("eq","ne") and cint(i.ops[1]) in(0,1,s.mask):
            r=s.val(f,i.ops[0],d+1)
            if r is None: return None
            eqz=(cint(i.ops[1])==0)
            return (r[0], r[1]!=((i.x[0]=="eq")==eqz))
        if i.op=="select" and cint(i.ops[1]) is not None and cint(i.ops[2]) is not None and (cint(i.ops[1])==0)!=(cint(i.ops[2])==0):
            r=s.val(f,i.ops[0],d+1)
            return None if r is None else (r[0], r[1]!=(cint(i.ops[1])==0))
        if i.op=="phi" and len(i.ops)==2 and all(cint(z) is not None for z in i.ops) and (cint(i.ops[0])==0)!=(cint(i.ops[1])==0):
            nz=0 if cint(i.ops[0])!=0 else 1
            for k in(0,1):
                pb=i.x[k]
                cs=list(f.edge_conds(pb)); t=f.blocks[pb].term
                if t.op=="br" and len(t.x)==2 and t.x[0]!=t.x[1] and i.bb in t.x: cs.append((t.ops[0],t.x[0]==i.bb,t))
                # a condition that separates the two predecessors
                oth=f.edge_conds(i.x[1-k])
                tt=f.blocks[i.x[1-k]].term
                if tt.op=="br" and len(tt.x)==2 and tt.x[0]!=tt.x[1] and i.bb in tt.x: oth=list(oth)+[(tt.ops[0],tt.x[0]==i.bb,tt)]
                for c,tr,br in cs:
                    if isinstance(c,tuple): continue
                    if not any(b2 is br and t2!=tr for c2,t2,b2 in oth): continue
                    r=s.val(f,c,d+1)
                    if r: return (r[0], r[1]!=((k==nz)!=tr))
        return None
    def conds(s,f,bb):
        """{key: 'neg'|'pos'} known on entry of block bb"""
        out={}
        for c,tr,t in f.edge_conds(bb):
            if isinstance(c,tuple): continue
            r=s.val(f,c)
            if r: out[r[0]]="neg" if tr!=r[1] else "pos"
        return out
    def equal_pairs(s,f,bb):
        """sign keys known (un)equal on entry: [(key1,key2,equal)]"""
        out=[]
        for c,tr,t in f.edge_conds(bb):
            if isinstance(c,tuple) or not isinstance(c,int) or c<len(f.args): continue
            i=f.defs[c]; neg=False
            while i is not None and i.op in("xor","zext","trunc"):
                if i.op=="xor": neg=not neg
                i=f.defs.get(i.ops[0]) if isinstance(i.ops[0],int) and i.ops[0]>=len(f.args) else None
            if i is None or i.op!="icmp" or i.x[0] not in("eq","ne"): continue
            a,b=s.val(f,i.ops[0]),s.val(f,i.ops[1])
            if a and b:
                eq=(i.x[0]=="eq")==(tr!=neg)
                out.append((a[0],b[0],eq!=(a[1]!=b[1])))
        return out
# ---- sign assumptions for constant propagation
def lin(f,o,m=1,d=0):
    """linear form of an index: (constant, [multiplier*term])"""
    o=strip(f,o,("zext","sext","trunc","freeze"))
    c=cint(o)
    if c is not None: return c*m,[]
    i=f.defs.get(o) if isinstance(o,int) and o>=len(f.args) else None
    if i is not None and d<8:
        if i.op in("add","sub"):
            a,x=lin(f,i.ops[0],m,d+1); b,y=lin(f,i.ops[1],m if i.op=="add" else -m,d+1)
            return a+b,x+y
        if i.op=="mul" and cint(i.ops[1]) is not None: return lin(f,i.ops[0],m*cint(i.ops[1]),d+1)
        if i.op=="mul" and cint(i.ops[0]) is not None: return lin(f,i.ops[1],m*cint(i.ops[0]),d+1)
        if i.op=="shl" and cint(i.ops[1]) is not None: return lin(f,i.ops[0],m<<cint(i.ops[1]),d+1)
    return 0,["%d*%s"%(m,skey(f,o))]
def skey(f,o,d=0):
    """structural key of a value (same key: same expression over the same loads)"""
    o=strip(f,o)
    if not isinstance(o,int): return str(o)
    if o<len(f.args): return ("p",o)
    i=f.defs[o]
    if d>10: return ("v",o)
    if i.op=="load": return ("ld",skey(f,i.ops[0],d+1))
    if i.op=="getelementptr":
        base=i.ops[0]; off=0; var=[]
        if all(st[0]=="p" for st in i.x[1]) and len(i.ops)==2:
            b=skey(f,base,d+1)
            if isinstance(b,tuple) and b and b[0]=="gep": base_k,off,var=b[1],b[2],list(b[3])
            else: base_k=b
            c,terms=lin(f,i.ops[1])
            off+=c; var+=terms
            return ("gep",base_k,off,tuple(sorted(var)))
        return ("gepx",str(i.x[1]))+tuple(skey(f,z,d+1) for z in i.ops)
    if i.op in("add","sub","mul","shl","ashr","lshr","and","or"): return (i.op,)+tuple(skey(f,z,d+1) for z in i.ops)
    return ("v",o)
def rootof(f,o,d=0):
    """pointer a value is loaded from: innermost base of the address (parameter, load or phi id)"""
    o=strip(f,o)
    if not isinstance(o,int) or o<len(f.args) or d>12: return o
    i=f.defs[o]
    if i.op=="getelementptr": return rootof(f,i.ops[0],d+1)
    return o
class Assume:
    """oracle factory: which literal is negative / which clause is a rule"""
    def __init__(s,prog,mask=None,rulebit=8):
        s.p=prog; s.mask=mask or negmask(prog); s.rulebit=rulebit; s.sh=s.mask.bit_length()-1
    def metas(s,f):
        """[(and instr, meta operand, root, key)] of sign tests in f"""
        out=[]
        for i in f.instrs():
            if i.op!="and": continue
            for a,b in((i.ops[0],i.ops[1]),(i.ops[1],i.ops[0])):
                m=None; c=cint(b)
                if c==s.mask: m=a
                elif c==1:
                    j=f.defs.get(strip(f,a,("zext","sext","trunc"))) if isinstance(a,int) and a>=len(f.args) else None
                    if j is not None and j.op in("lshr","ashr") and cint(j.ops[1])==s.sh: m=j.ops[0]
                if m is None: continue
                m=strip(f,m)
                j=f.defs.get(m) if isinstance(m,int) and m>=len(f.args) else None
                r=m
                if j is not None and j.op=="load": r=rootof(f,j.ops[0])
                out.append((i,m,r,skey(f,m)))
        return out
    def rules(s,f):
        """[(and instr, record root)] of rule-clause tests"""
        out=[]
        for i in f.instrs():
            if i.op!="and" or cint(i.ops[1])!=s.rulebit: continue
            j=f.defs.get(strip(f,i.ops[0])) if isinstance(i.ops[0],int) and i.ops[0]>=len(f.args) else None
            if j is None or j.op!="load": continue
            a=addr(f,j.ops[0])
            if a[0]=="elem" and cint(a[2])==1: out.append((i,rootof(f,a[1])))
        return out
    def oracle(s,f,sign,rule=None):
        """sign(root,key)->'neg'|'pos'|None ; rule(root)->True|False|None"""
        fix={}
        for i,m,r,k in s.metas(f):
            v=sign(r,k)
            if v is None: continue
            one=s.mask if s.mask in(cint(i.ops[0]),cint(i.ops[1])) else 1
            fix[i.id]=one if v=="neg" else 0
        if rule:
            for i,r in s.rules(f):
                v=rule(r)
                if v is not None: fix[i.id]=s.rulebit if v else 0
        # sign of a combination: (m1^m2)&mask
        for i,m,r,k in s.metas(f):
            j=f.defs.get(m) if isinstance(m,int) and m>=len(f.args) else None
            if j is not None and j.op=="xor":
                v=[]
                for z in j.ops:
                    z=strip(f,z); y=f.defs.get(z) if isinstance(z,int) and z>=len(f.args) else None
                    rr=rootof(f,y.ops[0]) if y is not None and y.op=="load" else z
                    v.append(sign(rr,skey(f,z)))
                if None not in v: fix[i.id]=s.mask if v[0]!=v[1] else 0
                else: fix.pop(i.id,None)
        return lambda i: fix.get(i.id)
