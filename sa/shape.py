"""Structural queries on values: where operands come from, which call decided a branch, loops."""
from core import *
from sign import skey, lin
import build
def isparam(f,o):
    o=strip(f,o); return isinstance(o,int) and o<len(f.args)
def isload(f,o):
    o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) and o>=len(f.args) else None
    return i is not None and i.op=="load"
def inst(f,o):
    o=strip(f,o)
    return f.defs.get(o) if isinstance(o,int) and o>=len(f.args) else None
# ---- loops
def headers(f):
    h=f._hdr
    if h is None:
        h={}
        for b in f.blocks:
            if b.n not in f.dom: continue
            for s in b.succs:
                if s in f.dom[b.n]:
                    L=h.setdefault(s,{s})
                    w=[b.n]
                    while w:
                        x=w.pop()
                        if x in L: continue
                        L.add(x); w+= [p for p in f.blocks[x].preds if p in f.dom]
        f._hdr=h
    return h
def loop_body(f,h): return headers(f).get(h,set())
def outer_loop(f,bb):
    best=None
    for h,L in headers(f).items():
        if bb in L and (best is None or len(L)>len(headers(f)[best])): best=h
    return best
def inner_loop(f,bb):
    best=None
    for h,L in headers(f).items():
        if bb in L and (best is None or len(L)<len(headers(f)[best])): best=h
    return best
# ---- leaves
def isglb(f,k): return k<len(f.args) and (f.args[k][1] in("g",) or k==0 and f.args[k][0]=="ptr")
def glbvalue(f,o,d=0):
    """value computed from the run-time state record alone (database handle, option, base address)"""
    o=strip(f,o)
    if not isinstance(o,int): return True
    if o<len(f.args): return isglb(f,o)
    i=f.defs[o]
    if d>6: return False
    if i.op=="load": return glbvalue(f,i.ops[0],d+1)
    if i.op in("getelementptr","add","sub"): return all(glbvalue(f,z,d+1) for z in i.ops)
    return False
def counter_phi(f,i):
    """loop counter: phi of constants and of itself plus a constant"""
    if i.op!="phi": return False
    for z in i.ops:
        if cint(z) is not None: continue
        d=inst(f,z)
        ok=False
        while d is not None:
            if d is i: ok=True; break
            if d.op in("add","sub") and cint(d.ops[1]) is not None: d=inst(f,d.ops[0]); continue
            if d.op=="phi" and all(strip(f,w) in (i.id,) or (inst(f,w) is not None and inst(f,w).op=="add") for w in d.ops): ok=True; break
            if d.op=="add":
                break
            break
        if not ok:
            # start value other than a constant is accepted when every looping operand is an increment
            if inst(f,z) is not None and inst(f,z).op=="add" and any(strip(f,w)!=i.id for w in inst(f,z).ops): 
                if cint(inst(f,z).ops[1]) is not None: continue
            return False
    return True
def lf(f,o,keepctr=False,nophi=False):
    """identities a value is taken from: parameters, loop-carried values, calls; loads and arithmetic are followed"""
    out=set(); seen=set(); w=[o]
    hd=headers(f)
    while w:
        o=w.pop()
        if isinstance(o,list): w+=o[1]; continue
        o=strip(f,o)
        if not isinstance(o,int) or o in seen: continue
        seen.add(o)
        if o<len(f.args):
            if not isglb(f,o): out.add(o)
            continue
        i=f.defs[o]
        if i.op=="load":
            if glbvalue(f,o): continue
            w.append(i.ops[0])
        elif i.op=="phi":
            if i.bb in hd and any(p in hd[i.bb] for p in i.x):
                if counter_phi(f,i) and not keepctr: continue
                out.add(o)
            else: w+=i.ops
        elif i.op=="select": w+=i.ops[1:]
        elif i.op=="call":
            out.add(o); w+=i.ops
        elif i.op=="alloca": out.add(o)
        else: w+=i.ops
    return out
def vleaves(f,o): return lf(f,o)
def pleaves(f,o):
    """parameters a value is computed from, loop-carried values included"""
    out=set(); seen=set(); w=[o]
    while w:
        o=w.pop()
        if isinstance(o,list): w+=o[1]; continue
        o=strip(f,o)
        if not isinstance(o,int) or o in seen: continue
        seen.add(o)
        if o<len(f.args):
            if not isglb(f,o): out.add(o)
            continue
        w+=f.defs[o].ops
    return out
def belongs(f,atom,cl):
    """the literal/term value and the clause value come from the same index node or the literal is read from the clause"""
    if isparam(f,atom) and isparam(f,cl): return True
    a,c=lf(f,atom),lf(f,cl)
    x=strip(f,cl)
    return bool(a&c) or x in a
def indexed(f,atom,idx):
    """the literal is read at the position given"""
    x=strip(f,idx); seen=set(); w=[atom]
    while w:
        o=w.pop()
        if isinstance(o,list): w+=o[1]; continue
        o=strip(f,o)
        if not isinstance(o,int) or o in seen: continue
        if o==x: return True
        seen.add(o)
        if o<len(f.args): continue
        i=f.defs[o]
        if i.op in("phi",): 
            if i.bb in headers(f): continue
        w+=i.ops
    return False
def counters(f,o):
    """loop counters a value is indexed by, loads followed"""
    out=set(); seen=set(); w=[o]
    while w:
        o=w.pop()
        if isinstance(o,list): w+=o[1]; continue
        o=strip(f,o)
        if not isinstance(o,int) or o in seen: continue
        seen.add(o)
        if o<len(f.args): continue
        i=f.defs[o]
        if i.op=="phi" and i.bb in headers(f): out.add(o); continue
        w+=i.ops
    return out
def backloads(f,o):
    out=[]; seen=set(); w=[o]
    while w:
        o=w.pop(); o=strip(f,o)
        if not isinstance(o,int) or o in seen or o<len(f.args): continue
        seen.add(o); i=f.defs[o]
        if i.op=="load": out.append(o); continue
        if i.op in("phi","getelementptr","add","sub","select"): w+=i.ops
    return out
def ptr_root(f,o):
    """parameter a pointer is an element address of"""
    for _ in range(12):
        o=strip(f,o)
        if not isinstance(o,int): return None
        if o<len(f.args): return o
        i=f.defs[o]
        if i.op=="getelementptr": o=i.ops[0]; continue
        return None
def argpos(f,i):
    """name of the g->unify_* field that indexes a record in this load, or None"""
    if i is None or i.op!="load": return None
    seen=set(); w=[i.ops[0]]
    while w:
        o=w.pop(); o=strip(f,o)
        if not isinstance(o,int) or o in seen or o<len(f.args): continue
        seen.add(o); d=f.defs[o]
        if d.op=="load":
            a=addr(f,d.ops[0])
            if a[0]=="field" and a[2].startswith("unify_fun"): return a[2]
            continue
        if d.op in("getelementptr","add","sub","mul","shl"): w+=d.ops
    return None
def argfield(f,o):
    """(unify_funargNpos, base) when o is a load of an equality side"""
    i=inst(f,o)
    p=argpos(f,i)
    if p is None: return None
    return (p,i.ops[0])
def joint(f,a,b):
    """pairs of simultaneous sources of two values (phis of one block are followed together)"""
    out=[]; seen=set(); w=[(strip(f,a),strip(f,b))]
    while w:
        x,y=w.pop()
        if (x,y) in seen or len(seen)>400: continue
        seen.add((x,y))
        i=inst(f,x) if isinstance(x,int) else None; j=inst(f,y) if isinstance(y,int) else None
        pi=i is not None and i.op=="phi"; pj=j is not None and j.op=="phi"
        if i is not None and i.op=="select" and j is not None and j.op=="select" and i.ops[0]==j.ops[0]:
            w.append((strip(f,i.ops[1]),strip(f,j.ops[1]))); w.append((strip(f,i.ops[2]),strip(f,j.ops[2]))); continue
        if pi and pj and i.bb==j.bb:
            for k,p in enumerate(i.x): w.append((strip(f,i.ops[k]),strip(f,j.ops[j.x.index(p)])))
        elif pi and (not pj or i.bb!=j.bb and j.bb in f.dom.get(i.bb,())):
            for z in i.ops: w.append((strip(f,z),y))
        elif pj:
            for z in j.ops: w.append((x,strip(f,z)))
        else: out.append((x,y))
    return out
def sides(f,o):
    """for a value merged from two branches: [(flag value that decided, its truth, source)]"""
    i=inst(f,o); out=[]
    if i is None: return out
    if i.op=="select":
        c,neg=truthval(f,i.ops[0])
        return [(c,not neg,i.ops[1]),(c,neg,i.ops[2])]
    if i.op!="phi": return [(None,None,o)]
    for z,p in zip(i.ops,i.x):
        d=inst(f,z)
        conds=f.edge_conds(d.bb) if d is not None else []
        if not conds or (d is not None and d.op=="phi"):
            if d is not None and d.op=="phi" and d is not i: out+=sides(f,z); continue
            out.append((None,None,z)); continue
        # nearest deciding branch
        best=None
        for cc,tr,t in conds:
            if not isinstance(cc,int): continue
            v,neg=truthval(f,cc)
            if v is None: continue
            if i.bb not in f.dom or t.bb in f.dom[i.bb]:
                if best is None or t.bb not in f.dom.get(best[2].bb,()): best=(v,tr!=neg,t)
        out.append((best[0],best[1],z) if best else (None,None,z))
    return out
def truthval(f,o):
    """(value whose non-zeroness the condition tests, negated)"""
    neg=False
    for _ in range(8):
        i=inst(f,o)
        if i is None: return (o if isinstance(o,int) else None,neg)
        if i.op=="xor" and i.ty=="i1" and cint(i.ops[1]) in(1,-1): neg=not neg; o=i.ops[0]; continue
        if i.op=="icmp" and cint(i.ops[1])==0 and i.x[0] in("eq","ne"):
            if i.x[0]=="eq": neg=not neg
            o=i.ops[0]; continue
        break
    return (strip(f,o),neg)
def truthcall(f,o,tr):
    """call whose non-zero result is implied by branch condition o being tr"""
    if not isinstance(o,int): return None
    v,neg=truthval(f,o)
    i=inst(f,v)
    if i is not None and i.op=="icmp" and i.x[0] in("eq","sgt","sge") and (tr!=neg):
        # result compared with a constant that excludes zero
        for a,b in(i.ops,i.ops[::-1]):
            k=cint(b)
            if k is None: continue
            if i.x[0]=="eq" and k!=0 or b is i.ops[1] and (i.x[0]=="sgt" and k>=0 or i.x[0]=="sge" and k>0):
                j=inst(f,a)
                if j is not None and j.op=="phi":
                    cs=set()
                    for z in j.ops:
                        c=cint(z)
                        if c is None: cs|={strip(f,z)}
                        elif i.x[0]!="eq" or c==k: cs.add(None)
                    if all(isinstance(z,int) and inst(f,z) is not None and inst(f,z).op=="call" for z in cs) and len({inst(f,z).callee for z in cs})==1: return inst(f,cs.pop())
                    return None
                if j is not None and j.op=="call": return j
        return None
    if i is not None and i.op=="phi":
        cs={strip(f,z) for z in i.ops if cint(z)!=0}
        if len(cs)==1: i=inst(f,cs.pop())
        elif cs and all(isinstance(z,int) and inst(f,z) is not None and inst(f,z).op=="call" for z in cs) and len({inst(f,z).callee for z in cs})==1: i=inst(f,cs.pop())
    if i is not None and i.op=="call" and (tr!=neg): return i
    return None
def falsecall(f,o,tr):
    if not isinstance(o,int): return None
    v,neg=truthval(f,o); i=inst(f,v)
    if i is not None and i.op=="call" and (tr==neg): return i
    return None
def nonnullvar(f,o,tr): return False
def eqcond(f,o,tr,param):
    """the condition says that the parameter equals a loaded value, or equality was established by a call"""
    if not isinstance(o,int): return False
    c=truthcall(f,o,tr)
    if c is not None and c.callee in("wr_equal_term","wr_match_term","wr_eqmodvars_term"): return any(strip(f,z)==param for z in c.ops)
    i=inst(f,o)
    if i is not None and i.op=="icmp" and i.x[0] in("eq","ne") and (i.x[0]=="eq")==tr:
        return any(strip(f,z)==param for z in i.ops) and any(isload(f,z) for z in i.ops)
    return False
def pathflag(f,o):
    """branch condition on the position stored in an index node: 1 when the condition is true for position 1, 2 when false, else 0"""
    i=inst(f,o) if isinstance(o,int) else None
    if i is None or i.op!="icmp" or i.x[0] not in("eq","ne"): return 0
    for a,b in(i.ops,i.ops[::-1]):
        k=cint(b)
        if k not in(0,1): continue
        d=inst(f,a)
        # decoded integer: shift of a load, or a load / call of the decoder
        for _ in range(4):
            if d is not None and d.op in("ashr","lshr","trunc","sext","phi"): d=inst(f,d.ops[0])
        if d is None: continue
        if (d.op=="load" and not glbvalue(f,d.id)) or (d.op=="call" and d.callee and "decode" in d.callee):
            one=(i.x[0]=="eq")==(k==1)
            return 1 if one else 2
    return 0
def truthconsts(P):
    m=build.macros(["ACONST_TRUE","ACONST_FALSE"],"Reasoner/rincludes.h")
    if len(m)!=2: raise AnalysisBroken("truth constants not found")
    return m
def ismetaslot(f,i):
    """store into the sign word of a literal of a clause under construction: [param + LIT_WIDTH*k + LIT_META_POS]"""
    m=build.macros(["LIT_META_POS","LIT_WIDTH"],"Reasoner/rincludes.h")
    k=skey(f,i.ops[1])
    if not(isinstance(k,tuple) and k[0]=="gep"): return False
    return isinstance(k[1],tuple) and k[1][0]=="p" and k[2]==m["LIT_META_POS"] and any(str(v).startswith("%d*"%m["LIT_WIDTH"]) for v in k[3])
def fromnode(f,o):
    """loaded from an index node: a load whose address involves a loop-carried value or a call, not a parameter directly"""
    i=inst(f,o)
    if i is None: return False
    if i.op=="load":
        l=lf(f,i.ops[0],True); return any(z>=len(f.args) for z in l)
    if i.op=="phi": return all(fromnode(f,z) for z in i.ops if cint(z)!=0)
    if i.op in("add","sub","getelementptr"): return any(fromnode(f,z) for z in i.ops)
    return False
