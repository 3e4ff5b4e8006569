"""Pointer provenance and memory-effect summaries.

A root describes where an address comes from: (kind, name..., reach) with reach 0 = the object itself, 1 = something
reached by following pointers/offsets stored in it.  A write is (segment root, object root):
an address of the form segment_base+offset is attributed to the object the offset was taken from."""
from core import *
DBNAMES={"db","local_db","kb_db","child_db","gdb","shmptr"}
ALLOC={"malloc","calloc","realloc","wr_malloc","wr_calloc","wr_realloc"}
MEMW={"memcpy":0,"memmove":0,"memset":0,"strcpy":0,"strncpy":0,"strcat":0,"sprintf":0,"snprintf":0,"vsnprintf":0}
GLOBSEG="wg_attached_kb_segment"
class Prov:
    def __init__(s,prog): s.p=prog; s.c={}; s.oc={}; s.retsum={}
    def roots(s,f,o):
        k=(f.name,str(o))
        if k not in s.c:
            s.c[k]=frozenset(); s.c[k]=frozenset(s._roots(f,o,set()))
        return s.c[k]
    def dblike(s,f,o,r=None):
        r=r if r is not None else s._roots(f,o,set())
        for z in r:
            if z[0]=="db" and z[-1]==0: return True
            if z[0]=="param" and z[-1]==0 and f.args[z[1]][1] in DBNAMES: return True
            if z[0]=="call" and z[1] and z[1].startswith("wg_attach"): return True
        return False
    def _roots(s,f,o,seen):
        if isinstance(o,str):
            if o.startswith("@"): return {("glob",o[1:],0)}
            return {("const",0)}
        if isinstance(o,list):
            if o[0]=="getelementptr": return s._roots(f,o[1][0],seen)
            return {("const",0)}
        if o in seen: return set()
        seen.add(o)
        if o<len(f.args): return {("param",o,0)}
        i=f.defs[o]; op=i.op
        if op=="getelementptr":
            b=s._roots(f,i.ops[0],seen)
            last=i.ops[-1]
            if cint(last) is None and i.x[0]=="i8" and s.dblike(f,i.ops[0],b):
                return {("seg",)+tuple(sorted(b,key=str)[:1])+(z,) for z in (s._off(f,last,seen) or {("const",0)})}
            return b
        if op in("bitcast","inttoptr","ptrtoint","freeze","addrspacecast"): return s._roots(f,i.ops[0],seen)
        if op=="phi":
            r=set()
            for z in i.ops: r|=s._roots(f,z,seen)
            return r
        if op=="select":
            return s._roots(f,i.ops[1],seen)|s._roots(f,i.ops[2],seen)
        if op in("add","sub","and","or"):
            r=set()
            for z in i.ops:
                if cint(z) is None: r|=s._roots(f,z,seen)
            return r
        if op=="alloca": return {("alloca",o,0)}
        if op=="load": return s._load(f,i,seen)
        if op=="call":
            if i.callee in s.retsum:
                r={("call",i.callee,0)}
                for k in s.retsum[i.callee]:
                    if k<len(i.ops): r|=s._roots(f,i.ops[k],seen)
                return r
            return {("call",i.callee,0)}
        return {("op",op,0)}
    def _load(s,f,i,seen):
        a=addr(f,i.ops[0])
        if a[0]=="field":
            if a[1]=="glb":
                if a[2] in("db","kb_db","child_db","local_db"): return {("db",a[2],0)}
                if a[2]=="kb_g": return {("kbg",0)}
                b=s._roots(f,a[3],set(seen))
                kb=any(z[0]=="kbg" for z in b)
                return {("kbfld" if kb else "glb",a[2],0)}
            if a[2]=="kb_db" and "memsegment" in a[1]: return {("db","kb_db",0)}
        if a[0]=="alloca":
            r=set()
            for u in f.uses[a[1].id]:
                if u.op=="store" and u.ops[1]==a[1].id: r|=s._roots(f,u.ops[0],seen)
            if not r: r={("alloca",a[1].id,1)}
            return r
        if a[0]=="global": return {("globval",a[1],0)}
        r=set()
        for z in s._roots(f,i.ops[0],seen): r.add(s.deep(z))
        return r
    @staticmethod
    def deep(z):
        if z[0]=="seg": return Prov.deep(z[2]) if z[2][0]!="const" else Prov.deep(z[1])
        return z[:-1]+(1,)
    def _off(s,f,o,seen):
        """object(s) an offset value was taken from"""
        if not isinstance(o,int): return set()
        if ("o",o) in seen: return set()
        seen.add(("o",o))
        if o<len(f.args): return {("param",o,0)}
        i=f.defs[o]; op=i.op
        if op in("add","sub","and","or","xor","shl","ashr","lshr","mul","sext","zext","trunc","freeze"):
            r=set()
            for z in i.ops:
                if cint(z) is None: r|=s._off(f,z,seen)
            return r
        if op=="phi" or op=="select":
            r=set()
            for z in (i.ops if op=="phi" else i.ops[1:]): r|=s._off(f,z,seen)
            return r
        if op=="ptrtoint":
            return set()   # pointer differences: rpto(g,p): the object is p
        if op=="load": return s._load(f,i,seen)
        if op=="call": return {("call",i.callee,0)}
        return set()
    # ---- regions that can execute while a kb is attached
    def guard(s,f,c,ext,memo=None):
        """classify i1 operand: (kind, pointer-roots, edge) where edge (True/False) is the SAFE outcome"""
        if not isinstance(c,int) or c<len(f.args): return None
        i=f.defs.get(c)
        if i is None: return None
        if i.op=="xor" and cint(i.ops[1]) in(1,-1):
            g=s.guard(f,i.ops[0],ext)
            return None if g is None else (g[0],g[1],not g[2])
        if i.op=="zext" or i.op=="trunc": return s.guard(f,i.ops[0],ext)
        if i.op=="icmp":
            pr=i.x[0]; a,b=i.ops
            if cint(a) is not None and cint(b) is None: a,b=b,a; pr={"sgt":"slt","slt":"sgt","sge":"sle","sle":"sge","ugt":"ult","ult":"ugt","uge":"ule","ule":"uge"}.get(pr,pr)
            if cint(b)==0 and pr in("eq","ne"):
                z=f.defs.get(a) if isinstance(a,int) and a>=len(f.args) else None
                if z is not None and z.op in("zext","icmp","xor"):
                    g=s.guard(f,a,ext)
                    if g: return g if pr=="ne" else (g[0],g[1],not g[2])
            seg=[s._isseg(f,x) for x in(a,b)]
            if cint(b)==0 and pr in("eq","ne"):
                nz=(pr=="ne")
                if seg[0]: return ("all",None,not nz)
                lf=load_of_field(f,a)
                if lf:
                    if lf[1]=="kb_db" and "memsegment" in lf[0]: return ("all",None,not nz)
                    if lf[0]=="glb" and lf[1]=="kb_g": return ("all",None,not nz)
                    if lf[0]=="glb" and lf[1]=="inkb": return ("all",None,nz)
                sa=strip(f,a)
                if isinstance(sa,int) and sa<len(f.args) and (f.name,sa) in ext: return ("all",None,not nz)
                if isinstance(sa,int) and sa>=len(f.args) and f.defs[sa].op=="call" and f.defs[sa].callee=="db_get_kb_db": return ("all",None,not nz)
            if seg[0] or seg[1]:
                q=b if seg[0] else a
                if seg[0]: pr={"uge":"ule","ule":"uge","ugt":"ult","ult":"ugt"}.get(pr,pr)
                rs=s.leaves(f,q)
                if pr=="eq": return ("db",s.roots(f,q),False)
                if pr=="ne": return ("db",s.roots(f,q),True)
                if pr=="uge": return ("ptr",rs,False)   # q>=seg(+size)... see below
                if pr=="ult": return ("ptr",rs,False)   # q<seg+size false edge
            return None
        return None
    def _isseg(s,f,o):
        """operand is (derived from) a load of the attached-segment global"""
        r=s._segval(f,o,0); return r
    def _segval(s,f,o,d):
        if not isinstance(o,int) or o<len(f.args) or d>6: return False
        i=f.defs[o]
        if i.op=="load": 
            a=addr(f,i.ops[0]); return a==("global",GLOBSEG)
        if i.op in("getelementptr","bitcast","ptrtoint","inttoptr"): return s._segval(f,i.ops[0],d+1)
        if i.op=="add": return any(s._segval(f,z,d+1) for z in i.ops)
        return False
    def leaves(s,f,o):
        """identity of a pointer: leaf values of its computation, without the segment base"""
        out=set(); seen=set()
        def g(o):
            if not isinstance(o,int): return
            if o in seen: return
            seen.add(o)
            if o<len(f.args):
                if f.args[o][1] not in DBNAMES and f.args[o][1]!="g": out.add(("a",o))
                return
            i=f.defs[o]
            if i.op in("getelementptr","bitcast","inttoptr","ptrtoint","add","sub","and","or","ashr","lshr","shl","sext","zext","trunc","freeze"):
                for z in i.ops: g(z)
                return
            if i.op=="load":
                a=addr(f,i.ops[0])
                if a[0]=="field" and a[1]=="glb": 
                    if a[2] not in("db","local_db","child_db","kb_db"): out.add(("f",a[2]))
                    return
                if a[0]=="alloca": out.add(("l",a[1].id)); return
                for z in i.ops: g(z)
                out.add(("ld",));
                return
            if i.op in("phi","select"):
                out.add(("v",o)); return
            out.add(("v",o))
        g(o)
        return frozenset(out)
    def reach_blocks(s,f,ext=(),ptr=None,dbr=None):
        """blocks executable while a kb is attached and (if ptr is given) the pointer with these leaves lies in it"""
        key=(f.name,ptr,dbr)
        if key in s.oc: return s.oc[key]
        seen=set(); blocks=set(); st=[(0,None)]
        while st:
            n=st.pop()
            if n in seen: continue
            seen.add(n); b,pred=n; blocks.add(b)
            t=f.blocks[b].term
            succ=f.blocks[b].succs
            if t.op=="br" and len(t.x)==2:
                c,neg=t.ops[0],False
                while True:
                    i=f.defs.get(c) if isinstance(c,int) and c>=len(f.args) else None
                    if i is None: break
                    if i.op=="xor" and cint(i.ops[1]) in(1,-1): c=i.ops[0]; neg=not neg; continue
                    if i.op in("zext","trunc"): c=i.ops[0]; continue
                    if i.op=="icmp" and cint(i.ops[1])==0 and i.x[0] in("ne","eq"):
                        z=f.defs.get(i.ops[0]) if isinstance(i.ops[0],int) and i.ops[0]>=len(f.args) else None
                        if z is not None and z.op in("zext","icmp","xor") : 
                            c=i.ops[0]
                            if i.x[0]=="eq": neg=not neg
                            continue
                    if i.op=="phi" and i.bb==b and pred is not None:
                        for v,pb in zip(i.ops,i.x):
                            if pb==pred: c=v; break
                        else: break
                        continue
                    break
                cv=cint(c)
                if cv is not None:
                    truth=bool(cv)!=neg
                    succ=[t.x[0] if truth else t.x[1]]
                else:
                    g=s.guard(f,c,ext)
                    if g:
                        kind,what,safe=g
                        ok=kind=="all" or (kind=="ptr" and ptr is not None and what==ptr) or (kind=="db" and dbr is not None and (what & dbr))
                        if ok:
                            truth=safe!=neg
                            # drop the safe edge
                            drop=t.x[0] if truth else t.x[1]
                            keep=t.x[1] if truth else t.x[0]
                            succ=[keep] if drop!=keep else []
            for x in succ: st.append((x,b))
        s.oc[key]=blocks
        return blocks
