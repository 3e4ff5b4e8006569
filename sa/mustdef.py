"""Which fields of the run record a function may read before they were set (need), and which it sets on every path (sets).
Bottom-up to a fixpoint over the call graph; calls through pointers take the union of needs over functions whose address is taken."""
from core import *
class MustDef:
    def __init__(s,P,struct,known=None,skip=(),fail=(),new=()):
        s.P=P; s.struct=struct; s.skip=set(skip); s.fail=dict(fail); s.new=set(new)   # fail: function -> test of a returned constant meaning failure; new: functions giving a new record
        s.need={n:{} for n in P.fns}; s.sets={n:None for n in P.fns}   # None = all (top)
        s.ev={n:s.events(f) for n,f in P.fns.items()}
        s.solve()
    def events(s,f):
        """per block: list of (kind, field or callee, instr)"""
        out={}
        for b in f.rpo():
            L=[]
            for i in f.blocks[b].instrs:
                if i.op=="load":
                    a=addr(f,i.ops[0])
                    if a[0]=="field" and a[1]==s.struct: L.append(("r",a[2],i))
                elif i.op=="store":
                    a=addr(f,i.ops[1])
                    if a[0]=="field" and a[1]==s.struct: L.append(("w",a[2],i))
                elif i.op=="getelementptr":
                    a=addr(f,i.id)
                    if a[0]=="field" and a[1]==s.struct:
                        # an array field used as a pointer
                        us=f.uses[i.id]
                        if us and all(u.op=="call" or u.op in("icmp","phi") for u in us): L.append(("r",a[2],i))
                elif i.op=="call":
                    if i.callee and i.callee in s.P.fns: L.append(("c",i.callee,i))
            out[b]=L
        return out
    def one(s,n):
        f=s.P.fns[n]; ev=s.ev[n]; order=f.rpo()
        IN={b:None for b in order}; IN[0]=frozenset()
        need={}
        ch=True; outs={}
        def trans(b,st,need):
            cur=set(st)
            for k,x,i in ev[b]:
                if k=="w": cur.add(x)
                elif k=="r":
                    if need is not None and x not in cur: need.setdefault(x,i)
                else:
                    if x in s.skip: continue
                    if need is not None:
                        for q in s.need[x]:
                            if q not in cur: need.setdefault(q,i)
                    z=s.sets[x]
                    if z is None: return None      # callee not known yet to return
                    if x in s.new: cur=set(z)
                    else: cur|=z
            return frozenset(cur)
        while ch:
            ch=False
            for b in order:
                if b!=0:
                    ps=[outs[p] for p in f.blocks[b].preds if p in outs and outs[p] is not None]
                    if not ps: continue
                    st=frozenset.intersection(*ps)
                else: st=frozenset()
                o=trans(b,st,None)
                if IN[b]!=st or outs.get(b,0)!=o: IN[b]=st; outs[b]=o; ch=True
        ret=None
        for b in order:
            if IN[b] is None: continue
            trans(b,IN[b],need)
            t=f.blocks[b].term
            if t.op=="ret" and outs.get(b) is not None:
                for o,st in s.rets(f,b,t,outs):
                    if n in s.fail and s.fail[n](o): continue
                    ret=st if ret is None else ret&st
        return need,ret
    def rets(s,f,b,t,outs):
        """(returned operand, state) for every way into a return"""
        o=t.ops[0] if t.ops else None
        d=f.defs.get(o) if isinstance(o,int) else None
        if d is not None and d.op=="phi" and d.bb==b and len(f.blocks[b].instrs)==2:
            return [(x,outs[p]) for x,p in zip(d.ops,d.x) if outs.get(p) is not None]
        return [(o,outs[b])]
    def solve(s):
        todo=list(s.P.fns); inq=set(todo)
        cg={n:set() for n in s.P.fns}
        for n in s.P.fns:
            for L in s.ev[n].values():
                for k,x,i in L:
                    if k=="c": cg[x].add(n)
        for n in s.sets: s.sets[n]=None
        rounds=0
        while todo:
            n=todo.pop(0); inq.discard(n); rounds+=1
            if rounds>200000: break
            need,ret=s.one(n)
            if set(need)!=set(s.need[n]) or ret!=s.sets[n]:
                s.need[n]=need; s.sets[n]=ret
                for c in cg[n]:
                    if c not in inq: inq.add(c); todo.append(c)
