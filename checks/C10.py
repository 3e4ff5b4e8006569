#!/usr/bin/env python3
"""C10: a knowledge base is complete, or it is not used."""
import os,sys
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","sa"))
import check,sccp
from core import *
from ival import View
HDR="_db_memsegment_header"
LOCK=("db_tfqueue_rlock","db_tfqueue_wlock","db_rpspin_rlock","db_rpspin_wlock","db_wpspin_rlock","db_wpspin_wlock","db_rlock","db_wlock")
UNLOCK=tuple(x.replace("_rlock","_rulock").replace("_wlock","_wulock") for x in LOCK)
def calls(f,*names): return [c for c in f.instrs() if c.op=="call" and c.callee in names]
def hfield(f,p):
    """name of the segment header field a pointer points to"""
    a=addr(f,p)
    return a[2] if a[0]=="field" and a[1].endswith("db_memsegment_header") else None
def hload(i,name): return i.op=="load" and hfield(i.fn,i.ops[0])==name
def hstore(i,name): return i.op=="store" and hfield(i.fn,i.ops[1])==name
class After:
    """what can run after instruction c when its result is v (and further assumptions hold)"""
    def __init__(s,f,c,v=None,oracle=None):
        s.f=f; s.c=c; seed={}
        for i in f.blocks[c.bb].instrs:
            if i is c: break
            if i.id is not None: seed[i.id]=None
        # what was computed before, in this round of a loop around the call
        for b in f.dom[c.bb]:
            if b!=c.bb:
                for i in f.blocks[b].instrs:
                    if i.id is not None: seed[i.id]=None
        if v is not None: seed[c.id]=v
        # a result kept in a variable in memory
        kept=[u.ops[1] for u in f.blocks[c.bb].instrs if u.op=="store" and isinstance(u.ops[0],int) and strip(f,u.ops[0],("zext","sext","trunc"))==c.id and isinstance(u.ops[1],int) and u.ops[1] in f.defs and f.defs[u.ops[1]].op=="alloca"] if v is not None else []
        later=rs(f,c.bb)|{c.bb}
        kept=[a for a in kept if not any(u.bb in later and not(u.bb==c.bb and u.idx<c.idx) and (u.op=="call" or u.op=="store" and u.ops[1]==a and strip(f,u.ops[0],("zext","sext","trunc"))!=c.id) for u in f.uses.get(a,()))]
        def orc(i):
            if i.op=="load" and i.ops[0] in kept and not(i.bb==c.bb and i.idx<c.idx): return v
            return oracle(i) if oracle else None
        s.r=sccp.solve(f,orc,start=(-1,c.bb),seed=seed)
        s.list=[]; s.blocks=set(); seen=set(); w=[(c.bb,c.idx+1)]
        while w:
            b,k=w.pop()
            if (b,k) in seen: continue
            seen.add((b,k)); s.blocks.add(b); s.list+=f.blocks[b].instrs[k:]
            w+=[(x,0) for x in f.blocks[b].succs if (b,x) in s.r.edges]
    def returns(s): return {v for v,t,p in s.r.returns() if t.bb in s.blocks and (p in s.blocks or p==t.bb)}
    def calls(s,*n): return [i for i in s.list if i.op=="call" and i.callee in n]
    def must(s,pred):
        """None when an instruction with pred runs before each return, else a return reached without it"""
        seen=set(); w=[(s.c.bb,s.c.idx+1)]
        while w:
            b,k=w.pop()
            if (b,k) in seen: continue
            seen.add((b,k)); hit=False
            for i in s.f.blocks[b].instrs[k:]:
                if pred(i): hit=True; break
                if i.op=="ret": return i
            if not hit: w+=[(x,0) for x in s.f.blocks[b].succs if (b,x) in s.r.edges]
        return None
def rs(f,b):
    seen=set(); w=list(f.blocks[b].succs)
    while w:
        x=w.pop()
        if x in seen: continue
        seen.add(x); w+=f.blocks[x].succs
    return seen
def zero(vals): return any(v is None or v==0 for v in vals)
def run(R):
    b0=R.bad
    R.bad=lambda rule,key,where,msg,path=None: b0(rule,key,where.loc() if hasattr(where,"loc") else where,msg,path)
    P=Prog("gkc"); R.note("functions_in_program",len(P.fns))
    R.rule("image","a dump writes the whole used part of the kb, and the checksum of exactly that, to the place it is read from",4)
    R.rule("written","a dump reports success only when opening, locking, every write, seek and closing the file succeeded",5)
    R.rule("verify","a dump file is accepted only when it was read, its header is compatible and its size and checksum are right",6)
    R.rule("covered","the checksum of a dump file is computed over every byte that is read, with the checksum field itself cleared",2)
    R.rule("import","an import reports success only when the whole image was read into a segment it fits into, which keeps its own size, and the locks were set up",5)
    R.rule("verified","a dump is only imported after the same file was verified, and only into a segment just created for it",3)
    R.rule("built","a failure in any step of building a kb makes the step and the command fail, removes the kb and writes no file",8)
    R.rule("complete","a kb is marked as complete last of all, and only a kb marked so is used or written to a file",2)
    R.rule("attach","an existing segment with another header, version, feature set or a smaller size is not used",3)
    R.rule("release","a lock taken is released and an opened file closed on every path",3)
    dump(P,R); verify(P,R); imp(P,R); commands(P,R); building(P,R); attach(P,R); release(P,R)
    R.assume+=["the C library reports failures of fopen, fread, fwrite, fseek and fclose by their results","parsing itself refuses incomplete input (C13)"]
# ------------------------------------------------------------------ dump
def dump(P,R):
    f=P.fn("wg_dump_internal"); v=View(f); rid="written"
    steps=[(c,0) for c in calls(f,"fopen")]+[(c,0) for c in calls(f,*LOCK)]+[(c,n) for c in calls(f,"fwrite") for n in(0,)]+[(c,-1) for c in calls(f,"fseek","fseeko")]+[(c,-1) for c in calls(f,"fclose","fflush")]+[(c,0) for c in calls(f,*UNLOCK)]
    for c,n in steps:
        a=After(f,c,n); r=a.returns()
        if zero(r):
            # closing after another error: nothing to add
            if c.callee in("fclose","fflush") and not zero(After(f,c,0).returns()): continue
            R.bad(rid,"dump:%s"%c.callee,c,"the dump can report success although %s failed"%c.callee); continue
        if c.callee in("fopen",)+LOCK and a.calls("fwrite"): R.bad(rid,"dump:%s:write"%c.callee,c,"the dump is written although %s failed"%c.callee); continue
        ok={0:1,-1:0}[n] if c.callee!="fopen" else 4096
        if c.callee not in("fclose","fflush") and not zero(After(f,c,ok).returns()): R.bad(rid,"dump:%s:success"%c.callee,c,"the dump always reports a failure: a successful %s is taken for one"%c.callee); continue
        R.good(rid,"%s failing is reported (%s)"%(c.callee,c.loc()))
    if not calls(f,"fclose"): R.bad(rid,"dump:fclose",f.instrs().__next__(),"the file is never closed")
    # a short write counts as a failure whatever its length
    W=calls(f,"fwrite"); rid="image"
    crcs=calls(f,"update_crc32")
    free=[i for i in f.instrs() if hload(i,"free")]
    img=[c for c in W if v.e(c.ops[0]) in(("p",0),)]
    if not img: R.bad(rid,"dump:image",W[0] if W else "Db/dbdump.c","no write starts at the first byte of the kb"); return
    for c in img:
        n=strip(f,c.ops[1]); k=strip(f,c.ops[2])
        nn=[x for x in(n,k) if cint(x)!=1]
        if len(nn)==1 and isinstance(nn[0],int) and hload(f.defs[nn[0]],"free"): R.good(rid,"the image is all of the used part (%s)"%c.loc())
        else: R.bad(rid,"dump:length",c,"the number of bytes written is not the end of the used part of the kb")
        # each count but the full one is a failure
        a=After(f,c,cint(k)-1 if cint(k) else 0)
        if cint(k) is None or cint(k)>1:
            a=After(f,c,1)
        if cint(k)==1 or not zero(a.returns()): R.good(rid,"a short write is a failure (%s)"%c.loc())
        else: R.bad(rid,"dump:short",c,"a short write is taken for a success")
        for q in crcs:
            if v.e(q.ops[0])==v.e(c.ops[0]) and v.e(q.ops[1])==v.e(nn[0] if nn else c.ops[1]) and cint(q.ops[2])==0:
                R.good(rid,"the checksum is taken over what is written (%s)"%q.loc())
            else: R.bad(rid,"dump:crc",q,"the checksum is not computed over exactly the bytes written")
            if not f.dominates(q,c) : R.bad(rid,"dump:crcorder",q,"the checksum is not computed before the image is written")
        if not crcs: R.bad(rid,"dump:crc",c,"no checksum is computed")
    off=headeroff(P,"checksum")
    rest=[c for c in W if c not in img]
    ok=False
    for c in rest:
        a=strip(f,c.ops[0]); i=f.defs.get(a) if isinstance(a,int) else None
        sts=[u for u in f.uses.get(a,()) if u.op=="store" and u.ops[1]==a] if i is not None and i.op=="alloca" else []
        sts=[u for u in sts if f.dominates(u,c)]
        src=bool(sts) and all(isinstance(strip(f,u.ops[0]),int) and f.defs[strip(f,u.ops[0])] in crcs for u in sts)
        sk=[x for x in calls(f,"fseek","fseeko") if f.dominates(x,c)]
        to=bool(sk) and v.e(sk[-1].ops[1])==("c",off) and cint(sk[-1].ops[2])==0
        ln=cint(c.ops[1]); kk=cint(c.ops[2])
        if src and to and ln is not None and kk is not None and ln*kk==4: ok=True; R.good(rid,"the checksum is put where it is read from (%s)"%c.loc())
        else: R.bad(rid,"dump:checksum",c,"what is written after the image is not the checksum at its place")
    if not ok: R.bad(rid,"dump:nochecksum",img[0],"the checksum is not stored in the file")
    for i in P_instrs(P):
        if hstore(i,"checksum"):
            if cint(i.ops[0])==0: R.good(rid,"checksum field in memory is 0 (%s)"%i.loc())
            else: R.bad(rid,"%s:checksum"%i.fn.name,i,"the checksum field in memory is set to something else than 0, so the checksum of a dump would not fit")
    w=P.fn("wg_dump")
    for c in calls(w,"wg_dump_internal"):
        if all(t.ops and strip(w,t.ops[0])==c.id for t in w.instrs() if t.op=="ret") or not zero(After(w,c,-1).returns()): R.good("written","wg_dump passes the result on")
        else: R.bad("written","wg_dump:result",c,"the result of the dump is not passed on")
def P_instrs(P):
    for f in P.fns.values():
        for i in f.instrs(): yield i
def headeroff(P,name):
    for n,d in P.structs.items():
        if n.endswith("db_memsegment_header"):
            for off,nm,ty in d["fields"]:
                if nm==name: return off
    raise AnalysisBroken("the segment header has no field %s"%name)
def mism(f,sel):
    """comparisons deciding about a value chosen by sel: the oracle which makes them say 'different'"""
    hit=[]
    for i in f.instrs():
        if i.op=="icmp" and any(sel(o) for o in i.ops): hit.append(i)
    def differ(i):
        if i in hit: return {"eq":0,"ne":1}.get(i.x[0])
    return hit,differ
def fromcall(f,o,names,d=0,seen=None):
    """value made from a result of one of the calls (through casts, phis and sums)"""
    seen=set() if seen is None else seen
    o=strip(f,o,("zext","sext","trunc")); i=f.defs.get(o) if isinstance(o,int) else None
    if i is None or o in seen: return False
    seen.add(o)
    if i.op=="call": return i.callee in names
    if i.op in("phi","select","add"): return any(fromcall(f,x,names,d+1,seen) for x in (i.ops[1:] if i.op=="select" else i.ops))
    return False
def fromfield(f,o,name):
    o=strip(f,o,("zext","sext","trunc")); i=f.defs.get(o) if isinstance(o,int) else None
    return i is not None and i.op=="load" and hfield(f,i.ops[0])==name
# ------------------------------------------------------------------ verification of a file
def verify(P,R):
    f=P.fn("wg_check_dump"); rid="verify"
    for names,n in((("fopen",),0),(("malloc",),0),(("wg_check_header_compat",),-3),(("wg_check_header_compat",),-1)):
        cs=calls(f,*names)
        if not cs: R.bad(rid,"check:%s"%names[0],f.blocks[0].instrs[0],"a dump file is accepted without a call of %s"%names[0]); continue
        for c in cs:
            if zero(After(f,c,n).returns()): R.bad(rid,"check:%s:%d"%(names[0],n),c,"a dump file can be accepted although %s failed"%names[0])
            else: R.good(rid,"%s failing (%d) refuses the file (%s)"%(names[0],n,c.loc()))
    compat=calls(f,"wg_check_header_compat")
    reads=calls(f,"fread")
    hd=[c for c in reads if compat and f.dominates(c,compat[0])]
    for c in hd:
        if zero(After(f,c,0).returns()): R.bad(rid,"check:fread",c,"a dump file can be accepted although its header could not be read")
        elif not zero(After(f,c,cint(c.ops[2]) or 0).returns()): R.bad(rid,"check:fread:success",c,"no dump file is ever accepted: a header read is taken for a failure")
        else: R.good(rid,"a header not read refuses the file (%s)"%c.loc())
    if not hd: R.bad(rid,"check:header",f.blocks[0].instrs[0],"the header is examined before it is read")
    for c in compat:
        if hd and strip(f,c.ops[0])!=strip(f,hd[0].ops[0]): R.bad(rid,"check:buffer",c,"the header examined is not the one read from the file")
    # size and checksum
    outmin=[i for i in f.instrs() if i.op=="store" and strip(f,i.ops[1])==2]
    okmin=bool(outmin) and all(fromfield(f,i.ops[0],"free") for i in outmin)
    outmax=[i for i in f.instrs() if i.op=="store" and strip(f,i.ops[1])==3]
    okmax=bool(outmax) and all(fromfield(f,i.ops[0],"size") for i in outmax)
    if okmin and okmax: R.good(rid,"the sizes handed back are those of the header")
    else: R.bad(rid,"check:sizes",(outmin or outmax or [f.blocks[0].instrs[0]])[0],"the sizes handed back are not those of the header")
    def issize(o):
        o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) else None
        return i is not None and i.op=="load" and (strip(f,i.ops[0])==2 or hfield(f,i.ops[0])=="free")
    for what,sel,other in(("size",issize,lambda o:fromcall(f,o,("fread",)) or (isinstance(strip(f,o),int) and f.defs.get(strip(f,o)) is not None and f.defs[strip(f,o)].op in("add","phi"))),
                          ("checksum",lambda o:fromfield(f,o,"checksum"),lambda o:fromcall(f,o,("update_crc32",)))):
        hit,differ=mism(f,sel)
        hit=[i for i in hit if i.x[0] in("eq","ne") and any(other(o) for o in i.ops)]
        if not hit: R.bad(rid,"check:%s"%what,f.blocks[0].instrs[0],"the %s of a dump file is not compared with what was read"%what); continue
        r=sccp.solve(f,lambda i:differ(i) if i in hit else None)
        if any(v is None or v==0 for v,t,p in r.returns()): R.bad(rid,"check:%s"%what,hit[0],"a dump file with a wrong %s can be accepted"%what)
        else: R.good(rid,"a wrong %s refuses the file (%s)"%(what,hit[0].loc()))
    # every byte read goes into the checksum and the size
    rid="covered"
    crcs=calls(f,"update_crc32")
    for c in reads:
        used=[]
        if c not in hd and cint(c.ops[1])!=1: R.bad(rid,"check:unit",c,"the result of reading a block is not the number of bytes read"); continue
        for q in crcs:
            buf=strip(f,q.ops[0])==strip(f,c.ops[0])
            ln=fromcall(f,q.ops[1],("fread",)) and covers(f,q.ops[1],c) if c not in hd else covers_const(f,q.ops[1],c)
            if buf and ln: used.append(q)
        if used: R.good(rid,"what is read goes into the checksum (%s)"%c.loc())
        else: R.bad(rid,"check:part",c,"bytes read from the dump file are left out of the checksum")
    tot=[i for i in f.instrs() if i.op=="add" and any(any(strip(f,x)==strip(f,q.ops[1]) for q in crcs) for x in i.ops)]
    if tot: R.good(rid,"what is read is counted (%s)"%tot[0].loc())
    else: R.bad(rid,"check:count",f.blocks[0].instrs[0],"the bytes read from the dump file are not counted")
    for q in crcs:
        z=[i for i in f.instrs() if hstore(i,"checksum") and cint(i.ops[0])==0 and f.dominates(i,q)]
        if z: R.good(rid,"the checksum field is cleared before (%s)"%q.loc())
        else: R.bad(rid,"check:cleared",q,"the checksum is computed with the checksum field not cleared")
        ld=[i for i in f.instrs() if hload(i,"checksum")]
        if z and ld and not any(f.dominates(l,z[0]) for l in ld): R.bad(rid,"check:saved",z[0],"the checksum of the file is cleared before it was read")
        acc=strip(f,q.ops[2]); i=f.defs.get(acc) if isinstance(acc,int) else None
        if i is not None and i.op=="phi" and all(cint(x)==0 or fromcall(f,x,("update_crc32",)) for x in i.ops) and any(cint(x)==0 for x in i.ops): R.good(rid,"the checksum is carried on from block to block (%s)"%q.loc())
        else: R.bad(rid,"check:carry",q,"the checksum is not carried on from one block to the next")
    g=P.fn("wg_check_header_compat")
    m=written(P)
    for fld in("mark","version","features"):
        bad=[]
        for other in(m[fld]-1,m[fld]+1,m[fld]&0xff,m[fld]^0x80000000,m[fld]+0x10000,m[fld]-0x100,0):
            if other==m[fld]: continue
            def oracle(i,fld=fld):
                if i.op!="load": return None
                for k in("mark","version","features"):
                    if ishdr(g,i,k): return other if k==fld else m[k]
            r=sccp.solve(g,oracle)
            if any(v is None or v==0 for v,t,p in r.returns()): bad.append(other)
        if bad: R.bad(rid,"compat:%s"%fld,g.blocks[0].instrs[0],"a header with another %s passes as compatible (%#x)"%(fld,bad[0]&0xffffffff))
        else: R.good("verify","another %s is not compatible"%fld)
def written(P):
    """what a new segment gets as mark, version and features"""
    f=P.fn("wg_init_db_memsegment_with_kb"); m={}
    for i in f.instrs():
        if i.op=="store" and cint(i.ops[0]) is not None:
            n=hfield(f,i.ops[1]) or("mark" if i.x=="i32" and (i.ops[1]==0 or isbase(f,i.ops[1])) else None)
            if n in("mark","version","features"): m[n]=cint(i.ops[0])
    for k in("mark","version","features"):
        if k not in m: raise AnalysisBroken("a new segment gets no %s"%k)
    return m
def isbase(f,p):
    return p==0
def ishdr(g,i,k):
    if hfield(g,i.ops[0])==k: return True
    return k=="mark" and i.ty=="i32" and i.ops[0]==0
def covers(f,o,c,seen=None):
    seen=set() if seen is None else seen
    o=strip(f,o,("zext","sext","trunc"))
    if o==c.id: return True
    i=f.defs.get(o) if isinstance(o,int) else None
    if i is None or o in seen or i.op!="phi": return False
    seen.add(o); return any(covers(f,x,c,seen) for x in i.ops)
def covers_const(f,o,c):
    """the length can be exactly what the header read asked for"""
    n=cint(c.ops[1]); k=cint(c.ops[2])
    if covers(f,o,c): return True
    def w(o,seen):
        if cint(o) is not None: return cint(o)==n*k
        o=strip(f,o,("zext","sext","trunc")); i=f.defs.get(o) if isinstance(o,int) else None
        if i is None or o in seen or i.op!="phi": return False
        seen.add(o); return any(w(x,seen) for x in i.ops)
    return n is not None and k is not None and w(o,set())
# ------------------------------------------------------------------ import
def imp(P,R):
    f=P.fn("wg_import_dump"); rid="import"; v=View(f)
    img=[c for c in calls(f,"fread") if v.e(c.ops[0])==("p",0)]
    if not img: R.bad(rid,"import:image",f.blocks[0].instrs[0],"no read starts at the first byte of the segment"); return
    for c in calls(f,"fopen","malloc")+[c for c in calls(f,"fread")]:
        if zero(After(f,c,0).returns()): R.bad(rid,"import:%s"%c.callee,c,"the import can report success although %s failed"%c.callee)
        elif c not in img and After(f,c,0).calls("fread") and any(x in img for x in After(f,c,0).calls("fread")): R.bad(rid,"import:%s:goes on"%c.callee,c,"the segment is overwritten although %s failed"%c.callee)
        else: R.good(rid,"%s failing is reported (%s)"%(c.callee,c.loc()))
    for c in img:
        n=[x for x in c.ops[1:3] if cint(x)!=1]
        def src(o,seen):
            if cint(o) is not None: return cint(o)<=0
            o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) else None
            if i is None or o in seen: return o in seen
            seen.add(o)
            if i.op=="phi": return all(src(x,seen) for x in i.ops)
            return hload(i,"free")
        if len(n)==1 and src(n[0],set()): R.good(rid,"the whole image is read (%s)"%c.loc())
        else: R.bad(rid,"import:length",c,"what is read is not the size given in the header of the file")
        # too large: the image length above the size of the segment
        again=[x for x in calls(f,"fread") if x is not c]
        back=[]
        for x in again:
            seen=set(); w=[(x.bb,x.idx+1)]; hit=False
            while w and not hit:
                b,k=w.pop()
                if (b,k) in seen: continue
                seen.add((b,k)); stop=False
                for y in f.blocks[b].instrs[k:]:
                    if y.op=="call" and (y.callee=="rewind" or y.callee in("fseek","fseeko") and cint(y.ops[1])==0 and cint(y.ops[2])==0): stop=True; break
                    if y is c: hit=True; break
                if not stop: w+=[(q,0) for q in f.blocks[b].succs]
            if not hit: back.append(x)
        again=[x for x in again if x not in back]
        if again: R.bad(rid,"import:start",c,"the image is not read from the start of the file")
        else: R.good(rid,"the image is read from the start of the file (%s)"%c.loc())
        own=[i for i in f.instrs() if hload(i,"size") and strip(f,addrbase(f,i.ops[0]))==0]
        if n and own:
            hit=[i for i in f.instrs() if i.op=="icmp" and any(strip(f,o)==strip(f,n[0]) for o in i.ops) and any(isinstance(strip(f,o),int) and f.defs.get(strip(f,o)) in own for o in i.ops)]
            def big(i):
                if i in hit:
                    a=strip(f,i.ops[0])==strip(f,n[0])      # image first
                    return int({"sgt":a,"ugt":a,"sge":a,"uge":a,"slt":not a,"ult":not a,"sle":not a,"ule":not a,"eq":False,"ne":True}[i.x[0]])
            r=sccp.solve(f,big)
            if r.reaches(c): R.bad(rid,"import:fit",c,"an image larger than the segment is read into it")
            elif zero([x for x,t,p in r.returns()]): R.bad(rid,"import:fitrc",c,"an image larger than the segment is not reported")
            else: R.good(rid,"a larger image is refused (%s)"%c.loc())
            r=sccp.solve(f,lambda i:int(i.x[0] in("eq","sge","uge","sle","ule")) if i in hit else None)
            if not r.reaches(c): R.bad(rid,"import:equal",c,"an image which exactly fits into the segment is refused")
        else: R.bad(rid,"import:fit",c,"the image is read without comparing its size with that of the segment")
        ok=After(f,c,1)
        st=[i for i in ok.list if hstore(i,"size")]
        good=[i for i in st if isinstance(strip(f,i.ops[0]),int) and f.defs.get(strip(f,i.ops[0])) in own and f.dominates(f.defs[strip(f,i.ops[0])],c)]
        if not good or ok.must(lambda i:i in good) is not None: R.bad(rid,"import:size",c,"the segment does not keep its own size after an import")
        else: R.good(rid,"the segment keeps its own size")
        zs=[i for i in ok.list if hstore(i,"checksum") and cint(i.ops[0])==0]
        if zs and ok.must(lambda i:i in zs) is None: R.good(rid,"the checksum field is cleared after the import")
        else: R.bad(rid,"import:checksum",c,"the checksum field is not cleared after an import, so a later dump of it would not fit")
        lk=ok.calls("wg_init_locks")
        if lk and ok.must(lambda i:i in lk) is None:
            if all(not zero(After(f,x,-1).returns()) for x in lk): R.good(rid,"the locks are set up")
            else: R.bad(rid,"import:lockrc",lk[0],"a failure to set up the locks is not reported")
        else: R.bad(rid,"import:locks",c,"the locks of the imported image are not set up anew")
def addrbase(f,p):
    i=f.defs.get(p) if isinstance(p,int) else None
    while i is not None and i.op=="getelementptr": p=i.ops[0]; i=f.defs.get(p) if isinstance(p,int) else None
    return p
# ------------------------------------------------------------------ commands
def commands(P,R):
    imps=[c for c in P.callers("wg_import_dump") if c.op=="call"]
    rid="verified"
    for c in imps:
        f=c.fn
        ck=[x for x in calls(f,"wg_check_dump") if f.dominates(x,c)]
        if not ck: R.bad(rid,"%s:unchecked"%f.name,c,"a dump is imported which was not verified"); continue
        x=ck[-1]; V=View(f)
        if V.e(x.ops[1])!=V.e(c.ops[1]) and not sameload(f,x.ops[1],c.ops[1]): R.bad(rid,"%s:other"%f.name,c,"the file imported is not the file verified")
        else: R.good(rid,"the file imported is the file verified (%s)"%c.loc())
        for n in(-1,-2,-3):
            a=After(f,x,n)
            if a.calls("wg_import_dump","wg_attach_memsegment"): R.bad(rid,"%s:%d"%(f.name,n),x,"a dump is imported although its verification gave %d"%n)
            elif zero(a.returns()): R.bad(rid,"%s:%d:exit"%(f.name,n),x,"the command succeeds although the dump was refused")
            else: R.good(rid,"verification result %d stops the import (%s)"%(n,x.loc()))
        at=[y for y in calls(f,"wg_attach_memsegment") if f.dominates(y,c) and f.dominates(x,y)]
        if not at: R.bad(rid,"%s:attach"%f.name,c,"the import does not go into a segment made for it")
        for y in at:
            if outarg(f,y.ops[1],x.ops[2]): R.good(rid,"the segment is at least as large as the image (%s)"%y.loc())
            else: R.bad(rid,"%s:minsize"%f.name,y,"the segment is not asked to hold the image")
            fresh(P,R,rid,f,y,c)
        for n in(-1,-2):
            a=After(f,c,n); failed(R,"built",f,a,c,"the import gave %d"%n)
    rid="built"
    for c in P.callers("init_shared_database"):
        if c.op!="call": continue
        f=c.fn
        ins=[x for x in calls(f,"wg_import_data_file") if f.dominates(x,c)]
        if not ins: R.bad(rid,"%s:input"%f.name,c,"indexes are built without any input")
        for x in ins:
            for n in(-1,-2,1):
                a=After(f,x,n)
                if a.calls("init_shared_database","wg_dump","wg_dump_internal"): R.bad(rid,"%s:goes on:%d"%(site(x),n),x,"building goes on although reading the input gave %d"%n)
                else: failed(R,rid,f,a,x,"reading the input gave %d"%n)
            at=[y for y in calls(f,"wg_attach_database") if f.dominates(y,x)]
            if not at: R.bad(rid,"%s:attach"%site(c),c,"the kb is not built in a segment made for it")
            for y in at[-1:]: fresh(P,R,"verified",f,y,x)
        a=After(f,c,-1)
        if a.calls("wg_dump","wg_dump_internal"): R.bad(rid,"%s:dumped"%site(c),c,"an incomplete kb is written to a file")
        else: failed(R,rid,f,a,c,"building the indexes failed")
    for c in P.callers("wg_dump")+P.callers("wg_dump_internal"):
        if c.op!="call" or c.fn.name=="wg_dump": continue
        for n in(-1,-2):
            if zero(After(c.fn,c,n).returns()): R.bad("written","%s:%d:exit"%(site(c),n),c,"the command succeeds although writing the kb gave %d"%n)
            else: R.good("written","a dump result %d ends the command with an error (%s)"%(n,c.loc()))
    # only a complete kb is used
    rid="complete"
    for c in P.callers("wg_attach_existing_database"):
        if c.op!="call" or not c.fn.file.startswith("Main/"): continue
        f=c.fn
        def oracle(i):
            if hload(i,"rglb"): return 0
        a=After(f,c,None,oracle)
        use=a.calls("wg_attach_local_database_with_kb","wg_dump","wg_dump_internal","wg_run_reasoner","wg_run_converter")
        b=After(f,c,None).calls("wg_attach_local_database_with_kb","wg_dump","wg_dump_internal","wg_run_reasoner","wg_run_converter")
        if use: R.bad(rid,"%s:use"%site(c),c,"a kb which is not complete is used (%s)"%use[0].callee)
        elif b and zero(a.returns()): R.bad(rid,"%s:exit"%site(c),c,"the command succeeds although the kb is not complete")
        elif b: R.good(rid,"an incomplete kb is refused (%s)"%c.loc())
def site(c): return "%s:%s@%d"%(c.fn.name,c.callee,[x for x in c.fn.instrs() if x.op=="call" and x.callee==c.callee].index(c))
def failed(R,rid,f,a,c,why):
    if zero(a.returns()): R.bad(rid,"%s:exit:%s"%(site(c),why),c,"the command can end with exit code 0 although %s"%why); return
    m=a.must(lambda i:i.op=="call" and i.callee=="wg_delete_database")
    if m is not None: R.bad(rid,"%s:left:%s"%(site(c),why),c,"the kb is left in memory although %s"%why); return
    R.good(rid,"removed and reported when %s (%s)"%(why,c.loc()))
def fresh(P,R,rid,f,y,c):
    """between attaching (y) and writing (c): not reached when the segment lies in the one attached as existing"""
    own={y.id}
    def seg(o,d=0):
        o=strip(f,o,("ptrtoint","inttoptr","bitcast")); i=f.defs.get(o) if isinstance(o,int) else None
        if o=="@wg_attached_kb_segment": return "S"
        if i is None: return None
        if i.op=="load" and isinstance(i.ops[0],str) and i.ops[0]=="@wg_attached_kb_segment": return "S"
        if i.op in("getelementptr","add") and d<4 and any(seg(x,d+1)=="S" for x in i.ops): return "E"
        return None
    def oracle(i):
        if i.op!="icmp": return None
        a,b=seg(i.ops[0]),seg(i.ops[1]); z=cint(i.ops[1])==0 or i.ops[1]=="null"
        if a=="S" and z: return int(i.x[0]=="ne")
        if a is None and b=="S": return {"uge":1,"ult":0,"eq":1,"ne":0,"ugt":None,"ule":None}.get(i.x[0])
        if b is None and a=="S" and not z: return {"ule":1,"ugt":0,"eq":1,"ne":0}.get(i.x[0])
        if a is None and b=="E": return {"ult":1,"uge":0,"ule":1,"ugt":0}.get(i.x[0])
        if b is None and a=="E": return {"ugt":1,"ule":0,"uge":1,"ult":0}.get(i.x[0])
        return None
    r=After(f,y,None,oracle)
    if c in r.list: R.bad(rid,"%s:existing"%site(c),c,"a kb is written into a segment which was there before (and is attached read-only)")
    else: R.good(rid,"only a new segment is written (%s)"%c.loc())
def sameload(f,a,b):
    """same array element or variable, not changed in between (both are loads of the same address)"""
    i=f.defs.get(strip(f,a)) if isinstance(a,int) else None; j=f.defs.get(strip(f,b)) if isinstance(b,int) else None
    if i is None or j is None or i.op!="load" or j.op!="load": return False
    if addr(f,i.ops[0])==addr(f,j.ops[0]): return True
    return gepkey(f,i.ops[0])==gepkey(f,j.ops[0])
def gepkey(f,p):
    i=f.defs.get(p) if isinstance(p,int) else None
    if i is not None and i.op=="getelementptr": return (gepkey(f,i.ops[0]),)+tuple(i.ops[1:])
    if i is not None and i.op=="load": return ("ld",gepkey(f,i.ops[0]))
    return p
def outarg(f,o,ptr):
    """o is loaded from the variable whose address was handed over"""
    o=strip(f,o); i=f.defs.get(o) if isinstance(o,int) else None
    return i is not None and i.op=="load" and strip(f,i.ops[0])==strip(f,ptr)
# ------------------------------------------------------------------ building
STEPS={"wg_rawalloc":(0,),"wr_parse_guide_file":(0,),"wr_parse_guide_section":(-1,-2),"wr_glb_init_shared_complex":(1,-1),"wr_glb_init_local_complex":(1,-1),"wr_analyze_clause_list":(0,),"wr_init_db_clause_indexes":(-1,)}
def building(P,R):
    f=P.fn("init_shared_database"); rid="built"
    marks=[i for i in f.instrs() if hstore(i,"rglb")]
    for nm,vals in STEPS.items():
        cs=calls(f,nm)
        if not cs: R.bad(rid,"init:%s"%nm,f.blocks[0].instrs[0],"a kb is built without %s"%nm); continue
        for c in cs:
            for n in vals:
                a=After(f,c,n)
                if any(v is None or v>=0 for v in a.returns()): R.bad(rid,"init:%s:%d"%(nm,n),c,"building the kb can succeed although %s gave %d"%(nm,n))
                elif any(i in a.list for i in marks): R.bad("complete","init:%s:%d"%(nm,n),c,"a kb is marked as complete although %s gave %d"%(nm,n))
                else: R.good(rid,"%s giving %d makes building fail (%s)"%(nm,n,c.loc()))
    rid="complete"
    if not marks: R.bad(rid,"init:mark",f.blocks[0].instrs[0],"a kb which was built is not marked as complete")
    for i in marks:
        late=[c for c in After(f,i).list if c.op=="call" and c.callee in STEPS]
        early=[c for nm in("wr_glb_init_shared_complex","wr_analyze_clause_list","wr_init_db_clause_indexes") for c in calls(f,nm) if not f.dominates(c,i)]
        if late or early: R.bad(rid,"init:mark:early",i,"a kb is marked as complete before %s"%((late or early)[0].callee))
        else: R.good(rid,"the mark is set after all steps (%s)"%i.loc())
    last=calls(f,"wr_init_db_clause_indexes")
    for c in last:
        a=After(f,c,0)
        if marks and a.must(lambda i:i in marks) is None: R.good(rid,"a kb which was built is marked as complete")
        else: R.bad(rid,"init:unmarked",c,"a kb which was built is not marked as complete")
    for i in P_instrs(P):
        if hstore(i,"rglb") and i.fn is not f:
            if cint(i.ops[0])==0: R.good(rid,"a new segment has no mark (%s)"%i.loc())
            else: R.bad(rid,"%s:mark"%i.fn.name,i,"a kb is marked as complete outside of building it")
    g=P.fn("wr_init_db_clause_indexes"); rid="built"
    lds=[i for i in g.instrs() if i.op=="load" and addr(g,i.ops[0])[0]=="field" and addr(g,i.ops[0])[2]=="alloc_err"]
    steps=calls(g,"wr_process_given_cl")
    for c in steps:
        a=After(g,c,0)
        if any(v is None or v>=0 for v in a.returns()): R.bad(rid,"index:%s"%c.callee,c,"indexing can succeed although a clause could not be prepared")
        else: R.good(rid,"a clause which cannot be prepared makes indexing fail (%s)"%c.loc())
    def oracle(i): return 1 if i in lds else None
    r=sccp.solve(g,oracle)
    if any(v is None or v>=0 for v,t,p in r.returns()): R.bad(rid,"index:alloc_err",g.blocks[0].instrs[0],"indexing can succeed although memory ran out")
    else: R.good(rid,"memory running out makes indexing fail")
    adds=calls(g,"wr_add_given_cl_active_list","wr_add_cl_to_unithash","wr_calc_clause_resolvability")
    for c in adds:
        if any(v is None or v>=0 for v in After(g,c,None,oracle).returns()): R.bad(rid,"index:late:%s"%c.callee,c,"memory running out in %s is not noticed"%c.callee)
        else: R.good(rid,"memory running out is noticed after %s (%s)"%(c.callee,c.loc()))
# ------------------------------------------------------------------ attaching
def attach(P,R):
    rid="attach"
    for nm in("wg_attach_existing_database","wg_attach_database","wg_attach_logged_database","wg_attach_database_mode","wg_attach_logged_database_mode"):
        f=P.fns.get(nm)
        if f is None: continue
        cs=calls(f,"wg_check_header_compat")
        if not cs: R.bad(rid,"%s:nocheck"%nm,f.blocks[0].instrs[0],"a segment is handed out without examining its header"); continue
        for c in cs:
            r=[v for n in(-1,-2,-3,-4) for v in After(f,c,n).returns()]
            if any(v!=0 for v in r): R.bad(rid,"%s:compat"%nm,c,"a segment with an incompatible header is handed out")
            else: R.good(rid,"%s refuses an incompatible header (%s)"%(nm,c.loc()))
        m=[c for c in calls(f,"wg_attach_memsegment")]
        for c in m:
            a=After(f,c,4096)
            if a.must(lambda i:i in cs) is not None: R.bad(rid,"%s:skipped"%nm,c,"a segment can be handed out without its header being examined")
    f=P.fn("wg_attach_memsegment")
    lk=calls(f,"link_shared_memory")
    mg=written(P)["mark"]
    for c in lk:
        def mark(x,bad):
            def o(i):
                if i.op=="load" and i.ty=="i32" and strip(f,i.ops[0])==c.id: return mg+(1 if bad else 0)
                if i.op=="icmp" and small(i) is not None and x=="size": return small(i)
            return o
        def small(i):
            """size of the segment below what is asked for"""
            s=[isinstance(strip(f,o),int) and f.defs.get(strip(f,o)) is not None and hload(f.defs[strip(f,o)],"size") for o in i.ops]
            if s[0]==s[1]: return None
            a=s[0]
            return int({"slt":a,"ult":a,"sle":a,"ule":a,"sgt":not a,"ugt":not a,"sge":not a,"uge":not a,"eq":False,"ne":True}[i.x[0]])
        a=After(f,c,4096,mark("mark",True))
        if any(v!=0 for v in a.returns()): R.bad(rid,"memsegment:mark",c,"memory which does not hold a kb is handed out")
        else: R.good(rid,"memory without the mark of a kb is refused (%s)"%c.loc())
        # a minimum size that is not met
        def big(i):
            z=mark("size",False)(i)
            if z is not None: return z
            if i.op=="icmp" and cint(i.ops[1])==0 and i.x[0] in("ne","eq") and isminsize(f,i.ops[0]): return int(i.x[0]=="ne")
        a=After(f,c,4096,big)
        if any(v!=0 for v in a.returns()): R.bad(rid,"memsegment:size",c,"a segment smaller than asked for is handed out")
        else: R.good(rid,"a segment smaller than asked for is refused (%s)"%c.loc())
        a=After(f,c,0)
        if not a.calls("create_shared_memory"): R.bad(rid,"memsegment:create",c,"no segment is made when there is none")
    for c in calls(f,"wg_init_db_memsegment_with_kb"):
        a=After(f,c,-1)
        if any(v!=0 for v in a.returns()): R.bad(rid,"memsegment:init",c,"a segment which could not be set up is handed out")
        elif a.must(lambda i:i.op=="call" and i.callee=="free_shared_memory") is not None: R.bad(rid,"memsegment:left",c,"a segment which could not be set up is left in memory")
        else: R.good(rid,"a segment which could not be set up is removed (%s)"%c.loc())
def isminsize(f,o,seen=None):
    seen=set() if seen is None else seen
    o=strip(f,o)
    if o==1: return True
    i=f.defs.get(o) if isinstance(o,int) else None
    if i is None or o in seen or i.op not in("phi","select"): return False
    seen.add(o); return any(isminsize(f,x,seen) for x in i.ops)
# ------------------------------------------------------------------ release
def release(P,R):
    rid="release"
    for f in P.fns.values():
        if not f.file.startswith(("Db/","Main/","Reasoner/")): continue
        for c in calls(f,*LOCK):
            if f.name in LOCK or f.name.startswith(("wg_start_","db_")): continue
            u=UNLOCK[LOCK.index(c.callee)]
            a=After(f,c,1)
            ok=lambda i:i.op=="call" and i.callee in(u,) and sameval(f,i.ops[1],c.id)
            if cond_held(f,c,a,ok): R.good(rid,"%s: lock released (%s)"%(f.name,c.loc()))
            else: R.bad(rid,"%s:%s"%(f.name,c.callee),c,"a lock taken is not released on every path")
        for c in calls(f,"fopen"):
            if f.file!="Db/dbdump.c": continue
            a=After(f,c,4096,None)
            if a.must(lambda i:i.op=="call" and i.callee=="fclose" and sameval(f,i.ops[0],c.id)) is None: R.good(rid,"%s: file closed (%s)"%(f.name,c.loc()))
            else: R.bad(rid,"%s:fclose"%f.name,c,"an opened file is not closed on every path")
            n=0
            for q in calls(f,"fclose"):
                if any(sameval(f,x.ops[0],c.id) for x in After(f,q).calls("fclose")): R.bad(rid,"%s:twice"%f.name,q,"a file is closed twice"); n+=1
                if After(f,q).calls("fread","fwrite","fseek","fflush"): R.bad(rid,"%s:closed"%f.name,q,"a file is used after it was closed"); n+=1
            if not n: R.good(rid,"%s: file not used after closing"%f.name)
        for c in calls(f,"malloc"):
            if f.file!="Db/dbdump.c": continue
            a=After(f,c,4096)
            if a.must(lambda i:i.op=="call" and i.callee=="free" and sameval(f,i.ops[0],c.id)) is None: R.good(rid,"%s: block freed (%s)"%(f.name,c.loc()))
            else: R.bad(rid,"%s:free"%f.name,c,"a block is not freed on every path")
def sameval(f,o,v,seen=None):
    seen=set() if seen is None else seen
    o=strip(f,o)
    if o==v: return True
    i=f.defs.get(o) if isinstance(o,int) else None
    if i is None or o in seen or i.op not in("phi","select"): return False
    seen.add(o); return any(sameval(f,x,v,seen) for x in i.ops)
def cond_held(f,c,a,ok):
    """released on each path, when the condition under which it was taken holds throughout"""
    if a.must(ok) is None: return True
    # assume the branch conditions that control taking the lock (values computed before it and never changed)
    fix={}
    for b in f.blocks:
        t=b.term
        if t.op!="br" or len(t.x)!=2: continue
        k=strip(f,t.ops[0]) if isinstance(t.ops[0],int) else None
        i=f.defs.get(k) if k is not None else None
        if i is None or i.op!="icmp" or not all(isinstance(x,str) or isinstance(x,int) and x<len(f.args) for x in i.ops): continue
        d=[x in f.dom[c.bb] or x==c.bb for x in t.x]
        if d[0]!=d[1] and b.n in f.dom[c.bb] and len(f.blocks[t.x[0 if d[0] else 1]].preds)==1: fix[(i.ops[0],i.ops[1],i.x[0])]=1 if d[0] else 0
    def oracle(i):
        if i.op=="icmp":
            v=fix.get((i.ops[0],i.ops[1],i.x[0]))
            if v is None:
                inv={"eq":"ne","ne":"eq"}.get(i.x[0]); w=fix.get((i.ops[0],i.ops[1],inv))
                v=None if w is None else 1-w
            return v
    return After(f,c,1,oracle).must(ok) is None
if __name__=="__main__":
    check.main("C10","conditional constant propagation under each failing step, must-reach analysis and operand matching over LLVM IR",run)
