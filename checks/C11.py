#!/usr/bin/env python3
"""C11: an encoded value is only followed as a record, number or string after its type tag was established."""
import sys, os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","sa"))
from tags import *
import check
FIELD={"wg_get_field"}
def want(wt): return {REC:"a record",FULLINT:"a stored integer",DBL:"a stored double",OFFPTR:"a stored string or double"}.get(wt,"a value of tags %x"%(wt&0xff))
def run(R):
    P=Prog("gkc")
    m=build.macros(["DATARECBITS","DATARECMASK","FULLINTBITS","FULLINTMASK","FULLDOUBLEBITS","FULLDOUBLEMASK","LONGSTRBITS","LONGSTRMASK","SHORTSTRBITS","SHORTSTRMASK","VARBITS","VARMASK"],"Reasoner/rincludes.h")
    exp=dict(DATARECBITS=0,DATARECMASK=7,FULLINTBITS=1,FULLINTMASK=3,FULLDOUBLEBITS=2,FULLDOUBLEMASK=7,LONGSTRBITS=4,LONGSTRMASK=7,SHORTSTRBITS=6,SHORTSTRMASK=7,VARBITS=7,VARMASK=15)
    if m!=exp: raise AnalysisBroken("the type tags of encoded values changed: %s"%{k:(m.get(k),exp[k]) for k in exp if m.get(k)!=exp[k]})
    A=TermTags(P,lambda f:f.file.split("/")[0] in("Reasoner","Db","Printer","Builtparser","Main"))
    R.rule("tag","memory is only read through an encoded value that may be any term where its tag is known to be the right one on every path",120)
    R.rule("handover","a value that may be any term is only handed to a function that follows it unchecked where its tag was tested",12)
    R.rule("field","a field of a record, an argument of a term, an equation side or the value of a variable is such a value wherever it goes",8)
    seeds=set(); trusted=0
    for f in A.fns:
        for (i,v,wt,kind,via) in A.uses(f):
            rid="tag" if via is None else "handover"
            ts=A.T.tagset(A.sol[f.name],i.bb,v)
            org=A.origins(f,v)
            sd=[o for k,o in org if k in("seed","loop") or k=="call" and f.defs[o].callee in FIELD]
            for o in sd: seeds.add((f.name,o))
            if ts&~wt==0:
                if ts!=ALL: R.good(rid,"%s %s (%s)"%(f.name,show(f,v),i.loc()))
                continue
            if sd:
                if via: R.bad(rid,"%s|%s"%(f.name,via[0]),i.loc(),"%s() hands %s, which may be any term, to %s() where it is followed as %s without a test of its type"%(f.name,show(f,v),via[0],want(wt)))
                else: R.bad(rid,"%s|%s"%(f.name,show(f,v)),i.loc(),"%s() follows %s as %s on a path where its type tag was not established"%(f.name,show(f,v),want(wt)))
            else: trusted+=1
    for n,o in sorted(seeds): R.good("field","%s %s"%(n,show(P.fns[n],o)))
    R.note("functions",len(A.fns)); R.note("unchecked_uses_of_values_that_are_records_by_construction",trusted)
    R.note("parameters_that_must_be_records",sorted("%s.%s"%(n,P.fns[n].args[k][1]) for n,k in A.need))
    R.assume+=["clause, atom, history and index node references are records by construction; only arguments, equation sides, record fields and variable values may have any tag"]
if __name__=="__main__":
    check.main("C11","forward dataflow of type-tag sets (256-valued) with branch refinement, requirements propagated through the call graph",run)
