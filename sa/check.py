"""Common driver: obligations, violations, known findings, evidence."""
import sys, os, json, time, traceback
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
import build
from build import AnalysisBroken
VERIF=os.path.dirname(HERE)
KNOWN=os.path.join(VERIF,"known-findings.txt")
class Report:
    def __init__(s,pid,method):
        s.pid=pid; s.method=method; s.t=time.time(); s.tier="thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER","quick")
        if s.tier not in("quick","thorough"): s.tier="quick"
        s.obl=0; s.ok=0; s.rules={}; s.viol=[]; s.samples=[]; s.analysed={}; s.assume=[]; s.notes=[]
        s.level="other"
    def rule(s,rid,text,floor=1):
        s.rules[rid]={"text":text,"floor":floor,"instances":0,"violations":0}
    def good(s,rid,where=None,n=1):
        r=s.rules[rid]; r["instances"]+=n; s.obl+=n; s.ok+=n
        if where is not None and r.setdefault("samples",[]) is not None and len(r["samples"])<6: r["samples"].append(str(where))
    def bad(s,rid,key,where,msg,path=None):
        """key: stable identity (function + construct), where: file:line"""
        r=s.rules[rid]; r["instances"]+=1; r["violations"]+=1; s.obl+=1
        for v in s.viol:
            if v["rule"]==rid and v["key"]==key: v["also"].append(str(where)); return
        s.viol.append({"rule":rid,"key":key,"where":str(where),"msg":msg,"path":path,"also":[]})
    def note(s,k,v): s.analysed[k]=v
    def known(s):
        k={}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l=l.rstrip("\n")
                if l.startswith("KNOWN-FINDING: property=%s "%s.pid) and " key=" in l:
                    rest=l.split(" key=",1)[1]; key,_,what=rest.partition(" :: ")
                    k[key.strip()]=what.strip()
        return k
    def finish(s):
        kn=s.known(); new=[]; old=[]
        for v in s.viol:
            kk=v["rule"]+"|"+v["key"]
            if kk in kn: old.append((v,kn[kk]))
            else: new.append(v)
        for rid,r in s.rules.items():
            # a violated instance still counts as an instance; only a rule that no longer finds its code is broken
            if r["instances"]<r["floor"] and not new:
                raise AnalysisBroken("rule %s of %s matched %d instances, expected at least %d (%s)"%(rid,s.pid,r["instances"],r["floor"],r["text"]))
        for v,w in old: print("KNOWN-FINDING: property=%s %s [%s at %s]"%(s.pid,w,v["rule"],v["where"]))
        ed=os.path.join(VERIF,"evidence"); os.makedirs(ed,exist_ok=True)
        cov={"explanation":s.method,"obligations":s.obl,"discharged":s.ok,
             "rules":{k:{"text":r["text"],"instances":r["instances"],"violations":r["violations"],"floor":r["floor"],"samples":r.get("samples",[])} for k,r in s.rules.items()},
             "analysed":s.analysed,"known_findings":len(old),"notes":s.notes}
        ev={"property":s.pid,"tier":s.tier,"seed":int(os.environ.get("VERIF_SEED","1") or 1),"level":s.level,"coverage":cov,"assumptions":s.assume,"wall_s":round(time.time()-s.t,2),"violations":len(new)}
        json.dump(ev,open(os.path.join(ed,s.pid+".json"),"w"),indent=1)
        print("%s: %d obligations, %d discharged, %d known findings, %d violations (%.1fs)"%(s.pid,s.obl,s.ok,len(old),len(new),time.time()-s.t))
        for k,r in s.rules.items(): print("  rule %-14s %4d instances %3d violations  %s"%(k,r["instances"],r["violations"],r["text"][:110]))
        if new:
            rd=os.path.join(ed,"replay"); os.makedirs(rd,exist_ok=True); p=os.path.join(rd,s.pid+".txt")
            with open(p,"w") as f:
                for v in new:
                    t="[%s] %s\n  rule: %s\n  at: %s%s\n  key: %s|%s\n"%(v["rule"],v["msg"],s.rules[v["rule"]]["text"],v["where"]," (also "+", ".join(v["also"][:8])+")" if v["also"] else "",v["rule"],v["key"])
                    if v["path"]: t+="  path (source lines): %s\n"%(v["path"],)
                    f.write(t); print(t,end="")
            print("VIOLATION property=%s replay=%s"%(s.pid,p))
            return 1
        return 0
def main(pid,method,fn):
    r=Report(pid,method)
    try:
        fn(r)
        code=r.finish()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s"%(pid,e)); code=3
    except Exception:
        traceback.print_exc(); print("ANALYSIS-BROKEN property=%s internal error"%pid); code=3
    sys.stdout.flush(); sys.exit(code)
