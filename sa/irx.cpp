// irx: dump a linked LLVM module as compact JSON-lines facts.
// usage: irx in.bc out.jsonl known_functions.txt
// Functions that are not listed in known_functions.txt are marked always-inline first, so that a
// helper extracted by a refactoring is analysed as if its body still stood at the call site.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/IR/CFG.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/IR/CFG.h"
#include <fstream>
#include <map>
#include <set>
using namespace llvm;

static std::string q(StringRef s){
  std::string r="\"";
  for(unsigned char c: s){
    if(c=='"'||c=='\\'){ r+='\\'; r+=c; }
    else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; }
    else r+=c;
  }
  return r+"\"";
}
static std::string ty(Type*t){
  if(auto*s=dyn_cast<StructType>(t)) if(s->hasName()) return "%"+s->getName().str();
  std::string r; raw_string_ostream o(r); t->print(o,false,true); return o.str();
}
static const DataLayout*DL;
typedef std::map<const Value*,int> VM;
static std::string operand(const Value*v,const VM&m);

static std::string gepExtra(const GEPOperator*g){
  // list of steps: ["s",structname,index] | ["i"] (array/pointer index)
  std::string r="["+q(ty(g->getSourceElementType()))+",[";
  Type*cur=g->getSourceElementType(); bool first=true; unsigned k=0;
  for(auto it=g->idx_begin();it!=g->idx_end();++it,++k){
    if(!first) r+=","; first=false;
    if(k==0){ r+="[\"p\"]"; continue; }
    if(auto*st=dyn_cast<StructType>(cur)){
      unsigned i=cast<ConstantInt>(*it)->getZExtValue();
      r+="[\"s\","+q(st->hasName()?st->getName():"anon")+","+std::to_string(i)+"]";
      cur=st->getElementType(i);
    } else if(auto*at=dyn_cast<ArrayType>(cur)){
      r+="[\"a\","+std::to_string(at->getNumElements())+"]"; cur=at->getElementType();
    } else { r+="[\"i\"]"; }
  }
  return r+"]]";
}
static std::string operand(const Value*v,const VM&m){
  auto it=m.find(v); if(it!=m.end()) return std::to_string(it->second);
  if(auto*c=dyn_cast<ConstantInt>(v)){ if(c->getBitWidth()<=64) return "\"c:"+std::to_string(c->getSExtValue())+"\""; return "\"cbig\""; }
  if(isa<ConstantPointerNull>(v)) return "\"null\"";
  if(isa<UndefValue>(v)) return "\"undef\"";
  if(auto*f=dyn_cast<ConstantFP>(v)){ SmallString<32> s; f->getValueAPF().toString(s); return q(("f:"+s).str()); }
  if(auto*f=dyn_cast<Function>(v)) return q(("&"+f->getName()).str());
  if(auto*g=dyn_cast<GlobalValue>(v)) return q(("@"+g->getName()).str());
  if(auto*ce=dyn_cast<ConstantExpr>(v)){
    std::string r="["+q(ce->getOpcodeName())+",[";
    for(unsigned i=0;i<ce->getNumOperands();i++){ if(i) r+=","; r+=operand(ce->getOperand(i),m); }
    r+="]";
    if(auto*g=dyn_cast<GEPOperator>(ce)) r+=","+gepExtra(g);
    return r+"]";
  }
  if(isa<MetadataAsValue>(v)) return "\"meta\"";
  if(isa<InlineAsm>(v)) return "\"asm\"";
  return "\"?\"";
}
static void inits(const Constant*c,std::string&out,const VM&m,int depth){
  if(depth>8){ out+="\"...\""; return; }
  if(auto*s=dyn_cast<ConstantDataSequential>(c)){
    if(s->isCString()){ out+=q(("s:"+s->getAsCString()).str()); return; }
    if(s->isString()){ out+=q(("s:"+s->getAsString()).str()); return; }
    out+="["; for(unsigned i=0;i<s->getNumElements()&&i<4096;i++){ if(i) out+=","; inits(s->getElementAsConstant(i),out,m,depth+1);} out+="]"; return;
  }
  if(isa<ConstantAggregate>(c)){
    out+="["; for(unsigned i=0;i<c->getNumOperands();i++){ if(i) out+=","; inits(cast<Constant>(c->getOperand(i)),out,m,depth+1);} out+="]"; return;
  }
  if(isa<ConstantAggregateZero>(c)){ out+="\"zero\""; return; }
  out+=operand(c,m);
}
// ---- one form for what the source may write in several ways -------------------------------------
// a comparison has its constant on the right
static void constantsRight(Function&F){
  for(auto&B:F) for(auto&I:B) if(auto*c=dyn_cast<CmpInst>(&I))
    if(isa<Constant>(c->getOperand(0))&&!isa<Constant>(c->getOperand(1))) c->swapOperands();
}
// a branch on a condition that was turned into a number (and compared with 0 again) is a branch on the condition
static Value*truth(Value*v,bool&neg){
  for(int k=0;k<20;k++){
    if(auto*c=dyn_cast<ICmpInst>(v)){
      auto*k0=dyn_cast<ConstantInt>(c->getOperand(1));
      if(!k0||!k0->isZero()||!c->isEquality()) return v;
      Value*x=c->getOperand(0); bool n=c->getPredicate()==CmpInst::ICMP_EQ;
      if(auto*z=dyn_cast<ZExtInst>(x)){ if(!z->getOperand(0)->getType()->isIntegerTy(1)) return v; x=z->getOperand(0); }
      else if(auto*z=dyn_cast<SExtInst>(x)){ if(!z->getOperand(0)->getType()->isIntegerTy(1)) return v; x=z->getOperand(0); }
      else if(auto*s=dyn_cast<SelectInst>(x)){
        auto*a=dyn_cast<ConstantInt>(s->getTrueValue()),*b=dyn_cast<ConstantInt>(s->getFalseValue());
        if(!a||!b||a->isZero()==b->isZero()) return v;
        if(a->isZero()) n=!n;
        x=s->getCondition();
      } else return v;
      v=x; neg^=n; continue;
    }
    if(auto*b=dyn_cast<BinaryOperator>(v)) if(b->getOpcode()==Instruction::Xor)
      if(auto*k1=dyn_cast<ConstantInt>(b->getOperand(1))) if(k1->isOne()&&b->getType()->isIntegerTy(1)){ v=b->getOperand(0); neg=!neg; continue; }
    return v;
  }
  return v;
}
static void plainBranches(Function&F){
  for(auto&B:F) if(auto*br=dyn_cast<BranchInst>(B.getTerminator())) if(br->isConditional()){
    bool neg=false; Value*v=truth(br->getCondition(),neg);
    if(v==br->getCondition()) continue;
    br->setCondition(v); if(neg) br->swapSuccessors();
  }
}
// the value of v in block B when B is entered from P, if it is known there: 0, 1 or -1
static Value*enteredWith(Value*v,BasicBlock*B,BasicBlock*P){
  if(auto*p=dyn_cast<PHINode>(v)) if(p->getParent()==B) return p->getIncomingValueForBlock(P);
  return v;
}
static int known(Value*v,BasicBlock*B,BasicBlock*P,int d=0){
  if(d>8) return -1;
  v=enteredWith(v,B,P);
  if(auto*c=dyn_cast<ConstantInt>(v)) return c->isZero()?0:1;
  auto*I=dyn_cast<Instruction>(v); if(!I||I->getParent()!=B) return -1;
  if(auto*c=dyn_cast<ICmpInst>(I)){
    auto*k0=dyn_cast<ConstantInt>(c->getOperand(1)); if(!k0) return -1;
    auto*x=dyn_cast<ConstantInt>(enteredWith(c->getOperand(0),B,P));
    if(x&&x->getBitWidth()==k0->getBitWidth()) return ICmpInst::compare(x->getValue(),k0->getValue(),c->getPredicate())?1:0;
    if(k0->isZero()&&c->isEquality()){ int k=known(c->getOperand(0),B,P,d+1); return k<0?-1:(c->getPredicate()==CmpInst::ICMP_NE?k:1-k); }
    return -1;
  }
  if(isa<ZExtInst>(I)||isa<SExtInst>(I)) return known(I->getOperand(0),B,P,d+1);
  if(auto*b=dyn_cast<BinaryOperator>(I)) if(b->getOpcode()==Instruction::Xor&&b->getType()->isIntegerTy(1)&&isa<ConstantInt>(b->getOperand(1))&&cast<ConstantInt>(b->getOperand(1))->isOne()){ int k=known(b->getOperand(0),B,P,d+1); return k<0?-1:1-k; }
  if(auto*s=dyn_cast<SelectInst>(I)){ int k=known(s->getCondition(),B,P,d+1); if(k>=0) return known(k?s->getTrueValue():s->getFalseValue(),B,P,d+1); }
  return -1;
}
// a block which only looks at a truth value that its predecessor has just chosen is left out on the way from there
static bool threadOnce(Function&F){
  for(auto&B:F){
    auto*br=dyn_cast<BranchInst>(B.getTerminator()); if(!br||!br->isConditional()||br->getSuccessor(0)==br->getSuccessor(1)) continue;
    if(!isa<PHINode>(B.front())||&B==&F.getEntryBlock()) continue;
    bool ok=true;
    for(auto&I:B){
      if(&I==br) continue;
      if(!(isa<PHINode>(I)||isa<ICmpInst>(I)||isa<CastInst>(I)||isa<SelectInst>(I)||isa<BinaryOperator>(I))&&!isa<DbgInfoIntrinsic>(I)){ ok=false; break; }
      if(isa<DbgInfoIntrinsic>(I)) continue;
      for(auto*u:I.users()){ auto*ui=dyn_cast<Instruction>(u);
        if(!ui){ ok=false; break; }
        if(ui->getParent()==&B&&!isa<PHINode>(ui)) continue;
        auto*ph=dyn_cast<PHINode>(ui);
        if(!ph||!isa<PHINode>(I)){ ok=false; break; }
        if(ph->getParent()==&B){ ok=false; break; }
        for(unsigned k=0;k<ph->getNumIncomingValues();k++) if(ph->getIncomingValue(k)==&I&&ph->getIncomingBlock(k)!=&B) ok=false;
      }
      if(!ok) break;
    }
    if(!ok||br->getSuccessor(0)==&B||br->getSuccessor(1)==&B) continue;
    SmallVector<BasicBlock*,8> ps(predecessors(&B));
    for(auto*P:ps){
      auto*pb=dyn_cast<BranchInst>(P->getTerminator()); if(!pb) continue;
      if(pb->isConditional()&&pb->getSuccessor(0)==pb->getSuccessor(1)) continue;
      int k=known(br->getCondition(),&B,P); if(k<0) continue;
      BasicBlock*T=br->getSuccessor(k?0:1);
      bool already=false; for(auto*q:predecessors(T)) if(q==P) already=true;
      if(already){ bool same=true; for(auto&ph:T->phis()) if(enteredWith(ph.getIncomingValueForBlock(&B),&B,P)!=ph.getIncomingValueForBlock(P)) same=false; if(!same||!T->phis().empty()) continue; }
      for(auto&ph:T->phis()) ph.addIncoming(enteredWith(ph.getIncomingValueForBlock(&B),&B,P),P);
      for(unsigned s=0;s<pb->getNumSuccessors();s++) if(pb->getSuccessor(s)==&B) pb->setSuccessor(s,T);
      B.removePredecessor(P,true);
      return true;
    }
  }
  return false;
}
static void canonical(Function&F){
  constantsRight(F); plainBranches(F);
  for(int k=0;k<500&&threadOnce(F);k++) plainBranches(F);
  constantsRight(F);
  EliminateUnreachableBlocks(F);
}

int main(int argc,char**argv){
  if(argc<4){ errs()<<"usage\n"; return 2; }
  LLVMContext ctx; SMDiagnostic err;
  auto M=parseIRFile(argv[1],err,ctx);
  if(!M){ err.print("irx",errs()); return 2; }
  DL=&M->getDataLayout();
  std::set<std::string> known; { std::ifstream f(argv[3]); std::string l; while(std::getline(f,l)) known.insert(l); }
  for(auto&F:*M){
    F.removeFnAttr(Attribute::OptimizeNone);
    if(F.isDeclaration()) continue;
    if(!known.empty() && !known.count(F.getName().str())){
      F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline);
    } else { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
  }
  // remember which loads/stores go through the first field of a struct: instsimplify drops the zero GEP
  {
    for(auto&F:*M) for(auto&B:F) for(auto&I:B){
      Value*p=nullptr;
      if(auto*l=dyn_cast<LoadInst>(&I)) p=l->getPointerOperand(); else if(auto*s=dyn_cast<StoreInst>(&I)) p=s->getPointerOperand();
      if(!p) continue;
      auto*g=dyn_cast<GetElementPtrInst>(p);
      if(!g||!g->hasAllZeroIndices()||g->getNumIndices()<2) continue;
      Type*cur=g->getSourceElementType(); StructType*last=nullptr; unsigned k=0;
      for(auto it=g->idx_begin();it!=g->idx_end();++it,++k){ if(k==0) continue; if(auto*st=dyn_cast<StructType>(cur)){ last=st; cur=st->getElementType(0);} else if(auto*at=dyn_cast<ArrayType>(cur)){ cur=at->getElementType(); } }
      if(!last||!last->hasName()) continue;
      I.setMetadata("f0",MDNode::get(ctx,MDString::get(ctx,last->getName())));
    }
  }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
    ModulePassManager MPM;
    if(auto e=PB.parsePassPipeline(MPM,"always-inline,function(sroa,instsimplify)")){ errs()<<"pipeline\n"; return 2; }
    MPM.run(*M,MAM);
  }
  for(auto&F:*M) if(!F.isDeclaration()){
    canonical(F);
    if(verifyFunction(F,&errs())){ errs()<<"canonical form of "<<F.getName()<<" is broken\n"; return 2; }
  }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
    ModulePassManager MPM;
    if(auto e=PB.parsePassPipeline(MPM,"function(instsimplify)")){ errs()<<"pipeline\n"; return 2; }
    MPM.run(*M,MAM);
  }
  std::error_code ec; raw_fd_ostream O(argv[2],ec); if(ec) return 2;
  // struct tables
  std::map<std::string,DICompositeType*> di;
  DebugInfoFinder F; F.processModule(*M);
  for(auto*t:F.types()){
    if(auto*c=dyn_cast<DICompositeType>(t)){ if(!c->getName().empty() && (!di.count(c->getName().str())|| di[c->getName().str()]->isForwardDecl())) di[c->getName().str()]=c; }
  }
  for(auto*t:F.types()) if(auto*d=dyn_cast<DIDerivedType>(t)) if(d->getTag()==dwarf::DW_TAG_typedef)
    if(auto*c=dyn_cast_or_null<DICompositeType>(d->getBaseType())) if(c->getName().empty()) if(!di.count(d->getName().str())) di[d->getName().str()]=c;
  for(auto*st:M->getIdentifiedStructTypes()){
    if(st->isOpaque()) continue;
    std::string n=st->getName().str(); std::string b=n; auto p=b.find('.'); if(p!=std::string::npos) b=b.substr(p+1);
    std::string b2=b; p=b2.rfind('.'); if(p!=std::string::npos && p+1<b2.size() && isdigit((unsigned char)b2[p+1])) b2=b2.substr(0,p);
    auto*sl=DL->getStructLayout(st);
    std::map<uint64_t,std::string> byoff; 
    auto it=di.find(b); if(it==di.end()) it=di.find(b2);
    if(it!=di.end()) for(auto*e:it->second->getElements()) if(auto*d=dyn_cast<DIDerivedType>(e)) if(!byoff.count(d->getOffsetInBits())) byoff[d->getOffsetInBits()]=d->getName().str();
    O<<"{\"k\":\"struct\",\"name\":"<<q(n)<<",\"size\":"<<DL->getTypeAllocSize(st).getFixedValue()<<",\"fields\":[";
    for(unsigned i=0;i<st->getNumElements();i++){ if(i) O<<","; uint64_t off=sl->getElementOffset(i);
      auto f=byoff.find(off*8); O<<"["<<off<<","<<q(f==byoff.end()?"":f->second)<<","<<q(ty(st->getElementType(i)))<<"]"; }
    O<<"]}\n";
  }
  // enums
  for(auto*t:F.types()) if(auto*c=dyn_cast<DICompositeType>(t)) if(c->getTag()==dwarf::DW_TAG_enumeration_type){
    O<<"{\"k\":\"enum\",\"name\":"<<q(c->getName())<<",\"vals\":{"; bool f=true;
    for(auto*e:c->getElements()) if(auto*en=dyn_cast<DIEnumerator>(e)){ if(!f) O<<","; f=false; O<<q(en->getName())<<":"<<en->getValue().getSExtValue(); }
    O<<"}}\n"; }
  VM empty;
  for(auto&g:M->globals()){
    O<<"{\"k\":\"global\",\"name\":"<<q(g.getName())<<",\"ty\":"<<q(ty(g.getValueType()))<<",\"const\":"<<(g.isConstant()?1:0)<<",\"tls\":"<<(g.isThreadLocal()?1:0)<<",\"init\":";
    if(g.hasInitializer()){ std::string s; inits(g.getInitializer(),s,empty,0); O<<s; } else O<<"null";
    O<<"}\n";
  }
  for(auto&f:*M){
    if(f.isDeclaration()){ O<<"{\"k\":\"decl\",\"name\":"<<q(f.getName())<<",\"va\":"<<(f.isVarArg()?1:0)<<"}\n"; continue; }
    VM vm; int n=0; for(auto&a:f.args()) vm[&a]=n++;
    std::map<const BasicBlock*,int> bb; int nb=0;
    // keep only reachable blocks
    std::set<const BasicBlock*> reach; { std::vector<const BasicBlock*> w{&f.getEntryBlock()}; while(!w.empty()){ auto*b=w.back(); w.pop_back(); if(!reach.insert(b).second) continue; for(auto*s:successors(b)) w.push_back(s);} }
    for(auto&b:f){ if(!reach.count(&b)) continue; bb[&b]=nb++; for(auto&i:b) vm[&i]=n++; }
    std::map<const Value*,std::string> vname;
    std::vector<std::string> an;
    std::string file,dir; if(auto*sp=f.getSubprogram()){ file=sp->getFilename().str(); }
    for(auto&a:f.args()) an.push_back("");
    for(auto&b:f) for(auto&i:b) if(auto*d=dyn_cast<DbgVariableIntrinsic>(&i)){
      for(unsigned k=0;k<d->getNumVariableLocationOps();k++){ auto*v=d->getVariableLocationOp(k); if(v){ vname.insert({v,d->getVariable()->getName().str()}); if(auto*a=dyn_cast<Argument>(v)) if(d->getVariable()->isParameter()) vname[v]=d->getVariable()->getName().str(); } } }
    int line=0; if(auto*sp=f.getSubprogram()) line=sp->getLine();
    O<<"{\"k\":\"fn\",\"name\":"<<q(f.getName())<<",\"file\":"<<q(file)<<",\"line\":"<<line<<",\"ret\":"<<q(ty(f.getReturnType()))<<",\"local\":"<<(f.hasLocalLinkage()?1:0)<<",\"va\":"<<(f.isVarArg()?1:0)<<",\"args\":[";
    for(unsigned i=0;i<f.arg_size();i++){ if(i) O<<","; auto v=vname.find(f.getArg(i)); O<<"["<<q(ty(f.getArg(i)->getType()))<<","<<q(v==vname.end()?"":v->second)<<"]"; }
    O<<"],\"blocks\":[";
    bool fb=true;
    for(auto&b:f){
      if(!reach.count(&b)) continue;
      if(!fb) O<<","; fb=false; O<<"["; bool fi=true;
      for(auto&i:b){
        if(isa<DbgInfoIntrinsic>(i)) continue;
        if(auto*ii=dyn_cast<IntrinsicInst>(&i)) if(ii->getIntrinsicID()==Intrinsic::lifetime_start||ii->getIntrinsicID()==Intrinsic::lifetime_end) continue;
        if(!fi) O<<","; fi=false;
        std::string op=i.getOpcodeName();
        O<<"["<<vm[&i]<<","<<q(op)<<","<<q(ty(i.getType()))<<",[";
        std::string extra="null";
        if(auto*c=dyn_cast<CallBase>(&i)){
          unsigned k=0; for(auto&a:c->args()){ if(k++) O<<","; O<<operand(a.get(),vm);} 
          extra=operand(c->getCalledOperand()->stripPointerCasts(),vm);
        } else if(auto*p=dyn_cast<PHINode>(&i)){
          extra="["; bool first=true;
          for(unsigned k=0;k<p->getNumIncomingValues();k++){ if(!reach.count(p->getIncomingBlock(k))) continue; if(!first){ O<<","; extra+=","; } first=false; O<<operand(p->getIncomingValue(k),vm); extra+=std::to_string(bb[p->getIncomingBlock(k)]); }
          extra+="]";
        } else if(auto*br=dyn_cast<BranchInst>(&i)){
          if(br->isConditional()) O<<operand(br->getCondition(),vm);
          extra="["; for(unsigned k=0;k<br->getNumSuccessors();k++){ if(k) extra+=","; extra+=std::to_string(bb[br->getSuccessor(k)]); } extra+="]";
        } else if(auto*sw=dyn_cast<SwitchInst>(&i)){
          O<<operand(sw->getCondition(),vm);
          extra="["+std::to_string(bb[sw->getDefaultDest()])+",["; bool first=true;
          for(auto&cs:sw->cases()){ if(!first) extra+=","; first=false; extra+="["+std::to_string(cs.getCaseValue()->getSExtValue())+","+std::to_string(bb[cs.getCaseSuccessor()])+"]"; }
          extra+="]]";
        } else {
          int pk=isa<LoadInst>(i)?0:isa<StoreInst>(i)?1:-1;
          for(unsigned k=0;k<i.getNumOperands();k++){ if(k) O<<","; std::string os=operand(i.getOperand(k),vm);
            if((int)k==pk && !isa<GEPOperator>(i.getOperand(k))) if(auto*md=i.getMetadata("f0")){ std::string sn=cast<MDString>(md->getOperand(0))->getString().str();
              os="[\"getelementptr\",["+os+",\"c:0\",\"c:0\"],["+q("%"+sn)+",[[\"p\"],[\"s\","+q(sn)+",0]]]]"; }
            O<<os; }
          if(auto*g=dyn_cast<GetElementPtrInst>(&i)) extra=gepExtra(cast<GEPOperator>(g));
          else if(auto*ic=dyn_cast<CmpInst>(&i)) extra="["+q(CmpInst::getPredicateName(ic->getPredicate()))+","+q(ty(ic->getOperand(0)->getType()))+"]";
          else if(auto*al=dyn_cast<AllocaInst>(&i)){ auto v=vname.find(al); extra="["+q(ty(al->getAllocatedType()))+","+q(v==vname.end()?"":v->second)+","+std::to_string(DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue())+"]"; }
          else if(auto*ob=dyn_cast<BinaryOperator>(&i)){ if(isa<OverflowingBinaryOperator>(ob)) extra=ob->hasNoSignedWrap()?"\"nsw\"":"null"; }
          else if(auto*st=dyn_cast<StoreInst>(&i)) extra=q(ty(st->getValueOperand()->getType()));
          else if(auto*ca=dyn_cast<CastInst>(&i)) extra=q(ty(ca->getSrcTy()));
          else if(auto*ev=dyn_cast<ExtractValueInst>(&i)){ extra="["; bool f1=true; for(auto x:ev->indices()){ if(!f1) extra+=","; f1=false; extra+=std::to_string(x);} extra+="]"; }
        }
        int ln=0; std::string fl; int ifl=0;
        if(auto dl=i.getDebugLoc()){ ln=dl.getLine(); if(dl->getInlinedAt()){ ifl=1; } fl=dl->getFilename().str(); }
        O<<"],"<<extra<<","<<ln;
        if(fl!=file && !fl.empty()) O<<","<<q(fl); else O<<",\"\"";
        auto v=vname.find(&i); O<<","<<q(v==vname.end()?"":v->second);
        O<<"]";
      }
      O<<"]";
    }
    O<<"]}\n";
  }
  return 0;
}
