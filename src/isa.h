// Code compiled for an instruction set extension is reached only behind a test of the detected CPU features.
#pragma once
#include "graph.h"
#include "llvm/IR/Dominators.h"

namespace sa {
struct IsaRules {
  Module& M; Reporter& R; Layouts L; CallGraphX cg; std::map<int64_t,int> rankOfBit; int64_t featOff=-1;
  IsaRules(Module& m, Reporter& r) : M(m), R(r), L(m), cg(m) {}
  static int rankOf(StringRef f) { static const std::map<std::string,int> t={{"sse3",1},{"ssse3",2},{"sse4.1",3},{"sse4.2",4},{"crc32",4},{"popcnt",4},{"pclmul",4},{"avx",5},{"avx2",6},{"fma",6},{"bmi",6},{"bmi2",6},{"lzcnt",6},{"f16c",6}}; auto it=t.find(f.str()); if (it!=t.end()) return it->second; return f.startswith("avx512")?7:0; }
  std::map<const Function*,int> needs;
  int need(const Function* F) { auto it=needs.find(F); if (it!=needs.end()) return it->second; int n=0; if (!F->isDeclaration()) { SmallVector<StringRef,32> fs; F->getFnAttribute("target-features").getValueAsString().split(fs,','); for (auto f : fs) if (f.consume_front("+")) n=std::max(n,rankOf(f)); } return needs[F]=n; }
  static const char* nameOf(int r) { static const char* n[]={"baseline","SSE3","SSSE3","SSE4.1","SSE4.2","AVX","AVX2","AVX-512"}; return n[r]; }
  bool features(const Value* v, int depth=0) { v=v->stripPointerCasts(); if (auto* l=dyn_cast<LoadInst>(v)) { APInt off(64,0); const Value* b=l->getPointerOperand()->stripAndAccumulateConstantOffsets(M.getDataLayout(),off,true); if (off.getSExtValue()!=featOff) return false; if (auto* g=dyn_cast<GlobalVariable>(b)) return g->getName()=="bl_runtime_context"; return isa<Argument>(b)||isa<LoadInst>(b)||isa<PHINode>(b)||isa<SelectInst>(b); }
    if (depth<4) { if (auto* c=dyn_cast<CastInst>(v)) return features(c->getOperand(0),depth+1); if (auto* p=dyn_cast<PHINode>(v)) { for (auto& x : p->incoming_values()) if (x!=p && !features(x,depth+1)) return false; return p->getNumIncomingValues()>0; } }
    return false; }
  int maxRank(uint64_t m) { int r=0; for (auto& b : rankOfBit) if (m&b.first) r=std::max(r,b.second); return r; }
  int minRank(uint64_t m) { int r=99; for (int i=0;i<32;i++) if (m>>i&1) { auto it=rankOfBit.find(1ll<<i); r=std::min(r,it==rankOfBit.end()?0:it->second); } return r==99?0:r; }
  // the extension that is known to be there when v has the given truth
  int implies(const Value* v, bool truth, int depth=0) {
    if (depth>8) return 0;
    if (auto* ic=dyn_cast<ICmpInst>(v)) { auto pr=ic->getPredicate(); if (pr!=CmpInst::ICMP_EQ&&pr!=CmpInst::ICMP_NE) return 0; bool same=(pr==CmpInst::ICMP_EQ)==truth; const Value *a=ic->getOperand(0), *b=ic->getOperand(1); if (isa<ConstantInt>(a)) std::swap(a,b); auto* k=dyn_cast<ConstantInt>(b); if (!k) return 0;
      if (auto* z=dyn_cast<ZExtInst>(a)) if (z->getSrcTy()->isIntegerTy(1)) return k->isZero()?implies(z->getOperand(0),!same,depth+1):k->isOne()?implies(z->getOperand(0),same,depth+1):0;
      if (a->getType()->isIntegerTy(1)) return implies(a,k->isZero()?!same:same,depth+1);
      auto* an=dyn_cast<BinaryOperator>(a); if (!an||an->getOpcode()!=Instruction::And) return 0; const Value *x=an->getOperand(0), *c=an->getOperand(1); if (isa<ConstantInt>(x)) std::swap(x,c); auto* mk=dyn_cast<ConstantInt>(c); if (!mk||!features(x)) return 0; uint64_t m=mk->getZExtValue();
      if (k->isZero()) return same?0:minRank(m); if (same) return maxRank(m&k->getZExtValue()); return 0; }
    if (auto* t=dyn_cast<TruncInst>(v)) { if (truth&&t->getDestTy()->isIntegerTy(1)) if (auto* sh=dyn_cast<BinaryOperator>(t->getOperand(0))) if (sh->getOpcode()==Instruction::LShr && features(sh->getOperand(0))) if (auto* k=dyn_cast<ConstantInt>(sh->getOperand(1))) return minRank(1ull<<k->getZExtValue()); return 0; }
    if (auto* b=dyn_cast<BinaryOperator>(v)) { if (b->getOpcode()==Instruction::Xor && isa<ConstantInt>(b->getOperand(1)) && cast<ConstantInt>(b->getOperand(1))->isOne()) return implies(b->getOperand(0),!truth,depth+1); int p=implies(b->getOperand(0),truth,depth+1), q=implies(b->getOperand(1),truth,depth+1); if (b->getOpcode()==Instruction::And) return truth?std::max(p,q):std::min(p,q); if (b->getOpcode()==Instruction::Or) return truth?std::min(p,q):std::max(p,q); return 0; }
    if (auto* s=dyn_cast<SelectInst>(v)) { auto *t=dyn_cast<ConstantInt>(s->getTrueValue()), *f=dyn_cast<ConstantInt>(s->getFalseValue()); if (f && f->isZero() && truth) return std::max(implies(s->getCondition(),true,depth+1),implies(s->getTrueValue(),true,depth+1)); if (t && t->isOne() && !truth) return std::max(implies(s->getCondition(),false,depth+1),implies(s->getFalseValue(),false,depth+1)); if (t && t->isZero() && truth) return std::max(implies(s->getCondition(),false,depth+1),implies(s->getFalseValue(),true,depth+1)); return 0; }
    if (auto* p=dyn_cast<PHINode>(v)) { if (depth>5) return 0; int r=99; for (unsigned i=0;i<p->getNumIncomingValues();i++) { auto* x=p->getIncomingValue(i); if (auto* k=dyn_cast<ConstantInt>(x)) if (k->isOne()!=truth) continue; int q=std::max(implies(x,truth,depth+1),at(p->getIncomingBlock(i),p->getParent(),depth+1)); r=std::min(r,q); } return r==99?0:r; }
    if (auto* a=dyn_cast<Argument>(v)) { auto* F=a->getParent(); if (isApi(F)||!a->getType()->isIntegerTy(1)||F->use_empty()) return 0; int r=99; for (auto& u : F->uses()) { auto* cb=dyn_cast<CallBase>(u.getUser()); if (!cb||!cb->isCallee(&u)||cb->arg_size()<=a->getArgNo()) return 0; const Value* x=cb->getArgOperand(a->getArgNo()); if (auto* k=dyn_cast<ConstantInt>(x)) if (k->isOne()!=truth) continue; r=std::min(r,std::max(implies(x,truth,depth+1),at(cb->getParent(),nullptr,depth+1))); } return r==99?0:r; }
    if (auto* cb=dyn_cast<CallBase>(v)) if (auto* G=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) if (!G->isDeclaration()) { int r=99; for (auto& B : *G) if (auto* ret=dyn_cast<ReturnInst>(B.getTerminator())) if (ret->getReturnValue()) { const Value* x=ret->getReturnValue(); if (auto* k=dyn_cast<ConstantInt>(x)) if (k->isOne()!=truth) continue; r=std::min(r,std::max(implies(x,truth,depth+1),at(&B,nullptr,depth+1))); } return r==99?0:r; }
    return 0; }
  std::map<const Function*,std::unique_ptr<DominatorTree>> dts;
  DominatorTree& dt(const Function* F) { auto& d=dts[F]; if (!d) { d=std::make_unique<DominatorTree>(); d->recalculate(*const_cast<Function*>(F)); } return *d; }
  // the extension known to be there in a block (or on the edge from it)
  int at(const BasicBlock* B, const BasicBlock* to=nullptr, int depth=0) {
    auto& D=dt(B->getParent()); int r=0; if (!D.getNode(const_cast<BasicBlock*>(B))) return 99;
    auto edge=[&](const BasicBlock* from, const BasicBlock* succ, unsigned k) { auto* br=dyn_cast<BranchInst>(from->getTerminator()); return br&&br->isConditional()?implies(br->getCondition(),k==0,depth+1):0; };
    if (to) if (auto* br=dyn_cast<BranchInst>(B->getTerminator())) if (br->isConditional() && br->getSuccessor(0)!=br->getSuccessor(1)) r=std::max(r,edge(B,to,br->getSuccessor(0)==to?0:1));
    for (auto* n=D.getNode(const_cast<BasicBlock*>(B))->getIDom(); n; n=n->getIDom()) { auto* X=n->getBlock(); auto* br=dyn_cast<BranchInst>(X->getTerminator()); if (!br||!br->isConditional()||br->getSuccessor(0)==br->getSuccessor(1)) continue; for (unsigned k=0;k<2;k++) if (D.dominates(BasicBlockEdge(X,br->getSuccessor(k)),B)) r=std::max(r,edge(X,br->getSuccessor(k),k)); }
    return r; }
  int atUse(const Use& u) { auto* I=cast<Instruction>(u.getUser()); if (auto* p=dyn_cast<PHINode>(I)) return at(p->getIncomingBlock(u),p->getParent()); int r=at(I->getParent()); if (auto* s=dyn_cast<SelectInst>(I)) { if (u.getOperandNo()==1) r=std::max(r,implies(s->getCondition(),true)); if (u.getOperandNo()==2) r=std::max(r,implies(s->getCondition(),false)); } return r; }
  std::string where(const Instruction* I) { if (auto d=I->getDebugLoc()) { std::string f=d->getFilename().str(); size_t p=f.find("/blend2d/"); if (p!=std::string::npos) f=f.substr(p+1); return f+":"+std::to_string(d.getLine()); } return I->getFunction()->getName().str(); }
  // is every way to F (a baseline function whose body is not guarded) guarded for this extension?
  bool allCallersGuard(const Function* F, int n, int depth) { if (depth>3||isApi(F)) return false; unsigned k=0; for (auto& u : F->uses()) { auto* I=dyn_cast<Instruction>(u.getUser()); if (!I) return false; k++; if (need(I->getFunction())>=n) continue; if (atUse(u)>=n) continue; if (!allCallersGuard(I->getFunction(),n,depth+1)) return false; } return k>0; }
  void run() {
    for (auto& e : std::vector<std::pair<const char*,int>>{{"SSE2",0},{"SSE3",1},{"SSSE3",2},{"SSE4_1",3},{"SSE4_2",4},{"AVX",5},{"AVX2",6},{"AVX512",7}}) { auto it=L.enumerators.find(std::string("BL_RUNTIME_CPU_FEATURE_X86_")+e.first); if (it!=L.enumerators.end()) rankOfBit[it->second]=e.second; }
    if (rankOfBit.size()<6) { R.broken("the CPU feature bits were not found"); return; }
    if (L.types.count("BLRuntimeContext")) { std::vector<Field> fs; L.leaves(L.types.at("BLRuntimeContext"),"",0,fs); for (auto& f : fs) if (f.path.size()>=12 && f.path.compare(f.path.size()-12,12,"cpu_features")==0) featOff=f.off; } if (featOff<0) { R.broken("cpu_features not found in BLRuntimeContext"); return; }
    std::set<const Function*> odr; long refs=0, wide=0;
    for (auto& F : M) { int n=need(&F); if (!n) continue; wide++; if (F.hasLinkOnceODRLinkage()||F.hasWeakODRLinkage()||F.hasWeakLinkage()||F.hasLinkOnceAnyLinkage()) continue; // the linker may keep the baseline definition
      for (auto& u : F.uses()) check(&F,n,u,refs); }
    R.count("functions that need an extension",wide); R.count("references from baseline code examined",refs); if (refs<10) R.broken("only "+std::to_string(refs)+" references to code for CPU extensions found"); }
  void check(const Function* F, int n, const Use& u, long& refs) {
    if (auto* C=dyn_cast<Constant>(u.getUser())) { if (isa<GlobalVariable>(C)) { refs++; R.violation("table:"+F->getName().str(),C->getName().str(),"the constant data "+C->getName().str()+" holds "+shortName(F)+"(), which is compiled for "+nameOf(n)); return; } if (isa<Function>(C)||isa<GlobalAlias>(C)) return; for (auto& w : C->uses()) check(F,n,w,refs); return; }
    auto* I=dyn_cast<Instruction>(u.getUser()); if (!I) return; const Function* B=I->getFunction(); if (need(B)>=n) return; refs++; int have=atUse(u); R.sample("guarded reference",shortName(F)+" ("+nameOf(n)+") in "+shortName(B)+" under "+nameOf(std::min(have,7)));
    if (have>=n || allCallersGuard(B,n,0)) return;
    if ((isa<SelectInst>(I)||isa<PHINode>(I)) && !I->use_empty()) { bool all=true; for (auto& w : I->uses()) if (!isa<Instruction>(w.getUser()) || atUse(w)<n) all=false; if (all) return; } // chosen before, used only behind the test
    R.violation(B->getName().str()+":"+F->getName().str(),where(I),shortName(B)+"() uses "+shortName(F)+"(), which is compiled for "+nameOf(n)+", where the CPU is only known to have "+nameOf(have)); }
};
}
