// Reference counters outside the object header walk: every access to a field named *ref_count, and every counter
// that is decremented to decide who is last.
#pragma once
#include "layout.h"
#include "graph.h"
#include "llvm/Analysis/PostDominators.h"

namespace sa {
struct RefRules {
  Module& M; Reporter& R; Layouts L; const DataLayout& DL;
  RefRules(Module& m, Reporter& r) : M(m), R(r), L(m), DL(m.getDataLayout()) {}

  // name of the field a pointer designates ("Type.member"), from the innermost struct type on its address computation
  std::string fieldOf(const Value* p, bool deref) {
    for (int guard=0;guard<8;guard++) {
      auto* g=dyn_cast<GEPOperator>(p); if (!g) break; std::string n=CallGraphX::structName(g->getSourceElementType());
      if (!n.empty()) { size_t dot=n.find('.'); std::string t=dot==std::string::npos?n:n.substr(dot+1); APInt o(64,0); if (!g->accumulateConstantOffset(DL,o)) return ""; for (auto& f : L.fields(t)) if (f.off==o.getSExtValue() && !f.path.empty()) { bool pointer=false; if (auto* d=dyn_cast_or_null<DIDerivedType>(Layouts::strip(f.type))) pointer=d->getTag()==dwarf::DW_TAG_pointer_type; if (pointer==deref) return t+"."+f.path; } return ""; }
      p=g->getPointerOperand(); }
    return ""; }
  // a counter: a field named *ref_count itself, or the target of a pointer field of that name
  std::string counterOf(const Value* p) {
    std::string f=fieldOf(p,false); auto ends=[](const std::string& s){ return s.size()>=9 && s.compare(s.size()-9,9,"ref_count")==0; }; if (ends(f)) return f;
    if (auto* l=dyn_cast<LoadInst>(p)) { f=fieldOf(l->getPointerOperand(),true); if (ends(f)) return "*"+f; }
    if (auto* a=dyn_cast<GEPOperator>(p)) (void)a; return ""; }
  // counters found by how they are used elsewhere in the function: the same address is updated atomically
  std::string headerCounter(const Value* p) { if (auto* g=dyn_cast<GEPOperator>(p)) { APInt o(64,0); if (g->getSourceElementType()->isIntegerTy(8) && g->accumulateConstantOffset(DL,o) && o.getSExtValue()==-16) return "object header"; std::string n=CallGraphX::structName(g->getSourceElementType()); if (n.find("BLObjectImplHeader")!=std::string::npos && g->getNumIndices()>=1) { auto* k=dyn_cast<ConstantInt>(g->getOperand(1)); if (k && k->getSExtValue()==-1 && g->getNumIndices()==1) return "object header"; } } return ""; }
  // the render fetch data belongs to one rendering context and is counted by its owner thread only
  static bool singleThreaded(const std::string& f) { return f.find("RenderFetchData")!=std::string::npos; }
  static bool strong(AtomicOrdering o) { return o==AtomicOrdering::AcquireRelease||o==AtomicOrdering::SequentiallyConsistent; }

  static bool acquireFenceAfter(const Instruction* I) { for (auto& u : I->uses()) if (auto* c=dyn_cast<ICmpInst>(u.getUser())) for (auto* cu : c->users()) if (auto* br=dyn_cast<BranchInst>(cu)) for (unsigned k=0;k<br->getNumSuccessors();k++) for (auto& J : *br->getSuccessor(k)) { if (auto* f=dyn_cast<FenceInst>(&J)) return isAcquireOrStronger(f->getOrdering()); if (isa<CallBase>(J)&&!isa<DbgInfoIntrinsic>(J)) break; } return false; }
  static bool frees(const BasicBlock* b, const std::set<const BasicBlock*>& dom) { for (auto* x : dom) for (auto& I : *x) if (auto* cb=dyn_cast<CallBase>(&I)) if (auto* f=cb->getCalledFunction()) if (f->getName()=="free"||f->getName()=="munmap") return true; (void)b; return false; }
  void run() {
    std::set<std::string> counters; long subs=0, adds=0;
    for (auto& F : M) { if (F.isDeclaration()) continue; bool any=false; for (auto& I : instructions(F)) if (isa<AtomicRMWInst>(I)||isa<StoreInst>(I)) any=true; if (!any) continue;
      std::unique_ptr<DominatorTree> DT;
      for (auto& I : instructions(F)) {
        if (auto* st=dyn_cast<StoreInst>(&I)) { std::string c=counterOf(st->getPointerOperand()); if (c.empty()&&st->getValueOperand()->getType()->isIntegerTy(64)) c=headerCounter(st->getPointerOperand()); if (c.empty()||singleThreaded(c)) continue; R.count("plain stores to a counter",1); counters.insert(c);
          // a value computed from the counter's own earlier value is an update that can be lost
          std::set<const Value*> seen; std::vector<const Value*> wl{st->getValueOperand()}; while (!wl.empty()) { auto* v=wl.back(); wl.pop_back(); if (!seen.insert(v).second) continue; if (auto* l=dyn_cast<LoadInst>(v)) { if (counterOf(l->getPointerOperand())==c||headerCounter(l->getPointerOperand())==c) R.violation("lost-update:"+shortName(&F),Engine::locFull(&I),shortName(&F)+"() updates the reference counter "+c+" without an atomic read-modify-write",""); continue; } if (isa<BinaryOperator>(v)||isa<PHINode>(v)||isa<SelectInst>(v)||isa<CastInst>(v)) for (auto& o : cast<User>(v)->operands()) wl.push_back(o); }
          continue; }
        auto* rm=dyn_cast<AtomicRMWInst>(&I); if (!rm) continue; std::string c=counterOf(rm->getPointerOperand()); if (!c.empty()) counters.insert(c);
        bool sub=rm->getOperation()==AtomicRMWInst::Sub; if (auto* k=dyn_cast<ConstantInt>(rm->getValOperand())) if (rm->getOperation()==AtomicRMWInst::Add && k->getValue().isNegative()) sub=true;
        if (!sub) { if (rm->getOperation()==AtomicRMWInst::Add) adds++; continue; }
        subs++;
        if (rm->use_empty()) { if (!c.empty()||rm->getType()->isIntegerTy(64)) R.violation("unused:"+shortName(&F),Engine::locFull(&I),shortName(&F)+"() drops a reference without testing whether it was the last one",""); continue; }
        if (!strong(rm->getOrdering()) && !((isReleaseOrStronger(rm->getOrdering()))&&acquireFenceAfter(rm))) R.violation("weak:"+shortName(&F),Engine::locFull(&I),shortName(&F)+"() decides on a counter it decrements with an ordering weaker than acquire-release",""); 
        for (auto* u : rm->users()) { auto* ic=dyn_cast<ICmpInst>(u); if (!ic) continue; R.count("last-reference tests examined",1); const Value* other=ic->getOperand(0)==rm?ic->getOperand(1):ic->getOperand(0);
          if (!ic->isEquality()) { R.violation("test:"+shortName(&F),Engine::locFull(ic),shortName(&F)+"() does not test the counter it decremented for exactly the last reference",""); continue; }
          auto* k=dyn_cast<ConstantInt>(other); if (k && !k->isOne()) { /* an underflow guard compares with zero and only reports */ bool guard=false; if (k->isZero()) { guard=true; } if (!guard) R.violation("test:"+shortName(&F),Engine::locFull(ic),shortName(&F)+"() compares the counter it decremented with "+std::to_string(k->getSExtValue())+" instead of 1",""); }
          if (!DT) DT=std::make_unique<DominatorTree>(F);
          for (auto* cu : ic->users()) if (auto* br=dyn_cast<BranchInst>(cu)) { BasicBlock* last=br->getSuccessor(ic->getPredicate()==ICmpInst::ICMP_EQ?0:1); BasicBlock* more=br->getSuccessor(ic->getPredicate()==ICmpInst::ICMP_EQ?1:0); auto region=[&](BasicBlock* b){ std::set<const BasicBlock*> o; if (b->getSinglePredecessor()) { SmallVector<BasicBlock*,8> d; DT->getDescendants(b,d); o.insert(d.begin(),d.end()); } return o; };
            auto lr=region(last), mr=region(more); bool zero=k&&k->isZero(); if (frees(more,mr) && !frees(last,lr)) R.violation("inverted:"+shortName(&F),Engine::locFull(br),shortName(&F)+"() frees the data when other references remain",""); if (zero && frees(last,lr)) R.violation("test:"+shortName(&F),Engine::locFull(br),shortName(&F)+"() frees the data when the counter was already zero",""); } } } }
    R.count("atomic increments",adds); R.count("atomic decrements examined",subs); R.count("reference counters found",counters.size()); for (auto& c : counters) R.sample("reference counter",c);
    if (subs<100||counters.size()<2) R.broken("found only "+std::to_string(subs)+" atomic decrements and "+std::to_string(counters.size())+" counters");
  }
};
}
