// Library initialisation: every initialiser is called exactly once, and after what it depends on.
#pragma once
#include "graph.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/IR/Dominators.h"

namespace sa {

struct InitRules {
  Module& M; Reporter& R; const DataLayout& DL; CallGraphX cg;
  InitRules(Module& m, Reporter& r) : M(m), R(r), DL(m.getDataLayout()), cg(m) {}
  struct Loc { const GlobalVariable* g; int64_t lo, hi; bool operator<(const Loc& o) const { return std::tie(g,lo,hi)<std::tie(o.g,o.lo,o.hi); } };
  static bool overlap(const Loc& a, const Loc& b) { return a.g==b.g && a.lo<b.hi && b.lo<a.hi; }
  // accesses of a function relative to a base that is a global or one of its arguments
  struct Acc { const Value* base; int64_t lo, hi; const Instruction* at; bool write, always, sync; bool certain=true, exposed=true; };
  bool where(const Value* p, uint64_t size, Acc& a) { APInt o(64,0); const Value* b=p->stripAndAccumulateConstantOffsets(DL,o,true); a.lo=o.getSExtValue(); a.hi=a.lo+int64_t(size); a.base=b; if (isa<GlobalVariable>(b)||isa<Argument>(b)) return true;
    // a variable index: the whole object
    for (int i=0;i<6;i++) { if (auto* g=dyn_cast<GEPOperator>(b)) { b=g->getPointerOperand()->stripPointerCasts(); continue; } break; } if (auto* g=dyn_cast<GlobalVariable>(b)) { a.base=g; a.lo=0; a.hi=int64_t(DL.getTypeAllocSize(g->getValueType())); return true; } return false; }
  std::map<const Function*, std::vector<Acc>> memo; std::set<const Function*> active;
  const std::vector<Acc>& accesses(const Function* F, bool follow=true) {
    auto it=memo.find(F); if (it!=memo.end()) return it->second; auto& out=memo[F]; if (F->isDeclaration()||active.count(F)) return out; active.insert(F); std::vector<Acc> v; PostDominatorTree PDT(const_cast<Function&>(*F)); const BasicBlock* en=&F->getEntryBlock();
    for (auto& I : instructions(F)) { bool always=PDT.dominates(I.getParent(),en); Acc a; a.at=&I; a.always=always; a.sync=false;
      if (auto* l=dyn_cast<LoadInst>(&I)) { if (where(l->getPointerOperand(),DL.getTypeStoreSize(l->getType()),a)) { a.write=false; v.push_back(a); } }
      else if (auto* s=dyn_cast<StoreInst>(&I)) { if (where(s->getPointerOperand(),DL.getTypeStoreSize(s->getValueOperand()->getType()),a)) { a.write=true; v.push_back(a); } }
      else if (auto* m=dyn_cast<MemIntrinsic>(&I)) { uint64_t n=0; bool k=false; if (auto* c=dyn_cast<ConstantInt>(m->getLength())) { n=c->getZExtValue(); k=true; } if (where(m->getRawDest(),k?n:1<<20,a)) { a.write=true; v.push_back(a); } if (auto* t=dyn_cast<MemTransferInst>(m)) { Acc b; b.at=&I; b.always=always; b.sync=false; if (where(t->getRawSource(),k?n:8,b)) { b.write=false; v.push_back(b); } } }
      else if (auto* cb=dyn_cast<CallBase>(&I)) { if (isa<DbgInfoIntrinsic>(cb)) continue; auto* t=cb->getCalledFunction(); if (!t||t->isDeclaration()) continue; if (!follow) continue;
        for (auto q : std::vector<Acc>(accesses(t))) { if (!q.write && !q.exposed) continue; q.at=&I; q.certain=q.always; q.always&=always; if (auto* ar=dyn_cast<Argument>(q.base)) { if (ar->getArgNo()>=cb->arg_size()) continue; Acc x; if (!where(cb->getArgOperand(ar->getArgNo()),0,x)) continue; q.base=x.base; q.lo+=x.lo; q.hi+=x.lo; } v.push_back(q); if (v.size()>20000) break; } } }
    { DominatorTree DT(const_cast<Function&>(*F)); std::map<const Value*,std::vector<const Acc*>> ws; for (auto& a : v) if (a.write&&a.certain) ws[a.base].push_back(&a); for (auto& a : v) if (!a.write) for (auto* w : ws[a.base]) if (w->lo<a.hi && a.lo<w->hi && w->at!=a.at && DT.dominates(w->at,a.at)) { a.exposed=false; break; } }
    std::vector<Acc> u; std::set<std::tuple<const Value*,int64_t,int64_t,bool,const Instruction*>> seen; for (auto& a : v) if (seen.insert({a.base,a.lo,a.hi,a.write,a.at}).second) u.push_back(a);
    active.erase(F); return memo[F]=u; }

  // a step that only extends what earlier steps left (a list, a counter) does not set it up
  static bool accumulates(const std::vector<Acc>& acc, const Acc& w) { for (auto& r : acc) if (!r.write && r.exposed && r.base==w.base && r.lo<w.hi && w.lo<r.hi) return true; return false; }
  void run() {
    auto* init=M.getFunction("bl_runtime_init"); auto* down=M.getFunction("bl_runtime_shutdown"); if (!init||!down) { R.broken("bl_runtime_init not found"); return; }
    // the counter that makes initialisation happen once, and shutdown only at the end
    struct Once { Function* F; AtomicRMWInst::BinOp op; int64_t old; const char* what; };
    std::map<Function*, std::pair<const ICmpInst*, const AtomicRMWInst*>> gate;
    for (auto o : {Once{init,AtomicRMWInst::Add,0,"initialisation"},Once{down,AtomicRMWInst::Sub,1,"shutdown"}}) {
      DominatorTree DT(*o.F); const AtomicRMWInst* rmw=nullptr; for (auto& I : instructions(o.F)) if (auto* a=dyn_cast<AtomicRMWInst>(&I)) if (a->getOperation()==o.op && !rmw) rmw=a;
      if (!rmw) { bool helper=false; for (auto& c : cg.calls[o.F]) for (auto* t : c.second) for (auto& I : instructions(t)) if (isa<AtomicRMWInst>(I)) helper=true; if (!helper) R.violation("gate:"+o.F->getName().str(),fnLoc(o.F),o.F->getName().str()+"() does not count its callers atomically"); else R.note(o.F->getName().str()+": counter handled in a helper"); continue; }
      // every call that does the work happens only where the previous count was `old`
      for (auto& I : instructions(o.F)) { auto* cb=dyn_cast<CallBase>(&I); if (!cb||isa<DbgInfoIntrinsic>(cb)||isa<MemIntrinsic>(cb)) continue; auto* t=cb->getCalledFunction(); if (t&&t->isIntrinsic()) continue; bool ok=false;
        for (auto* u : rmw->users()) if (auto* ic=dyn_cast<ICmpInst>(u)) { auto* k=dyn_cast<ConstantInt>(ic->getOperand(1)); if (!k||!ic->isEquality()) continue; for (auto* bu : ic->users()) if (auto* br=dyn_cast<BranchInst>(bu)) { bool eq=ic->getPredicate()==ICmpInst::ICMP_EQ; BasicBlockEdge e(br->getParent(),br->getSuccessor(eq?0:1)); if (k->getSExtValue()==o.old && DT.dominates(e,I.getParent())) ok=true; } }
        R.count("gated calls examined",1); if (!ok) R.violation("gate:"+o.F->getName().str(),Engine::locFull(&I),o.F->getName().str()+"() performs "+(t?shortName(t):std::string("a call"))+"() although another user of the library is still counted"); } }
    // the initialisers, in the order they run
    std::vector<const Function*> order; std::map<const Function*, std::vector<const CallBase*>> sites; std::map<const Function*,bool> uncond; std::set<const Function*> all;
    for (auto& F : M) { std::string n=shortName(&F); if (!F.isDeclaration() && n.size()>8 && n.compare(n.size()-8,8,"_rt_init")==0) all.insert(&F); }
    std::set<const Function*> onPath; std::function<void(const Function*,bool)> walk=[&](const Function* F, bool un){ if (!onPath.insert(F).second) return; PostDominatorTree PDT(const_cast<Function&>(*F)); DominatorTree DT(const_cast<Function&>(*F));
      std::vector<const BasicBlock*> rpo; { ReversePostOrderTraversal<const Function*> t(F); for (auto* b : t) rpo.push_back(b); }
      const BasicBlock* start=&F->getEntryBlock(); if (F==init) { for (auto& b : *F) for (auto& I : b) if (auto* cb=dyn_cast<CallBase>(&I)) if (auto* t=cb->getCalledFunction()) if (start==&F->getEntryBlock() && all.count(t)) start=&b; }
      for (auto* b : rpo) for (auto& I : *b) if (auto* cb=dyn_cast<CallBase>(&I)) if (auto* t=cb->getCalledFunction()) { if (t->isDeclaration()) continue; bool u=un && (PDT.dominates(b,&F->getEntryBlock())||(F==init)); if (F==init) { u=PDT.dominates(b,start)||DT.dominates(b,start); }
            if (all.count(t)) { sites[t].push_back(cb); if (!uncond.count(t)) uncond[t]=u; order.push_back(t); } else { bool leads=false; for (auto* g : cg.reach({t})) if (all.count(g)) leads=true; if (leads) walk(t,u); } }
      onPath.erase(F); };
    walk(init,true);
    for (auto* f : all) { R.count("initialisers",1); std::string n=shortName(f); if (!sites.count(f)) { bool empty=true; for (auto& I : instructions(f)) if (!isa<ReturnInst>(I)&&!isa<DbgInfoIntrinsic>(I)) empty=false; if (!empty) R.violation("uncalled:"+n,fnLoc(f),n+"() is never called by bl_runtime_init()"); continue; }
      if (sites[f].size()>1) R.violation("twice:"+n,Engine::locFull(sites[f][1]),n+"() is called more than once during initialisation"); if (!uncond[f]) R.violation("conditional:"+n,Engine::locFull(sites[f][0]),n+"() is not called on every path of the initialisation"); }
    // an initialisation step nobody performs
    for (auto& F : M) { if (F.isDeclaration()||!F.use_empty()||isApi(&F)) continue; auto* sp=F.getSubprogram(); if (!sp||!sp->getType()) continue; auto ta=sp->getType()->getTypeArray(); bool rt=false; for (unsigned i=1;i<ta.size();i++) if (auto* d=dyn_cast_or_null<DIDerivedType>(ta[i])) if (d->getTag()==dwarf::DW_TAG_pointer_type && d->getBaseType() && d->getBaseType()->getName()=="BLRuntimeContext") rt=true; if (!rt||all.count(&F)) continue; R.violation("uncalled:"+shortName(&F),fnLoc(&F),shortName(&F)+"() takes part in the library's initialisation but nothing calls it"); }
    // units of initialisation in program order: every call made by bl_runtime_init
    struct Unit { std::string name; const Instruction* at; std::vector<Acc> acc; }; std::vector<Unit> units;
    { ReversePostOrderTraversal<const Function*> t(init); for (auto* b : t) for (auto& I : *b) { if (auto* cb=dyn_cast<CallBase>(&I)) { auto* f=cb->getCalledFunction(); if (!f||f->isDeclaration()) continue; Unit u; u.name=shortName(f); u.at=&I; for (auto q : accesses(f)) { q.sync=false; if (auto* ar=dyn_cast<Argument>(q.base)) { Acc x; if (ar->getArgNo()>=cb->arg_size()||!where(cb->getArgOperand(ar->getArgNo()),0,x)) continue; q.base=x.base; q.lo+=x.lo; q.hi+=x.lo; } if (isa<GlobalVariable>(q.base)) u.acc.push_back(q); } units.push_back(u); }
        else if (auto* s=dyn_cast<StoreInst>(&I)) { Acc a; a.at=&I; a.always=true; a.write=true; if (where(s->getPointerOperand(),DL.getTypeStoreSize(s->getValueOperand()->getType()),a) && isa<GlobalVariable>(a.base)) { Unit u; u.name="bl_runtime_init"; u.at=&I; u.acc={a}; units.push_back(u); } }
        else if (auto* l=dyn_cast<LoadInst>(&I)) { Acc a; a.at=&I; a.always=true; a.write=false; if (where(l->getPointerOperand(),DL.getTypeStoreSize(l->getType()),a) && isa<GlobalVariable>(a.base)) { Unit u; u.name="bl_runtime_init"; u.at=&I; u.acc={a}; units.push_back(u); } } } }
    for (size_t i=0;i<units.size();i++) { std::set<std::pair<const Value*,int64_t>> done; for (auto& a : units[i].acc) { if (a.write||!a.exposed) continue; auto* g=cast<GlobalVariable>(a.base); if (g->isConstant()) continue; R.count("global reads during initialisation",1);
        if (a.hi-a.lo>64) continue; bool early=false; for (size_t j=0;j<i;j++) for (auto& w : units[j].acc) if (w.write && w.base==a.base && w.lo<a.hi && a.lo<w.hi) early=true; if (early) continue;
        for (size_t j=i+1;j<units.size();j++) for (auto& w : units[j].acc) if (w.write && w.base==a.base && w.lo<a.hi && a.lo<w.hi && !accumulates(units[j].acc,w) && done.insert({a.base,a.lo}).second) R.violation("order:"+units[i].name+":"+g->getName().str()+"+"+std::to_string(a.lo),Engine::locFull(a.at),units[i].name+"() reads "+demangle1(g->getName().str())+"+"+std::to_string(a.lo)+", which "+units[j].name+"() sets up only later"); } }
    // pointers that start out null and that nothing ever sets
    std::map<const GlobalVariable*, std::vector<std::pair<int64_t,int64_t>>> written; std::set<const GlobalVariable*> byInit, unknown;
    for (auto& F : M) { if (F.isDeclaration()) continue; for (auto& a : accesses(&F)) if (a.write) if (auto* g=dyn_cast<GlobalVariable>(a.base)) written[g].push_back({a.lo,a.hi}); }
    for (auto& u : units) for (auto& a : u.acc) if (a.write) byInit.insert(cast<GlobalVariable>(a.base));
    for (auto& G : M.globals()) { for (auto* u : G.users()) { std::vector<const User*> wl={u}; std::set<const User*> seen; while (!wl.empty()) { auto* x=wl.back(); wl.pop_back(); if (!seen.insert(x).second) continue; if (auto* cb=dyn_cast<CallBase>(x)) { auto* t=cb->getCalledFunction(); if (!t||(t->isDeclaration()&&!t->isIntrinsic())) unknown.insert(&G); } else if (auto* st=dyn_cast<StoreInst>(x)) { if (st->getValueOperand()->stripInBoundsOffsets()==&G) unknown.insert(&G); } else if (isa<Operator>(x) && (isa<GEPOperator>(x)||isa<ConstantExpr>(x)||isa<CastInst>(x))) for (auto* y : x->users()) wl.push_back(y); } } }
    for (auto& F : M) { if (F.isDeclaration()) continue; for (auto& I : instructions(F)) { auto* l=dyn_cast<LoadInst>(&I); if (!l||!l->getType()->isPointerTy()) continue; Acc a; if (!where(l->getPointerOperand(),8,a)) continue; auto* g=dyn_cast<GlobalVariable>(a.base); if (!g||!byInit.count(g)||unknown.count(g)||!g->hasInitializer()||a.hi-a.lo!=8) continue; R.count("pointers that start out null",1);
        auto* c=ConstantFoldLoadFromConst(const_cast<Constant*>(g->getInitializer()),l->getType(),APInt(64,a.lo),DL); if (!c||!(c->isNullValue()||isa<UndefValue>(c))) continue; bool set=false; for (auto& w : written[g]) if (w.first<a.hi && a.lo<w.second) set=true; if (!set) R.violation("unset:"+g->getName().str()+"+"+std::to_string(a.lo),Engine::locFull(&I),shortName(&F)+"() uses the pointer at "+demangle1(g->getName().str())+"+"+std::to_string(a.lo)+", which nothing ever sets"); } }
  }
};

} // namespace sa
