// Local variables read before anything was written to them.
#pragma once
#include "recur.h"

namespace sa {
struct UninitRules {
  Module& M; Reporter& R; const DataLayout& DL;
  UninitRules(Module& m, Reporter& r) : M(m), R(r), DL(m.getDataLayout()), rr(m,r), gs(m,r) {}
  // what an instruction does to the variable a pointer leads to: 1 reads it, 2 writes it (or may), 4 starts its life
  struct Ev { const Instruction* I; int what; };
  void collect(const AllocaInst* A, std::vector<Ev>& ev) {
    std::set<const Value*> seen; std::vector<const Value*> w{A}; while (!w.empty()) { auto* v=w.back(); w.pop_back(); if (!seen.insert(v).second) continue;
      for (auto& U : v->uses()) { auto* i=dyn_cast<Instruction>(U.getUser()); if (!i) continue;
        if (isa<GetElementPtrInst>(i)||isa<CastInst>(i)||isa<SelectInst>(i)||isa<PHINode>(i)||isa<FreezeInst>(i)) { if (isa<PtrToIntInst>(i)) ev.push_back({i,2}); else w.push_back(i); continue; }
        if (isa<LoadInst>(i)) continue; if (isa<ICmpInst>(i)) continue;
        if (auto* s=dyn_cast<StoreInst>(i)) { ev.push_back({i,2}); (void)s; continue; }
        if (auto* mt=dyn_cast<MemTransferInst>(i)) { ev.push_back({i,U.getOperandNo()==0?2:1}); continue; }
        if (auto* cb=dyn_cast<CallBase>(i)) { if (cb->getIntrinsicID()==Intrinsic::lifetime_start) { ev.push_back({i,4}); continue; } if (cb->getIntrinsicID()==Intrinsic::lifetime_end||isa<DbgInfoIntrinsic>(cb)) continue; auto* f=cb->getCalledFunction(); int eff=f&&!f->isDeclaration()&&cb->isArgOperand(&U)?gs.paramEffect(f,cb->getArgOperandNo(&U)):2; if (eff) ev.push_back({i,eff&2?2:1}); continue; }
        ev.push_back({i,2}); } } }
  RecurRules rr; GlobalState gs;
  void run() {
    struct Low { Reporter& R; ~Low() { if (R.counts["local handles followed"]<100) R.broken("found only "+std::to_string(R.counts["local handles followed"])+" local objects"); } } low{R};
    for (auto& F : M) { if (F.isDeclaration()) continue;
      for (auto& I : F.getEntryBlock()) { auto* A=dyn_cast<AllocaInst>(&I); if (!A||!A->getAllocatedType()->isStructTy()||DL.getTypeAllocSize(A->getAllocatedType())!=16||!CallGraphX::structName(cast<StructType>(A->getAllocatedType())).size()||CallGraphX::structName(cast<StructType>(A->getAllocatedType())).find("Core")==std::string::npos) continue; std::vector<Ev> ev; collect(A,ev); bool rd=false, restarts=false; for (auto& e : ev) if (e.what==4) restarts=true; for (auto& e : ev) if (e.what==1) rd=true; if (!rd) continue; R.count("local handles followed",1);
        std::map<const Instruction*,int> at; for (auto& e : ev) at[e.I]|=e.what; std::map<const BasicBlock*,std::vector<std::pair<const Instruction*,int>>> per; for (auto& b : F) for (auto& i : b) { auto it=at.find(&i); if (it!=at.end()) per[&b].push_back(*it); }
        // paths from the object's creation, constants that flags hold along the path included
        const Instruction* bad=nullptr; int steps=0; struct S { const BasicBlock* b; RecurRules::Env e; bool fresh; }; std::vector<S> wl; std::set<std::string> seen; std::map<const Value*,std::set<uint64_t>> took; wl.push_back({&F.getEntryBlock(),{},true});
        while (!wl.empty()&&!bad) { if (++steps>50000) { R.count("walks cut short",1); break; } S s=wl.back(); wl.pop_back(); bool touched=!s.fresh;
          for (auto& e : per[s.b]) { if (e.second&4) { touched=false; continue; } if (touched) continue; if (e.second&1) { bad=e.first; break; } if (e.second&2) touched=true; }
          if (bad||(touched&&!restarts)) continue; auto* t=s.b->getTerminator();
          auto go=[&](const BasicBlock* n, const Value* known=nullptr, bool val=false) { if (known) for (;;) { if (isa<Instruction>(known)) s.e.insert({known,APInt(known->getType()->getIntegerBitWidth(),val)}); if (auto* t2=dyn_cast<TruncInst>(known)) { known=t2->getOperand(0); continue; } if (auto* x=dyn_cast<BinaryOperator>(known)) if (x->getOpcode()==Instruction::Xor && isa<ConstantInt>(x->getOperand(1)) && cast<ConstantInt>(x->getOperand(1))->isOne()) { known=x->getOperand(0); val=!val; continue; } break; } RecurRules::Env e=s.e; std::vector<std::pair<const Value*,APInt>> set; for (auto& P : n->phis()) { APInt x; e.erase(&P); if (P.getType()->isIntegerTy() && RecurRules::eval(s.e,P.getIncomingValueForBlock(s.b),x)) { auto& k=took[&P]; k.insert(x.getZExtValue()); if (k.size()<=4) set.push_back({&P,x}); } } for (auto k=e.begin(); k!=e.end();) { if (!rr.liveAt(k->first).count(n)) k=e.erase(k); else ++k; } for (auto& kv : set) e.insert(kv);
            std::string key=std::to_string((uintptr_t)n)+(touched?"t":"f"); for (auto& kv : e) key+=","+std::to_string((uintptr_t)kv.first)+"="+std::to_string(kv.second.getZExtValue()); if (seen.insert(key).second) wl.push_back({n,e,!touched}); };
          APInt c; if (auto* br=dyn_cast<BranchInst>(t)) if (br->isConditional()) { if (RecurRules::eval(s.e,br->getCondition(),c)) { go(br->getSuccessor(c.getBoolValue()?0:1)); continue; } auto s0=s; go(br->getSuccessor(0),br->getCondition(),true); s=s0; go(br->getSuccessor(1),br->getCondition(),false); continue; }
          if (auto* sw=dyn_cast<SwitchInst>(t)) if (RecurRules::eval(s.e,sw->getCondition(),c)) { const BasicBlock* d=sw->getDefaultDest(); for (auto& k : sw->cases()) if (k.getCaseValue()->getValue()==c) d=k.getCaseSuccessor(); go(d); continue; }
          for (auto* n : successors(s.b)) go(n); }
        if (bad) R.violation("uninit:"+shortName(&F),Engine::locFull(bad),shortName(&F)+"() copies a local object that nothing was written to on some path",""); 
      } }
  }
};
}
