// Recursion: every cycle of calls counts its depth against a constant.
#pragma once
#include "graph.h"
#include "llvm/IR/Dominators.h"

namespace sa {

struct RecurRules {
  Module& M; Reporter& R; CallGraphX cg;
  RecurRules(Module& m, Reporter& r) : M(m), R(r), cg(m) {}
  std::map<const Function*,int> num, low, comp; std::vector<const Function*> st; int n=0, nc=0; std::vector<std::vector<const Function*>> sccs;
  void visit(const Function* F) {
    // iterative Tarjan
    struct Fr { const Function* f; std::vector<const Function*> s; size_t i; }; std::vector<Fr> fr; auto push=[&](const Function* f){ num[f]=low[f]=++n; st.push_back(f); std::vector<const Function*> s; for (auto& c : cg.calls[f]) for (auto* t : c.second) if (!t->isDeclaration() && follow(c.first,f,t)) s.push_back(t); fr.push_back({f,s,0}); };
    push(F); while (!fr.empty()) { auto& t=fr.back(); if (t.i<t.s.size()) { auto* g=t.s[t.i++]; if (!num.count(g)) { push(g); continue; } if (!comp.count(g)) low[t.f]=std::min(low[t.f],num[g]); continue; }
      auto* f=t.f; if (low[f]==num[f]) { std::vector<const Function*> c; for (;;) { auto* x=st.back(); st.pop_back(); comp[x]=nc; c.push_back(x); if (x==f) break; } sccs.push_back(c); nc++; } fr.pop_back(); if (!fr.empty()) low[fr.back().f]=std::min(low[fr.back().f],low[f]); } }
  // ---- explicit stacks: a local array indexed by a counter that goes up and down in a loop
  static const Value* core(const Value* v) { for (;;) { if (auto* c=dyn_cast<CastInst>(v)) { if (!c->getType()->isIntegerTy()||!c->getOperand(0)->getType()->isIntegerTy()) return v; v=c->getOperand(0); } else if (auto* f=dyn_cast<FreezeInst>(v)) v=f->getOperand(0); else return v; } }
  struct Web { std::set<const Value*> vals; std::vector<const BinaryOperator*> ups, downs; bool other=false; };
  void web(const Value* v, Web& w) { v=core(v); if (!w.vals.insert(v).second||w.vals.size()>400) return; if (isa<ConstantInt>(v)) return; if (auto* p=dyn_cast<PHINode>(v)) { for (auto& x : p->incoming_values()) web(x,w); return; } if (auto* s=dyn_cast<SelectInst>(v)) { web(s->getTrueValue(),w); web(s->getFalseValue(),w); return; }
    if (auto* b=dyn_cast<BinaryOperator>(v)) if (b->getOpcode()==Instruction::Add||b->getOpcode()==Instruction::Sub) if (auto* c=dyn_cast<ConstantInt>(b->getOperand(1))) { bool neg=c->isNegative()!=(b->getOpcode()==Instruction::Sub); (neg?w.downs:w.ups).push_back(b); web(b->getOperand(0),w); return; }
    w.other=true; }
  // constants on one path
  using Env=std::map<const Value*,APInt>;
  static bool eval(const Env& e, const Value* v, APInt& r, int d=0) {
    auto it=e.find(v); if (it!=e.end()) { r=it->second; return true; } if (auto* c=dyn_cast<ConstantInt>(v)) { r=c->getValue(); return true; } if (d>30) return false; APInt x,y;
    if (auto* c=dyn_cast<CastInst>(v)) { if (!c->getType()->isIntegerTy()||!c->getOperand(0)->getType()->isIntegerTy()||!eval(e,c->getOperand(0),x,d+1)) return false; unsigned w=c->getType()->getIntegerBitWidth(); r=c->getOpcode()==Instruction::SExt?x.sextOrTrunc(w):x.zextOrTrunc(w); return true; }
    if (auto* f=dyn_cast<FreezeInst>(v)) return eval(e,f->getOperand(0),r,d+1); if (auto* cb=dyn_cast<CallBase>(v)) { if (cb->getIntrinsicID()==Intrinsic::expect) return eval(e,cb->getArgOperand(0),r,d+1); if ((cb->getIntrinsicID()==Intrinsic::umin||cb->getIntrinsicID()==Intrinsic::smin) && eval(e,cb->getArgOperand(0),x,d+1) && eval(e,cb->getArgOperand(1),y,d+1)) { r=x.ult(y)?x:y; return true; } return false; }
    if (auto* ic=dyn_cast<ICmpInst>(v)) { if (!ic->getOperand(0)->getType()->isIntegerTy()||!eval(e,ic->getOperand(0),x,d+1)||!eval(e,ic->getOperand(1),y,d+1)) return false; r=APInt(1,ICmpInst::compare(x,y,ic->getPredicate())); return true; }
    if (auto* s=dyn_cast<SelectInst>(v)) { if (eval(e,s->getCondition(),x,d+1)) return eval(e,x.getBoolValue()?s->getTrueValue():s->getFalseValue(),r,d+1); if (eval(e,s->getTrueValue(),x,d+1)&&eval(e,s->getFalseValue(),y,d+1)&&x==y) { r=x; return true; } return false; }
    if (auto* o=dyn_cast<BinaryOperator>(v)) { bool a=eval(e,o->getOperand(0),x,d+1), b=eval(e,o->getOperand(1),y,d+1); switch (o->getOpcode()) { case Instruction::And: if (a&&b) { r=x&y; return true; } if (a&&x.isZero()) { r=x; return true; } if (b&&y.isZero()) { r=y; return true; } return false; case Instruction::Or: if (a&&b) { r=x|y; return true; } if (a&&x.isAllOnes()) { r=x; return true; } if (b&&y.isAllOnes()) { r=y; return true; } return false; case Instruction::Add: if (a&&b) { r=x+y; return true; } return false; case Instruction::Sub: if (a&&b) { r=x-y; return true; } return false; case Instruction::Xor: if (a&&b) { r=x^y; return true; } return false; default: return false; } }
    return false; }
  // blocks at whose entry a value may still matter, used directly or through what is computed from it
  std::map<const Value*,std::set<const BasicBlock*>> live;
  const std::set<const BasicBlock*>& liveAt(const Value* v) { auto it=live.find(v); if (it!=live.end()) return it->second; auto& L=live[v]; auto* def=cast<Instruction>(v)->getParent(); std::set<const Value*> d{v}; std::vector<const Value*> w{v}; std::vector<const BasicBlock*> bl;
    while (!w.empty()) { auto* x=w.back(); w.pop_back(); for (auto& U : x->uses()) { auto* i=dyn_cast<Instruction>(U.getUser()); if (!i) continue; if (auto* ph=dyn_cast<PHINode>(i)) { bl.push_back(ph->getIncomingBlock(U)); continue; } bl.push_back(i->getParent()); if ((isa<CastInst>(i)||isa<ICmpInst>(i)||isa<SelectInst>(i)||isa<BinaryOperator>(i)||isa<FreezeInst>(i)||isa<CallBase>(i)) && d.insert(i).second) w.push_back(i); } }
    std::set<const BasicBlock*> seen; while (!bl.empty()) { auto* b=bl.back(); bl.pop_back(); if (!seen.insert(b).second) continue; if (b==def) continue; L.insert(b); for (auto* p : predecessors(b)) bl.push_back(p); }
    return L; }
  // the counter has just reached the number of levels: is the array accessed beyond its end, or the counter increased again?
  bool overflows(const Function& F, const BinaryOperator* up, const AllocaInst* al, uint64_t N, uint64_t start, const Instruction*& where, const std::set<const Value*>& rel) {
    struct S { const BasicBlock* b; BasicBlock::const_iterator it; Env e; }; std::vector<S> wl; Env e0; e0.insert({up,APInt(up->getType()->getIntegerBitWidth(),start)}); wl.push_back({up->getParent(),std::next(up->getIterator()),e0}); std::set<std::string> seen; std::map<const Value*,std::set<uint64_t>> took; int steps=0;
    while (!wl.empty()) { if (++steps>400000) { R.count("walks cut short",1); return false; } S s=wl.back(); wl.pop_back(); bool stop=false;
      for (auto it=s.it; it!=s.b->end(); ++it) { if (&*it==up) { APInt x; s.e.erase(up); if (eval(s.e,up,x) && x.uge(N) && x.ule(N+3)) { s.e.insert({up,x}); continue; } stop=true; break; } if (auto* g=dyn_cast<GetElementPtrInst>(&*it)) if (g->getPointerOperand()->stripPointerCasts()==al) { APInt x; auto* ix=g->getOperand(g->getNumIndices()>=2?2:1); if (!isa<ConstantInt>(ix) && eval(s.e,ix,x) && x.uge(N)) { where=g; return true; } } }
      if (stop) continue; auto* t=s.b->getTerminator(); auto go=[&](const BasicBlock* n){ Env e=s.e; std::vector<std::pair<const Value*,APInt>> set; std::vector<const Value*> drop; for (auto& P : n->phis()) { APInt x; if (P.getType()->isIntegerTy() && eval(s.e,P.getIncomingValueForBlock(s.b),x)) { auto& k=took[&P]; k.insert(x.getZExtValue()); if (k.size()<=(rel.count(&P)?6u:4u)) { set.push_back({&P,x}); continue; } } drop.push_back(&P); } for (auto* d : drop) e.erase(d); for (auto k=e.begin(); k!=e.end();) { if (!liveAt(k->first).count(n)) k=e.erase(k); else ++k; } for (auto& kv : set) { e.erase(kv.first); e.insert(kv); }
        std::string key=std::to_string((uintptr_t)n); for (auto& kv : e) key+=","+std::to_string((uintptr_t)kv.first)+"="+std::to_string(kv.second.getZExtValue()); if (seen.insert(key).second) wl.push_back({n,n->getFirstNonPHI()->getIterator(),e}); };
      APInt c; if (auto* br=dyn_cast<BranchInst>(t)) if (br->isConditional() && eval(s.e,br->getCondition(),c)) { go(br->getSuccessor(c.getBoolValue()?0:1)); continue; }
      if (auto* sw=dyn_cast<SwitchInst>(t)) if (eval(s.e,sw->getCondition(),c)) { const BasicBlock* d=sw->getDefaultDest(); for (auto& k : sw->cases()) if (k.getCaseValue()->getValue()==c) d=k.getCaseSuccessor(); go(d); continue; }
      for (auto* n : successors(s.b)) go(n); }
    return false; }
  static std::string fileOf(const Function& F) { std::string f; if (auto* sp=F.getSubprogram()) f=sp->getFilename().str(); size_t p=f.rfind("blend2d/"); return p==std::string::npos?f:f.substr(p+8); }
  void stacks() {
    for (auto& F : M) { if (F.isDeclaration()||!untrusted(fileOf(F))) continue; std::set<std::pair<const Value*,const BinaryOperator*>> done; int idx=0; std::map<const AllocaInst*,int> nth;
      for (auto& I : instructions(F)) { if (auto* a=dyn_cast<AllocaInst>(&I)) nth[a]=idx++; auto* g=dyn_cast<GetElementPtrInst>(&I); if (!g) continue; auto* al=dyn_cast<AllocaInst>(g->getPointerOperand()->stripPointerCasts()); if (!al) continue; auto* at=dyn_cast<ArrayType>(al->getAllocatedType()); if (!at) continue; const Value* ix=nullptr;
        if (g->getSourceElementType()==at && g->getNumIndices()>=2) ix=g->getOperand(2); else if (g->getSourceElementType()==at->getElementType()) ix=g->getOperand(1); if (!ix||isa<ConstantInt>(ix)) continue; uint64_t N=at->getNumElements(); Web w; web(ix,w); { bool down=false; for (auto* d : w.downs) { Web w2; web(d->getOperand(0),w2); if (w2.vals.count(d)) down=true; } if (w.ups.empty()||!down) continue; }
        R.count("explicit stack accesses",1); bool fresh=false; for (auto* u : w.ups) { bool cyc=false; { Web w2; web(u->getOperand(0),w2); cyc=w2.vals.count(u); } if (!cyc||!done.insert({al,u}).second) continue; fresh=true; R.count("counter increments",1);
          const Instruction* at2=nullptr; bool ok=true; uint64_t step=1; for (int q=0;q<2;q++) if (auto* kc=dyn_cast<ConstantInt>(u->getOperand(q))) step=std::min<uint64_t>(8,(uint64_t)std::abs(kc->getSExtValue())); for (uint64_t x=0;x<step&&ok;x++) ok=!overflows(F,u,al,N,N+x,at2,w.vals); std::string where=at2?Engine::locFull(at2):"";
          if (getenv("BLSA_VERBOSE")) fprintf(stderr,"stack %s %s N=%lu at %s\n",ok?"ok":"NO",shortName(&F).substr(0,60).c_str(),(unsigned long)N,where.substr(0,60).c_str());
          if (!ok) R.violation("stack:"+fileOf(F)+":"+shortName(&F)+":"+std::to_string(N),where,shortName(&F)+"() counts a nesting level up without limiting it to the "+std::to_string(N)+" levels it has room for"); }
        if (fresh) R.sample("explicit stack",shortName(&F)+" ["+std::to_string(N)+"]"); } }
  }
  void run() { stacks();
    std::vector<const Function*> roots; for (auto* f : apiRoots(M)) roots.push_back(f); auto reach=cg.reach(roots,{}); for (auto& F : M) if (!F.isDeclaration() && reach.count(&F) && !num.count(&F)) visit(&F);
    R.count("functions reachable",num.size()); if (num.size()<1500||R.counts["counter increments"]<5) R.broken("too little found to analyse");
    for (auto& c : sccs) { std::set<const Function*> in(c.begin(),c.end()); bool self=false; for (auto& k : cg.calls[c[0]]) for (auto* t : k.second) if (t==c[0] && follow(k.first,c[0],t)) self=true; if (c.size()==1 && !self) continue; R.count("cycles of calls",1);
      std::string names; bool ok=false; const char* why=nullptr; std::set<std::string> ns; for (auto* f : c) ns.insert(shortName(f)); for (auto& n : ns) names+=(names.empty()?"":", ")+n;
      for (auto* f : c) { if (!why) why=reviewed(shortName(f)); if (counted(f,in)) ok=true; }
      R.sample("cycle",names.substr(0,200)+(why?std::string(": ")+why:ok?": counts its depth":"")); if (ok||why) continue;
      std::string first=*ns.begin(); const Function* F=c[0]; for (auto* f : c) if (shortName(f)==first) F=f; R.violation("cycle:"+fileOf(*F)+":"+first,fileOf(*F),first+"() can be reached again from itself without a limit on the depth",names.substr(0,400)); }
  }
  static bool untrusted(const std::string& f) { return f.compare(0,9,"opentype/")==0||f.compare(0,6,"codec/")==0||f.compare(0,12,"compression/")==0; }
  // calls through pointers count where both sides process fonts, images or streams
  static bool follow(const CallBase* cb, const Function* f, const Function* t) { if (cb->getCalledFunction()) return true; return untrusted(fileOf(*f)) && untrusted(fileOf(*t)) && fileOf(*f)==fileOf(*t); }
  static const char* reviewed(const std::string& n) {
    static const std::map<std::string,const char*> t={{"bl_pixel_converter_reset","releases two converters that have no further step"},{"bl_convert_multi_step","each step is a single-step converter"},{"bl_pixel_converter_init_internal","the steps are created with the flag that forbids further steps"},{"bl_pixel_converter_init_indexed","the palette conversion is a native one"},{"bl_var_equals","compares values the caller nested"},{"bl_array_equals","compares values the caller nested"},{"bl_gradient_add_stop_rgba64","replaces a stop that exists, and adds one that does not"},{"bl_object_destroy_unknown_impl","destroys values the caller nested"}};
    auto it=t.find(n); return it==t.end()?nullptr:it->second; }
  // a call within the cycle passes on a depth: parameter plus or minus a constant, and the parameter is compared with a constant
  bool counted(const Function* f, const std::set<const Function*>& in) {
    for (auto& k : cg.calls[f]) for (auto* t : k.second) if (in.count(t)) for (auto& a : k.first->args()) if (auto* b=dyn_cast<BinaryOperator>(core(a))) if ((b->getOpcode()==Instruction::Add||b->getOpcode()==Instruction::Sub) && isa<ConstantInt>(b->getOperand(1))) if (auto* p=dyn_cast<Argument>(core(b->getOperand(0)))) { std::vector<const Value*> w{p,b}; for (size_t i=0;i<w.size()&&i<40;i++) for (auto* u : w[i]->users()) { if (auto* ic=dyn_cast<ICmpInst>(u)) { if (isa<ConstantInt>(ic->getOperand(0))||isa<ConstantInt>(ic->getOperand(1))) return true; } else if (isa<CastInst>(u)) w.push_back(u); } }
    return false; }
};

} // namespace sa
