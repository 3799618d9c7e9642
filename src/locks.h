// Lock typestate: every path of every function, with the effects of callees summarised bottom-up.
#pragma once
#include "graph.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Passes/PassBuilder.h"

namespace sa {

struct LockRules {
  Module& M; Reporter& R; CallGraphX cg; GlobalState gs; const DataLayout& DL;
  LockRules(Module& m, Reporter& r) : M((threadJumps(m),m)), R(r), cg(m), gs(m,r), DL(m.getDataLayout()) {}

  // ---- names of memory locations ------------------------------------------------------------------------------------
  // "@global+off", "#arg+off", "*(name)+off" for a pointer loaded from `name`, "%N+off" for anything else.
  using Phis=std::map<const PHINode*, const Value*>;
  std::map<const Value*, unsigned> ids;
  std::string base(const Value* v, const Phis& ph, int depth) {
    if (auto* g=dyn_cast<GlobalVariable>(v)) return "@"+g->getName().str();
    if (auto* a=dyn_cast<Argument>(v)) return "#"+std::to_string(a->getArgNo());
    if (auto* l=dyn_cast<LoadInst>(v)) if (depth<6) return "*("+name(l->getPointerOperand(),ph,depth+1)+")";
    if (auto* p=dyn_cast<PHINode>(v)) { auto it=ph.find(p); if (it!=ph.end() && depth<6 && it->second!=p) return name(it->second,ph,depth+1); }
    auto it=ids.emplace(v,ids.size()).first; return "%"+std::to_string(it->second);
  }
  std::string name(const Value* p, const Phis& ph, int depth=0) {
    int64_t off=0; const Value* v=p;
    for (int guard=0;guard<24;guard++) { APInt o(64,0); v=v->stripAndAccumulateConstantOffsets(DL,o,true); off+=o.getSExtValue(); auto* q=dyn_cast<PHINode>(v); if (q) { auto it=ph.find(q); if (it!=ph.end() && it->second!=q) { v=it->second; continue; } } break; }
    std::string b=base(v,ph,depth); size_t plus=b.rfind('+'); if (plus!=std::string::npos && b.find(')',plus)==std::string::npos) { off+=atoll(b.c_str()+plus+1); b=b.substr(0,plus); }
    return b+"+"+std::to_string(off);
  }
  static std::string rootOf(const std::string& n) { size_t plus=n.rfind('+'); return plus==std::string::npos?n:n.substr(0,plus); }
  static int64_t offOf(const std::string& n) { size_t plus=n.rfind('+'); return plus==std::string::npos?0:atoll(n.c_str()+plus+1); }
  // the callee's name of a location in the caller's terms; empty when the caller cannot name it
  std::string inCaller(const std::string& n, const CallBase* cb, const Phis& ph) {
    std::string out; for (size_t i=0;i<n.size();i++) {
      if (n[i]=='%') return "";
      if (n[i]!='#') { out+=n[i]; continue; }
      size_t j=i+1; unsigned k=0; while (j<n.size() && isdigit(n[j])) k=k*10+(n[j++]-'0'); if (k>=cb->arg_size()) return "";
      std::string a=name(cb->getArgOperand(k),ph); int64_t off=offOf(a); a=rootOf(a); if (j<n.size() && n[j]=='+') { size_t e=j+1; bool neg=n[e]=='-'; if (neg) e++; int64_t x=0; while (e<n.size()&&isdigit(n[e])) x=x*10+(n[e++]-'0'); off+=neg?-x:x; j=e; }
      out+=a+"+"+std::to_string(off); i=j-1; }
    return out; }

  // ---- lock operations --------------------------------------------------------------------------------------------------
  enum Kind { None, Acquire, Release, Wait, TryAcquire };
  static Kind kindOf(const CallBase* cb, char& mode) {
    auto* f=cb->getCalledFunction(); if (!f) return None; StringRef n=f->getName(); mode='w';
    if (n=="pthread_mutex_lock"||n=="pthread_rwlock_wrlock") return Acquire; if (n=="pthread_rwlock_rdlock") { mode='r'; return Acquire; }
    if (n=="pthread_mutex_unlock"||n=="pthread_rwlock_unlock") return Release;
    if (n=="pthread_cond_wait"||n=="pthread_cond_timedwait"||n=="pthread_cond_clockwait") return Wait;
    if (n.startswith("pthread_mutex_try")||n.startswith("pthread_rwlock_try")||n=="pthread_mutex_timedlock") return TryAcquire;
    return None; }

  struct St { std::map<std::string,char> held; std::map<const PHINode*, const Value*> phis; std::map<const Value*,bool> conds; std::map<std::string,int> net;
    bool operator<(const St& o) const { return std::tie(held,phis,conds,net)<std::tie(o.held,o.phis,o.conds,o.net); } };
  struct Summary { bool done=false, uniform=true; std::map<std::string,int> net; std::map<std::string,char> takes; };
  std::map<const Function*, Summary> sums; std::set<const Function*> active;
  std::map<const Instruction*, std::set<std::string>> heldAt; std::map<const Instruction*, bool> seenAt; // must-hold: intersection over states ("w:"/"r:" + name)
  std::map<const Function*, std::set<std::string>> entryHeld; bool reporting=true; std::set<const Function*> notes, rootFns;

  bool relevant(const Function* F) { static std::map<const Function*,bool> memo; auto it=memo.find(F); if (it!=memo.end()) return it->second; bool r=false; auto reach=cg.reach({F}); char m; for (auto* g : reach) for (auto& c : cg.calls[g]) if (kindOf(c.first,m)!=None) r=true; return memo[F]=r; }

  // conditions that decide between locking and not locking (use_futex() and the like) must agree along a path
  static const Value* condKey(const Value* c, bool& flip) { flip=false; for (;;) { if (auto* x=dyn_cast<BinaryOperator>(c)) if (x->getOpcode()==Instruction::Xor) if (auto* k=dyn_cast<ConstantInt>(x->getOperand(1))) if (k->isOne()) { flip=!flip; c=x->getOperand(0); continue; } break; } return c; }

  static const Value* resolve(const Value* v, const St& s) { for (int g=0;g<8;g++) { auto* p=dyn_cast<PHINode>(v); if (!p) break; auto it=s.phis.find(p); if (it==s.phis.end()||it->second==v) break; v=it->second; } return v; }
  // 1 true, 0 false, -1 unknown
  int decide(const Value* c, const St& s) {
    bool flip; c=condKey(c,flip); c=resolve(c,s);
    if (auto* k=dyn_cast<ConstantInt>(c)) return k->isOne()!=flip;
    auto it=s.conds.find(c); if (it!=s.conds.end()) return it->second!=flip;
    if (auto* ic=dyn_cast<ICmpInst>(c)) if (ic->isEquality()) { const Value *a=resolve(ic->getOperand(0),s), *b=resolve(ic->getOperand(1),s); int eq=-1;
      auto nonnull=[](const Value* v){ v=v->stripInBoundsConstantOffsets(); return isa<GlobalVariable>(v)||isa<AllocaInst>(v)||isa<Function>(v)||isa<Argument>(v)||isa<GEPOperator>(v); };
      if (a==b) eq=1; else if (isa<ConstantPointerNull>(b)&&isa<Constant>(a)&&!isa<ConstantPointerNull>(a)) eq=0; else if (isa<ConstantPointerNull>(b)&&a!=ic->getOperand(0)&&nonnull(a)) eq=0; else if (isa<ConstantInt>(a)&&isa<ConstantInt>(b)) eq=0;
      if (eq>=0) return (eq==1)==(ic->getPredicate()==ICmpInst::ICMP_EQ)?!flip:flip; }
    return -1; }

  void report(const Function* F, const std::string& k, const Instruction* I, const std::string& msg) { if (reporting) R.violation(k+":"+shortName(F),Engine::locFull(I),shortName(F)+"() "+msg,""); }

  const Summary& summary(const Function* F) {
    Summary& S=sums[F]; if (S.done||active.count(F)||F->isDeclaration()||!relevant(F)) return S; active.insert(F);
    // Only what decides whether a lock operation runs, and on which lock, is followed along a path: the conditions of
    // branches a lock operation is control dependent on, and the merges its operand comes from.
    std::set<const BasicBlock*> opBlocks; std::set<const PHINode*> wantPhi; std::set<const Value*> wantCond; std::vector<const Value*> slice;
    for (auto& I : instructions(F)) if (auto* cb=dyn_cast<CallBase>(&I)) { char m; Kind k=kindOf(cb,m); if (k!=None) { opBlocks.insert(cb->getParent()); slice.push_back(cb->getArgOperand(k==Wait?1:0)); } else if (auto* t=cb->getCalledFunction()) if (!t->isDeclaration() && relevant(t) && !summary(t).net.empty()) { opBlocks.insert(cb->getParent()); for (auto& a : cb->args()) if (a->getType()->isPointerTy()) slice.push_back(a); } }
    if (!opBlocks.empty()) { PostDominatorTree PDT(const_cast<Function&>(*F)); for (auto& b : *F) if (auto* br=dyn_cast<BranchInst>(b.getTerminator())) if (br->isConditional()) for (auto* x : opBlocks) { bool dep=false; for (auto* sb : successors(&b)) if (PDT.dominates(x,sb)) dep=true; if (dep && !(x!=&b && PDT.dominates(x,&b))) { bool fl; auto* c=condKey(br->getCondition(),fl); wantCond.insert(c); slice.push_back(c); } } }
    { std::set<const Value*> seen; while (!slice.empty()) { auto* v=slice.back(); slice.pop_back(); if (!seen.insert(v).second) continue; if (auto* p=dyn_cast<PHINode>(v)) { wantPhi.insert(p); for (auto& x : p->incoming_values()) slice.push_back(x); } else if (isa<GEPOperator>(v)||isa<SelectInst>(v)||isa<CastInst>(v)) for (auto& o : cast<User>(v)->operands()) slice.push_back(o); else if (auto* ic=dyn_cast<ICmpInst>(v)) { slice.push_back(ic->getOperand(0)); slice.push_back(ic->getOperand(1)); } } }
    std::map<const Value*,int> uses; for (auto& b : *F) if (auto* br=dyn_cast<BranchInst>(b.getTerminator())) if (br->isConditional()) { bool fl; auto* c=condKey(br->getCondition(),fl); if (wantCond.count(c)) uses[c]++; }
    std::map<const BasicBlock*, std::set<St>> at; std::vector<std::pair<const BasicBlock*,St>> wl; St init; wl.push_back({&F->getEntryBlock(),init}); at[&F->getEntryBlock()].insert(init); long steps=0; std::set<std::map<std::string,int>> exits; const Instruction* exitI=nullptr; std::map<const Instruction*,std::set<std::string>> must;
    auto push=[&](const BasicBlock* from, const BasicBlock* to, St s) {
      for (auto& I : *to) { auto* p=dyn_cast<PHINode>(&I); if (!p) break; if (!wantPhi.count(p)) continue; const Value* v=p->getIncomingValueForBlock(from); v=resolve(v,s); bool track=isa<Constant>(v)||p->getType()->isPointerTy(); if (track&&v!=p) s.phis[p]=v; else s.phis.erase(p); }
      if (at[to].size()>400) { if (notes.insert(F).second) R.note(shortName(F)+": too many lock states"); return; } if (at[to].insert(s).second) wl.push_back({to,s}); };
    while (!wl.empty()) { auto [b,s]=wl.back(); wl.pop_back(); if (++steps>60000) { R.note(shortName(F)+": lock analysis budget exceeded"); break; }
      for (auto& I : *b) {
        { std::set<std::string> h; for (auto& k : s.held) h.insert(std::string(1,k.second)+":"+k.first); auto it=must.find(&I); if (it==must.end()) must[&I]=h; else { std::set<std::string> x; for (auto& k : it->second) if (h.count(k)) x.insert(k); it->second=x; } }
        for (auto it=s.conds.begin(); it!=s.conds.end();) if (it->first==&I) it=s.conds.erase(it); else ++it;
        auto* cb=dyn_cast<CallBase>(&I); if (!cb||isa<DbgInfoIntrinsic>(cb)) continue; char mode; Kind k=kindOf(cb,mode);
        if (k==Acquire) { std::string n=name(cb->getArgOperand(0),s.phis); S.takes[n]=mode; if (s.held.count(n)) report(F,"relock",&I,"acquires a lock it already holds"); s.held[n]=mode; s.net[n]++; if (!s.net[n]) s.net.erase(n); R.count("lock acquisitions examined",reporting); }
        else if (k==Release) { std::string n=name(cb->getArgOperand(0),s.phis); if (!s.held.count(n)) { s.net[n]--; if (!s.net[n]) s.net.erase(n); } else { s.held.erase(n); s.net[n]--; if (!s.net[n]) s.net.erase(n); } R.count("lock releases examined",reporting); }
        else if (k==Wait) { std::string n=name(cb->getArgOperand(1),s.phis); R.count("condition waits examined",reporting); auto& eh=entryHeld[F]; if (!s.held.count(n) && !eh.count("w:"+n)) report(F,"wait-unlocked",&I,"waits on a condition variable without holding its mutex"); }
        else if (k==None) for (auto* t : cg.targets[cb]) { if (t->isDeclaration()||!relevant(t)) continue; const Summary& q=summary(t);
            for (auto& tk : q.takes) { std::string n=inCaller(tk.first,cb,s.phis); if (n.empty()) continue; if (!S.takes.count(n)) S.takes[n]=tk.second; if (s.held.count(n) && !q.net.count(tk.first)) report(F,"relock",&I,"calls "+shortName(t)+"(), which acquires a lock that is already held"); }
            if (cb->getCalledFunction()==t) for (auto& nt : q.net) { std::string n=inCaller(nt.first,cb,s.phis); if (n.empty()) continue; s.net[n]+=nt.second; if (!s.net[n]) s.net.erase(n); if (nt.second>0) s.held[n]=q.takes.count(nt.first)?q.takes.at(nt.first):'w'; else s.held.erase(n); } }
      }
      auto* t=b->getTerminator();
      if (isa<ReturnInst>(t)) { exits.insert(s.net); exitI=t; if (exits.size()>1) exitI=t; continue; }
      if (auto* br=dyn_cast<BranchInst>(t)) if (br->isConditional()) { int d=decide(br->getCondition(),s); bool fl; auto* c=condKey(br->getCondition(),fl);
          for (int side=1;side>=0;side--) { if (d>=0&&d!=side) continue; St n=s; if (d<0 && uses[c]>1 && !isa<Constant>(c)) n.conds[c]=(side==1)!=fl; push(b,br->getSuccessor(side?0:1),n); } continue; }
      for (auto* to : successors(b)) push(b,to,s); }
    for (auto& kv : must) { auto& h=heldAt[kv.first]; h=kv.second; }
    if (exits.size()>1) { S.uniform=false; std::string which; for (auto& e : exits) for (auto& kv : e) which=kv.first; report(F,"unbalanced",exitI,"leaves a lock held, or releases one it does not hold, on some of its paths but not on others"); }
    if (exits.size()==1) S.net=*exits.begin();
    S.done=true; active.erase(F); return S; }

  // ---- waits ------------------------------------------------------------------------------------------------------------
  static bool dependsOnLoadIn(const Value* c, const Loop* L, std::set<const Value*>& seen, const std::set<const Function*>& waits, int d=0) {
    if (d>12||!seen.insert(c).second) return false; auto* I=dyn_cast<Instruction>(c); if (!I||!L->contains(I)) return false;
    if (isa<LoadInst>(I)||isa<AtomicRMWInst>(I)||isa<AtomicCmpXchgInst>(I)) return true; if (auto* cb=dyn_cast<CallBase>(I)) { auto* f=cb->getCalledFunction(); return f && !waits.count(f) && !f->isDeclaration(); }
    for (auto& o : I->operands()) if (dependsOnLoadIn(o,L,seen,waits,d+1)) return true; return false; }
  void waits(Function& F) {
    std::vector<const CallBase*> ws; for (auto& I : instructions(F)) if (auto* cb=dyn_cast<CallBase>(&I)) { char m; if (kindOf(cb,m)==Wait) ws.push_back(cb); else if (isFutexWait(cb)) ws.push_back(cb); }
    if (ws.empty()) return; DominatorTree DT(F); LoopInfo LI(DT); std::set<const Function*> none;
    for (auto* w : ws) { auto* wf=w->getCalledFunction(); if (wf->getName().contains("timed")||wf->getName().contains("clockwait")) { R.count("timed waits (only bound a delay)",1); continue; } R.count("waits checked for a recheck loop",1); const Loop* L=LI.getLoopFor(w->getParent()); bool ok=false; for (; L && !ok; L=L->getParentLoop()) { SmallVector<BasicBlock*,8> ex; L->getExitingBlocks(ex); for (auto* e : ex) if (auto* br=dyn_cast<BranchInst>(e->getTerminator())) if (br->isConditional()) { std::set<const Value*> seen; if (dependsOnLoadIn(br->getCondition(),L,seen,none)) ok=true; } }
      // a futex wait compares the value itself, so a single wait is only a hint as long as its caller loops
      if (!ok) report(&F,"wait-once",w,"waits without rechecking, in a loop, the condition it waits for"); } }
  static bool isFutexWait(const CallBase* cb) { auto* f=cb->getCalledFunction(); if (!f||f->getName()!="syscall"||cb->arg_size()<3) return false; auto* n=dyn_cast<ConstantInt>(cb->getArgOperand(0)); auto* o=dyn_cast<ConstantInt>(cb->getArgOperand(2)); return n&&o&&n->getZExtValue()==202&&(o->getZExtValue()&127)==0; }

  // ---- data a lock protects ---------------------------------------------------------------------------------------------
  struct Acc { const Function* F; const Instruction* I; bool write, atomic, locked, shared; };
  static std::string typeAt(const Value* p, const DataLayout& DL) { std::string best; for (int g=0;g<12;g++) { auto* e=dyn_cast<GEPOperator>(p); if (!e) break; std::string n=CallGraphX::structName(e->getSourceElementType()); if (!n.empty()) best=n; p=e->getPointerOperand(); } return best; }
  int64_t sizeOfType(const std::string& n) { static std::map<std::string,int64_t> memo; auto it=memo.find(n); if (it!=memo.end()) return it->second; int64_t z=0; for (auto* st : M.getIdentifiedStructTypes()) if (CallGraphX::structName(st)==n && st->isSized()) z=std::max<int64_t>(z,DL.getTypeAllocSize(st)); return memo[n]=z; }
  bool isFresh(const Value* p) { for (auto* b : basesOf(p)) { if (auto* cb=dyn_cast<CallBase>(b)) { (void)cb; continue; } if (isa<AllocaInst>(b)) continue; return false; } return true; }
  bool setup(const Function* F) { // runs before the object is shared or after the last reference is gone
    static std::map<const Function*,bool> memo; auto it=memo.find(F); if (it!=memo.end()) return it->second; memo[F]=false; std::string n=shortName(F); StringRef raw=F->getName();
    bool r=raw.contains("C2E")||raw.contains("C1E")||raw.contains("D2Ev")||raw.contains("D1Ev")||n.find("_rt_init")!=std::string::npos||n.find("rt_shutdown")!=std::string::npos||n.find("on_shutdown")!=std::string::npos||n.find("destroy")!=std::string::npos||(n.find("_create")!=std::string::npos)||n.find("free_impl")!=std::string::npos||n.find("_init")!=std::string::npos;
    if (!r && !rootFns.count(F) && !cg.pred[F].empty()) { r=true; for (auto* p : cg.pred[F]) if (p==F||!setup(p)) r=false; }
    return memo[F]=r; }

  // a scope guard's "leave the scope" code and flags become plain control flow
  static void threadJumps(Module& M) {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
    FunctionPassManager FPM; if (PB.parsePassPipeline(FPM,"jump-threading,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup>")) return;
    for (auto& F : M) { bool has=false; for (auto& I : instructions(F)) if (auto* cb=dyn_cast<CallBase>(&I)) { char m; if (kindOf(cb,m)!=None||isFutexWait(cb)) has=true; } if (has) FPM.run(F,FAM); } }
  void run() {
    for (auto& F : M) if (!F.isDeclaration()) summary(&F);
    // a net effect is acceptable only for an internal helper called directly
    auto& roots=rootFns; for (auto* f : apiRoots(M)) roots.insert(f); for (auto& kv : cg.taken) for (auto* f : kv.second) roots.insert(f);
    for (auto& kv : sums) { auto* F=kv.first; if (F->isDeclaration()||!kv.second.uniform) continue; if (!kv.second.net.empty() && (roots.count(F)||cg.pred[F].empty()) && !setup(F)) report(F,"unbalanced",&F->getEntryBlock().front(),std::string(kv.second.net.begin()->second>0?"returns with a lock held":"releases a lock it does not hold")); if (!kv.second.takes.empty()) R.count("functions that lock",1); }
    for (auto& F : M) if (!F.isDeclaration()) waits(F);
    // locks certainly held on entry to internal functions
    reporting=false;
    std::map<const Function*, std::set<std::string>> eh; for (int round=0;round<4;round++) { std::map<const Function*, std::set<std::string>> next; std::set<const Function*> seen;
      for (auto& F : M) { if (F.isDeclaration()||setup(&F)) continue; for (auto& c : cg.calls[&F]) { std::set<std::string> h=heldAt[c.first]; for (auto& k : eh[&F]) h.insert(k);
          for (auto* t : c.second) { if (t->isDeclaration()) continue; std::set<std::string> m; if (!roots.count(t)) for (auto& k : h) { std::string n=k.substr(2); if (n[0]=='@') { m.insert(k); } for (unsigned i=0;i<c.first->arg_size()&&i<t->arg_size();i++) { std::string a=name(c.first->getArgOperand(i),{}); if (rootOf(a)==rootOf(n)) m.insert(k.substr(0,2)+"#"+std::to_string(i)+"+"+std::to_string(offOf(n)-offOf(a))); } }
            if (seen.insert(t).second) next[t]=m; else { std::set<std::string> x; for (auto& k : next[t]) if (m.count(k)) x.insert(k); next[t]=x; } } } }
      eh=next; }
    reporting=true;
    std::map<std::string, std::vector<Acc>> acc; std::set<std::string> lockedTypes; struct Ext { std::string t; int64_t from, to; Acc a; }; std::vector<Ext> exts; // a callee that writes through a pointer to a part writes anywhere in that part
    auto record=[&](const Function* F, const Instruction* I, const Value* p, bool w, bool at) {
      std::string t=typeAt(p,DL); if (t.empty()) return; std::string n=name(p,{}); bool ex=false, sh=false; std::set<std::string> h=heldAt[I]; for (auto& k : eh[F]) h.insert(k);
      for (auto& k : h) { std::string ln=k.substr(2); if (rootOf(ln)!=rootOf(n) || ln==n) continue; if (offOf(ln)<0||offOf(ln)>=sizeOfType(t)) continue; (k[0]=='w'?ex:sh)=true; }
      acc[t+"+"+std::to_string(offOf(n))].push_back({F,I,w,at,ex,sh||ex}); };
    for (auto& F : M) { if (F.isDeclaration()||setup(&F)) continue;
      for (auto& I : instructions(F)) {
        if (auto* l=dyn_cast<LoadInst>(&I)) { if (!isFresh(l->getPointerOperand())) record(&F,&I,l->getPointerOperand(),false,l->isAtomic()); }
        else if (auto* s=dyn_cast<StoreInst>(&I)) { if (!isFresh(s->getPointerOperand())) record(&F,&I,s->getPointerOperand(),true,s->isAtomic()); }
        else if (auto* cb=dyn_cast<CallBase>(&I)) { if (isa<DbgInfoIntrinsic>(cb)) continue; if (auto* mi=dyn_cast<MemIntrinsic>(cb)) { if (!isFresh(mi->getRawDest())) record(&F,&I,mi->getRawDest(),true,false); if (auto* mt=dyn_cast<MemTransferInst>(cb)) if (!isFresh(mt->getRawSource())) record(&F,&I,mt->getRawSource(),false,false); continue; }
          auto* f=cb->getCalledFunction(); if (!f||f->isDeclaration()) continue; for (unsigned a=0;a<cb->arg_size();a++) { auto* v=cb->getArgOperand(a); if (!v->getType()->isPointerTy()||!isa<GEPOperator>(v)||isFresh(v)) continue; int e=gs.paramEffect(f,a); if (e&2) { record(&F,&I,v,true,false); auto* rt=cast<GEPOperator>(v)->getResultElementType(); std::string t=typeAt(v,DL), n=name(v,{}); auto& l=acc[t+"+"+std::to_string(offOf(n))]; if (!t.empty() && !l.empty() && rt->isSized() && rt->isStructTy()) exts.push_back({t,offOf(n),offOf(n)+(int64_t)DL.getTypeAllocSize(rt),l.back()}); } else if (e&1) record(&F,&I,v,false,false); } } } }
    for (auto& kv : acc) { std::string t=rootOf(kv.first); int64_t o=offOf(kv.first); for (auto& x : exts) if (x.t==t && o>x.from && o<x.to) kv.second.push_back(x.a); }
    for (auto& kv : acc) { bool written=false, locked=false; for (auto& a : kv.second) { if (a.write&&!a.atomic) written=true; if (a.shared&&!a.atomic) locked=true; } if (getenv("BLSA_ACC")) for (auto& a : kv.second) fprintf(stderr,"ACC %s %s w%d at%d l%d s%d\n",kv.first.c_str(),shortName(a.F).c_str(),a.write,a.atomic,a.locked,a.shared); if (!written||!locked) continue; R.count("fields protected by a lock",1); R.sample("field protected by a lock",kv.first);
      for (auto& a : kv.second) { R.count("accesses to protected fields",1); if (a.atomic) continue; if (a.write?a.locked:a.shared) continue; if (getenv("BLSA_VERBOSE")) fprintf(stderr,"GUARD %s %s %s at %s\n",kv.first.c_str(),a.write?"write":"read",shortName(a.F).c_str(),Engine::locFull(a.I).c_str());
        report(a.F,std::string(a.write?"unlocked-write":"unlocked-read")+":"+kv.first,a.I,std::string(a.write?"writes":"reads")+" the field "+kv.first+" without the lock that protects it"); } }
    if (R.counts["functions that lock"]<20||R.counts["condition waits examined"]<4) R.broken("found only "+std::to_string(R.counts["functions that lock"])+" locking functions");
  }
};
}
