// Whole-program effect rules over the linked IR: forbidden effects, global state and locks, initialisation order.
#pragma once
#include "common.h"
#include "llvm/IR/InlineAsm.h"

namespace sa {

// Entry points whose documented purpose is the effect itself, or that run once around the library's life.
inline bool isDiagnosticApi(StringRef n) { return n=="bl_runtime_message_out"||n=="bl_runtime_message_fmt"||n=="bl_runtime_message_vfmt"||n=="bl_runtime_assertion_failure"; }
inline bool isInitApi(StringRef n) { return n=="bl_runtime_init"||n=="bl_runtime_shutdown"; }

inline const char* forbiddenTermination(StringRef n) {
  static const std::set<std::string> term={"abort","exit","_exit","_Exit","quick_exit","raise","kill","pthread_kill","pthread_exit","__assert_fail","_ZSt9terminatev","__cxa_pure_virtual","pthread_cancel","alarm","execve","execv","execvp","fork","system","popen"};
  static const std::set<std::string> out={"puts","printf","fprintf","vprintf","vfprintf","fputs","fputc","putc","putchar","fwrite","perror","fputs_unlocked","fwrite_unlocked","putchar_unlocked","dprintf","vdprintf","syslog","vsyslog","__printf_chk","__fprintf_chk","__vfprintf_chk","fputws","psignal","error"};
  std::string s=n.str(); if (term.count(s)) return "terminates the process"; if (out.count(s)) return "prints";
  if (n=="llvm.trap"||n=="llvm.debugtrap"||n=="llvm.ubsantrap") return "terminates the process";
  if (n.startswith("_ZNSo")||n.startswith("_ZStls")) return "prints"; return nullptr;
}
inline const char* forbiddenInput(StringRef n) {
  static const std::set<std::string> t={"time","gettimeofday","clock_gettime","clock","times","ftime","timespec_get","getrusage","localtime","gmtime","localtime_r","gmtime_r","mktime","strftime"};
  static const std::set<std::string> r={"rand","srand","rand_r","random","srandom","random_r","drand48","lrand48","mrand48","erand48","getrandom","getentropy","arc4random","arc4random_buf"};
  static const std::set<std::string> e={"getenv","secure_getenv","setlocale","localeconv","nl_langinfo","newlocale","uselocale","getcwd","gethostname","getpid","getppid","gettid","getuid","geteuid","getlogin","uname","sched_getcpu","getcpu","pthread_getname_np"};
  static const std::set<std::string> l={"strtod","strtof","strtold","atof","strcoll","strxfrm","wcstod","tolower","toupper","isalpha","isalnum","isspace","isupper","islower","ispunct","isprint","towlower","towupper","iswalpha","strcasecmp","strncasecmp","mbstowcs","mbtowc","mbrtowc","wcstombs","__ctype_b_loc","__ctype_tolower_loc","__ctype_toupper_loc"};
  std::string s=n.str(); if (t.count(s)) return "reads the clock"; if (r.count(s)) return "reads a random source"; if (e.count(s)) return "reads the environment"; if (l.count(s)) return "depends on the locale";
  if (n=="llvm.readcyclecounter"||n=="llvm.readsteadycounter"||n.startswith("llvm.x86.rdtsc")||n.startswith("llvm.x86.rdpmc")) return "reads the clock";
  if (n.startswith("llvm.x86.rdrand")||n.startswith("llvm.x86.rdseed")) return "reads a random source";
  if (n.startswith("_ZNSt13random_device")||n.startswith("_ZNSt6chrono")) return "reads the clock or a random source"; return nullptr;
}

// A wrapper of a clock query is acceptable when the time it produces is only ever the deadline of a timed wait.
inline bool onlyTimedWait(CallGraphX& cg, const Function* F, int depth=0) {
  if (depth>3||cg.pred[F].empty()) return false;
  for (auto* p : cg.pred[F]) { bool tw=false; for (auto& I : instructions(p)) if (auto* cb=dyn_cast<CallBase>(&I)) if (auto* f=cb->getCalledFunction()) if (f->getName()=="pthread_cond_timedwait"||f->getName()=="pthread_mutex_timedlock"||f->getName()=="sem_timedwait") tw=true;
    if (!tw && !onlyTimedWait(cg,p,depth+1)) return false; }
  return true;
}

inline bool underflowGuard(const CallBase* cb) {
  const BasicBlock* b=cb->getParent(); const BasicBlock* p=b->getSinglePredecessor(); for (int i=0;i<4 && p;i++) { if (auto* br=dyn_cast<BranchInst>(p->getTerminator())) if (br->isConditional()) { std::vector<const Value*> wl{br->getCondition()}; std::set<const Value*> seen; while (!wl.empty()) { auto* v=wl.back(); wl.pop_back(); if (!seen.insert(v).second) continue; if (auto* ic=dyn_cast<ICmpInst>(v)) { auto* k=dyn_cast<ConstantInt>(ic->getOperand(1)); auto* rm=dyn_cast<AtomicRMWInst>(ic->getOperand(0)); if (k && k->isZero() && rm && rm->getOperation()==AtomicRMWInst::Sub) return (ic->getPredicate()==CmpInst::ICMP_EQ)==(br->getSuccessor(0)==b); } if (auto* u=dyn_cast<User>(v)) if (isa<Instruction>(v) && !isa<LoadInst>(v) && !isa<CallBase>(v)) for (auto& o : u->operands()) wl.push_back(o.get()); if (auto* ii=dyn_cast<IntrinsicInst>(v)) if (ii->getIntrinsicID()==Intrinsic::expect) wl.push_back(ii->getArgOperand(0)); } return false; } b=p; p=b->getSinglePredecessor(); }
  return false;
}
inline void effectSinks(Module& M, Reporter& R, bool termination) {
  CallGraphX cg(M); std::vector<const Function*> roots; long napi=0;
  for (auto* f : apiRoots(M)) { napi++; if (isInitApi(f->getName())) continue; if (termination && isDiagnosticApi(f->getName())) continue; roots.push_back(f); }
  if (!termination) for (auto* f : apiRoots(M)) if (isInitApi(f->getName())) {}
  std::set<const Function*> failing; if (termination) for (auto& F : M) if (shortName(&F)=="bl_runtime_failure") failing.insert(&F);
  auto reach=cg.reach(roots,failing); long sites=0, ext=0; std::set<std::string> extn;
  for (auto* F : reach) { if (F->isDeclaration()) continue;
    for (auto& c : cg.calls[F]) for (auto* t : c.second) { sites++; if (failing.count(t)) { // accepted only where an atomic counter has just been seen to underflow, i.e. on corrupted internal state
        R.count("deliberate_failure_sites",1); if (!underflowGuard(c.first)) R.violation("failure:"+shortName(F), Engine::locFull(c.first), shortName(F)+" aborts the process (bl_runtime_failure) on a condition other than an underflowed reference count", cg.pathTo(roots,F)); continue; }
      if (!t->isDeclaration()) continue; ext++; extn.insert(t->getName().str());
      const char* why = termination?forbiddenTermination(t->getName()):forbiddenInput(t->getName());
      if (termination && t->getName()=="write" && c.first->arg_size()>=1) if (auto* k=dyn_cast<ConstantInt>(c.first->getArgOperand(0))) if (k->getZExtValue()==1||k->getZExtValue()==2) why="prints";
      if (!termination && t->getName()=="syscall" && c.first->arg_size()>=1) if (auto* k=dyn_cast<ConstantInt>(c.first->getArgOperand(0))) { uint64_t n=k->getZExtValue(); if (n==318||n==228||n==96||n==201||n==39||n==186||n==309) why="reads the clock, a random source or the environment"; }
      if (!why) continue;
      if (!termination && std::string(why)=="reads the clock" && onlyTimedWait(cg,F)) { R.count("clock_reads_used_as_wait_deadline",1); continue; }
      R.violation(std::string(termination?"sink:":"input:")+shortName(F)+":"+t->getName().str(), Engine::locFull(c.first), shortName(F)+" calls "+t->getName().str()+" ("+why+")", cg.pathTo(roots,F));
    }
    if (termination) for (auto& I : instructions(F)) if (auto* cb=dyn_cast<CallBase>(&I)) if (cb->isInlineAsm()) { auto* ia=cast<InlineAsm>(cb->getCalledOperand()); auto s=ia->getAsmString(); if (s.find("int3")!=std::string::npos||s.find("ud2")!=std::string::npos||s.find("hlt")!=std::string::npos) R.violation("sink:"+shortName(F)+":asm","" ,shortName(F)+" contains a trapping instruction"); }
    if (!termination) for (auto& I : instructions(F)) if (auto* cb=dyn_cast<CallBase>(&I)) if (cb->isInlineAsm()) { auto* ia=cast<InlineAsm>(cb->getCalledOperand()); auto s=ia->getAsmString(); if (s.find("rdtsc")!=std::string::npos||s.find("rdrand")!=std::string::npos||s.find("rdseed")!=std::string::npos) R.violation("input:"+shortName(F)+":asm",Engine::locFull(cb),shortName(F)+" reads the time stamp counter or a hardware random source",cg.pathTo(roots,F)); }
    // floating-point output through the C library depends on the locale's decimal point
    if (!termination) for (auto& I : instructions(F)) if (auto* cb=dyn_cast<CallBase>(&I)) for (auto& a : cb->args()) if (auto* gv=dyn_cast<GlobalVariable>(a->stripPointerCasts())) if (gv->isConstant() && gv->hasInitializer()) if (auto* cd=dyn_cast<ConstantDataArray>(gv->getInitializer())) if (cd->isCString() && cb->getFunctionType()->isVarArg()) {
        StringRef s=cd->getAsCString(); for (size_t i=0;i+1<s.size();i++) if (s[i]=='%') { size_t j=i+1; while (j<s.size() && (isdigit(s[j])||strchr("+-# .*lhjzt",s[j]))) j++; if (j<s.size() && strchr("fFgGeEaA",s[j])) R.violation("input:"+shortName(F)+":floatfmt",Engine::locFull(cb),shortName(F)+" formats a floating point number with the C library, whose decimal point depends on the locale",cg.pathTo(roots,F)); i=j; } }
  }
  R.count("api_entry_points",roots.size()); R.count("functions_reachable",reach.size()); R.count("call_edges_examined",sites); R.count("external_functions_called",extn.size());
  for (auto& e : extn) R.sample("external function reached",e);
  if (napi<500||reach.size()<1500) R.broken("only "+std::to_string(napi)+" API entry points / "+std::to_string(reach.size())+" reachable functions found");
}

// ---- global state -----------------------------------------------------------------------------------------------
struct Access { const Function* F; const Instruction* I; const GlobalVariable* G; int64_t off; bool write, atomic; std::set<std::string> locks; std::string via; };

struct GlobalState {
  Module& M; CallGraphX cg; Reporter& R; std::set<const Function*> initOnly, live;
  std::map<const Function*, std::map<unsigned,int>> modCache; // 1 read, 2 plain write
  GlobalState(Module& m, Reporter& r) : M(m), cg(m), R(r) {}

  // effect of a call through a pointer parameter: bit0 plain read, bit1 plain write, bit2 atomic write
  std::map<std::pair<const Function*,unsigned>,int> pm;
  int paramEffect(const Function* F, unsigned i) {
    if (F->isDeclaration()) { StringRef n=F->getName(); if (n.startswith("pthread_")) return 0; if (n=="memcmp"||n=="strlen") return 1; if (n=="memcpy"||n=="memmove"||n=="memset") return i==0?2:1; if (n=="free") return 2; if (F->isIntrinsic()) { if (F->onlyReadsMemory()||F->doesNotAccessMemory()) return 1; return 0; } return 1; }
    if (i>=F->arg_size()) return 1;
    auto k=std::make_pair(F,i); auto it=pm.find(k); if (it!=pm.end()) return it->second; pm[k]=0; int e=0;
    for (int pass=0;pass<2;pass++) { int n=valueEffect(F->getArg(i)); e|=n; pm[k]=e; }
    return e;
  }
  int valueEffect(const Value* p) { std::set<const Value*> seen; std::vector<const Value*> wl{p}; int e=0;
    while (!wl.empty()) { auto* v=wl.back(); wl.pop_back(); if (!seen.insert(v).second) continue;
      for (auto* u : v->users()) {
        if (auto* ui=dyn_cast<Instruction>(u)) if (ownLock(ui,p)) { e|=8; if (!ui->getType()->isPointerTy()||isa<LoadInst>(ui)||isa<CallBase>(ui)) continue; }
        if (auto* l=dyn_cast<LoadInst>(u)) { if (!l->isAtomic()) e|=1; }
        else if (auto* st=dyn_cast<StoreInst>(u)) { if (st->getPointerOperand()==v) e|=st->isAtomic()?4:2; else { // spilled to a local slot: follow loads of that slot
            for (auto* b : basesOf(st->getPointerOperand())) if (isa<AllocaInst>(b)) for (auto* uu : b->users()) { if (isa<LoadInst>(uu)) wl.push_back(uu); else if (isa<GEPOperator>(uu)) for (auto* u3 : uu->users()) if (isa<LoadInst>(u3)) wl.push_back(u3); } } }
        else if (isa<AtomicRMWInst>(u)||isa<AtomicCmpXchgInst>(u)) e|=4;
        else if (isa<GEPOperator>(u)||isa<PHINode>(u)||isa<SelectInst>(u)||isa<CastInst>(u)||(isa<ConstantExpr>(u)&&u->getType()->isPointerTy())) wl.push_back(u);
        else if (auto* cb=dyn_cast<CallBase>(u)) { if (isa<DbgInfoIntrinsic>(cb)) continue; e|=callEffect(cb,v); } } }
    return e; }
  int callEffect(const CallBase* cb, const Value* v) {
    int e=0; auto& ts=cg.targets[cb];
    if (auto* mi=dyn_cast<MemIntrinsic>(cb)) { if (mi->getRawDest()==v) e|=2; if (auto* mt=dyn_cast<MemTransferInst>(mi)) if (mt->getRawSource()==v) e|=1; return e; }
    for (auto* f : ts) for (unsigned a=0;a<cb->arg_size();a++) if (cb->getArgOperand(a)==v) e|=paramEffect(f,a);
    return e; }

  // lock identity: the global a lock call is applied to (plus offset)
  std::string lockName(const Value* p) { for (auto* b : basesOf(p)) { if (auto* g=dyn_cast<GlobalVariable>(b)) return g->getName().str(); if (auto* a=dyn_cast<Argument>(b)) return "arg#"+std::to_string(a->getArgNo()); } return ""; }
  // accesses made while holding a lock that is part of the same object are internally synchronised
  bool ownLock(const Instruction* I, const Value* root) { auto* a=dyn_cast<Argument>(root); if (!a) return false; auto& h=held[I]; return h.count("w:arg#"+std::to_string(a->getArgNo())) || h.count("r:arg#"+std::to_string(a->getArgNo())); }
  // must-hold locksets per instruction ("w:" exclusive, "r:" shared)
  std::map<const Instruction*, std::set<std::string>> held; std::map<const Function*, std::set<std::string>> entry; std::set<const Function*> entryKnown;
  using LS=std::set<std::string>;
  LS transfer(LS s, const Instruction& I) { if (auto* cb=dyn_cast<CallBase>(&I)) if (auto* f=cb->getCalledFunction()) { StringRef n=f->getName(); if (n=="pthread_mutex_lock"||n=="pthread_rwlock_wrlock"||n=="pthread_rwlock_rdlock") { auto k=lockName(cb->getArgOperand(0)); if (!k.empty()) s.insert((n=="pthread_rwlock_rdlock"?"r:":"w:")+k); } else if (n=="pthread_mutex_unlock"||n=="pthread_rwlock_unlock") { auto k=lockName(cb->getArgOperand(0)); s.erase("r:"+k); s.erase("w:"+k); } } return s; }
  void lockset(const Function* F, const LS& in) {
    std::map<const BasicBlock*, LS> at; std::set<const BasicBlock*> known; std::vector<const BasicBlock*> wl{&F->getEntryBlock()}; at[&F->getEntryBlock()]=in; known.insert(&F->getEntryBlock());
    while (!wl.empty()) { auto* b=wl.back(); wl.pop_back(); LS s=at[b]; for (auto& I : *b) { held[&I]=s; s=transfer(s,I); }
      for (auto* t : successors(b)) { if (known.insert(t).second) { at[t]=s; wl.push_back(t); } else { LS x; for (auto& k : at[t]) if (s.count(k)) x.insert(k); if (x!=at[t]) { at[t]=x; wl.push_back(t); } } } }
  }
  void computeLocks(const std::vector<const Function*>& roots) {
    std::deque<const Function*> wl; std::map<const Function*, LS> in; for (auto* r : roots) { in[r]={}; wl.push_back(r); }
    int guard=0; while (!wl.empty() && guard++<200000) { auto* F=wl.front(); wl.pop_front(); if (F->isDeclaration()) continue; lockset(F,in[F]);
      for (auto& c : cg.calls[F]) { LS h; for (auto& k : held[c.first]) if (k.find(":arg#")==std::string::npos) h.insert(k); for (auto* t : c.second) { if (t->isDeclaration()) continue; auto it=in.find(t); if (it==in.end()) { in[t]=h; wl.push_back(t); } else { LS x; for (auto& k : it->second) if (h.count(k)) x.insert(k); if (x!=it->second) { it->second=x; wl.push_back(t); } } } } }
    for (auto& F : M) if (!F.isDeclaration() && !in.count(&F)) lockset(&F,{});
  }
  int64_t constOff(const Value* p) { APInt o(64,0); const Value* b=p->stripAndAccumulateConstantOffsets(M.getDataLayout(),o,true); if (isa<GlobalVariable>(b)) return o.getSExtValue(); return -1; }

  void run() {
    // functions that only run while the library is being initialised or shut down
    std::vector<const Function*> apis, inits; for (auto* f : apiRoots(M)) (isInitApi(f->getName())?inits:apis).push_back(f);
    for (auto& F : M) if (F.getName().startswith("_GLOBAL__sub_I")||F.getName().startswith("__cxx_global_var_init")) inits.push_back(&F);
    // worker thread bodies are entered from pthread_create callbacks: already edges
    std::set<const Function*> stop(inits.begin(),inits.end());
    live=cg.reach(apis,stop); 
    // shutdown handlers are registered by address and only called by shutdown; type-based resolution may reach them from cleanup
    for (auto& F : M) { if (F.isDeclaration()) continue; }
    std::set<const Function*> shut; for (auto& F : M) for (auto& I : instructions(F)) { (void)I; break; }
    computeLocks(apis);
    std::map<const GlobalVariable*, std::vector<Access>> acc; long nacc=0;
    auto rec=[&](const Function* F, const Instruction* I, const Value* p, bool w, bool at, const std::string& via="") { for (auto* b : basesOf(p)) if (auto* g=dyn_cast<GlobalVariable>(b)) { if (g->isConstant()||g->isThreadLocal()) continue; nacc++; acc[g].push_back({F,I,g,constOff(p),w,at,held[I],via}); } };
    for (auto* F : live) { if (F->isDeclaration()) continue;
      for (auto& I : instructions(F)) {
        if (auto* l=dyn_cast<LoadInst>(&I)) rec(F,&I,l->getPointerOperand(),false,l->isAtomic());
        else if (auto* s=dyn_cast<StoreInst>(&I)) rec(F,&I,s->getPointerOperand(),true,s->isAtomic());
        else if (auto* r=dyn_cast<AtomicRMWInst>(&I)) rec(F,&I,r->getPointerOperand(),true,true);
        else if (auto* c=dyn_cast<AtomicCmpXchgInst>(&I)) rec(F,&I,c->getPointerOperand(),true,true);
        else if (auto* cb=dyn_cast<CallBase>(&I)) { if (isa<DbgInfoIntrinsic>(cb)) continue; if (cb->getIntrinsicID()==Intrinsic::threadlocal_address) continue;
          for (auto& a : cb->args()) if (a->getType()->isPointerTy()) { bool gl=false; for (auto* b : basesOf(a)) if (auto* g=dyn_cast<GlobalVariable>(b)) if (!g->isConstant()&&!g->isThreadLocal()) gl=true; if (!gl) continue; int e=callEffect(cb,a); if (e&1) rec(F,&I,a,false,false,cb->getCalledFunction()?shortName(cb->getCalledFunction()):"indirect call"); if (e&2) rec(F,&I,a,true,false,cb->getCalledFunction()?shortName(cb->getCalledFunction()):"indirect call"); if (e&4) rec(F,&I,a,true,true,cb->getCalledFunction()?shortName(cb->getCalledFunction()):"indirect call"); } }
      } }
    long ng=0, nmut=0; for (auto& g : M.globals()) if (!g.isConstant() && !g.isDeclaration()) nmut++;
    for (auto& kv : acc) { ng++; auto* G=kv.first; auto& v=kv.second; std::string gname=demangle1(G->getName().str());
      std::set<int64_t> wOff; bool anyPlainW=false, anyW=false; for (auto& a : v) if (a.write) { anyW=true; if (!a.atomic) anyPlainW=true; wOff.insert(a.off); }
      if (!anyW) { R.count("globals_read_only_after_init",1); continue; }
      // candidate locks: exclusive at all plain writes to the same cell
      for (auto& a : v) { if (!a.write || a.atomic) continue;
        LS c; for (auto& k : a.locks) if (k.rfind("w:",0)==0) c.insert(k.substr(2));
        // intersect over all other plain accesses that may overlap
        const Access* bad=nullptr; for (auto& b : v) { if (b.off>=0&&a.off>=0&&b.off!=a.off) continue; if (b.atomic && !a.write) continue; LS n; for (auto& k : c) if (b.locks.count("w:"+k)||(!b.write&&b.locks.count("r:"+k))) n.insert(k); if (n.empty()) { bad=&b; break; } c=n; }
        if (bad) { R.violation("global:"+gname+":"+shortName(a.F), Engine::locFull(a.I), "writes the process-wide variable "+gname+" outside initialisation"+(a.via.empty()?"":" (through "+a.via+")")+"; no lock is held exclusively there and at every other access (e.g. "+Engine::locStr(bad->I)+")", ""); break; } }
      for (auto& a : v) if (a.write && a.atomic) for (auto& b : v) if (!b.atomic && b.off==a.off && a.off>=0 && b.via.empty() && a.via.empty()) { R.violation("global-mixed:"+gname+":"+shortName(b.F), Engine::locFull(b.I), "accesses "+gname+" without an atomic operation although "+shortName(a.F)+" updates it atomically"); }
      R.count("globals_written_after_init",1); R.sample("global written after init",gname+" ("+std::to_string(v.size())+" accesses)");
    }
    for (auto& kv : acc) (void)kv;
    R.count("mutable_globals",nmut); R.count("mutable_globals_accessed_from_api",ng); R.count("access_sites",nacc); R.count("functions_reachable",live.size());
    if (nmut<40||nacc<100) R.broken("global state enumeration found only "+std::to_string(nmut)+" mutable globals, "+std::to_string(nacc)+" accesses");
  }
};

} // namespace sa
