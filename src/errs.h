// Failures are not lost: results dropped or turned into success (C22), allocations (C03), system calls (C20).
#pragma once
#include "graph.h"

namespace sa {

struct ErrRules {
  enum Kind { None, Result, Alloc, SysNeg, SysNull, SysNonZero };
  Module& M; Reporter& R; CallGraphX cg; std::set<const Function*> resultFn, fallible, allocFn; std::map<const Function*,std::set<unsigned>> derefParam;
  ErrRules(Module& m, Reporter& r) : M(m), R(r), cg(m) {}
  static bool returnsResult(const Function* F) { auto* sp=F->getSubprogram(); if (!sp||!sp->getType()) return false; auto ta=sp->getType()->getTypeArray(); if (!ta.size()||!ta[0]) return false; const DIType* t=ta[0]; for (int i=0;i<6&&t;i++) { if (t->getName()=="BLResult") return true; auto* d=dyn_cast<DIDerivedType>(t); if (!d) break; t=d->getBaseType(); } return false; }
  static bool any(const std::string& s, std::initializer_list<const char*> l) { for (auto* x : l) if (s==x) return true; return false; }
  static bool has(const std::string& s, std::initializer_list<const char*> l) { for (auto* x : l) if (s.find(x)!=std::string::npos) return true; return false; }
  static Kind external(const std::string& n) {
    if (any(n,{"malloc","calloc","realloc","aligned_alloc","strdup"})) return Alloc;
    if (any(n,{"open","open64","openat","creat","read","write","pread","pread64","pwrite","pwrite64","lseek","lseek64","fstat","fstat64","stat","stat64","lstat","ftruncate","ftruncate64","truncate","fsync","mmap","mmap64","dup","pipe","fcntl","mkdir","unlink","rename","posix_memalign"})) return n=="posix_memalign" ? SysNonZero : SysNeg;
    if (any(n,{"fopen","fopen64","opendir","dlopen"})) return SysNull;
    if (any(n,{"pthread_create","pthread_attr_init","pthread_attr_setstacksize","pthread_attr_setdetachstate"})) return SysNonZero;
    return None; }
  // releasing, resetting and shrinking: what was asked for has happened whatever the result says
  static bool cleanup(const std::string& n) { return has(n,{"destroy","reset","release","unmap","close","free_impl","dtor","shrink","scope_end","_wait","wait_for_"}); }
  static bool cannotFail(const std::string& n) { return n=="bl_make_error"||n=="bl_convert_multi_step"||has(n,{"accumulate_error"}); }

  // ---- which calls can fail
  bool mayFail(const Value* v, std::set<const Value*>& seen) {
    if (!seen.insert(v).second) return false; if (auto* c=dyn_cast<ConstantInt>(v)) return !c->isZero(); if (isa<UndefValue>(v)) return false;
    if (auto* p=dyn_cast<PHINode>(v)) { for (unsigned i=0;i<p->getNumIncomingValues();i++) { if (zeroOn(p->getIncomingValue(i),p->getIncomingBlock(i),p->getParent())) continue; if (mayFail(p->getIncomingValue(i),seen)) return true; } return false; }
    if (auto* s=dyn_cast<SelectInst>(v)) return mayFail(s->getTrueValue(),seen)||mayFail(s->getFalseValue(),seen);
    if (auto* cb=dyn_cast<CallBase>(v)) { auto it=cg.targets.find(cb); if (it==cg.targets.end()||it->second.empty()) return true; for (auto* t : it->second) if (t->isDeclaration()||fallible.count(t)) return true; return false; }
    return true; }
  static const Value* peel(const Value* v, bool& neg) { for (int i=0;i<12;i++) { if (auto* z=dyn_cast<CastInst>(v)) { if (isa<ZExtInst>(z)||isa<SExtInst>(z)||isa<TruncInst>(z)) { v=z->getOperand(0); continue; } }
      if (auto* cb=dyn_cast<CallBase>(v)) if (auto* f=cb->getCalledFunction()) if (f->getIntrinsicID()==Intrinsic::expect) { v=cb->getArgOperand(0); continue; }
      if (auto* ic=dyn_cast<ICmpInst>(v)) if (ic->isEquality()) if (auto* k=dyn_cast<ConstantInt>(ic->getOperand(1))) if (k->isZero() && !(isa<CallBase>(ic->getOperand(0))&&!ic->getOperand(0)->getType()->isIntegerTy(64)) ) { const Value* in=ic->getOperand(0); bool boolish=false; if (auto* z=dyn_cast<ZExtInst>(in)) boolish=z->getOperand(0)->getType()->isIntegerTy(1); if (auto* cb=dyn_cast<CallBase>(in)) if (auto* f=cb->getCalledFunction()) boolish=f->getIntrinsicID()==Intrinsic::expect; if (!boolish) return v; if (ic->getPredicate()==ICmpInst::ICMP_EQ) neg=!neg; v=in; continue; }
      return v; } return v; }
  static bool zeroOn(const Value* v, const BasicBlock* from, const BasicBlock* to) { auto* br=dyn_cast<BranchInst>(from->getTerminator()); if (!br||!br->isConditional()) return false; bool neg=false; auto* ic=dyn_cast<ICmpInst>(peel(br->getCondition(),neg)); if (!ic||!ic->isEquality()||ic->getOperand(0)!=v) return false; auto* k=dyn_cast<ConstantInt>(ic->getOperand(1)); if (!k||!k->isZero()) return false; bool eq=(ic->getPredicate()==ICmpInst::ICMP_EQ)!=neg; return br->getSuccessor(eq?0:1)==to && br->getSuccessor(0)!=br->getSuccessor(1); }
  void solve() {
    for (auto& F : M) if (!F.isDeclaration() && F.getReturnType()->isIntegerTy(32) && returnsResult(&F)) resultFn.insert(&F);
    for (bool ch=true; ch;) { ch=false; for (auto* F : resultFn) { if (fallible.count(F)) continue; for (auto& B : *F) if (auto* r=dyn_cast<ReturnInst>(B.getTerminator())) { std::set<const Value*> seen; if (r->getReturnValue()&&mayFail(r->getReturnValue(),seen)) { if (fallible.insert(F).second) ch=true; } } } }
    for (auto& F : M) for (auto& A : F.args()) if (A.getType()->isPointerTy()) { const BasicBlock* b=&F.getEntryBlock(); if (F.isDeclaration()) break; std::set<const BasicBlock*> s; while (b && s.insert(b).second) { for (auto& I : *b) if (auto* p=accessed(&I)) if (baseOf(p)==&A) derefParam[&F].insert(A.getArgNo()); b=b->getSingleSuccessor(); } }
    // functions that hand an allocation to their caller
    for (bool ch=true; ch;) { ch=false; for (auto& F : M) { if (F.isDeclaration()||!F.getReturnType()->isPointerTy()||allocFn.count(&F)) continue; for (auto& I : instructions(F)) if (auto* cb=dyn_cast<CallBase>(&I)) { auto [k,fail,n]=kindOf(cb); if (k!=Alloc) continue; bool nul=false; walk(F,cb,Alloc,[&](const char* what, const Instruction*){ if (std::string(what)=="null") nul=true; }); if (nul) { allocFn.insert(&F); ch=true; break; } } } } }
  static const Value* baseOf(const Value* p) { for (int i=0;i<20;i++) { if (auto* g=dyn_cast<GEPOperator>(p)) p=g->getPointerOperand(); else break; } return p; }
  static const Value* accessed(const Instruction* I) { if (auto* l=dyn_cast<LoadInst>(I)) return l->getPointerOperand(); if (auto* s=dyn_cast<StoreInst>(I)) return s->getPointerOperand(); if (auto* a=dyn_cast<AtomicRMWInst>(I)) return a->getPointerOperand(); return nullptr; }
  std::tuple<Kind,bool,std::string> kindOf(const CallBase* cb) {
    if (isa<DbgInfoIntrinsic>(cb)) return {None,false,""}; auto it=cg.targets.find(cb); if (it==cg.targets.end()) return {None,false,""};
    for (auto* t : it->second) { if (t->isDeclaration()) { if (cb->getCalledFunction()!=t) continue; Kind k=external(t->getName().str()); if (k!=None) return {k,true,t->getName().str()}; } }
    for (auto* t : it->second) if (allocFn.count(t)) return {Alloc,true,shortName(t)};
    bool res=false; std::string callee; for (auto* t : it->second) { if (!resultFn.count(t)) continue; res=true; if (fallible.count(t)&&(callee.empty()||!cleanup(callee))) callee=shortName(t); if (!cb->getCalledFunction() && cleanup(shortName(t))) return {Result,true,shortName(t)}; }
    if (res) return {Result,!callee.empty(),callee}; return {None,false,""}; }

  // ---- following the failure
  struct Ev { enum T { Unknown, Fail, NonZero, Const, Live } t=Unknown; APInt c=APInt(1,0); };
  struct Env { std::map<const Value*,const Value*> m; std::map<const Value*,Ev> ev; std::map<std::pair<const Value*,int64_t>,const Value*> mem; };
  const Value* res(const Env& e, const Value* v) { auto it=e.m.find(v); return it!=e.m.end() ? it->second : v; }
  Ev eval(const Env& e, const Value* v, const Value* src, Kind k, int d=0) {
    { auto q=e.ev.find(v); if (q!=e.ev.end()) return q->second; } v=res(e,v); { auto q=e.ev.find(v); if (q!=e.ev.end()) return q->second; } if (d>40) return Ev(); auto konst=[&](const APInt& c){ Ev x; x.t=Ev::Const; x.c=c; return x; }; auto B=[&](bool b){ return konst(APInt(1,b)); };
    if (auto* c=dyn_cast<ConstantInt>(v)) return konst(c->getValue()); if (isa<ConstantPointerNull>(v)) return konst(APInt(64,0));
    if (objTok && v==objTok) { Ev x; x.t=Ev::Live; return x; } if (objTok && v==src) return konst(APInt(32,0));
    if (v==src && live) { Ev x; x.t=Ev::Live; return x; }
    if (v==src) { unsigned w=v->getType()->isPointerTy()?64:v->getType()->getIntegerBitWidth(); if (k==Alloc||k==SysNull) return konst(APInt(w,0)); if (k==SysNeg) return konst(APInt::getAllOnes(w)); Ev x; x.t=Ev::Fail; return x; }
    if (auto* c=dyn_cast<Operator>(v)) if (Instruction::isCast(c->getOpcode())) { Ev x=eval(e,c->getOperand(0),src,k,d+1); if (x.t==Ev::Live) return x; if ((x.t==Ev::Fail||x.t==Ev::NonZero) && (c->getOpcode()==Instruction::ZExt||c->getOpcode()==Instruction::SExt)) return x; if (x.t!=Ev::Const) return {}; unsigned w=c->getType()->isPointerTy()?64:(c->getType()->isIntegerTy()?c->getType()->getIntegerBitWidth():0); if (!w) return {}; if (c->getOpcode()==Instruction::SExt) return konst(x.c.sextOrTrunc(w)); return konst(x.c.zextOrTrunc(w)); }
    if (auto* cb=dyn_cast<CallBase>(v)) { if (auto* f=cb->getCalledFunction()) { if (f->getIntrinsicID()==Intrinsic::expect) return eval(e,cb->getArgOperand(0),src,k,d+1); if (shortName(f)=="bl_make_error") return eval(e,cb->getArgOperand(0),src,k,d+1); } return {}; }
    if (auto* s=dyn_cast<SelectInst>(v)) { Ev c=eval(e,s->getCondition(),src,k,d+1); if (c.t==Ev::Const) return eval(e,c.c.getBoolValue()?s->getTrueValue():s->getFalseValue(),src,k,d+1); Ev x=eval(e,s->getTrueValue(),src,k,d+1), y=eval(e,s->getFalseValue(),src,k,d+1); if (x.t==Ev::Fail&&y.t==Ev::Fail) return x; if (x.t==Ev::Const&&y.t==Ev::Const&&x.c==y.c) return x; return {}; }
    if (auto* f=dyn_cast<FreezeInst>(v)) return eval(e,f->getOperand(0),src,k,d+1);
    // truncation refused because the file is smaller already is the one failure that is not an error
    if (auto* ic=dyn_cast<ICmpInst>(v)) if (k>=SysNeg && ic->isEquality()) if (auto* c=dyn_cast<ConstantInt>(ic->getOperand(1))) if (c->equalsInt(27) && errnoValue(e,ic->getOperand(0)) && has(calleeName(src),{"ftruncate"})) return B(ic->getPredicate()==ICmpInst::ICMP_NE);
    if (auto* ic=dyn_cast<ICmpInst>(v)) { Ev a=eval(e,ic->getOperand(0),src,k,d+1), b=eval(e,ic->getOperand(1),src,k,d+1); if (a.t==Ev::Const&&b.t==Ev::Const&&a.c.getBitWidth()==b.c.getBitWidth()) return B(ICmpInst::compare(a.c,b.c,ic->getPredicate())); if (k==Alloc && ic->getOperand(0)->getType()->isPointerTy() && (a.t==Ev::Live)!=(b.t==Ev::Live) && a.t!=Ev::Const && b.t!=Ev::Const) { if (ic->getPredicate()==ICmpInst::ICMP_EQ) return B(false); if (ic->getPredicate()==ICmpInst::ICMP_NE) return B(true); } if (a.t==Ev::Live&&b.t==Ev::Const) { APInt bad(b.c.getBitWidth(),0); if (k!=Alloc&&k!=SysNull) bad=APInt::getAllOnes(b.c.getBitWidth()); auto pr=ic->getPredicate(); if (b.c==bad) { if (pr==ICmpInst::ICMP_EQ) return B(false); if (pr==ICmpInst::ICMP_NE) return B(true); } if (k==SysNeg) { if (pr==ICmpInst::ICMP_SLT&&b.c.isZero()) return B(false); if (pr==ICmpInst::ICMP_SGT&&b.c.isAllOnes()) return B(true); if (pr==ICmpInst::ICMP_SGE&&b.c.isZero()) return B(true); } return {}; } if ((a.t==Ev::Fail||a.t==Ev::NonZero)&&b.t==Ev::Const&&b.c.isZero()) { if (ic->getPredicate()==ICmpInst::ICMP_EQ) return B(false); if (ic->getPredicate()==ICmpInst::ICMP_NE||ic->getPredicate()==ICmpInst::ICMP_UGT) return B(true); } return {}; }
    if (auto* bo=dyn_cast<BinaryOperator>(v)) { Ev a=eval(e,bo->getOperand(0),src,k,d+1), b=eval(e,bo->getOperand(1),src,k,d+1); auto o=bo->getOpcode(); if (a.t==Ev::Const&&b.t==Ev::Const&&a.c.getBitWidth()==b.c.getBitWidth()) { switch (o) { case Instruction::Xor: return konst(a.c^b.c); case Instruction::And: return konst(a.c&b.c); case Instruction::Or: return konst(a.c|b.c); case Instruction::Add: return konst(a.c+b.c); case Instruction::Sub: return konst(a.c-b.c); default: return {}; } }
      for (auto* q : {&a,&b}) if (q->t==Ev::Live) return *q; for (auto* q : {&a,&b}) if (q->t==Ev::Const) { if (o==Instruction::And && q->c.isZero()) return *q; if (o==Instruction::Or && q->c.isAllOnes()) return *q; if (o==Instruction::Or && !q->c.isZero()) { Ev x; x.t=Ev::NonZero; return x; } } if (o==Instruction::Or) for (auto* q : {&a,&b}) if (q->t==Ev::Fail||q->t==Ev::NonZero) return *q; return {}; }
    if (auto* g=dyn_cast<GEPOperator>(v)) { if (live) { Ev x=eval(e,g->getPointerOperand(),src,k,d+1); return x.t==Ev::Live ? x : Ev(); } if (k==Alloc && baseOfEnv(e,g)==src) return konst(APInt(64,0)); return {}; }
    return {}; }
  static std::string calleeName(const Value* v) { auto* cb=dyn_cast<CallBase>(v); auto* f=cb?cb->getCalledFunction():nullptr; return f?f->getName().str():""; }
  bool errnoValue(const Env& e, const Value* v) { v=res(e,v); auto* l=dyn_cast<LoadInst>(v); return l && calleeName(l->getPointerOperand())=="__errno_location"; }
  // on this path, is the value computed from the failing result? (a comparison with it does not count)
  bool derivedNow(const Env& e, const Value* v, const Value* src, int d=0) { v=res(e,v); if (v==src) return true; if (d>24) return false; if (auto* c=dyn_cast<CastInst>(v)) return derivedNow(e,c->getOperand(0),src,d+1); if (auto* b=dyn_cast<BinaryOperator>(v)) return derivedNow(e,b->getOperand(0),src,d+1)||derivedNow(e,b->getOperand(1),src,d+1); return false; }
  const Value* baseOfEnv(const Env& e, const Value* p) { for (int i=0;i<24;i++) { p=res(e,p); if (auto* g=dyn_cast<GEPOperator>(p)) p=g->getPointerOperand(); else break; } return p; }

  // an address computed (aligned, cast) from the missing block
  bool isNullFrom(const Env& e, const Value* p, const Value* src, Kind k) { if (isa<Constant>(p)||isa<Argument>(p)||isa<AllocaInst>(p)) return false; auto* op=dyn_cast<Operator>(p); if (!op||op->getOpcode()!=Instruction::IntToPtr) return false; Ev x=eval(e,p,src,k); return x.t==Ev::Const && x.c.ult(4096); }

  const Value* objIn=nullptr; const Value* objTok=nullptr; // a handle the function owns, and the data it refers to
  bool live=false; std::map<std::pair<const Value*,bool>,bool> consumedMemo;
  // does the function store, free, return or hand on the value of this argument?
  bool consumed(const Argument* a) { std::pair<const Value*,bool> key{a,objTok!=nullptr}; auto it=consumedMemo.find(key); if (it!=consumedMemo.end()) return it->second; std::set<const Value*> seen; bool r=consumed1(a,seen); return consumedMemo[key]=r; }
  // does the function pass the handle on to something that takes it over?
  bool handsOver(const Function* f, const CallBase* cb, const Env& e) { for (unsigned i=0;i<cb->arg_size()&&i<f->arg_size();i++) if (cb->getArgOperand(i)->getType()->isPointerTy() && baseOfEnv(e,cb->getArgOperand(i))==objIn) { std::set<const Function*> seen; if (handsOver1(f,i,seen)) return true; } return false; }
  bool handsOver1(const Function* f, unsigned i, std::set<const Function*>& seen) { if (f->isDeclaration()||!seen.insert(f).second||seen.size()>40) return false; for (auto* u : f->getArg(i)->users()) if (auto* cb=dyn_cast<CallBase>(u)) { auto* g=cb->getCalledFunction(); if (!g) return true; if (g->isIntrinsic()) continue; if (has(shortName(g),{"destroy","release","replace","move","swap","dtor"})) return true; for (unsigned a=0;a<cb->arg_size()&&a<g->arg_size();a++) if (cb->getArgOperand(a)==f->getArg(i) && handsOver1(g,a,seen)) return true; } return false; }
  bool consumed1(const Value* v, std::set<const Value*>& seen) { if (!seen.insert(v).second) return false; if (seen.size()>4000) return true;
    for (auto* u : v->users()) { if (auto* st=dyn_cast<StoreInst>(u)) { if (st->getValueOperand()==v) return true; } else if (isa<ReturnInst>(u)) return true; else if (isa<CmpInst>(u)||isa<LoadInst>(u)||isa<DbgInfoIntrinsic>(u)) {}
      else if (auto* cb=dyn_cast<CallBase>(u)) { auto* f=cb->getCalledFunction(); if (!f) return true; if (f->isIntrinsic()) continue; if (f->isDeclaration()) { if (any(f->getName().str(),{"free","realloc","close","munmap"})) return true; continue; } for (unsigned i=0;i<cb->arg_size();i++) if (cb->getArgOperand(i)==v && (i>=f->arg_size()||consumed1(f->getArg(i),seen))) return true; }
      else if (isa<GetElementPtrInst>(u)) { /* a pointer into an object does not own it */ if (objTok && !cast<GetElementPtrInst>(u)->hasAllZeroIndices()) continue; if (cast<GetElementPtrInst>(u)->getPointerOperand()==v && consumed1(u,seen)) return true; } else if (isa<PHINode>(u)||isa<SelectInst>(u)||isa<CastInst>(u)||isa<BinaryOperator>(u)) { if (consumed1(u,seen)) return true; } else return true; }
    return false; }
  std::pair<const Value*,int64_t> cell(const Env& e, const Value* p) { int64_t off=0; for (int i=0;i<24;i++) { p=res(e,p); auto* g=dyn_cast<GEPOperator>(p); if (!g) break; APInt o(64,0); if (!g->accumulateConstantOffset(M.getDataLayout(),o)) return {g,0}; off+=o.getSExtValue(); p=g->getPointerOperand(); } return {p,off}; }
  // report(what, where): "success" = the function returns success, "null" = it returns a null pointer or the failing value, "used" = the missing block is accessed
  template<class F_> void walk(const Function& F, const CallBase* src, Kind k, F_ report) {
    struct S { const BasicBlock* b; BasicBlock::const_iterator it; Env env; std::string tr; }; std::vector<S> wl; wl.push_back({src->getParent(),std::next(src->getIterator()),{}}); if (auto* inv=dyn_cast<InvokeInst>(src)) return; int steps=0; std::set<std::pair<const BasicBlock*,std::string>> seen; if (objTok) { wl.back().env.mem[{objIn,0}]=objTok; wl.back().env.mem[{objIn,12}]=ConstantInt::get(Type::getInt32Ty(M.getContext()),0xE0000000u); }
    std::map<const Value*,std::set<uint64_t>> took; while (!wl.empty()) { if (++steps>20000) { R.count("walks cut short",1); if (getenv("BLSA_VERBOSE")) fprintf(stderr,"cut %s\n",F.getName().str().c_str()); break; } S s=wl.back(); wl.pop_back(); bool stop=false; auto it=s.it;
      for (; it!=s.b->end(); ++it) { const Instruction& I=*it; if (isa<PHINode>(I)||isa<DbgInfoIntrinsic>(I)) continue;
        if (objTok) { if (auto* rmw=dyn_cast<AtomicRMWInst>(&I)) { if (eval(s.env,baseOfEnv(s.env,rmw->getPointerOperand()),src,k).t==Ev::Live) { stop=true; break; } continue; }
          if (auto* mt=dyn_cast<AnyMemTransferInst>(&I)) { if (baseOfEnv(s.env,mt->getRawSource())==objIn) { stop=true; break; } continue; }
          if (auto* ld=dyn_cast<LoadInst>(&I)) { auto c=cell(s.env,ld->getPointerOperand()); if (c.first==objIn && c.second==0) { s.env.m[ld]=objTok; continue; } }
          if (auto* cb=dyn_cast<CallBase>(&I)) if (!isa<DbgInfoIntrinsic>(cb) && cb!=src) { auto* f=cb->getCalledFunction(); bool handle=false; for (auto& a : cb->args()) if (a->getType()->isPointerTy() && baseOfEnv(s.env,a)==objIn) handle=true; if (handle) { if (!f || (!f->isIntrinsic() && (has(shortName(f),{"destroy","reset","release","replace","move","assign","swap","dtor","free","~"}) || handsOver(f,cb,s.env)))) { stop=true; break; } continue; } } }
        if (live) { if (isa<LoadInst>(I)) { auto q=s.env.mem.find(cell(s.env,cast<LoadInst>(I).getPointerOperand())); if (q!=s.env.mem.end()) { s.env.m[&I]=q->second; } continue; }
          if (auto* st=dyn_cast<StoreInst>(&I)) { auto c=cell(s.env,st->getPointerOperand()); bool lv=eval(s.env,st->getValueOperand(),src,k).t==Ev::Live; if (lv && c.first!=src && !isa<AllocaInst>(c.first)) { stop=true; break; } if (isa<AllocaInst>(c.first)) s.env.mem[c]=res(s.env,st->getValueOperand()); continue; }
          if (auto* cb=dyn_cast<CallBase>(&I)) { auto* f=cb->getCalledFunction(); if (f&&f->isIntrinsic()) continue; if (cb==src) { stop=true; break; } bool ext=f&&f->isDeclaration(); std::string fn=f?f->getName().str():""; for (unsigned ai=0;ai<cb->arg_size();ai++) { const Value* a=cb->getArgOperand(ai); bool lv=eval(s.env,a,src,k).t==Ev::Live && !(objTok && baseOfEnv(s.env,a)==objTok && cell(s.env,a).second!=0); if (lv && (ext ? false : !f||ai>=f->arg_size()||consumed(f->getArg(ai)))) stop=true; if (lv && (any(fn,{"free","realloc","close","munmap"}))) stop=true; if (a->getType()->isPointerTy()) { const Value* b=baseOfEnv(s.env,a); for (auto mi=s.env.mem.begin(); mi!=s.env.mem.end();) if (mi->first.first==b) { if (eval(s.env,mi->second,src,k).t==Ev::Live && !ext) stop=true; mi=s.env.mem.erase(mi); } else ++mi; } } if (stop) break; }
          continue; }
        if (k==Alloc) if (auto* p=accessed(&I)) if (auto* pb=baseOfEnv(s.env,p); pb==src || isNullFrom(s.env,pb,src,k)) { report("used",&I); stop=true; break; }
        if (auto* ld=dyn_cast<LoadInst>(&I)) { auto f=s.env.mem.find(cell(s.env,ld->getPointerOperand())); if (f!=s.env.mem.end() && f->second->getType()==ld->getType()) s.env.m[ld]=f->second; continue; }
        if (auto* st=dyn_cast<StoreInst>(&I)) { auto c=cell(s.env,st->getPointerOperand()); if (k==SysNeg && st->getValueOperand()->getType()->isIntegerTy() && !isa<AllocaInst>(c.first) && derivedNow(s.env,st->getValueOperand(),src)) { report("stored",&I); stop=true; break; } if (!isa<AllocaInst>(c.first)) { for (auto mi=s.env.mem.begin(); mi!=s.env.mem.end();) if (!isa<AllocaInst>(mi->first.first) && mi->first.first!=c.first) mi=s.env.mem.erase(mi); else ++mi; } s.env.mem[c]=res(s.env,st->getValueOperand()); if (k!=Alloc && eval(s.env,st->getValueOperand(),src,k).t==Ev::Fail) { stop=true; break; } continue; }
        auto* cb=dyn_cast<CallBase>(&I); if (!cb) continue; auto* f=cb->getCalledFunction();
        if (f && f->isIntrinsic()) { if (k==Alloc) if (auto* mi=dyn_cast<AnyMemIntrinsic>(cb)) { bool n=baseOfEnv(s.env,mi->getRawDest())==src; if (auto* mt=dyn_cast<AnyMemTransferInst>(cb)) n|=baseOfEnv(s.env,mt->getRawSource())==src; if (n) { report("used",&I); stop=true; break; } } continue; }
        if (cb==src) { stop=true; break; }
        if (!f || !has(f->getName().str(),{"free","malloc"})) for (auto mi=s.env.mem.begin(); mi!=s.env.mem.end();) { bool kill=!isa<AllocaInst>(mi->first.first); for (auto& a : cb->args()) if (a->getType()->isPointerTy() && baseOfEnv(s.env,a)==mi->first.first) kill=true; if (kill) mi=s.env.mem.erase(mi); else ++mi; }
        for (unsigned a=0;a<cb->arg_size();a++) { if (const Value* ab=nullptr; k==Alloc && f && cb->getArgOperand(a)->getType()->isPointerTy() && ((ab=baseOfEnv(s.env,cb->getArgOperand(a)))==src || isNullFrom(s.env,ab,src,k))) { auto d=derefParam.find(f); if (d!=derefParam.end()&&d->second.count(a)) { report("used",&I); stop=true; } } if (k!=Alloc && eval(s.env,cb->getArgOperand(a),src,k).t==Ev::Fail) stop=true; }
        if (stop) break; auto [k2,fail,n]=kindOf(cb); if (f&&shortName(f)=="bl_make_error") continue; if (!cb->use_empty() && fail && !cleanup(n) && !cannotFail(n)) { stop=true; break; } if (f && has(shortName(f),{"accumulate_error"})) { stop=true; break; } }
      if (stop) continue; auto* t=s.b->getTerminator();
      if (auto* ret=dyn_cast<ReturnInst>(t)) { if (objTok && isa<Argument>(objIn)) { if (ret->getReturnValue()) { Ev v=eval(s.env,ret->getReturnValue(),src,k); if (v.t==Ev::Unknown) if (auto* sl=dyn_cast<SelectInst>(res(s.env,ret->getReturnValue()))) { bool neg=false; if (auto* ic=dyn_cast<ICmpInst>(peel(sl->getCondition(),neg))) { const Value* x=res(s.env,ic->getOperand(0)); auto* kk=dyn_cast<ConstantInt>(ic->getOperand(1)); if (isa<CallBase>(x) && ic->isEquality() && kk && kk->isZero() && eval(s.env,x,src,k).t==Ev::Unknown) { Env e2=s.env; e2.ev[x].t=Ev::NonZero; v=eval(e2,sl,src,k); } } } if (v.t==Ev::NonZero||v.t==Ev::Fail||(v.t==Ev::Const&&!v.c.isZero())) report("leak",ret); } continue; } if (live) { if (!ret->getReturnValue()||eval(s.env,ret->getReturnValue(),src,k).t!=Ev::Live) report("leak",ret); continue; } if (!ret->getReturnValue()) continue; Ev v=eval(s.env,ret->getReturnValue(),src,k); if (F.getReturnType()->isPointerTy()) { if ((v.t==Ev::Const&&v.c.isZero())||v.t==Ev::Fail) report("null",ret); } else if (v.t==Ev::Const && v.c.isZero()) { if (getenv("BLSA_VERBOSE")) fprintf(stderr,"%s:%s\n",F.getName().str().c_str(),s.tr.c_str()); report("success",ret); } continue; }
      const Value* refined=nullptr; Ev refinedTo[2];
      if (objTok) if (auto* br=dyn_cast<BranchInst>(t)) if (br->isConditional()) { bool neg=false; const Value* c=peel(br->getCondition(),neg); if (auto* ic=dyn_cast<ICmpInst>(c)) if (ic->isEquality()) if (auto* kk=dyn_cast<ConstantInt>(ic->getOperand(1))) if (kk->isZero()) { const Value* x=res(s.env,ic->getOperand(0)); if (isa<CallBase>(x) && eval(s.env,x,src,k).t==Ev::Unknown) { refined=x; bool eq=(ic->getPredicate()==ICmpInst::ICMP_EQ)!=neg; refinedTo[eq?0:1].t=Ev::Const; refinedTo[eq?0:1].c=APInt(x->getType()->isPointerTy()?64:x->getType()->getIntegerBitWidth(),0); refinedTo[eq?1:0].t=Ev::NonZero; } } }
      auto go=[&](const BasicBlock* n){ Env e=s.env; if (refined) { auto* br=cast<BranchInst>(t); if (br->getSuccessor(0)!=br->getSuccessor(1)) s.env.ev[refined]=refinedTo[br->getSuccessor(0)==n?0:1]; e=s.env; } std::vector<std::pair<const Value*,const Value*>> upd; std::vector<Ev> evs; std::string key; for (auto& I : *n) { auto* p=dyn_cast<PHINode>(&I); if (!p) break; { const Value* in=p->getIncomingValueForBlock(s.b); upd.push_back({p,res(s.env,in)}); evs.push_back(eval(s.env,in,src,k)); } } for (size_t i=0;i<upd.size();i++) { auto& tk=took[upd[i].first]; if (evs[i].t==Ev::Const && evs[i].c.getBitWidth()<=64) tk.insert(evs[i].c.getZExtValue()); if (evs[i].t==Ev::Const && tk.size()>5) { e.m[upd[i].first]=upd[i].first; e.ev[upd[i].first]=Ev(); continue; } e.m[upd[i].first]=upd[i].second; e.ev[upd[i].first]=evs[i]; } for (auto& kv : e.ev) { const Ev& v=kv.second; if (v.t!=Ev::Unknown) key+=std::to_string((size_t)kv.first)+(v.t==Ev::Live?"L":v.t==Ev::Fail?"F":v.t==Ev::NonZero?"N":std::to_string(v.c.getZExtValue()))+";"; } if (seen.insert({n,key}).second) { std::string tr; if (getenv("BLSA_VERBOSE")) { tr=s.tr; for (auto& I : *n) if (I.getDebugLoc()&&!isa<PHINode>(I)) { tr+=" "+std::to_string(I.getDebugLoc().getLine()); break; } } wl.push_back({n,n->begin(),e,tr}); } };
      if (auto* br=dyn_cast<BranchInst>(t)) if (br->isConditional()) { Ev c=eval(s.env,br->getCondition(),src,k); if (c.t==Ev::Const) { go(br->getSuccessor(c.c.getBoolValue()?0:1)); continue; } }
      if (auto* sw=dyn_cast<SwitchInst>(t)) { Ev c=eval(s.env,sw->getCondition(),src,k); if (c.t==Ev::Const) { const BasicBlock* d=sw->getDefaultDest(); for (auto& cs : sw->cases()) if (cs.getCaseValue()->getValue()==c.c) d=cs.getCaseSuccessor(); go(d); continue; } if (k>=SysNeg && has(calleeName(src),{"ftruncate"}) && errnoValue(s.env,sw->getCondition())) { std::set<const BasicBlock*> ds={sw->getDefaultDest()}; for (auto& cs : sw->cases()) if (!cs.getCaseValue()->equalsInt(27)) ds.insert(cs.getCaseSuccessor()); for (auto* d : ds) go(d); continue; } if (c.t==Ev::Fail) { std::set<const BasicBlock*> ds={sw->getDefaultDest()}; for (auto& cs : sw->cases()) if (!cs.getCaseValue()->isZero()) ds.insert(cs.getCaseSuccessor()); for (auto* d : ds) go(d); continue; } }
      for (auto* n : successors(s.b)) go(n); } }

  static std::string fileOf(const Instruction* I) { if (auto dl=I->getDebugLoc()) { const DILocation* l=dl.get(); std::string f=l->getFilename().str(); size_t p=f.find("/blend2d/"); p=f.rfind("blend2d/"); return p==std::string::npos ? f : f.substr(p+8); } return ""; }
  static std::string topFile(const Function& F) { std::string f=fnFile(&F); size_t p=f.rfind("blend2d/"); return p==std::string::npos ? f : f.substr(p+8); }
  static bool inlinedFrom(const Instruction* I, const char* name) { auto dl=I->getDebugLoc(); for (const DILocation* l=dl.get(); l; l=l->getInlinedAt()) if (auto* sp=l->getScope()->getSubprogram()) if (sp->getName()==name) return true; return false; }
  // reviewed: {file, callee, why the failure cannot matter}
  struct Ex { const char *file, *callee, *why; };
  const char* reviewed(const Function& F, const CallBase* cb, const std::string& callee, const std::string& kind) {
    std::string file=topFile(F), me=shortName(&F); static const Ex dropped[]={
      {"codec/bmpcodec.cpp","bl_pixel_converter_create","the writer's formats are a fixed set the converter supports"},
      {"core/filesystem.cpp","bl_array_resize","truncation to the bytes read"},
      {"core/fonttagset.cpp","bl_array_resize","truncation to the tags found"},
      {"opentype/otname.cpp","bl_string_resize","truncation at an embedded zero"},
      {"core/fontmanager.cpp","bl_array_append_item","room was reserved"},
      {"opentype/otkern.cpp","bl_array_append_item","room was reserved"},
      {"opentype/otcff.cpp","bl_array_append_item","room was reserved"},
      {"core/gradient.cpp","bl_matrix2d_apply_op","the operation was validated"},
      {"core/pattern.cpp","bl_matrix2d_apply_op","the operation was validated"},
      {"pipeline/pipedefs.cpp","bl_matrix2d_apply_op","a constant operation"},
      {"opentype/otlayout.cpp","bl_string_apply_op","text of a debug message"},
      {"raster/rastercontext.cpp","bl_portable_worker_thread_run","threads handed out by the pool are idle"},
      {"codec/bmpcodec.cpp","BLPixelConverter::convert_rect","a created converter has no way to fail"},
      {"codec/pngcodec.cpp","BLPixelConverter::convert_rect","a created converter has no way to fail"},
      {"pipeline/pipedefs.cpp","BLMatrix2D::rotate","a constant operation"},
      {"raster/rastercontext.cpp","BLThread::run","threads handed out by the pool are idle"},
      {"raster/workersynchronization.cpp","BLConditionVariable::wait","the waiting loop tests its condition again"},
      {"threading/thread.cpp","BLConditionVariable::wait","the waiting loop tests its condition again"},
      {"raster/rastercontext.cpp","bl_var_assign_null","an error is returned"},
      {"raster/renderjobproc_p.h","compute_pending_fetch_data","the command processor computes it again and reports"} };
    static const Ex swallowed[]={
      {"core/path.cpp","PathInternal::ensure_info","an invalid path is searched vertex by vertex"},
      {"core/glyphbuffer.cpp","Reader::next","invalid characters are replaced and flagged"},
      {"raster/rastercontext.cpp","RasterEngine::check_image_area","decided on the inlined form, where the following tests of the result are visible"},
      {"core/path.cpp","PathInternal::update_info","an invalid path is searched vertex by vertex"},
      {"opentype/otcmap.cpp","CMapImpl::validate_sub_table","another character map may be usable; the face says so in its diagnostics"},
      {"opentype/otname.cpp","NameImpl::convert_name_string_to_utf8","an undecodable name record is skipped"} };
    static const Ex sys[]={ {"threading/thread.cpp","pthread_attr_setstacksize","a stack size the system refuses is advisory"} };
    auto find=[&](const Ex* t, size_t n) -> const char* { for (size_t i=0;i<n;i++) if (file==t[i].file && callee.find(t[i].callee)!=std::string::npos) return t[i].why; return nullptr; };
    if (has(me,{"_on_init","_rt_init","register_built_in_codecs"})) return "library initialisation";
    if (kind=="dropped") if (auto* w=find(dropped,std::size(dropped))) return w;
    if (kind=="swallowed") { if (auto* w=find(swallowed,std::size(swallowed))) return (callee.find("PathInternal::")==std::string::npos||me.find("closest_vertex")!=std::string::npos) ? w : nullptr; }
    if (auto* w=find(sys,std::size(sys))) return w;
    if (inlinedFrom(cb,"init_first_batch")) return "room was reserved";
    return nullptr; }

  static bool dependsOn(const Value* v, const Value* src, std::set<const Value*>& seen) { if (v==src) return true; if (!seen.insert(v).second||seen.size()>3000) return false; auto* u=dyn_cast<Instruction>(v); if (!u||isa<LoadInst>(u)||isa<AllocaInst>(u)) return false; if (isa<CallBase>(u)) { auto* f=cast<CallBase>(u)->getCalledFunction(); if (!f||!f->isIntrinsic()) { for (auto& a : cast<CallBase>(u)->args()) if (dependsOn(a,src,seen)) return true; return false; } } for (auto& o : u->operands()) if (dependsOn(o,src,seen)) return true; return false; }
  static bool inCycle(const BasicBlock* b) { std::set<const BasicBlock*> s; std::vector<const BasicBlock*> w(succ_begin(b),succ_end(b)); while (!w.empty()) { auto* x=w.back(); w.pop_back(); if (x==b) return true; if (s.insert(x).second) for (auto* n : successors(x)) w.push_back(n); } return false; }
  void systemRules() {
    for (auto& F : M) { if (F.isDeclaration()) continue; std::string me=shortName(&F); for (auto& I : instructions(F)) { auto* cb=dyn_cast<CallBase>(&I); if (!cb) continue; std::string n=calleeName(cb);
      // a transfer repeated for the rest continues where the last one ended, and with what it left
      if (any(n,{"read","write","pread","pwrite","pread64","pwrite64"}) && inCycle(cb->getParent())) { R.count("repeated transfers",1); for (unsigned a : {1u,2u}) { std::set<const Value*> seen; if (!dependsOn(cb->getArgOperand(a),cb,seen)) R.violation(std::string(a==1?"sameplace:":"samesize:")+topFile(F)+":"+me+":"+n,Engine::locFull(cb),me+"() repeats "+n+"() with "+(a==1?"a buffer":"a size")+" that does not account for what was transferred before"); } }
      // a descriptor or mapping that was given back is forgotten at once
      if (any(n,{"close","munmap"})) { const Value* fd=cb->getArgOperand(0); while (auto* c=dyn_cast<CastInst>(fd)) fd=c->getOperand(0); auto* ld=dyn_cast<LoadInst>(fd); if (!ld) continue; Env e; auto c=cell(e,ld->getPointerOperand()); if (isa<AllocaInst>(c.first)) continue; R.count("handles given back",1);
        { std::set<const BasicBlock*> sn; std::vector<std::pair<const BasicBlock*,BasicBlock::const_iterator>> q; q.push_back({ld->getParent(),std::next(ld->getIterator())}); bool reached=false; // forgotten already before the call
          while (!q.empty()&&!reached) { auto [b,it]=q.back(); q.pop_back(); bool done=false; for (; it!=b->end()&&!done&&!reached; ++it) { if (&*it==cb) reached=true; else if (auto* st=dyn_cast<StoreInst>(&*it)) if (cell(e,st->getPointerOperand())==c && st->getValueOperand()!=ld) done=true; } if (!done&&!reached) for (auto* x : successors(b)) if (sn.insert(x).second) q.push_back({x,x->begin()}); }
          if (!reached) continue; }
        std::set<const BasicBlock*> seen; std::vector<std::pair<const BasicBlock*,BasicBlock::const_iterator>> w; w.push_back({cb->getParent(),std::next(cb->getIterator())}); const Instruction* bad=nullptr;
        while (!w.empty()&&!bad) { auto [b,it]=w.back(); w.pop_back(); bool done=false; for (; it!=b->end(); ++it) { if (auto* st=dyn_cast<StoreInst>(&*it)) if (cell(e,st->getPointerOperand())==c && st->getValueOperand()!=ld) { done=true; break; } if (auto* c2=dyn_cast<CallBase>(&*it)) if (calleeName(c2)==n && !(c2==cb)) { const Value* f2=c2->getArgOperand(0); while (auto* cc=dyn_cast<CastInst>(f2)) f2=cc->getOperand(0); auto* l2=dyn_cast<LoadInst>(f2); if (l2 && cell(e,l2->getPointerOperand())==c) { bad=c2; break; } } if (isa<ReturnInst>(*it)) bad=&*it; } if (!done&&!bad) for (auto* x : successors(b)) if (seen.insert(x).second) w.push_back({x,x->begin()}); }
        if (bad) R.violation("kept:"+topFile(F)+":"+me+":"+n,Engine::locFull(cb),me+"() keeps the handle it gave to "+n+"()",Engine::locFull(bad)); }
      // the translation of an error code is never success
      if (n=="bl_result_from_posix_error" && cb==&I) R.count("error codes translated",1); }
      if (F.getName()=="bl_result_from_posix_error") for (auto& B : F) if (auto* r=dyn_cast<ReturnInst>(B.getTerminator())) { R.count("translations",1); std::set<const Value*> seen; if (mayBeZero(r->getReturnValue(),nullptr,nullptr,seen)) R.violation("zero:"+topFile(F)+":"+me,Engine::locFull(r),me+"() may translate an error into success"); } } }
  // ---- a block is not forgotten by storing another one over its address
  bool freshBlock(const Value* v, std::set<const Value*>& seen) { if (!seen.insert(v).second||seen.size()>60) return false; if (auto* cb=dyn_cast<CallBase>(v)) { auto [k,fail,n]=kindOf(cb); return k==Alloc && !has(n,{"Arena","bl_zero_allocator"}); }
    if (auto* p=dyn_cast<PHINode>(v)) { for (auto& x : p->incoming_values()) if (freshBlock(x,seen)) return true; return false; } if (auto* s=dyn_cast<SelectInst>(v)) return freshBlock(s->getTrueValue(),seen)||freshBlock(s->getFalseValue(),seen); if (auto* c=dyn_cast<CastInst>(v)) return freshBlock(c->getOperand(0),seen);
    if (auto* g=dyn_cast<GEPOperator>(v)) return freshBlock(g->getPointerOperand(),seen); if (auto* b=dyn_cast<BinaryOperator>(v)) return freshBlock(b->getOperand(0),seen)||freshBlock(b->getOperand(1),seen); return false; }
  static std::string classOf(const std::string& n) { size_t p=n.rfind("::"); return p==std::string::npos ? "" : n.substr(0,p); }
  static const LoadInst* loadedFrom(const Value* v) { while (auto* c=dyn_cast<CastInst>(v)) v=c->getOperand(0); return dyn_cast<LoadInst>(v); }
  void ownerRules() {
    // the fields whose block a method of the class gives back (methods may have been inlined)
    auto classes=[&](const Function& F, const Instruction* I){ std::set<std::string> r; if (auto dl=I->getDebugLoc()) for (const DILocation* l=dl.get(); l; l=l->getInlinedAt()) if (auto* sp=l->getScope()->getSubprogram()) if (auto* ct=dyn_cast_or_null<DICompositeType>(sp->getScope())) r.insert("class "+ct->getName().str()); return r; };
    auto ctor=[&](const Instruction* I){ if (auto dl=I->getDebugLoc()) for (const DILocation* l=dl.get(); l; l=l->getInlinedAt()) if (auto* sp=l->getScope()->getSubprogram()) if (auto* ct=dyn_cast_or_null<DICompositeType>(sp->getScope())) { std::string n=sp->getName().str(), k=ct->getName().str(); if (n==k||n==k.substr(0,k.find('<'))||n[0]=='~') return true; } return false; };
    std::set<std::pair<std::string,int64_t>> owned; Env e; std::map<const Function*,std::set<int64_t>> releases;
    auto field=[&](const Value* p){ auto c=cell(e,p); int64_t off=c.second; if (auto* g=dyn_cast<GEPOperator>(c.first)) { unsigned bw=64; MapVector<Value*,APInt> vo; APInt co(64,0); const Value* q=g; while (auto* gg=dyn_cast<GEPOperator>(q)) { if (!gg->collectOffset(M.getDataLayout(),bw,vo,co)) break; q=gg->getPointerOperand(); } off+=co.getSExtValue(); } return off; };
    for (auto& F : M) for (auto& I : instructions(F)) if (auto* cb=dyn_cast<CallBase>(&I)) if (calleeName(cb)=="free") if (auto* ld=loadedFrom(cb->getArgOperand(0))) { auto c=cell(e,ld->getPointerOperand()); int64_t off=field(ld->getPointerOperand()); if (F.arg_size() && c.first==F.getArg(0)) releases[&F].insert(off); if (auto* l2=dyn_cast<LoadInst>(c.first)) if (F.arg_size() && cell(e,l2->getPointerOperand()).first==F.getArg(0)) releases[&F].insert(field(l2->getPointerOperand())); for (auto& k : classes(F,cb)) { owned.insert({k,off}); if (auto* l2=dyn_cast<LoadInst>(c.first)) if (off==0) owned.insert({k+"*",field(l2->getPointerOperand())}); } }
    for (auto& F : M) { if (F.isDeclaration()) continue; std::string me=shortName(&F); for (auto& I : instructions(F)) { auto* st=dyn_cast<StoreInst>(&I); if (!st) continue; std::set<const Value*> sn; const Value* v=st->getValueOperand(); if (!v->getType()->isPointerTy() || !(isa<ConstantPointerNull>(v)||freshBlock(v,sn))) continue; auto c=cell(e,st->getPointerOperand()); if (isa<AllocaInst>(c.first)) continue; std::set<const Value*> s2; if (freshBlock(c.first,s2)||ctor(st)) continue; { const Value* q=c.first; while (auto* gg=dyn_cast<GEPOperator>(q)) q=gg->getPointerOperand(); if (isa<AllocaInst>(q)) continue; }
      bool mine=false, ptr=false; int64_t off=field(st->getPointerOperand()); for (auto& k : classes(F,st)) { if (owned.count({k,off})) mine=true; else if (owned.count({k+"*",off})) ptr=true; } if ((!mine&&!ptr) || me=="bl::OpenType::LayoutImpl::init") continue; /* fills a zeroed structure once */ R.count("owning fields replaced",1); if (R.nsamples["owner"]<8) R.sample("owner",me+"()");
      // is there a path to the store on which the previous block was neither given back, known to be missing, nor kept elsewhere?
      std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> w{&F.getEntryBlock()}; seen.insert(w[0]); const Instruction* bad=nullptr; auto same=[&](const Value* x){ auto* l=loadedFrom(x); return l && cell(e,l->getPointerOperand())==c; };
      std::function<bool(const Value*,int)> old=[&](const Value* x,int d)->bool { if (d>6) return false; if (same(x)) return true; if (auto* l=loadedFrom(x)) { auto c2=cell(e,l->getPointerOperand()); return c2.first!=x && old(c2.first,d+1); } return false; };
      while (!w.empty()&&!bad) { auto* b=w.back(); w.pop_back(); bool done=false; for (auto& J : *b) { if (&J==st) { bad=&J; break; } if (auto* s3=dyn_cast<StoreInst>(&J)) { if (same(s3->getValueOperand()) && cell(e,s3->getPointerOperand())!=c) { done=true; break; } }
          if (auto* cb=dyn_cast<CallBase>(&J)) { if (isa<DbgInfoIntrinsic>(cb)||(cb->getCalledFunction()&&cb->getCalledFunction()->isIntrinsic())) continue; for (unsigned a=0;a<cb->arg_size();a++) { if (old(cb->getArgOperand(a),0)) done=true; if (auto* f=cb->getCalledFunction(); f && a==0 && cb->getArgOperand(a)->getType()->isPointerTy()) { auto c2=cell(e,cb->getArgOperand(a)); if (c2.first==c.first && releases[f].count(c.second-c2.second)) done=true; if (c2.first==c.first && ptr && has(shortName(f),{"reset","~"})) done=true; } } if (done) break; } }
        if (done||bad) continue; auto* t=b->getTerminator(); if (auto* br=dyn_cast<BranchInst>(t)) if (br->isConditional()) if (auto* ic=dyn_cast<ICmpInst>(br->getCondition())) if (ic->isEquality() && (same(ic->getOperand(0)) || same(ic->getOperand(1)))) { auto* n=br->getSuccessor(ic->getPredicate()==ICmpInst::ICMP_EQ?1:0); if (seen.insert(n).second) w.push_back(n); continue; }
        for (auto* n : successors(b)) if (seen.insert(n).second) w.push_back(n); }
      if (bad) R.violation("overwritten:"+topFile(F)+":"+me,Engine::locFull(st),me+"() stores a new block over the address of the previous one without having given that back"); } } }
  // what destroys or resets an object reaches something that gives its resources back
  void destroyRules() {
    std::map<const Function*,bool> direct; for (auto& F : M) for (auto& I : instructions(F)) { if (auto* rmw=dyn_cast<AtomicRMWInst>(&I)) if (rmw->getOperation()==AtomicRMWInst::Sub||rmw->getOperation()==AtomicRMWInst::Add) direct[&F]=true; if (auto* cb=dyn_cast<CallBase>(&I)) { std::string n=calleeName(cb); if (any(n,{"free","munmap","close","pthread_mutex_destroy","pthread_cond_destroy"})) direct[&F]=true; } }
    for (auto& F : M) { if (F.isDeclaration()||!F.arg_size()) continue; std::string me=shortName(&F), tail=me.substr(me.rfind("::")==std::string::npos?0:me.rfind("::")+2); bool api=me.compare(0,3,"bl_")==0 && me.find("::")==std::string::npos && (endsWith(me,"_destroy")||(endsWith(me,"_reset")&&me!="bl_random_reset")) ; if (!api && tail!="free_impl" && !endsWith(tail,"destroy_impl")) continue; if (any(me,{"bl_runtime_rt_reset"})) continue;
      if (me.find("Null")!=std::string::npos||me.find("null_")!=std::string::npos||any(me,{"bl_image_codec_impl_destroy","bl_image_decoder_impl_destroy","bl_image_encoder_impl_destroy"})||tail=="codec_destroy_impl") continue; // the built-in default objects and codecs are never freed
      R.count("destroying functions",1); std::set<const Function*> seen{&F}; std::vector<const Function*> w{&F}; bool ok=false; while (!w.empty()&&!ok) { auto* f=w.back(); w.pop_back(); if (direct[f]) { ok=true; break; } for (auto& I : instructions(*f)) if (auto* cb=dyn_cast<CallBase>(&I)) { auto it=cg.targets.find(cb); if (it!=cg.targets.end()) for (auto* t : it->second) if (seen.insert(t).second) w.push_back(t); } }
      if (!ok) R.violation("notreleased:"+topFile(F)+":"+me,fnFile(&F),me+"() does not reach anything that gives back what the object holds"); } }
  static bool endsWith(const std::string& s, const char* t) { size_t n=strlen(t); return s.size()>=n && s.compare(s.size()-n,n,t)==0; }
  // may the value, arriving over the edge, be zero? Constants, and values tested against zero on the way.
  bool mayBeZero(const Value* v, const BasicBlock* from, const BasicBlock* to, std::set<const Value*>& seen) {
    if (auto* c=dyn_cast<ConstantInt>(v)) return c->isZero(); if (!seen.insert(v).second) return false;
    if (auto* p=dyn_cast<PHINode>(v)) { for (unsigned i=0;i<p->getNumIncomingValues();i++) if (mayBeZero(p->getIncomingValue(i),p->getIncomingBlock(i),p->getParent(),seen)) return true; return false; }
    if (auto* s=dyn_cast<SelectInst>(v)) { if (mayBeZero(s->getFalseValue(),from,to,seen)) return true; auto* t=s->getTrueValue(); if (isa<ConstantInt>(t)) return cast<ConstantInt>(t)->isZero(); return !impliesNonZero(s->getCondition(),t); }
    if (from) { const BasicBlock* b=from; const BasicBlock* n=to; for (int i=0;i<6&&b;i++) { if (auto* br=dyn_cast<BranchInst>(b->getTerminator())) if (br->isConditional() && br->getSuccessor(0)==n && br->getSuccessor(1)!=n && impliesNonZero(br->getCondition(),v)) return false; if (auto* br=dyn_cast<BranchInst>(b->getTerminator())) if (br->isConditional() && br->getSuccessor(1)==n && br->getSuccessor(0)!=n) if (auto* ic=dyn_cast<ICmpInst>(br->getCondition())) if (ic->getPredicate()==ICmpInst::ICMP_EQ && ic->getOperand(0)==v && isa<ConstantInt>(ic->getOperand(1)) && cast<ConstantInt>(ic->getOperand(1))->isZero()) return false; if (auto* sw=dyn_cast<SwitchInst>(b->getTerminator())) if (sw->getCondition()==v) { for (auto& c : sw->cases()) if (c.getCaseValue()->isZero()) return c.getCaseSuccessor()==n; } n=b; b=b->getSinglePredecessor(); } }
    return true; }
  static bool impliesNonZero(const Value* c, const Value* v) { if (auto* ic=dyn_cast<ICmpInst>(c)) { auto* k=dyn_cast<ConstantInt>(ic->getOperand(1)); if (ic->getOperand(0)!=v||!k) return false; auto p=ic->getPredicate(); return (p==ICmpInst::ICMP_NE&&k->isZero())||p==ICmpInst::ICMP_UGT||(p==ICmpInst::ICMP_EQ&&!k->isZero())||(p==ICmpInst::ICMP_UGE&&!k->isZero())||(p==ICmpInst::ICMP_SGT&&!k->isNegative()); } if (auto* s=dyn_cast<SelectInst>(c)) { auto* f=dyn_cast<ConstantInt>(s->getFalseValue()); if (f&&f->isZero()) return impliesNonZero(s->getCondition(),v)||impliesNonZero(s->getTrueValue(),v); } if (auto* b=dyn_cast<BinaryOperator>(c)) if (b->getOpcode()==Instruction::And) return impliesNonZero(b->getOperand(0),v)||impliesNonZero(b->getOperand(1),v); if (auto* cb=dyn_cast<CallBase>(c)) if (auto* f=cb->getCalledFunction()) if (f->getIntrinsicID()==Intrinsic::expect) return impliesNonZero(cb->getArgOperand(0),v); return false; }

  void run(const std::string& prop) {
    solve(); if (prop=="C20") systemRules(); if (prop=="C04") { ownerRules(); destroyRules(); } R.count("functions that return a result",resultFn.size()); R.count("functions that can fail",fallible.size()); R.count("functions that hand out allocations",allocFn.size());
    for (auto& F : M) { if (F.isDeclaration()) continue; for (auto& I : instructions(F)) { auto* cb=dyn_cast<CallBase>(&I); if (!cb) continue; auto [k,fail,n]=kindOf(cb); if (!fail) continue; std::string me=shortName(&F);
        if (prop=="C04" && cb->arg_size() && cb->getArgOperand(0)->getType()->isPointerTy() && k==Result && has(n,{"alloc_impl","init_dynamic","impl_create","init_string","create_impl","_init_with_data"})) if (const Value* A=baseOf(cb->getArgOperand(0)); isa<AllocaInst>(A)||isa<Argument>(A)) { R.count("objects created",1); if (R.nsamples["object"]<8) R.sample("object",me+"() -> "+n+"()"); objIn=A; objTok=new Argument(PointerType::get(M.getContext(),0)); live=true; walk(F,cb,k,[&](const char*, const Instruction* at){ R.violation("objleak:"+topFile(F)+":"+me+":"+n,Engine::locFull(cb),me+"() may return without having released or handed on the object "+n+"() created",Engine::locFull(at)); }); live=false; objIn=nullptr; objTok=nullptr; continue; }
        if (prop=="C04") { if ((k!=Alloc && !any(n,{"open","open64","openat","mmap","mmap64"})) || has(n,{"Arena","bl_zero_allocator"})) continue; R.count("acquisitions",1); if (getenv("BLSA_VERBOSE")) fprintf(stderr,"acq %s <- %s\n",me.c_str(),n.c_str()); if (R.nsamples["site"]<8) R.sample("site",me+"() -> "+n+"()"); live=true; walk(F,cb,k,[&](const char*, const Instruction* at){ R.violation("leak:"+topFile(F)+":"+me+":"+n,Engine::locFull(cb),me+"() may return without having released or stored what "+n+"() gave it",Engine::locFull(at)); }); live=false; continue; }
        bool mine = prop=="C22" ? k==Result : prop=="C03" ? k==Alloc : k>=SysNeg; if (!mine||cannotFail(n)) continue; R.count(prop=="C22"?"calls that can fail":prop=="C03"?"allocations":"system calls",1); if (R.nsamples["site"]<8) R.sample("site",me+"() -> "+n+"()");
        if (cleanup(n)) { R.count("cleanup calls",1); continue; }
        std::set<std::string> u; if (auto* w=reviewed(F,cb,n,cb->use_empty()&&prop!="C03"?"dropped":"swallowed")) { R.count("reviewed exceptions",1); R.sample("reviewed",me+"() -> "+n+"(): "+w); continue; }
        if (cb->use_empty() && prop!="C03") { R.violation("dropped:"+topFile(F)+":"+me+":"+n,Engine::locFull(cb),me+"() drops the result of "+n+"()"); continue; }
        bool rf=resultFn.count(&F);
        walk(F,cb,k,[&](const char* w, const Instruction* at){ std::string what=w; if (what=="success"&&rf) R.violation("swallowed:"+topFile(F)+":"+me+":"+n,Engine::locFull(cb),me+"() reports success although "+n+"() failed",Engine::locFull(at)); if (what=="stored") R.violation("stored:"+topFile(F)+":"+me+":"+n,Engine::locFull(cb),me+"() stores a number computed from the failing result of "+n+"()",Engine::locFull(at)); if (what=="used") R.violation("used:"+topFile(F)+":"+me+":"+n,Engine::locFull(cb),me+"() uses the block although "+n+"() returned none",Engine::locFull(at)); }); } } }
};

} // namespace sa
