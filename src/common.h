// Shared helpers: JSON-lines reporting, API enumeration, call graph.
#pragma once
#include "engine.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Demangle/Demangle.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>

namespace sa {

inline std::string jstr(const std::string& s) {
  std::string o="\""; for (unsigned char c : s) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c=='\n') o+="\\n"; else if (c<32) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o+"\"";
}
struct Reporter {
  std::map<std::string,long> counts; std::set<std::string> keys; long violations=0; std::map<std::string,int> nsamples;
  void violation(const std::string& key, const std::string& loc, const std::string& msg, const std::string& path="") {
    if (!keys.insert(key).second) return; violations++;
    printf("{\"type\":\"violation\",\"key\":%s,\"loc\":%s,\"msg\":%s,\"path\":%s}\n", jstr(key).c_str(), jstr(loc).c_str(), jstr(msg).c_str(), jstr(path).c_str()); }
  void count(const std::string& n, long v) { counts[n]+=v; }
  void sample(const std::string& kind, const std::string& s) { if (nsamples[kind]++<8) printf("{\"type\":\"sample\",\"kind\":%s,\"text\":%s}\n", jstr(kind).c_str(), jstr(s).c_str()); }
  void note(const std::string& s) { printf("{\"type\":\"note\",\"text\":%s}\n", jstr(s).c_str()); }
  void broken(const std::string& s) { printf("{\"type\":\"broken\",\"text\":%s}\n", jstr(s).c_str()); }
  void finish() { for (auto& c : counts) printf("{\"type\":\"count\",\"name\":%s,\"n\":%ld}\n", jstr(c.first).c_str(), c.second); printf("{\"type\":\"end\"}\n"); fflush(stdout); }
};

inline std::string demangle1(const std::string& n) { if (n.rfind("_Z",0)!=0) return n; std::string base=n; size_t dot=std::string::npos; std::string d=llvm::demangle(base); (void)dot; return d; }
// stable name of a function: linkage suffixes ".123" added by the linker for internal functions removed
inline std::string fnName(const Function* F) { std::string n=F->getName().str(); size_t p=n.rfind('.'); if (p!=std::string::npos && p+1<n.size() && n.find_first_not_of("0123456789",p+1)==std::string::npos) n=n.substr(0,p); return demangle1(n); }
inline std::string shortName(const Function* F) { std::string n=fnName(F); size_t p=n.find('('); if (p!=std::string::npos) n=n.substr(0,p); return n; }
inline std::string fnFile(const Function* F) { if (auto* sp=F->getSubprogram()) { std::string f=sp->getFilename().str(); size_t p=f.find("/blend2d/"); if (p!=std::string::npos) f=f.substr(p+1); return f; } return ""; }
inline std::string fnLoc(const Function* F) { if (auto* sp=F->getSubprogram()) return fnFile(F)+":"+std::to_string(sp->getLine()); return fnName(F); }
inline bool isApi(const Function* F) { return !F->isDeclaration() && F->hasExternalLinkage() && F->hasDefaultVisibility() && F->getName().startswith("bl_"); }

struct CallGraphX {
  Module& M; std::map<const Function*, std::vector<std::pair<const CallBase*, std::vector<const Function*>>>> calls;
  std::map<const Function*, std::set<const Function*>> succ, pred;
  std::map<FunctionType*, std::vector<const Function*>> taken; std::map<const CallBase*, std::vector<const Function*>> targets;
  // functions whose address flows into a slot: all address-taken functions of the same type
  // a function pointer's slot: the struct type and byte offset (array index ignored) it is stored to / loaded from
  std::map<std::string, std::set<const Function*>> slotStores; std::set<std::string> nullSlots;
  static std::string structName(Type* t) { if (auto* st=dyn_cast_or_null<StructType>(t)) if (st->hasName()) { std::string n=st->getName().str(); size_t p=n.rfind('.'); if (p!=std::string::npos && p+1<n.size() && n.find_first_not_of("0123456789",p+1)==std::string::npos) n=n.substr(0,p); return n; } return ""; }
  // outermost struct on the chain of address computations, with the constant part of the offset up to any array index
  std::string slotOf(const Value* p) {
    std::string best; uint64_t total=0;
    for (int guard=0; guard<12; guard++) {
      auto* g=dyn_cast<GEPOperator>(p); if (!g) break; std::string n=structName(g->getSourceElementType());
      uint64_t off=0; Type* t=g->getSourceElementType(); unsigned i=0;
      for (auto ix=g->idx_begin(); ix!=g->idx_end(); ++ix,++i) { auto* c=dyn_cast<ConstantInt>(*ix); if (i==0) { if (c && t->isIntegerTy(8)) off+=c->getSExtValue(); continue; }
        if (auto* st=dyn_cast<StructType>(t)) { if (!c) break; unsigned k=c->getZExtValue(); off+=M.getDataLayout().getStructLayout(st)->getElementOffset(k); t=st->getElementType(k); } else if (t->isArrayTy()) t=t->getArrayElementType(); }
      total+=off; if (!n.empty()) best=n+"+"+std::to_string(total);
      p=g->getPointerOperand();
    }
    return best;
  }
  CallGraphX(Module& m) : M(m) {
    for (auto& F : M) for (auto& I : instructions(F)) if (auto* st=dyn_cast<StoreInst>(&I)) if (auto* f=dyn_cast<Function>(st->getValueOperand()->stripPointerCasts())) { std::string k=slotOf(st->getPointerOperand()); if (!k.empty()) slotStores[k].insert(f); } else if (isa<ConstantPointerNull>(st->getValueOperand())) { std::string k=slotOf(st->getPointerOperand()); if (!k.empty()) nullSlots.insert(k); }
    // functions registered only as runtime handlers are called only through the handler list they were added to
    std::map<const Function*, std::set<std::string>> ofF; for (auto& kv : slotStores) for (auto* f : kv.second) ofF[f].insert(kv.first);
    std::map<const Function*, std::set<std::string>> handlers; for (auto& kv : ofF) { bool all=true; unsigned n=0; for (auto& k : kv.second) if (k.rfind("struct.BLRuntimeContext+",0)!=0) all=false; for (auto* u : kv.first->users()) { if (auto* st=dyn_cast<StoreInst>(u)) { if (slotOf(st->getPointerOperand()).empty()) all=false; } else if (!isa<CallBase>(u)) all=false; n++; } if (all && n) handlers[kv.first]=kv.second; }
    for (auto& F : M) if (F.hasAddressTaken(nullptr,/*IgnoreCallback*/false,/*IgnoreAssumeLike*/true,/*IgnoreLLVMUsed*/true)) taken[F.getFunctionType()].push_back(&F);
    for (auto& F : M) for (auto& I : instructions(F)) if (auto* cb=dyn_cast<CallBase>(&I)) { if (isa<DbgInfoIntrinsic>(cb)||cb->isInlineAsm()) continue;
      std::vector<const Function*> t; if (auto* f=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) t.push_back(f); else { t=taken[cb->getFunctionType()]; std::string slot; if (auto* ld=dyn_cast<LoadInst>(cb->getCalledOperand()->stripPointerCasts())) slot=slotOf(ld->getPointerOperand());
        { std::vector<const Function*> n; for (auto* f : t) { auto h=handlers.find(f); if (h==handlers.end()||h->second.count(slot)) n.push_back(f); } t=n; } if (!slot.empty() && nullSlots.count(slot) && !slotStores.count(slot)) t.clear();
        if (auto* ld=dyn_cast<LoadInst>(cb->getCalledOperand()->stripPointerCasts())) { auto it=slotStores.find(slotOf(ld->getPointerOperand())); if (it!=slotStores.end()) { std::vector<const Function*> n; for (auto* f : t) if (it->second.count(f)) n.push_back(f); if (!n.empty()) t=n; } } }
      // callbacks handed to external functions are called by them
      for (auto& a : cb->args()) if (auto* f=dyn_cast<Function>(a->stripPointerCasts())) { auto* c=cb->getCalledFunction(); if (c && c->isDeclaration() && !c->isIntrinsic()) t.push_back(f); }
      targets[cb]=t; calls[&F].push_back({cb,t}); for (auto* f : t) { succ[&F].insert(f); pred[f].insert(&F); } }
  }
  std::set<const Function*> reach(const std::vector<const Function*>& roots, const std::set<const Function*>& stop={}) {
    std::set<const Function*> seen; std::vector<const Function*> wl; for (auto* r : roots) if (!stop.count(r) && seen.insert(r).second) wl.push_back(r);
    while (!wl.empty()) { auto* f=wl.back(); wl.pop_back(); for (auto* g : succ[f]) if (!stop.count(g) && seen.insert(g).second) wl.push_back(g); } return seen;
  }
  std::string pathTo(const std::vector<const Function*>& roots, const Function* target, const std::set<const Function*>& stop={}) {
    std::map<const Function*, const Function*> par; std::deque<const Function*> wl; for (auto* r : roots) if (!stop.count(r) && !par.count(r)) { par[r]=nullptr; wl.push_back(r); }
    while (!wl.empty()) { auto* f=wl.front(); wl.pop_front(); if (f==target) { std::string o; for (; f; f=par[f]) o = shortName(f)+(o.empty()?"":" -> ")+o; return o; } for (auto* g : succ[f]) if (!stop.count(g) && !par.count(g)) { par[g]=f; wl.push_back(g); } } return "";
  }
};
inline std::vector<const Function*> apiRoots(Module& M) { std::vector<const Function*> r; for (auto& F : M) if (isApi(&F)) r.push_back(&F); return r; }

// peel a pointer to the object it points into; nullptr when unknown
inline void bases(const Value* p, std::set<const Value*>& out, std::set<const Value*>& seen) {
  if (!seen.insert(p).second) return;
  if (auto* g=dyn_cast<GEPOperator>(p)) return bases(g->getPointerOperand(),out,seen);
  if (auto* c=dyn_cast<Operator>(p)) { if (c->getOpcode()==Instruction::BitCast||c->getOpcode()==Instruction::AddrSpaceCast||c->getOpcode()==Instruction::IntToPtr||c->getOpcode()==Instruction::PtrToInt||c->getOpcode()==Instruction::Freeze) return bases(c->getOperand(0),out,seen);
    if (c->getOpcode()==Instruction::Add||c->getOpcode()==Instruction::And||c->getOpcode()==Instruction::Sub) { bases(c->getOperand(0),out,seen); return; } }
  if (auto* ph=dyn_cast<PHINode>(p)) { for (auto& v : ph->incoming_values()) bases(v,out,seen); return; }
  if (auto* s=dyn_cast<SelectInst>(p)) { bases(s->getTrueValue(),out,seen); bases(s->getFalseValue(),out,seen); return; }
  out.insert(p);
}
inline std::set<const Value*> basesOf(const Value* p) { std::set<const Value*> o,s; bases(p,o,s); return o; }
} // namespace sa
