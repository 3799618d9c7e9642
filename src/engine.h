// blsa engine: interprocedural, path-sensitive dataflow ("property simulation") over SSA IR.
//
// The abstract state of a program point maps SSA values and memory cells to value numbers. A value number is a
// sequence of bit slices of symbols (loaded memory images, call results, pure operations), so masks, shifts and
// partial loads of packed fields stay exact. States that agree on the client's property state are joined at merge
// points and at loop heads until nothing changes. There is no solver: a branch is decided only by constants, facts
// recorded at dominating branches, known bits and simple ranges; otherwise both successors are taken.
#pragma once
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <deque>

namespace sa {
using namespace llvm;

using ValId = uint32_t;
using SymId = uint32_t;
using CtxId = uint32_t;

struct Seg { SymId sym; uint32_t start; uint32_t len; uint64_t c;
  bool operator==(const Seg& o) const { return sym==o.sym && start==o.start && len==o.len && c==o.c; } };
// sym==0: constant bits `c` (len<=64, or any len when c==0).

struct Val { uint32_t width; std::vector<Seg> segs; };

enum SymKind : uint8_t { SK_None, SK_Op, SK_Mem, SK_Addr, SK_Fresh, SK_Phi, SK_Arg };
enum : unsigned { OP_PTRADD = 1000, OP_EQ, OP_ULT, OP_SLT, OP_NOT, OP_SELECT, OP_FCMP, OP_UMIN, OP_UMAX, OP_SMIN, OP_SMAX, OP_INTR, OP_PURECALL };

struct Region;
struct Sym {
  SymKind kind; unsigned op = 0; uint32_t width = 0; std::vector<ValId> ops;
  Region* region = nullptr; uint32_t gen = 0; const Value* v = nullptr; CtxId ctx = 0; int64_t extra = 0; unsigned depth = 0;
  std::string tag;
};

enum RegionKind : uint8_t { RK_Global, RK_Stack, RK_Heap, RK_Deref };
struct Region {
  RegionKind kind; unsigned id; const Value* v = nullptr; CtxId ctx = 0; ValId base = 0; SymId addrSym = 0;
  std::string name; bool constant = false; int64_t zeroLo=0, zeroHi=0; /* bytes known to be zero initially */ bool isolated = false; // isolated: no pointer with another root designates it
  int64_t align = 128;
};

struct Kill { int64_t lo, hi; uint32_t gen; bool operator==(const Kill& o) const { return lo==o.lo&&hi==o.hi&&gen==o.gen; } };
struct VarCell { ValId ptr; uint32_t width; ValId val; int64_t lo, hi; bool operator==(const VarCell& o) const { return ptr==o.ptr&&width==o.width&&val==o.val&&lo==o.lo&&hi==o.hi; } };
struct RegMem {
  std::map<int64_t, ValId> cells;   // byte offset -> value, non-overlapping
  std::vector<Kill> kills;          // later entries override earlier ones
  std::vector<VarCell> vars;
  bool operator==(const RegMem& o) const { return cells==o.cells && kills==o.kills && vars==o.vars; }
};
using RegMemP = std::shared_ptr<const RegMem>;

struct LoopTag { const BasicBlock* header; unsigned part; unsigned visit; };

struct State {
  std::map<unsigned, RegMemP> mem;                       // region id -> memory
  std::map<std::pair<SymId,uint32_t>, std::pair<uint32_t,uint64_t>> facts; // (sym,start)->(len,const)
  std::map<ValId, std::pair<uint64_t,uint64_t>> ranges;  // unsigned inclusive
  std::map<uint64_t, int64_t> client;                    // property state
  std::vector<ValId> env;                                // current frame
  std::vector<LoopTag> loops;
};

struct Engine;
struct Client {
  virtual ~Client() {}
  virtual void onStore(Engine&, State&, Region*, int64_t off, bool var, ValId val, uint32_t bytes, const Instruction*, CtxId) {}
  virtual void onLoad(Engine&, State&, Region*, int64_t off, bool var, uint32_t bytes, const Instruction*, CtxId) {}
  virtual void onNullDeref(Engine&, State&, ValId ptr, const Instruction*, CtxId) {}
  virtual void onFree(Engine&, State&, ValId ptr, const Instruction*, CtxId) {}
  virtual void onAlloc(Engine&, State&, Region* heap /*null on the failing branch*/, const Instruction*, CtxId) {}
  // return 1 if handled; may push several outcomes
  virtual bool onCall(Engine&, State&, const CallBase*, const Function*, const std::vector<ValId>& args, CtxId, std::vector<std::pair<State,ValId>>& out) { return false; }
  virtual bool inlineCall(Engine&, State&, const CallBase*, const Function*, CtxId, unsigned depth) { return true; }
  virtual void onOpaqueCall(Engine&, State&, const CallBase*, const Function*, const std::vector<ValId>& args, CtxId) {}
  virtual bool splitICmp(Engine&, State&, const ICmpInst*, ValId a, ValId b) { return false; }
  virtual uint64_t key(const State& s) { uint64_t h = 1469598103934665603ull; for (auto& kv : s.client) { h ^= kv.first; h *= 1099511628211ull; h ^= (uint64_t)kv.second; h *= 1099511628211ull; } return h; }
  virtual bool splitMasks() { return false; }
  // whether states may be joined although they disagree on the contents of this region
  virtual bool joinRegion(Engine&, Region*) { return false; }
  virtual void onJoin(State& into, const State& from) {}
  virtual bool keepHavoc(Engine&, State&, Region*, const CallBase*) { return false; }
};

struct BudgetExceeded {};

struct FuncInfo {
  std::unordered_map<const Value*, unsigned> idx; unsigned n = 0;
  std::unordered_map<const BasicBlock*, unsigned> order;
  std::vector<const BasicBlock*> byOrder;
  std::unordered_map<const BasicBlock*, std::vector<unsigned>> liveIn;
  std::unordered_map<const BasicBlock*, std::vector<const BasicBlock*>> loopHeaders; // enclosing loop headers outer..inner
  std::unordered_map<const BasicBlock*, bool> isHeader;
};

struct Engine {
  Module& M; const DataLayout& DL; LLVMContext& C;
  Client* client = nullptr;
  Engine(Module& m) : M(m), DL(m.getDataLayout()), C(m.getContext()) { syms.emplace_back(); vals.emplace_back(); vals[0].width = 0; ctxs.push_back({0,nullptr,0,nullptr}); }

  // ---- interning ---------------------------------------------------------------------------------------------
  std::deque<Sym> syms; std::deque<Val> vals; // deques: references stay valid while interning
  std::vector<std::unique_ptr<Region>> regions;
  std::unordered_map<std::string, ValId> valIx; std::unordered_map<std::string, SymId> symIx;
  std::map<const Value*, Region*> globalRegions; std::map<std::pair<const Value*,CtxId>, Region*> siteRegions; std::map<ValId, Region*> derefRegions;
  std::map<ValId, int64_t> ptrExtent; // PtrAdd value -> bytes of the array indexed (from the constant base)

  struct Ctx { CtxId parent; const CallBase* call; unsigned depth; const Function* fn; };
  std::vector<Ctx> ctxs; std::map<std::pair<CtxId,const CallBase*>, CtxId> ctxIx;
  CtxId childCtx(CtxId p, const CallBase* c, const Function* f) {
    auto k = std::make_pair(p,c); auto it = ctxIx.find(k); if (it!=ctxIx.end() && ctxs[it->second].fn==f) return it->second;
    ctxs.push_back({p,c,ctxs[p].depth+1,f}); return ctxIx[k] = ctxs.size()-1;
  }
  std::string ctxStr(CtxId c) {
    std::string s; while (c) { if (ctxs[c].fn) { s = (s.empty()?"":" <- ") + std::string(s.empty()?"":"") + s; } c = ctxs[c].parent; }
    return s;
  }

  ValId internVal(Val&& v) {
    // normalise: merge adjacent segments
    std::vector<Seg> o; o.reserve(v.segs.size());
    for (auto& s : v.segs) {
      if (!s.len) continue;
      if (!o.empty()) { Seg& p = o.back();
        if (p.sym==0 && s.sym==0) { if ((p.c==0 && s.c==0) || p.len + s.len <= 64) { if (s.c) p.c |= s.c << p.len; p.len += s.len; continue; }
          if (p.len < 64 && s.len) { uint32_t t = std::min<uint32_t>(64-p.len, s.len); if (p.c || 1) { uint64_t lowm = t==64?~0ull:((1ull<<t)-1); p.c |= (s.c & lowm) << p.len; p.len += t; Seg r{0,0,s.len-t, t>=64?0:s.c>>t}; if (r.len) o.push_back(r); continue; } } }
        else if (p.sym && p.sym==s.sym && p.start+p.len==s.start) { p.len += s.len; continue; } }
      o.push_back(s);
    }
    v.segs.swap(o);
    std::string k((const char*)&v.width, 4);
    for (auto& s : v.segs) { uint64_t a[3] = { ((uint64_t)s.sym<<32)|s.start, s.len, s.c }; k.append((const char*)a, sizeof a); }
    auto it = valIx.find(k); if (it!=valIx.end()) return it->second;
    vals.push_back(std::move(v)); return valIx[k] = vals.size()-1;
  }
  ValId constant(uint32_t w, uint64_t c) { if (w<64) c &= (1ull<<w)-1; Val v; v.width=w; if (w<=64) v.segs.push_back({0,0,w,c}); else { v.segs.push_back({0,0,64,c}); v.segs.push_back({0,0,w-64,0}); } return internVal(std::move(v)); }
  ValId ofSym(SymId s) { Val v; v.width = syms[s].width; v.segs.push_back({s,0,v.width,0}); return internVal(std::move(v)); }
  SymId internSym(Sym&& s) {
    std::string k; auto add=[&](uint64_t x){ k.append((const char*)&x,8); };
    add(s.kind); add(s.op); add(s.width); add((uint64_t)s.region); add(s.gen); add((uint64_t)s.v); add(s.ctx); add(s.extra); for (auto o : s.ops) add(o);
    auto it = symIx.find(k); if (it!=symIx.end()) return it->second;
    for (auto o : s.ops) s.depth = std::max(s.depth, depthOf(o)+1);
    syms.push_back(std::move(s)); return symIx[k] = syms.size()-1;
  }
  unsigned depthOf(ValId v) { unsigned d=0; for (auto& s : vals[v].segs) if (s.sym) d = std::max(d, syms[s.sym].depth); return d; }
  ValId op(unsigned opc, uint32_t w, std::vector<ValId> ops, int64_t extra=0) { Sym s; s.kind=SK_Op; s.op=opc; s.width=w; s.ops=std::move(ops); s.extra=extra; return ofSym(internSym(std::move(s))); }
  ValId fresh(uint32_t w, const Value* v, CtxId ctx, int64_t extra=0, SymKind k=SK_Fresh) { Sym s; s.kind=k; s.width=w; s.v=v; s.ctx=ctx; s.extra=extra; return ofSym(internSym(std::move(s))); }

  std::map<std::tuple<const Value*,CtxId,int64_t>, uint32_t> genIx; uint32_t genNext=1;
  uint32_t gen(const Value* v, CtxId c, int64_t x=0) { auto k=std::make_tuple(v,c,x); auto it=genIx.find(k); if (it!=genIx.end()) return it->second; return genIx[k]=genNext++; }

  bool isConst(ValId v, uint64_t& c) const { auto& V=vals[v]; if (V.width>64 || V.segs.size()!=1 || V.segs[0].sym) { return false; } c=V.segs[0].c; return true; }
  bool isConst(ValId v) const { uint64_t c; return isConst(v,c); }
  bool isZero(ValId v) const { for (auto& s : vals[v].segs) if (s.sym || s.c) return false; return true; }
  const Sym* fullSym(ValId v) const { auto& V=vals[v]; if (V.segs.size()!=1 || !V.segs[0].sym || V.segs[0].start || V.segs[0].len!=syms[V.segs[0].sym].width) return nullptr; return &syms[V.segs[0].sym]; }
  SymId fullSymId(ValId v) const { auto& V=vals[v]; if (V.segs.size()!=1 || !V.segs[0].sym || V.segs[0].start || V.segs[0].len!=syms[V.segs[0].sym].width) return 0; return V.segs[0].sym; }

  ValId slice(ValId v, uint32_t lo, uint32_t len) {
    if (lo==0 && len==vals[v].width) return v;
    Val r; r.width=len; uint32_t pos=0; uint32_t hi=lo+len;
    for (auto s : vals[v].segs) { uint32_t a=std::max(pos,lo), b=std::min(pos+s.len,hi); if (a<b) { uint32_t d=a-pos; Seg t=s; t.len=b-a; if (s.sym) t.start=s.start+d; else { t.c = d>=64?0:(s.c>>d); if (t.len<64) t.c &= (1ull<<t.len)-1; } r.segs.push_back(t);} pos+=s.len; }
    return internVal(std::move(r));
  }
  ValId concat(ValId lo, ValId hi) { Val r; r.width=vals[lo].width+vals[hi].width; r.segs=vals[lo].segs; for (auto& s : vals[hi].segs) r.segs.push_back(s); return internVal(std::move(r)); }
  ValId zext(ValId v, uint32_t w) { uint32_t ow=vals[v].width; if (w<=ow) return slice(v,0,w); Val r=vals[v]; r.width=w; r.segs.push_back({0,0,w-ow,0}); return internVal(std::move(r)); }

  // ---- regions -----------------------------------------------------------------------------------------------
  Region* newRegion(RegionKind k, const Value* v, CtxId ctx, ValId base) {
    regions.push_back(std::make_unique<Region>()); Region* r=regions.back().get(); r->kind=k; r->id=regions.size(); r->v=v; r->ctx=ctx; r->base=base;
    if (k!=RK_Deref) { Sym s; s.kind=SK_Addr; s.width=64; s.region=r; r->addrSym=internSym(std::move(s)); r->base=ofSym(r->addrSym); }
    return r;
  }
  Region* globalRegion(const Value* g) { auto& r=globalRegions[g]; if (!r) { r=newRegion(RK_Global,g,0,0); r->name=g->getName().str(); if (auto* gv=dyn_cast<GlobalVariable>(g)) r->constant=gv->isConstant(); else r->constant=true; } return r; }
  Region* siteRegion(RegionKind k, const Value* v, CtxId c) { auto& r=siteRegions[{v,c}]; if (!r) { r=newRegion(k,v,c,0); } return r; }
  Region* derefRegion(ValId p) { auto& r=derefRegions[p]; if (!r) r=newRegion(RK_Deref,nullptr,0,p); return r; }

  // pointer decomposition: base region + constant offset (+ variable part)
  ValId curCallee=0; // value of the called operand of the indirect call being interpreted
  struct Ptr { Region* r=nullptr; int64_t off=0; ValId var=0; bool null=false; };
  Ptr split(ValId p) {
    Ptr o; uint64_t c;
    if (isConst(p,c)) { o.null = true; o.off=(int64_t)c; return o; }
    if (auto* s=fullSym(p)) {
      if (s->kind==SK_Op && s->op==Instruction::Add) { uint64_t k; if (isConst(s->ops[1],k)) { o=split(s->ops[0]); o.off+=(int64_t)k; return o; } }
      if (s->kind==SK_Op && s->op==OP_PTRADD) { ValId var=s->ops[1]; o=split(s->ops[0]); if (o.var) var = 0xFFFFFFFFu; o.var=var; return o; }
      if (s->kind==SK_Addr) { o.r=s->region; return o; }
    }
    o.r=derefRegion(p); return o;
  }
  static int64_t sx(uint64_t v, unsigned w) { if (w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); return (int64_t)((v^m)-m); }

  // ---- value operations --------------------------------------------------------------------------------------
  ValId add(ValId a, ValId b) {
    uint32_t w=vals[a].width; uint64_t x,y;
    if (isConst(a,x)) std::swap(a,b);
    if (isConst(a,x) && isConst(b,y)) return constant(w,x+y);
    if (isConst(b,y)) { if (!y) return a;
      if (auto* s=fullSym(a)) if (s->kind==SK_Op && s->op==Instruction::Add) { uint64_t k; if (isConst(s->ops[1],k)) return add(s->ops[0], constant(w,k+y)); }
      return op(Instruction::Add,w,{a,b}); }
    // hoist constants outward
    auto strip=[&](ValId v, uint64_t& k)->ValId { k=0; if (auto* s=fullSym(v)) if (s->kind==SK_Op && s->op==Instruction::Add) { uint64_t kk; if (isConst(s->ops[1],kk)) { k=kk; return s->ops[0]; } } return v; };
    uint64_t ka,kb; ValId sa_=strip(a,ka), sb=strip(b,kb);
    if (ka||kb) return add(add(sa_,sb), constant(w,ka+kb));
    if (w==64) { // pointer + variable
      auto isPtr=[&](ValId v){ auto* s=fullSym(v); return s && (s->kind==SK_Addr || (s->kind==SK_Op && s->op==OP_PTRADD)); };
      if (isPtr(b) && !isPtr(a)) std::swap(a,b);
      if (isPtr(a)) return ptradd(a,b);
      // x + (y - x) == y
      if (auto* s=fullSym(b)) if (s->kind==SK_Op && s->op==Instruction::Sub && s->ops[1]==a) return s->ops[0];
      if (auto* s=fullSym(a)) if (s->kind==SK_Op && s->op==Instruction::Sub && s->ops[1]==b) return s->ops[0];
    }
    if (a>b) std::swap(a,b);
    return op(Instruction::Add,w,{a,b});
  }
  ValId ptradd(ValId p, ValId var) {
    uint64_t c; if (isConst(var,c)) return add(p,var);
    auto* s=fullSym(p);
    if (s && s->kind==SK_Op && s->op==Instruction::Add) { uint64_t k; if (isConst(s->ops[1],k)) { ValId b=s->ops[0]; return add(ptradd(b,var), constant(64,k)); } }
    auto* vs=fullSym(var);
    if (vs && vs->kind==SK_Op && vs->op==Instruction::Add) { uint64_t k; if (isConst(vs->ops[1],k)) { ValId b=vs->ops[0]; return add(ptradd(p,b), constant(64,k)); } }
    if (s && s->kind==SK_Op && s->op==OP_PTRADD) { ValId b=s->ops[0], v0=s->ops[1]; return ptradd(b, add(v0,var)); }
    return op(OP_PTRADD,64,{p,var});
  }
  ValId sub(ValId a, ValId b) {
    uint32_t w=vals[a].width; uint64_t x,y;
    if (a==b) return constant(w,0);
    if (isConst(b,y)) return add(a, constant(w, 0-y));
    (void)x;
    if (w==64) { Ptr pa, pb; 
      auto strip=[&](ValId v, uint64_t& k)->ValId { k=0; if (auto* s=fullSym(v)) if (s->kind==SK_Op && s->op==Instruction::Add) { uint64_t kk; if (isConst(s->ops[1],kk)) { k=kk; return s->ops[0]; } } return v; };
      uint64_t ka,kb; ValId A=strip(a,ka), B=strip(b,kb);
      if (A==B) return constant(w,ka-kb);
      auto* s=fullSym(A); if (s && s->kind==SK_Op && s->op==OP_PTRADD && s->ops[0]==B) return add(s->ops[1], constant(w,ka-kb));
      if (s && s->kind==SK_Op && s->op==Instruction::Add) { if (s->ops[0]==B) return add(s->ops[1], constant(w,ka-kb)); if (s->ops[1]==B) return add(s->ops[0], constant(w,ka-kb)); }
      if (ka||kb) return add(op(Instruction::Sub,w,{A,B}), constant(w,ka-kb));
    }
    return op(Instruction::Sub,w,{a,b});
  }
  ValId bnot1(ValId v) { uint64_t c; if (isConst(v,c)) return constant(1,!c); if (auto* s=fullSym(v)) if (s->kind==SK_Op && s->op==OP_NOT) return s->ops[0]; return op(OP_NOT,1,{v}); }
  // bitwise op with per-segment constants where possible
  ValId bitop(unsigned opc, ValId a, ValId b) {
    uint32_t w=vals[a].width; if (a==b) return opc==Instruction::Xor ? constant(w,0) : a;
    if (w==1 && opc==Instruction::Xor) { uint64_t c; if (isConst(a,c)) return c?bnot1(b):b; if (isConst(b,c)) return c?bnot1(a):a; }
    Val r; r.width=w; size_t i=0,j=0; uint32_t oi=0,oj=0; uint32_t pos=0; auto A=vals[a].segs, B=vals[b].segs;
    while (pos<w) {
      Seg sa_=A[i], sb=B[j]; uint32_t l=std::min(sa_.len-oi, sb.len-oj);
      if ((sa_.sym==0 || sb.sym==0)) {
        // constant on one side: process runs of equal constant bits
        uint32_t q=0;
        while (q<l) {
          auto bit=[&](const Seg& s, uint32_t o){ return o>=64 ? 0u : (unsigned)((s.c>>o)&1); };
          if (sa_.sym==0 && sb.sym==0) {
            uint32_t n=std::min<uint32_t>(l-q,64); 
            uint64_t ca = (oi+q)>=64?0:(sa_.c>>(oi+q)), cb=(oj+q)>=64?0:(sb.c>>(oj+q));
            uint64_t m = n==64?~0ull:((1ull<<n)-1); ca&=m; cb&=m;
            uint64_t c = opc==Instruction::And?ca&cb:opc==Instruction::Or?ca|cb:ca^cb; r.segs.push_back({0,0,n,c}); q+=n; continue;
          }
          const Seg& k = sa_.sym==0?sa_:sb; uint32_t ko = sa_.sym==0?oi:oj; const Seg& v = sa_.sym==0?sb:sa_; uint32_t vo = sa_.sym==0?oj:oi;
          unsigned b0=bit(k,ko+q); uint32_t n=1; while (q+n<l && bit(k,ko+q+n)==b0) n++;
          bool keep = (opc==Instruction::And && b0) || (opc==Instruction::Or && !b0) || (opc==Instruction::Xor && !b0);
          if (keep) r.segs.push_back({v.sym,v.start+vo+q,n,0});
          else if (opc==Instruction::And) r.segs.push_back({0,0,n,0});
          else if (opc==Instruction::Or) { uint32_t t=n; while (t) { uint32_t m=std::min<uint32_t>(t,64); r.segs.push_back({0,0,m,m==64?~0ull:((1ull<<m)-1)}); t-=m; } }
          else { // xor with ones: opaque inverse per run
            Val x; x.width=n; x.segs.push_back({v.sym,v.start+vo+q,n,0}); ValId xv=internVal(std::move(x));
            ValId nv = n==1?bnot1(xv):op(OP_NOT,n,{xv}); for (auto& s : vals[nv].segs) r.segs.push_back(s); }
          q+=n;
        }
      } else if (sa_.sym==sb.sym && sa_.start+oi==sb.start+oj && opc!=Instruction::Xor) {
        r.segs.push_back({sa_.sym,sa_.start+oi,l,0});
      } else {
        Val x,y; x.width=y.width=l; x.segs.push_back({sa_.sym,sa_.start+oi,l,0}); y.segs.push_back({sb.sym,sb.start+oj,l,0});
        ValId xv=internVal(std::move(x)), yv=internVal(std::move(y)); if (xv>yv) std::swap(xv,yv);
        ValId o=op(opc,l,{xv,yv}); for (auto& s : vals[o].segs) r.segs.push_back(s);
      }
      oi+=l; oj+=l; pos+=l; if (oi==sa_.len) { i++; oi=0; } if (oj==sb.len) { j++; oj=0; }
    }
    return internVal(std::move(r));
  }
  ValId shl(ValId a, uint64_t n) { uint32_t w=vals[a].width; if (n>=w) return constant(w,0); if (!n) return a; Val r; r.width=w; r.segs.push_back({0,0,(uint32_t)n,0}); ValId s=slice(a,0,w-n); for (auto& x : vals[s].segs) r.segs.push_back(x); return internVal(std::move(r)); }
  ValId lshr(ValId a, uint64_t n) { uint32_t w=vals[a].width; if (n>=w) return constant(w,0); if (!n) return a; return zext(slice(a,n,w-n),w); }
  ValId signBit(ValId a) { return slice(a, vals[a].width-1, 1); }
  ValId sext(ValId a, uint32_t w, const State* s) {
    uint32_t ow=vals[a].width; ValId sb=signBit(a); if (s) sb=applyFacts(sb,*s); uint64_t c;
    if (isConst(sb,c)) { if (!c) return zext(a,w); Val r=vals[a]; r.width=w; uint32_t t=w-ow; while (t) { uint32_t m=std::min<uint32_t>(t,64); r.segs.push_back({0,0,m,m==64?~0ull:((1ull<<m)-1)}); t-=m; } return internVal(std::move(r)); }
    return op(Instruction::SExt,w,{a});
  }

  // ---- facts -------------------------------------------------------------------------------------------------
  ValId applyFacts(ValId v, const State& s) {
    if (s.facts.empty()) return v;
    bool any=false; Val r; r.width=vals[v].width;
    for (auto& sg : vals[v].segs) {
      if (!sg.sym) { r.segs.push_back(sg); continue; }
      uint32_t pos=sg.start, end=sg.start+sg.len;
      auto it=s.facts.lower_bound({sg.sym,0});
      std::vector<std::tuple<uint32_t,uint32_t,uint64_t>> fs; for (; it!=s.facts.end() && it->first.first==sg.sym; ++it) { uint32_t a=it->first.second, b=a+it->second.first; if (a<end && b>pos) fs.push_back({a,b,it->second.second}); }
      for (auto& [a,b,c] : fs) { if (a>pos) { r.segs.push_back({sg.sym,pos,a-pos,0}); pos=a; }
        uint32_t lo=std::max(a,pos), hi=std::min(b,end); if (lo<hi) { uint64_t cc=c>>(lo-a); uint32_t n=hi-lo; if (n<64) cc&=(1ull<<n)-1; r.segs.push_back({0,0,n,cc}); pos=hi; any=true; } }
      if (pos<end) r.segs.push_back({sg.sym,pos,end-pos,0});
    }
    if (!any) return v;
    return internVal(std::move(r));
  }
  bool setFact(State& s, SymId sym, uint32_t start, uint32_t len, uint64_t c) {
    // split into <=64 runs; check contradictions against existing facts
    if (len>64) return true;
    Val q; q.width=len; q.segs.push_back({sym,start,len,0}); ValId cur=applyFacts(internVal(std::move(q)),s);
    uint32_t pos=0; bool changed=false;
    for (auto& sg : vals[cur].segs) { if (!sg.sym) { uint64_t want=(c>>pos); if (sg.len<64) want&=(1ull<<sg.len)-1; if (want!=sg.c) return false; } else changed=true; pos+=sg.len; }
    if (!changed) return true;
    // remove overlapped facts fully inside and re-add the combined run
    std::vector<std::pair<SymId,uint32_t>> del; for (auto it=s.facts.lower_bound({sym,0}); it!=s.facts.end() && it->first.first==sym; ++it) { uint32_t a=it->first.second,b=a+it->second.first; if (a>=start && b<=start+len) del.push_back(it->first); else if (a<start+len && b>start) { /* partial overlap: set bit by bit below */ for (uint32_t i=0;i<len;i++) { uint32_t p=start+i; if (p>=a && p<b) continue; bool cov=false; for (auto jt=s.facts.lower_bound({sym,0}); jt!=s.facts.end() && jt->first.first==sym; ++jt) if (p>=jt->first.second && p<jt->first.second+jt->second.first) cov=true; if (!cov) s.facts[{sym,p}]={1,(c>>i)&1}; } return true; } }
    for (auto& d : del) s.facts.erase(d);
    s.facts[{sym,start}]={len,c}; return true;
  }
  void range(ValId v, const State& s, uint64_t& lo, uint64_t& hi, int depth=0) {
    uint32_t w=vals[v].width; uint64_t c; hi = w>=64?~0ull:((1ull<<w)-1); lo=0;
    v=applyFacts(v,s);
    if (isConst(v,c)) { lo=hi=c; return; }
    if (w>64) return;
    auto it=s.ranges.find(v); if (it!=s.ranges.end()) { lo=it->second.first; hi=it->second.second; }
    // known bits
    uint64_t z=0,o=0; uint32_t pos=0; for (auto& sg : vals[v].segs) { if (!sg.sym) { uint64_t m=sg.len>=64?~0ull:((1ull<<sg.len)-1); o|=(sg.c&m)<<pos; z|=((~sg.c)&m)<<pos; } pos+=sg.len; }
    uint64_t m = w>=64?~0ull:((1ull<<w)-1); lo=std::max(lo,o); hi=std::min(hi,(~z)&m);
    if (depth>6) return;
    // zero-extended low part
    auto& V=vals[v]; if (V.segs.size()==2 && V.segs[1].sym==0 && V.segs[1].c==0) { uint64_t l,h; range(slice(v,0,V.segs[0].len),s,l,h,depth+1); lo=std::max(lo,l); hi=std::min(hi,h); return; }
    // scaled value: low constant zero bits
    if (V.segs.size()>=2 && V.segs[0].sym==0 && V.segs[0].c==0 && V.segs[0].len<64) { uint32_t k=V.segs[0].len; uint64_t l,h; range(slice(v,k,w-k),s,l,h,depth+1); lo=std::max(lo,l<<k); if (h<=(m>>k)) hi=std::min(hi,h<<k); return; }
    if (auto* sy=fullSym(v)) if (sy->kind==SK_Op) {
      uint64_t al,ah,bl,bh;
      switch (sy->op) {
        case Instruction::Add: { uint64_t k; range(sy->ops[0],s,al,ah,depth+1); if (isConst(sy->ops[1],k)) { if (ah<=m-k) { lo=std::max(lo,al+k); hi=std::min(hi,ah+k); } else if (al+k>m || (al+k)<k) { lo=std::max(lo,(al+k)&m); hi=std::min(hi,(ah+k)&m);} else if (sx(k,w)<0 && al>=(uint64_t)(-sx(k,w))) { lo=std::max(lo,(al+k)&m); hi=std::min(hi,(ah+k)&m);} } else { range(sy->ops[1],s,bl,bh,depth+1); if (ah<=m-bh) { lo=std::max(lo,al+bl); hi=std::min(hi,ah+bh);} } break; }
        case Instruction::Mul: { range(sy->ops[0],s,al,ah,depth+1); range(sy->ops[1],s,bl,bh,depth+1); __uint128_t p=(__uint128_t)ah*bh; if (p<=m) { lo=std::max(lo,al*bl); hi=std::min(hi,(uint64_t)p);} break; }
        case Instruction::And: { range(sy->ops[0],s,al,ah,depth+1); range(sy->ops[1],s,bl,bh,depth+1); hi=std::min(hi,std::min(ah,bh)); break; }
        case Instruction::LShr: case Instruction::UDiv: { range(sy->ops[0],s,al,ah,depth+1); uint64_t k; hi=std::min(hi,ah); if (sy->op==Instruction::UDiv && isConst(sy->ops[1],k) && k) hi=std::min(hi,ah/k); break; }
        case Instruction::URem: { range(sy->ops[1],s,bl,bh,depth+1); if (bh) hi=std::min(hi,bh-1); break; }
        case OP_UMIN: range(sy->ops[0],s,al,ah,depth+1); range(sy->ops[1],s,bl,bh,depth+1); hi=std::min(hi,std::min(ah,bh)); lo=std::max(lo,std::min(al,bl)); break;
        case OP_UMAX: range(sy->ops[0],s,al,ah,depth+1); range(sy->ops[1],s,bl,bh,depth+1); hi=std::min(hi,std::max(ah,bh)); lo=std::max(lo,std::max(al,bl)); break;
        case OP_SELECT: range(sy->ops[1],s,al,ah,depth+1); range(sy->ops[2],s,bl,bh,depth+1); lo=std::max(lo,std::min(al,bl)); hi=std::min(hi,std::max(ah,bh)); break;
        default: break;
      }
    }
    if (lo>hi) lo=hi;
  }
  bool setRange(State& s, ValId v, uint64_t lo, uint64_t hi) {
    // strip zero-extension so that the narrow value carries the range
    Val V=vals[v]; if (V.segs.size()==2 && V.segs[1].sym==0 && V.segs[1].c==0) { uint32_t l=V.segs[0].len; uint64_t m=l>=64?~0ull:((1ull<<l)-1); if (lo>m) return false; return setRange(s, slice(v,0,l), lo, std::min(hi,m)); }
    uint64_t l,h; range(v,s,l,h); if (lo>h||hi<l) return false; l=std::max(l,lo); h=std::min(h,hi); if (l>h) return false;
    if (l==h) return learnEq(s,v,l);
    s.ranges[v]={l,h};
    if (V.segs.size()==1 && V.segs[0].sym && V.width<=64 && h) { uint32_t k=64-__builtin_clzll(h); if (k<V.width) { Seg g=V.segs[0]; if (!setFact(s,g.sym,g.start+k,g.len-k,0)) return false; } }
    if (auto* sy=fullSym(v)) if (sy->kind==SK_Op && sy->op==Instruction::Add) { uint64_t k; if (isConst(sy->ops[1],k)) { uint32_t w=V.width; uint64_t m=w>=64?~0ull:((1ull<<w)-1); uint64_t nl=(l-k)&m, nh=(h-k)&m; if (nl<=nh) setRange(s, sy->ops[0], nl, nh); } }
    return true;
  }
  bool learnEq(State& s, ValId v, uint64_t c) {
    v=applyFacts(v,s); uint32_t pos=0; auto segs=vals[v].segs; uint32_t w=vals[v].width;
    { uint64_t l,h; range(v,s,l,h); if (c<l||c>h) return false; }
    for (auto& sg : segs) { uint64_t part = pos>=64?0:(c>>pos); if (sg.len<64) part&=(1ull<<sg.len)-1;
      if (!sg.sym) { if (sg.c!=part) return false; } else { if (sg.len<=64 && !setFact(s,sg.sym,sg.start,sg.len,part)) return false; } pos+=sg.len; }
    if (auto* sy=fullSym(v)) if (sy->kind==SK_Op) {
      uint64_t k;
      if (sy->op==Instruction::Add && isConst(sy->ops[1],k)) { ValId o=sy->ops[0]; uint64_t m=w>=64?~0ull:((1ull<<w)-1); return learnEq(s,o,(c-k)&m); }
      if (sy->op==Instruction::SExt) { ValId o=sy->ops[0]; uint32_t ow=vals[o].width; uint64_t m=ow>=64?~0ull:((1ull<<ow)-1); return learnEq(s,o,c&m); }
      if (w==1) return learn(s,v,c);
      if (sy->op==Instruction::Or && c==0) { auto os=sy->ops; for (auto o : os) if (!learnEq(s,o,0)) return false; }
      if (sy->op==Instruction::And && w<=64 && c==(w>=64?~0ull:((1ull<<w)-1))) { auto os=sy->ops; for (auto o : os) if (!learnEq(s,o,c)) return false; }
    }
    return true;
  }
  bool learn(State& s, ValId v, bool t) {
    v=applyFacts(v,s); uint64_t c; if (isConst(v,c)) return (c!=0)==t;
    auto sg=vals[v].segs[0]; if (!setFact(s,sg.sym,sg.start,1,t)) return false;
    auto* sy=fullSym(v); if (!sy || sy->kind!=SK_Op) return true;
    auto ops=sy->ops; unsigned o=sy->op;
    switch (o) {
      case OP_NOT: return learn(s,ops[0],!t);
      case OP_EQ: { uint64_t k; if (isConst(ops[1],k)) { if (t) return learnEq(s,ops[0],k); uint64_t l,h; range(ops[0],s,l,h); if (l==h&&l==k) return false; if (k==l) return setRange(s,ops[0],l+1,h); if (k==h) return setRange(s,ops[0],l,h-1);
            return true; }
          if (t) { uint64_t l,h; range(ops[0],s,l,h); if (!setRange(s,ops[1],l,h)) return false; range(ops[1],s,l,h); return setRange(s,ops[0],l,h); }
          return true; }
      case OP_ULT: { uint64_t al,ah,bl,bh; range(ops[0],s,al,ah); range(ops[1],s,bl,bh);
          if (t) { if (!bh || al>=bh) return false; if (!setRange(s,ops[0],al,std::min(ah,bh-1))) return false; return setRange(s,ops[1],std::max(bl,al+1),bh); }
          if (ah<bl) return false; if (!setRange(s,ops[0],std::max(al,bl),ah)) return false; return setRange(s,ops[1],bl,std::min(bh,ah)); }
      case OP_SLT: { uint64_t k; uint32_t w=vals[ops[0]].width; if (w>64) return true; uint64_t al,ah; 
          // only refine when known non-negative
          if (isConst(ops[1],k) && sx(k,w)>=0) { range(ops[0],s,al,ah); uint64_t smax=(w>=64?~0ull:((1ull<<w)-1))>>1; if (ah<=smax) { if (t) { if (!k) return false; return setRange(s,ops[0],al,std::min(ah,k-1)); } return setRange(s,ops[0],std::max(al,k),ah); } if (!t) return setRange(s,ops[0],k,smax); }
          if (isConst(ops[0],k) && sx(k,w)>=0 && t) { uint64_t smax=(w>=64?~0ull:((1ull<<w)-1))>>1; return setRange(s,ops[1],k+1,smax); }
          return true; }
      case Instruction::And: if (t) return learn(s,ops[0],true) && learn(s,ops[1],true); return true;
      case Instruction::Or: if (!t) return learn(s,ops[0],false) && learn(s,ops[1],false); return true;
      case OP_SELECT: { uint64_t k; if (isConst(ops[2],k) && !k && t) return learn(s,ops[0],true) && learn(s,ops[1],true); if (isConst(ops[1],k) && k && !t) return learn(s,ops[0],false) && learn(s,ops[2],false); return true; }
    }
    return true;
  }
  bool nonNull(ValId p, const State& s) {
    uint64_t c; p=applyFacts(p,s); if (isConst(p,c)) return c!=0;
    Ptr q=split(p); if (!q.r) return true; if (q.r->kind!=RK_Deref) return true; if (q.off || q.var) return true;
    uint64_t l,h; range(p,s,l,h); if (l>0) return true; return false;
  }
  ValId icmpEq(ValId a, ValId b, const State& s) {
    a=applyFacts(a,s); b=applyFacts(b,s); uint64_t x,y;
    if (a==b) return constant(1,1);
    if (isConst(a,x)) { std::swap(a,b); }
    if (isConst(a,x) && isConst(b,y)) return constant(1,x==y);
    // constant bits that disagree
    { size_t i=0,j=0; uint32_t oi=0,oj=0,pos=0,w=vals[a].width; auto&A=vals[a].segs; auto&B=vals[b].segs; while (pos<w) { auto&p=A[i];auto&q=B[j]; uint32_t l=std::min(p.len-oi,q.len-oj); if (!p.sym&&!q.sym) { uint64_t ca=oi>=64?0:p.c>>oi, cb=oj>=64?0:q.c>>oj; uint64_t m=l>=64?~0ull:((1ull<<l)-1); if ((ca&m)!=(cb&m)) return constant(1,0);} oi+=l;oj+=l;pos+=l; if (oi==p.len){i++;oi=0;} if (oj==q.len){j++;oj=0;} } }
    uint64_t al,ah,bl,bh; range(a,s,al,ah); range(b,s,bl,bh); if (vals[a].width<=64 && (ah<bl || bh<al)) return constant(1,0);
    if (isConst(b,y)) {
      auto* sy=fullSym(a);
      if (sy && sy->kind==SK_Op && sy->op==Instruction::Add) { uint64_t k; if (isConst(sy->ops[1],k)) { Ptr p=split(a); if (!(p.r && y==0)) { return icmpEq(sy->ops[0], constant(vals[a].width,y-k), s); } } }
      if (sy && sy->kind==SK_Op && sy->op==Instruction::SExt) { ValId o=sy->ops[0]; uint32_t ow=vals[o].width; if (sx(y,vals[a].width)==sx(y,ow)) return icmpEq(o,constant(ow,y),s); return constant(1,0); }
      if (sy && sy->kind==SK_Op && sy->op==OP_SELECT) { uint64_t k1,k2; if (isConst(sy->ops[1],k1) && isConst(sy->ops[2],k2)) { if (k1==y && k2!=y) return applyFacts(sy->ops[0],s); if (k1!=y && k2==y) return bnot1(applyFacts(sy->ops[0],s)); if (k1!=y && k2!=y) return constant(1,0); } }
      if (y==0 && vals[a].width==64 && sy && (sy->kind==SK_Addr || (sy->kind==SK_Op && (sy->op==OP_PTRADD || sy->op==Instruction::Add)))) { Ptr p=split(a); if (p.r && nonNull(a,s)) return constant(1,0); }
      // single unknown bit
      int unk=-1; uint32_t pos=0; bool multi=false; uint32_t cnt=0; for (auto& sg : vals[a].segs) { if (sg.sym) { cnt+=sg.len; if (sg.len!=1) multi=true; unk=pos; } pos+=sg.len; }
      if (!multi && cnt==1) { ValId bit=slice(a,unk,1); return ((y>>unk)&1)?bit:bnot1(bit); }
      if (vals[a].segs.size()>1 && y==0) { // compare only the unknown part
        std::vector<Seg> u; uint32_t w=0; for (auto& sg : vals[a].segs) if (sg.sym) { u.push_back(sg); w+=sg.len; } if (w && w!=vals[a].width && w<=64) { Val r; r.width=w; r.segs=u; ValId rv=internVal(std::move(r)); return applyFacts(op(OP_EQ,1,{rv,constant(w,0)}),s); } }
    } else if (vals[a].width==64) {
      Ptr p=split(a), q=split(b);
      if (p.r && q.r && p.r!=q.r) {
        auto distinct=[&](Region* r){ return r->kind==RK_Heap||r->kind==RK_Stack; };
        if (p.r->isolated || q.r->isolated) return constant(1,0);
        if ((distinct(p.r) && (q.r->kind!=RK_Deref || derefIsOld(q.r))) || (distinct(q.r) && (p.r->kind!=RK_Deref || derefIsOld(p.r)))) return constant(1,0);
        if (p.r->kind==RK_Global && q.r->kind==RK_Global && !p.var && !q.var) return constant(1,0);
      } else if (p.r && p.r==q.r && !p.var && !q.var) return constant(1,p.off==q.off);
    }
    if (vals[a].width==64 && !isConst(b,y) && !s.ranges.empty()) { uint64_t l,h; ValId d=sub(a,b); range(d,s,l,h); if (l) return constant(1,0); d=sub(b,a); range(d,s,l,h); if (l) return constant(1,0); }
    if (vals[a].width==1) { ValId x1=bitop(Instruction::Xor,a,b); return bnot1(x1); }
    if (!isConst(b,y) && a>b) std::swap(a,b);
    return applyFacts(op(OP_EQ,1,{a,b}),s);
  }
  bool derefIsOld(Region* r) { // pointer value loaded from memory that existed on entry, or an argument
    auto& V=vals[r->base]; if (V.segs.empty() || !V.segs[0].sym) return false; auto& sy=syms[V.segs[0].sym];
    if (sy.kind==SK_Arg) return true; if (sy.kind==SK_Mem && sy.gen==0 && sy.region->kind==RK_Deref) return derefIsOld(sy.region);
    if (sy.kind==SK_Mem && sy.gen==0 && sy.region->kind==RK_Global) return true; return false;
  }
  ValId icmpUlt(ValId a, ValId b, const State& s) {
    a=applyFacts(a,s); b=applyFacts(b,s); if (a==b) return constant(1,0);
    uint64_t al,ah,bl,bh; if (vals[a].width<=64) { range(a,s,al,ah); range(b,s,bl,bh); if (ah<bl) return constant(1,1); if (al>=bh) return constant(1,0);
      if (bl==1 && bh==1) return icmpEq(a,constant(vals[a].width,0),s); 
      if (isConst(b)&&vals[a].width<=64) { uint64_t m=vals[a].width>=64?~0ull:((1ull<<vals[a].width)-1); if (bl==m) return bnot1(icmpEq(a,b,s)); }
      if (isConst(a) && al==0) return bnot1(icmpEq(b,a,s)); }
    // strip common zero extension
    auto zx=[&](ValId v){ auto&V=vals[v]; return (V.segs.size()>=2 && V.segs.back().sym==0 && V.segs.back().c==0)?V.width-V.segs.back().len:V.width; };
    uint32_t n=std::max(zx(a),zx(b)); if (n<vals[a].width && n>0) { uint64_t c; if (!(isConst(a,c)) ) if (!(isConst(b,c) && n<vals[b].width && (c>>n))) { return icmpUlt(slice(a,0,n),slice(b,0,n),s);} }
    return applyFacts(op(OP_ULT,1,{a,b}),s);
  }
  ValId icmpSlt(ValId a, ValId b, const State& s) {
    a=applyFacts(a,s); b=applyFacts(b,s); if (a==b) return constant(1,0); uint64_t x,y; uint32_t w=vals[a].width;
    if (isConst(b,y) && y==0) return applyFacts(signBit(a),s);
    if (isConst(a,x) && w<=64 && sx(x,w)==-1) return bnot1(applyFacts(signBit(b),s));
    ValId sa_=applyFacts(signBit(a),s), sb=applyFacts(signBit(b),s); uint64_t p,q;
    if (isConst(sa_,p) && isConst(sb,q)) { if (p!=q) return constant(1,p?1:0); return icmpUlt(a,b,s); }
    uint64_t al,ah,bl,bh; range(a,s,al,ah); range(b,s,bl,bh); if (w<=64) { uint64_t smax=(w>=64?~0ull:((1ull<<w)-1))>>1; if (ah<=smax && bh<=smax) return icmpUlt(a,b,s); }
    return applyFacts(op(OP_SLT,1,{a,b}),s);
  }
  ValId icmp(CmpInst::Predicate p, ValId a, ValId b, const State& s) {
    switch (p) {
      case CmpInst::ICMP_EQ: return icmpEq(a,b,s);
      case CmpInst::ICMP_NE: return bnot1(icmpEq(a,b,s));
      case CmpInst::ICMP_ULT: return icmpUlt(a,b,s);
      case CmpInst::ICMP_UGT: return icmpUlt(b,a,s);
      case CmpInst::ICMP_UGE: return bnot1(icmpUlt(a,b,s));
      case CmpInst::ICMP_ULE: return bnot1(icmpUlt(b,a,s));
      case CmpInst::ICMP_SLT: return icmpSlt(a,b,s);
      case CmpInst::ICMP_SGT: return icmpSlt(b,a,s);
      case CmpInst::ICMP_SGE: return bnot1(icmpSlt(a,b,s));
      case CmpInst::ICMP_SLE: return bnot1(icmpSlt(b,a,s));
      default: return op(OP_FCMP,1,{a,b},p);
    }
  }

  // ---- memory ------------------------------------------------------------------------------------------------
  static constexpr int64_t kBias = 1<<16;
  ValId imageSlice(Region* r, uint32_t gen, int64_t off, uint32_t bytes) {
    Sym s; s.kind=SK_Mem; s.width=0x7FFFFFFF; s.region=r; s.gen=gen; SymId id=internSym(std::move(s));
    int64_t bit=(off+kBias)*8; Val v; v.width=bytes*8;
    if (bit<0 || bit+(int64_t)bytes*8>0x7FFFFFFF) { return fresh(bytes*8, r->v, r->id, off, SK_Fresh); }
    v.segs.push_back({id,(uint32_t)bit,bytes*8,0}); return internVal(std::move(v));
  }
  ValId initialBytes(Region* r, const RegMem* m, int64_t off, uint32_t bytes) {
    // split at kill boundaries
    if (m) for (size_t i=m->kills.size(); i-->0;) { auto& k=m->kills[i]; if (off<k.hi && off+(int64_t)bytes>k.lo) {
        int64_t lo=std::max(off,k.lo), hi=std::min(off+(int64_t)bytes,k.hi);
        RegMem rest; rest.kills.assign(m->kills.begin(), m->kills.begin()+i);
        ValId v=imageSlice(r,k.gen,lo,hi-lo);
        if (lo>off) v=concat(initialBytes(r,&rest,off,lo-off),v);
        if (hi<off+(int64_t)bytes) v=concat(v,initialBytes(r,&rest,hi,off+bytes-hi));
        return v; } }
    if (r->kind==RK_Global && r->constant) if (auto* gv=dyn_cast<GlobalVariable>(r->v)) if (gv->hasInitializer() && off>=0) {
      ValId v=readConst(gv->getInitializer(), off, bytes); if (v) return v; }
    if (r->zeroLo!=r->zeroHi && off>=r->zeroLo && off+(int64_t)bytes<=r->zeroHi && bytes<=8) return constant(bytes*8,0);
    return imageSlice(r,0,off,bytes);
  }
  ValId readConst(const Constant* init, int64_t off, uint32_t bytes) {
    if (bytes==0) return 0;
    if (bytes<=8) {
      Type* ty=IntegerType::get(C, bytes*8);
      if (Constant* k=ConstantFoldLoadFromConst(const_cast<Constant*>(init), ty, APInt(64,off), DL)) { if (auto* ci=dyn_cast<ConstantInt>(k)) return constant(bytes*8, ci->getZExtValue()); if (isa<UndefValue>(k)||isa<PoisonValue>(k)) return constant(bytes*8,0); }
      if (bytes==8) if (Constant* k=ConstantFoldLoadFromConst(const_cast<Constant*>(init), PointerType::get(C,0), APInt(64,off), DL)) return evalConst(k);
      return 0;
    }
    if (bytes>65536) return 0;
    Val v; v.width=bytes*8; for (uint32_t o=0;o<bytes;o+=8) { ValId p=readConst(init,off+o,std::min<uint32_t>(8,bytes-o)); if (!p) return 0; for (auto& s : vals[p].segs) v.segs.push_back(s); }
    return internVal(std::move(v));
  }
  const RegMem* memOf(const State& s, Region* r) { auto it=s.mem.find(r->id); return it==s.mem.end()?nullptr:it->second.get(); }
  RegMem& mut(State& s, Region* r, std::shared_ptr<RegMem>& hold) { auto it=s.mem.find(r->id); hold = it==s.mem.end()?std::make_shared<RegMem>():std::make_shared<RegMem>(*it->second); s.mem[r->id]=hold; return *hold; }
  ValId load(const State& s, Region* r, int64_t off, uint32_t bytes) {
    const RegMem* m=memOf(s,r); if (!m) return initialBytes(r,nullptr,off,bytes);
    auto ex=m->cells.find(off); if (ex!=m->cells.end() && vals[ex->second].width==bytes*8) return ex->second;
    int64_t pos=off,end=off+bytes; ValId acc=0; auto app=[&](ValId v){ acc = acc?concat(acc,v):v; };
    auto it=m->cells.upper_bound(off); if (it!=m->cells.begin()) --it;
    for (; it!=m->cells.end() && it->first<end; ++it) { int64_t a=it->first,b=a+vals[it->second].width/8; if (b<=pos) continue;
      if (a>pos) { app(initialBytes(r,m,pos,a-pos)); pos=a; }
      int64_t e=std::min(b,end); app(slice(it->second,(pos-a)*8,(e-pos)*8)); pos=e; }
    if (pos<end) app(initialBytes(r,m,pos,end-pos));
    return acc;
  }
  void eraseRange(RegMem& m, int64_t lo, int64_t hi) {
    auto it=m.cells.upper_bound(lo); if (it!=m.cells.begin()) --it;
    std::vector<std::pair<int64_t,ValId>> addc; std::vector<int64_t> del;
    for (; it!=m.cells.end() && it->first<hi; ++it) { int64_t a=it->first,b=a+vals[it->second].width/8; if (b<=lo) continue; del.push_back(a);
      if (a<lo) addc.push_back({a,slice(it->second,0,(lo-a)*8)}); if (b>hi) addc.push_back({hi,slice(it->second,(hi-a)*8,(b-hi)*8)}); }
    for (auto d : del) m.cells.erase(d); for (auto& p : addc) m.cells[p.first]=p.second;
    m.vars.erase(std::remove_if(m.vars.begin(),m.vars.end(),[&](VarCell& v){ return v.lo<hi && v.hi>lo; }), m.vars.end());
  }
  void store(State& s, Region* r, int64_t off, ValId v) { std::shared_ptr<RegMem> h; RegMem& m=mut(s,r,h); int64_t n=vals[v].width/8; if (n<=0) return; eraseRange(m,off,off+n); m.cells[off]=v; }
  void killRange(State& s, Region* r, int64_t lo, int64_t hi, uint32_t g) {
    if (r->constant) return;
    std::shared_ptr<RegMem> h; RegMem& m=mut(s,r,h); eraseRange(m,lo,hi);
    m.kills.erase(std::remove_if(m.kills.begin(),m.kills.end(),[&](Kill& k){ return k.lo>=lo && k.hi<=hi; }), m.kills.end()); m.kills.push_back({lo,hi,g});
  }
  static constexpr int64_t INF = 1ll<<40;
  void havoc(State& s, Region* r, const Value* site, CtxId ctx) { killRange(s,r,-INF,INF,gen(site,ctx,r->id)); }
  // extent of a variable access relative to the region
  void varExtent(const State& s, ValId ptr, const Ptr& p, uint32_t bytes, int64_t& lo, int64_t& hi) {
    lo=p.off; hi=INF;
    // strip constant to look up the array extent
    ValId b=ptr; if (auto* sy=fullSym(ptr)) if (sy->kind==SK_Op && sy->op==Instruction::Add) b=sy->ops[0];
    auto it=ptrExtent.find(ptr); if (it!=ptrExtent.end()) hi=std::min(hi,p.off+it->second);
    if (p.var!=0xFFFFFFFFu && p.var) { uint64_t l,h; range(p.var,s,l,h); if (h < (1u<<24)) { hi=std::min(hi,p.off+(int64_t)h+(int64_t)bytes); } if (l<(1u<<24) && l>0) lo+=l; }
    (void)b;
  }
  ValId loadPtr(State& s, ValId ptr, uint32_t bytes, const Instruction* I, CtxId ctx) {
    ptr=applyFacts(ptr,s); Ptr p=split(ptr);
    if (p.null || !p.r) { if (client && p.null && p.off<4096 && p.off>=0) client->onNullDeref(*this,s,ptr,I,ctx); return fresh(bytes*8,I,ctx); }
    if (client) client->onLoad(*this,s,p.r,p.off,p.var!=0,bytes,I,ctx);
    if (!p.var) return load(s,p.r,p.off,bytes);
    if (auto* m=memOf(s,p.r)) for (auto& vc : m->vars) if (vc.ptr==ptr && vc.width==bytes*8) return vc.val;
    // pure read of memory at a variable offset: number it by (pointer, generation) if nothing wrote the extent
    int64_t lo,hi; varExtent(s,ptr,p,bytes,lo,hi); auto* m=memOf(s,p.r); bool clean=true; uint64_t g=0;
    if (m) { for (auto& c : m->cells) if (c.first<hi && c.first+(int64_t)vals[c.second].width/8>lo) { clean=false; } for (auto& k : m->kills) if (k.lo<hi && k.hi>lo) { g=g*31+k.gen; } }
    if (clean) return op(OP_INTR,bytes*8,{ptr},(int64_t)(0x4C000000+g));
    return fresh(bytes*8,I,ctx);
  }
  void storePtr(State& s, ValId ptr, ValId v, const Instruction* I, CtxId ctx) {
    ptr=applyFacts(ptr,s); Ptr p=split(ptr); uint32_t bytes=vals[v].width/8;
    if (p.null || !p.r) { if (client && p.null && p.off<4096 && p.off>=0) client->onNullDeref(*this,s,ptr,I,ctx); return; }
    if (client) client->onStore(*this,s,p.r,p.off,p.var!=0,v,bytes,I,ctx);
    if (!p.var) { store(s,p.r,p.off,v); return; }
    int64_t lo,hi; varExtent(s,ptr,p,bytes,lo,hi); killRange(s,p.r,lo,hi,gen(I,ctx,p.r->id));
    std::shared_ptr<RegMem> h; RegMem& m=mut(s,p.r,h); m.vars.push_back({ptr,bytes*8,v,lo,hi});
  }
  void copyMem(State& s, ValId dst, ValId src, ValId len, const Instruction* I, CtxId ctx) {
    dst=applyFacts(dst,s); src=applyFacts(src,s); len=applyFacts(len,s); uint64_t n; Ptr d=split(dst), q=split(src);
    bool cl=isConst(len,n); if (cl && n==0) return;
    if (d.null||!d.r) { if (client && d.null && d.off<4096 && cl) client->onNullDeref(*this,s,dst,I,ctx); return; }
    if (q.null||!q.r) { if (client && q.null && q.off<4096 && cl) client->onNullDeref(*this,s,src,I,ctx); }
    if (client) { if (q.r) client->onLoad(*this,s,q.r,q.off,q.var!=0,cl?n:0,I,ctx); client->onStore(*this,s,d.r,d.off,d.var!=0,0,cl?n:0,I,ctx); }
    if (cl && !d.var && q.r && !q.var && n<=65536) { ValId v=load(s,q.r,q.off,n); store(s,d.r,d.off,v); return; }
    int64_t lo,hi; if (d.var) { varExtent(s,dst,d,cl?n:1,lo,hi); if (!cl) hi=INF; } else { lo=d.off; uint64_t l,h; range(len,s,l,h); hi = cl?lo+(int64_t)n : h<(1u<<24)?lo+(int64_t)h:INF; }
    killRange(s,d.r,lo,hi,gen(I,ctx,d.r->id));
  }
  void setMem(State& s, ValId dst, ValId byte, ValId len, const Instruction* I, CtxId ctx) {
    dst=applyFacts(dst,s); len=applyFacts(len,s); uint64_t n,b; Ptr d=split(dst); bool cl=isConst(len,n); if (cl&&n==0) return;
    if (d.null||!d.r) { if (client && d.null && d.off<4096 && cl) client->onNullDeref(*this,s,dst,I,ctx); return; }
    if (client) client->onStore(*this,s,d.r,d.off,d.var!=0,0,cl?n:0,I,ctx);
    if (cl && !d.var && isConst(byte,b) && n<=65536) { if (b==0) { store(s,d.r,d.off,constant(n*8,0)); return; } if (n<=4096) { Val v; v.width=n*8; for (uint64_t i=0;i<n;i++) v.segs.push_back({0,0,8,b&255}); store(s,d.r,d.off,internVal(std::move(v))); return; } }
    int64_t lo=d.off,hi; if (d.var) { varExtent(s,dst,d,cl?n:1,lo,hi); if (!cl) hi=INF; } else { uint64_t l,h; range(len,s,l,h); hi = cl?lo+(int64_t)n : h<(1u<<24)?lo+(int64_t)h:INF; }
    killRange(s,d.r,lo,hi,gen(I,ctx,d.r->id));
  }

  // ---- constants ---------------------------------------------------------------------------------------------
  uint32_t bitsOf(Type* t) { if (!t->isSized()) return 0; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; return DL.getTypeAllocSizeInBits(t); }
  ValId padTo(ValId v, uint32_t w) { return vals[v].width==w?v:zext(v,w); }
  ValId evalConst(const Constant* k) {
    Type* t=k->getType(); uint32_t w=bitsOf(t);
    if (auto* ci=dyn_cast<ConstantInt>(k)) { if (w<=64) return constant(w,ci->getZExtValue()); Val v; v.width=w; uint32_t pos=0; while (pos<w) { uint32_t l=std::min<uint32_t>(64,w-pos); v.segs.push_back({0,0,l,ci->getValue().extractBitsAsZExtValue(l,pos)}); pos+=l; } return internVal(std::move(v)); }
    if (auto* cf=dyn_cast<ConstantFP>(k)) { APInt b=cf->getValueAPF().bitcastToAPInt(); if (w<=64) return constant(w,b.getZExtValue()); return constant(w,0); }
    if (isa<ConstantPointerNull>(k)||isa<ConstantAggregateZero>(k)||isa<UndefValue>(k)) return constant(w,0);
    if (isa<GlobalVariable>(k)||isa<Function>(k)||isa<GlobalAlias>(k)) return globalRegion(k)->base;
    if (auto* cd=dyn_cast<ConstantDataSequential>(k)) { Val v; v.width=w; for (unsigned i=0;i<cd->getNumElements();i++) { ValId e=evalConst(cd->getElementAsConstant(i)); for (auto& s : vals[e].segs) v.segs.push_back(s); } return internVal(std::move(v)); }
    if (auto* ca=dyn_cast<ConstantAggregate>(k)) {
      Val v; v.width=w; uint32_t pos=0;
      for (unsigned i=0;i<ca->getNumOperands();i++) { uint32_t off; if (auto* st=dyn_cast<StructType>(t)) off=DL.getStructLayout(st)->getElementOffsetInBits(i); else off=i*(isa<VectorType>(t)?w/ca->getNumOperands():(uint32_t)DL.getTypeAllocSizeInBits(cast<ArrayType>(t)->getElementType()));
        if (off>pos) { v.segs.push_back({0,0,off-pos,0}); pos=off; } ValId e=evalConst(ca->getOperand(i)); for (auto& s : vals[e].segs) v.segs.push_back(s); pos+=vals[e].width; }
      if (pos<w) v.segs.push_back({0,0,w-pos,0}); return internVal(std::move(v)); }
    if (auto* ce=dyn_cast<ConstantExpr>(k)) {
      if (auto* gep=dyn_cast<GEPOperator>(ce)) { APInt off(64,0); if (gep->accumulateConstantOffset(DL,off)) return add(evalConst(cast<Constant>(gep->getPointerOperand())), constant(64,off.getZExtValue())); }
      if (ce->getOpcode()==Instruction::IntToPtr||ce->getOpcode()==Instruction::PtrToInt||ce->getOpcode()==Instruction::BitCast) { ValId v=evalConst(ce->getOperand(0)); return vals[v].width>=w?slice(v,0,w):zext(v,w); }
      if (ce->getOpcode()==Instruction::Add) return add(evalConst(ce->getOperand(0)),evalConst(ce->getOperand(1)));
      if (ce->getOpcode()==Instruction::Sub) return sub(evalConst(ce->getOperand(0)),evalConst(ce->getOperand(1)));
    }
    Sym s; s.kind=SK_Fresh; s.width=w; s.v=k; s.extra=77; return ofSym(internSym(std::move(s)));
  }

  // ---- function info -----------------------------------------------------------------------------------------
  std::unordered_map<const Function*, std::unique_ptr<FuncInfo>> infos;
  FuncInfo& info(const Function* F) {
    auto& p=infos[F]; if (p) return *p; p=std::make_unique<FuncInfo>(); FuncInfo& fi=*p;
    for (auto& a : F->args()) fi.idx[&a]=fi.n++;
    for (auto& b : *F) for (auto& i : b) if (!i.getType()->isVoidTy()) fi.idx[&i]=fi.n++;
    DominatorTree DT(*const_cast<Function*>(F)); LoopInfo LI(DT);
    // order: reverse post order in which loop exits come after the loop body
    std::vector<const BasicBlock*> post; std::unordered_set<const BasicBlock*> seen;
    std::vector<std::pair<const BasicBlock*, std::vector<const BasicBlock*>>> st;
    auto succs=[&](const BasicBlock* b){ std::vector<const BasicBlock*> out,in; Loop* L=LI.getLoopFor(b); for (auto* s : successors(b)) { unsigned ds=LI.getLoopDepth(s), db=L?L->getLoopDepth():0; if (L && !L->contains(s)) out.push_back(s); else { (void)ds;(void)db; in.push_back(s);} }
      // visit exits first => they finish first in post-order => come last in RPO. deepest loop preferred last visited
      std::stable_sort(in.begin(),in.end(),[&](const BasicBlock* x,const BasicBlock* y){ return LI.getLoopDepth(x)<LI.getLoopDepth(y); });
      std::vector<const BasicBlock*> r; for (auto* x : in) r.push_back(x); 
      std::vector<const BasicBlock*> all=out; all.insert(all.end(),r.begin(),r.end()); std::reverse(all.begin(),all.end()); return all; };
    st.push_back({&F->getEntryBlock(),succs(&F->getEntryBlock())}); seen.insert(&F->getEntryBlock());
    while (!st.empty()) { auto& t=st.back(); if (t.second.empty()) { post.push_back(t.first); st.pop_back(); continue; } auto* n=t.second.back(); t.second.pop_back(); if (seen.insert(n).second) st.push_back({n,succs(n)}); }
    std::reverse(post.begin(),post.end()); for (auto* b : post) { fi.order[b]=fi.byOrder.size(); fi.byOrder.push_back(b); }
    for (auto* b : post) { std::vector<const BasicBlock*> hs; for (Loop* L=LI.getLoopFor(b); L; L=L->getParentLoop()) hs.push_back(L->getHeader()); std::reverse(hs.begin(),hs.end()); fi.loopHeaders[b]=hs; fi.isHeader[b]=LI.isLoopHeader(b); }
    // irreducible: treat any back edge target as header
    for (auto* b : post) for (auto* s : successors(b)) if (fi.order[s]<=fi.order[b] && !fi.isHeader[s]) { fi.isHeader[s]=true; }
    // liveness
    std::unordered_map<const BasicBlock*, std::set<unsigned>> live; bool ch=true;
    while (ch) { ch=false; for (size_t k=fi.byOrder.size(); k-->0;) { auto* b=fi.byOrder[k]; std::set<unsigned> l;
        for (auto* s : successors(b)) { for (auto x : live[s]) l.insert(x); for (auto& ph : s->phis()) { auto it=fi.idx.find(&ph); l.erase(it->second); } }
        for (auto* s : successors(b)) for (auto& ph : s->phis()) { auto* v=ph.getIncomingValueForBlock(b); auto it=fi.idx.find(v); if (it!=fi.idx.end()) l.insert(it->second); }
        for (auto it=b->rbegin(); it!=b->rend(); ++it) { auto& I=*it; if (isa<PHINode>(I)) continue; auto d=fi.idx.find(&I); if (d!=fi.idx.end()) l.erase(d->second); if (isa<DbgInfoIntrinsic>(I)) continue; for (auto& o : I.operands()) { auto f=fi.idx.find(o.get()); if (f!=fi.idx.end()) l.insert(f->second); } }
        for (auto& ph : b->phis()) l.insert(fi.idx[&ph]); // phis hold values on entry
        if (l!=live[b]) { live[b]=l; ch=true; } } }
    for (auto& kv : live) fi.liveIn[kv.first]=std::vector<unsigned>(kv.second.begin(),kv.second.end());
    return fi;
  }

  // ---- join --------------------------------------------------------------------------------------------------
  ValId phiVal(uint32_t w, const BasicBlock* b, CtxId ctx, int64_t slot) { return fresh(w,b,ctx,slot,SK_Phi); }
  ValId joinVal(ValId a, ValId b, const BasicBlock* bb, CtxId ctx, int64_t slot, State& into, const State& from, bool loop) {
    if (a==b) return a; if (!a||!b) return 0; if (vals[a].width!=vals[b].width) return 0;
    uint32_t w=vals[a].width; ValId ph;
    if (w==64) { Ptr p=split(a), q=split(b); ValId own=phiVal(64,bb,ctx,slot*2); bool mine=p.r && p.r->kind==RK_Deref && p.r->base==own; if (mine) { if (a!=own) joinChanged=true; return own; } if (p.r && q.r && p.r==q.r && p.r->kind!=RK_Deref) { ph=phiVal(64,bb,ctx,slot*2+1); ValId r=ptradd(p.r->base,ph); return r; }
      if (p.r && q.r && p.r==q.r && (p.off!=q.off||p.var||q.var)) { ph=phiVal(64,bb,ctx,slot*2+1); return ptradd(p.r->base,ph); } }
    ph=phiVal(w,bb,ctx,slot*2); if (debugJoin) fprintf(stderr,"JOIN %s := %s , %s at %s slot %ld loop %d\n",str(ph).c_str(),str(a).c_str(),str(b).c_str(),bb->getTerminator()->getFunction()->getName().str().c_str(),slot,loop);
    if (!loop && w<=64 && w>1) { // keep the bits on which both agree
      auto& A=vals[a].segs; auto& B=vals[b].segs; size_t i=0,j=0; uint32_t oi=0,oj=0,pos=0; std::vector<Seg> o; bool symEq=false, again=false; unsigned diff=0; SymId ps=fullSymId(ph);
      while (pos<w) { Seg p=A[i], q=B[j]; uint32_t l=std::min(p.len-oi,q.len-oj); if (l>64) l=64;
        auto cut=[](const Seg& g, uint32_t off, uint32_t len) { Seg r=g; r.len=len; if (g.sym) r.start=g.start+off; else r.c=off>=64?0:(g.c>>off)&(len>=64?~0ull:((1ull<<len)-1)); return r; };
        Seg pc=cut(p,oi,l), qc=cut(q,oj,l);
        if (pc==qc) { o.push_back(pc); if (pc.sym) symEq=true; }
        else if (!pc.sym && !qc.sym) { for (uint32_t k=0;k<l;k++) { if (((pc.c>>k)&1)==((qc.c>>k)&1)) o.push_back({0,0,1,(pc.c>>k)&1}); else { diff++; o.push_back({ps,pos+k,1,0}); } } }
        else { if (pc.sym==ps && pc.start==pos) again=true; else diff+=l==1?1:2; o.push_back({ps,pos,l,0}); }
        oi+=l; oj+=l; pos+=l; if (oi==p.len){i++;oi=0;} if (oj==q.len){j++;oj=0;} }
      if (symEq || again&&diff<=1 || diff==1) { Val r; r.width=w; r.segs=o; ValId rv=internVal(std::move(r)); if (rv!=ph) { if (rv!=a) { for (auto& g : o) if (g.sym==ps) { for (auto it=into.facts.lower_bound({ps,0}); it!=into.facts.end() && it->first.first==ps;) it=into.facts.erase(it); break; } } return rv; } }
    }
    if (w<=64) { uint64_t al,ah,bl,bh; range(a,into,al,ah); range(b,from,bl,bh); 
      if (a==ph) { // already joined: widen
        if (bl<al||bh>ah) { auto it=into.ranges.find(ph); if (it!=into.ranges.end()) { uint64_t l=bl<al?(loop?0:bl):al, h=bh>ah?!loop?bh:(w>=64?~0ull:((1ull<<w)-1)):ah; if (l==0&&h==(w>=64?~0ull:((1ull<<w)-1))) into.ranges.erase(it); else it->second={l,h}; joinChanged=true; } } }
      else { uint64_t l=std::min(al,bl),h=std::max(ah,bh); uint64_t m=w>=64?~0ull:((1ull<<w)-1); // forget stale facts about this phi
        auto si=fullSymId(ph); for (auto it=into.facts.lower_bound({si,0}); it!=into.facts.end() && it->first.first==si;) it=into.facts.erase(it);
        into.ranges.erase(ph); if (l||h!=m) into.ranges[ph]={l,h}; } }
    return ph;
  }
  bool ownPhi(ValId v, const BasicBlock* bb, CtxId ctx) { auto* y=fullSym(v); return y && y->kind==SK_Phi && y->v==bb && y->ctx==ctx; }
  bool debugForks=getenv("BLSA_FORKS")!=nullptr; bool joinChanged=false; bool debugJoin=getenv("BLSA_JOIN")!=nullptr;
  // joins `from` into `into` at block bb; returns whether into changed
  bool join(State& into, const State& from, const BasicBlock* bb, CtxId ctx, const std::vector<unsigned>& live, bool loop, bool widen=false) {
    joinChanged=false;
    // facts first (values computed with each side's facts)
    State old=into;
    for (auto it=into.facts.begin(); it!=into.facts.end();) { auto f=from.facts.find(it->first); if (f==from.facts.end() || f->second!=it->second) {
        // maybe covered with the same constant by a different split
        Val q; q.width=it->second.first; q.segs.push_back({it->first.first,it->first.second,it->second.first,0}); ValId v=applyFacts(internVal(std::move(q)),from); uint64_t c; if (isConst(v,c) && c==it->second.second) { ++it; continue; }
        it=into.facts.erase(it); joinChanged=true; } else ++it; }
    for (auto it=into.ranges.begin(); it!=into.ranges.end();) { if (!loop && ownPhi(it->first,bb,ctx) && !from.ranges.count(it->first)) { bool has=false; for (unsigned x : live) if (from.env[x]==it->first) has=true; if (!has) { ++it; continue; } } uint64_t l,h; range(it->first,from,l,h); if (l<it->second.first||h>it->second.second) { joinChanged=true; if (loop) { it=into.ranges.erase(it); continue; } it->second.first=std::min(it->second.first,l); it->second.second=std::max(it->second.second,h); } ++it; }
    // ranges known on `from` but constant facts on `into`: hull (non-loop)
    for (unsigned x : live) { ValId a=into.env[x], b=from.env[x]; if (a==b) continue; if (!a||!b) { if (a) { into.env[x]=0; joinChanged=true; } continue; }
      ValId a2=applyFacts(a,old), b2=applyFacts(b,from); ValId j = a2==b2?a2:joinVal(a2,b2,bb,ctx,x,into,from,loop); if (j!=a) { into.env[x]=j; joinChanged=true; } }
    std::set<unsigned> rs; for (auto& m : into.mem) rs.insert(m.first); for (auto& m : from.mem) rs.insert(m.first);
    for (unsigned id : rs) {
      Region* r=regions[id-1].get(); auto ia=into.mem.find(id); auto ib=from.mem.find(id);
      if (ia!=into.mem.end() && ib!=from.mem.end() && (ia->second==ib->second || *ia->second==*ib->second)) continue;
      if (ia==into.mem.end()) { if (r->kind==RK_Heap||r->kind==RK_Stack) { into.mem[id]=ib->second; joinChanged=true; continue; } }
      if (ib==from.mem.end()) { if (r->kind==RK_Heap||r->kind==RK_Stack) continue; }
      RegMem A = ia==into.mem.end()?RegMem():*ia->second; RegMem B = ib==from.mem.end()?RegMem():*ib->second; RegMem R;
      if (widen) { RegMem W; W.kills.push_back({-INF,INF,gen(bb,ctx,id*1000003ll+9)}); if (!(W==A)) { into.mem[id]=std::make_shared<RegMem>(W); joinChanged=true; } continue; }
      std::set<int64_t> cuts; auto addCuts=[&](RegMem& m){ for (auto& c : m.cells) { cuts.insert(c.first); cuts.insert(c.first+vals[c.second].width/8); } }; addCuts(A); addCuts(B);
      State sa_,sb; sa_.mem[id]=std::make_shared<RegMem>(A); sb.mem[id]=std::make_shared<RegMem>(B);
      R.kills=A.kills;
      if (!(A.kills==B.kills)) { for (auto& k : B.kills) { bool have=false; for (auto& a : A.kills) if (a==k) have=true; if (!have) { Kill nk{k.lo,k.hi,gen(bb,ctx,id*1000003ll+(k.lo<0?-1:k.lo))}; bool dup=false; for (auto& a : R.kills) if (a==nk) dup=true; if (!dup) R.kills.push_back(nk); } }
        for (auto& a : A.kills) { bool have=false; for (auto& k : B.kills) if (a==k) have=true; if (!have && std::find(R.kills.begin(),R.kills.end(),a)!=R.kills.end()) { Kill nk{a.lo,a.hi,gen(bb,ctx,id*1000003ll+(a.lo<0?-1:a.lo))}; bool dup=false; for (auto& z : R.kills) if (z==nk) dup=true; if (!dup) R.kills.push_back(nk); } }
        if (R.kills.size()>12) { R.kills.clear(); R.kills.push_back({-INF,INF,gen(bb,ctx,id*1000003ll+7)}); } }
      auto covered=[&](RegMem& m,int64_t lo,int64_t hi){ auto it=m.cells.upper_bound(lo); if (it==m.cells.begin()) return false; --it; return it->first<=lo && it->first+(int64_t)vals[it->second].width/8>=hi; };
      int64_t prev=0; bool first=true;
      for (int64_t c : cuts) { if (!first) { int64_t lo=prev,hi=c; bool ca=covered(A,lo,hi), cb=covered(B,lo,hi); if (ca||cb) { ValId ra=load(sa_,r,lo,hi-lo), rb=load(sb,r,lo,hi-lo); ValId va=ra, vb=rb; if (ra!=rb) { va=applyFacts(ra,old); vb=applyFacts(rb,from); }
            ValId j = va==vb?va:joinVal(va,vb,bb,ctx,(int64_t)1000000+id*100000ll+lo*16+(hi-lo)%16,into,from,loop); if (j) R.cells[lo]=j; } }
        prev=c; first=false; }
      for (auto& v : A.vars) for (auto& u : B.vars) if (u==v) { R.vars.push_back(v); break; }
      if (!(R==A)) { // merge adjacent equal representation to stay canonical
        into.mem[id]=std::make_shared<RegMem>(R); joinChanged=true; }
    }
    if (client) client->onJoin(into,from);
    return joinChanged;
  }
  bool memEqual(const State& a, const State& b) {
    auto ia=a.mem.begin(), ib=b.mem.begin();
    auto skip=[&](unsigned id){ return client && client->joinRegion(*this,regions[id-1].get()); };
    for (;;) {
      bool ea=ia==a.mem.end(), eb=ib==b.mem.end(); if (ea&&eb) return true;
      if (!ea && !eb && ia->first==ib->first) { if (!(ia->second==ib->second || *ia->second==*ib->second) && !skip(ia->first)) return false; ++ia; ++ib; continue; }
      if (eb || (!ea && ia->first<ib->first)) { if (!skip(ia->first)) return false; ++ia; } else { if (!skip(ib->first)) return false; ++ib; }
    }
  }
  bool envCompatible(const State& a, const State& b, const std::vector<unsigned>& live) {
    for (unsigned x : live) { ValId p=a.env[x], q=b.env[x]; if (p==q||!p||!q) continue; uint64_t c,d; bool pc=isConst(p,c), qc=isConst(q,d); if (pc && qc && ((c==0)!=(d==0))) return false; if (pc!=qc && vals[p].width<=64 && vals[p].width>1 && (pc?c:d)==0) { uint64_t l,h; if (pc) range(q,b,l,h); else range(p,a,l,h); if (l) return false; } if (vals[p].width==64 && (pc!=qc)) { return false; }
      if (vals[p].width==64) { auto* u=fullSym(p); auto* v=fullSym(q); if (u&&v&&(u->kind==SK_Addr||v->kind==SK_Addr)) return false; } }
    return true;
  }

  // ---- execution ---------------------------------------------------------------------------------------------
  uint64_t steps=0, budget=0; unsigned maxDepth=14; unsigned K=24; uint64_t nJoins=0, nStates=0; std::set<const Function*> visited;
  std::vector<const Function*> stack;
  struct Exit { State s; ValId ret; };

  ValId get(const State& s, FuncInfo& fi, const Value* v, const Instruction* I, CtxId ctx) {
    if (auto* c=dyn_cast<Constant>(v)) return evalConst(c);
    auto it=fi.idx.find(v); if (it==fi.idx.end()) return 0; ValId r=s.env[it->second];
    if (!r) return fresh(std::max<uint32_t>(1,bitsOf(v->getType())),v,ctx,0); return r;
  }

  struct Pending { State s; uint64_t key=0; const BasicBlock* exHeader=nullptr; unsigned exPart=0, exVisit=0; };
  struct HeaderPart { State joined; uint64_t key; unsigned visits=0; unsigned part=0; };

  std::vector<Exit> run(const Function* F, const std::vector<ValId>& args, State in, CtxId ctx) {
    FuncInfo& fi=info(F); visited.insert(F); stack.push_back(F);
    std::vector<ValId> savedEnv; std::vector<LoopTag> savedLoops; savedLoops.swap(in.loops);
    in.env.assign(fi.n,0); for (unsigned i=0;i<F->arg_size() && i<args.size();i++) in.env[i]=args[i];
    std::map<unsigned, std::vector<Pending>> work; // by order
    std::unordered_map<const BasicBlock*, std::vector<HeaderPart>> headers;
    std::vector<Exit> exits;
    work[fi.order[&F->getEntryBlock()]].push_back({in});
    auto deliver=[&](const BasicBlock* from, const BasicBlock* to, State&& s) {
      Pending p; p.s=std::move(s); State& S=p.s;
      // phis
      std::vector<std::pair<unsigned,ValId>> ph; for (auto& phi : to->phis()) { ph.push_back({fi.idx[&phi], applyFacts(get(S,fi,phi.getIncomingValueForBlock(from),&phi,ctx),S)}); }
      for (auto& x : ph) S.env[x.first]=x.second;
      // loop tags
      auto& hs=fi.loopHeaders[to];
      while (!S.loops.empty() && std::find(hs.begin(),hs.end(),S.loops.back().header)==hs.end()) { auto& t=S.loops.back(); p.exHeader=t.header; p.exPart=t.part; p.exVisit=t.visit; S.loops.pop_back(); }
      auto& live=fi.liveIn[to];
      // drop dead values so that states compare equal
      { std::vector<ValId> e(fi.n,0); for (unsigned x : live) e[x]=S.env[x]; S.env.swap(e); }
      unsigned o=fi.order[to];
      if (fi.isHeader[to]) {
        auto& parts=headers[to]; uint64_t k=client?client->key(S):0; HeaderPart* hp=nullptr;
        bool back=false; unsigned part=0; for (auto& t : S.loops) if (t.header==to) { back=true; part=t.part; }
        if (back) { for (auto& h : parts) if (h.part==part && h.key==k) hp=&h; }
        else { for (auto& h : parts) if (h.key==k && memEqual(h.joined,S) && envCompatible(h.joined,S,live)) { hp=&h; break; }
               if (!hp && parts.size()>=K) for (auto& h : parts) if (h.key==k) { hp=&h; break; }
               if (!hp) { part=0; for (auto& h : parts) part=std::max(part,h.part+1); } }
        if (!hp) { HeaderPart h; h.joined=S; h.key=k; h.part=part; h.visits=1; while (!h.joined.loops.empty() && h.joined.loops.back().header==to) h.joined.loops.pop_back(); h.joined.loops.push_back({to,part,1}); parts.push_back(h); nStates++; S=parts.back().joined; p.key=k; work[o].push_back(std::move(p)); return; }
        nJoins++; if (!join(hp->joined,S,to,ctx,live,true,hp->visits>14)) return;
        hp->visits++; if (hp->visits>60) throw BudgetExceeded(); hp->joined.loops.back().visit=hp->visits; S=hp->joined;
        // supersede a pending older version
        auto& q=work[o]; for (auto& e : q) if (!e.s.loops.empty() && e.s.loops.back().header==to && e.s.loops.back().part==hp->part && e.key==hp->key) { e.s=S; e.key=client?client->key(S):0; return; }
        Pending n; n.s=S; n.key=client?client->key(S):0; q.push_back(std::move(n)); return;
      }
      auto& q=work[o]; uint64_t k=client?client->key(S):0;
      if (p.exHeader) q.erase(std::remove_if(q.begin(),q.end(),[&](Pending& e){ return e.exHeader==p.exHeader && e.exPart==p.exPart && e.exVisit<p.exVisit; }), q.end());
      if (!to->getSinglePredecessor() || q.size()>=K) {
        for (auto& e : q) if (e.key==k && e.exHeader==p.exHeader && e.exPart==p.exPart && sameLoops(e.s,S) && memEqual(e.s,S) && envCompatible(e.s,S,live)) { nJoins++; join(e.s,S,to,ctx,live,false); e.key=client?client->key(e.s):0; return; }
        if (q.size()>=K) for (auto& e : q) if (e.key==k && sameLoops(e.s,S)) { nJoins++; join(e.s,S,to,ctx,live,false); e.key=client?client->key(e.s):0; return; }
      }
      p.key=k; nStates++; q.push_back(std::move(p));
    };
    try {
    while (!work.empty()) {
      auto wi=work.begin(); if (wi->second.empty()) { work.erase(wi); continue; }
      const BasicBlock* B=fi.byOrder[wi->first]; Pending p=std::move(wi->second.back()); wi->second.pop_back(); if (wi->second.empty()) work.erase(wi);
      // execute the block; forks are kept on a local stack
      std::vector<std::pair<State, BasicBlock::const_iterator>> local; local.push_back({std::move(p.s), B->getFirstNonPHIOrDbg()->getIterator()});
      while (!local.empty()) {
        State s=std::move(local.back().first); auto it=local.back().second; local.pop_back(); bool dead=false;
        for (; !dead && it!=B->end(); ++it) {
          const Instruction& I=*it; if (isa<DbgInfoIntrinsic>(I)) continue;
          if (++steps>budget) throw BudgetExceeded();
          if (I.isTerminator()) { terminator(I,s,fi,ctx,exits,[&](const BasicBlock* to, State&& ns){ deliver(B,to,std::move(ns)); }); dead=true; break; }
          std::vector<State> forks; step(I,s,fi,ctx,forks,dead);
          for (auto& f : forks) { auto n=it; ++n; local.push_back({std::move(f),n}); }
        }
      }
    }
    } catch (BudgetExceeded&) { stack.pop_back(); throw; }
    stack.pop_back();
    // merge exits that agree
    std::vector<Exit> out;
    for (auto& e : exits) {
      for (auto rit=e.s.mem.begin(); rit!=e.s.mem.end();) { Region* r=regions[rit->first-1].get(); if (r->kind==RK_Stack && r->ctx==ctx) rit=e.s.mem.erase(rit); else ++rit; }
      e.s.loops=savedLoops; e.s.env.assign(1,e.ret);
      bool merged=false; uint64_t k=client?client->key(e.s):0; static const std::vector<unsigned> l0{0};
      for (auto& o : out) if ((client?client->key(o.s):0)==k && memEqual(o.s,e.s) && envCompatible(o.s,e.s,l0)) { nJoins++; join(o.s,e.s,&F->getEntryBlock(),ctx,l0,false); o.ret=o.s.env[0]; merged=true; break; }
      if (!merged && out.size()>=K) for (auto& o : out) if ((client?client->key(o.s):0)==k && envCompatible(o.s,e.s,l0)) { nJoins++; join(o.s,e.s,&F->getEntryBlock(),ctx,l0,false); o.ret=o.s.env[0]; merged=true; break; }
      if (!merged) out.push_back(std::move(e));
    }
    return out;
  }
  bool sameLoops(const State& a, const State& b) { if (a.loops.size()!=b.loops.size()) return false; for (size_t i=0;i<a.loops.size();i++) if (a.loops[i].header!=b.loops[i].header || a.loops[i].part!=b.loops[i].part) return false; return true; }

  void terminator(const Instruction& I, State& s, FuncInfo& fi, CtxId ctx, std::vector<Exit>& exits, const std::function<void(const BasicBlock*,State&&)>& go) {
    if (auto* br=dyn_cast<BranchInst>(&I)) {
      if (br->isUnconditional()) { go(br->getSuccessor(0),std::move(s)); return; }
      ValId c=applyFacts(get(s,fi,br->getCondition(),&I,ctx),s); c=refine(c,s); uint64_t k;
      if (isConst(c,k)) { go(br->getSuccessor(k?0:1),std::move(s)); return; }
      if (debugForks) { fprintf(stderr,"FORK %s",locFull(&I).c_str()); for (auto& kv : s.client) fprintf(stderr," %lx=%ld",(unsigned long)kv.first,(long)kv.second); fprintf(stderr,"\n"); } State t=s; if (learn(t,c,true)) go(br->getSuccessor(0),std::move(t)); if (learn(s,c,false)) go(br->getSuccessor(1),std::move(s)); return;
    }
    if (auto* sw=dyn_cast<SwitchInst>(&I)) {
      ValId c=applyFacts(get(s,fi,sw->getCondition(),&I,ctx),s); uint64_t k;
      if (isConst(c,k)) { for (auto& cs : sw->cases()) if (cs.getCaseValue()->getZExtValue()==k) { go(cs.getCaseSuccessor(),std::move(s)); return; } go(sw->getDefaultDest(),std::move(s)); return; }
      State d=s; bool dok=true; for (auto& cs : sw->cases()) { uint64_t v=cs.getCaseValue()->getZExtValue(); ValId eq=icmpEq(c,constant(vals[c].width,v),s); uint64_t e; if (isConst(eq,e) && !e) continue; State t=s; if (learn(t,eq,true)) go(cs.getCaseSuccessor(),std::move(t)); if (dok) dok=learn(d,icmpEq(c,constant(vals[c].width,v),d),false); }
      if (dok) go(sw->getDefaultDest(),std::move(d)); return;
    }
    if (auto* r=dyn_cast<ReturnInst>(&I)) { Exit e; e.ret = r->getReturnValue()?applyFacts(get(s,fi,r->getReturnValue(),&I,ctx),s):0; e.s=std::move(s); e.s.env.clear(); exits.push_back(std::move(e)); return; }
    // unreachable etc: path ends
  }
  // re-evaluates a comparison whose operands may have become known
  ValId refine(ValId c, State& s, int depth=0) {
    uint64_t k; if (isConst(c,k)||depth>8) return c; auto* sy=fullSym(c); if (!sy||sy->kind!=SK_Op) return c; auto ops=sy->ops; unsigned o=sy->op;
    switch (o) {
      case OP_NOT: { ValId r=refine(ops[0],s,depth+1); return r==ops[0]?c:bnot1(r); }
      case OP_EQ: return icmpEq(ops[0],ops[1],s);
      case OP_ULT: return icmpUlt(ops[0],ops[1],s);
      case OP_SLT: return icmpSlt(ops[0],ops[1],s);
      case Instruction::And: case Instruction::Or: if (vals[c].width==1) { ValId a=refine(applyFacts(ops[0],s),s,depth+1), b=refine(applyFacts(ops[1],s),s,depth+1); return applyFacts(bitop(o,a,b),s); } return c;
      case OP_SELECT: { ValId a=refine(applyFacts(ops[0],s),s,depth+1); if (isConst(a,k)) return refine(applyFacts(k?ops[1]:ops[2],s),s,depth+1); return c; }
    }
    return c;
  }

  void set(State& s, FuncInfo& fi, const Instruction& I, ValId v) { auto it=fi.idx.find(&I); if (it!=fi.idx.end()) s.env[it->second]=v; }

  void step(const Instruction& I, State& s, FuncInfo& fi, CtxId ctx, std::vector<State>& forks, bool& dead) {
    auto G=[&](const Value* v){ return get(s,fi,v,&I,ctx); };
    Type* T=I.getType(); uint32_t w=T->isVoidTy()?0:bitsOf(T);
    switch (I.getOpcode()) {
      case Instruction::Alloca: { Region* r=siteRegion(RK_Stack,&I,ctx); s.mem[r->id]=std::make_shared<RegMem>(); { std::shared_ptr<RegMem> h; mut(s,r,h).kills.push_back({-INF,INF,gen(&I,ctx,0)}); } set(s,fi,I,r->base); return; }
      case Instruction::Load: { uint32_t bytes=(w+7)/8; if (!T->isSized()) return; ValId v=loadPtr(s,G(I.getOperand(0)),bytes,&I,ctx); if (vals[v].width!=w) v=slice(v,0,w); if (!T->isIntegerTy()) v=applyFacts(v,s); set(s,fi,I,v); return; } // facts are applied where a value is used, so copies stay comparable
      case Instruction::Store: { ValId v=G(I.getOperand(0)); uint32_t ww=vals[v].width; if (ww%8) v=zext(v,(ww+7)/8*8); storePtr(s,G(I.getOperand(1)),v,&I,ctx); return; }
      case Instruction::GetElementPtr: { set(s,fi,I,gep(cast<GEPOperator>(&I),s,fi,ctx)); return; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Freeze: { ValId v=G(I.getOperand(0)); if (vals[v].width<w) v=zext(v,w); else if (vals[v].width>w) v=slice(v,0,w); set(s,fi,I,v); return; }
      case Instruction::Trunc: { ValId v=applyFacts(G(I.getOperand(0)),s); if (T->isVectorTy()) { set(s,fi,I,op(Instruction::Trunc,w,{v})); return; } auto* sy=fullSym(v); if (sy && sy->kind==SK_Op && sy->op==Instruction::SExt && vals[sy->ops[0]].width>=w) v=sy->ops[0]; set(s,fi,I,slice(v,0,w)); return; }
      case Instruction::ZExt: { ValId v=G(I.getOperand(0)); if (T->isVectorTy()) { set(s,fi,I,op(Instruction::ZExt,w,{v})); return; } set(s,fi,I,zext(v,w)); return; }
      case Instruction::SExt: { ValId v=applyFacts(G(I.getOperand(0)),s); if (forkBit(v,s,fi,I,ctx,forks)) v=applyFacts(v,s); if (T->isVectorTy()) { set(s,fi,I,op(Instruction::SExt,w,{v})); return; } v=applyFacts(v,s); uint64_t lo,hi; uint32_t ow=vals[v].width; if (ow<=64) { range(v,s,lo,hi); if (hi < (1ull<<(ow-1))) { set(s,fi,I,zext(v,w)); return; } } if (ow==1) v=refine(v,s); set(s,fi,I,sext(v,w,&s)); return; }
      case Instruction::ICmp: {
        auto& ic=cast<ICmpInst>(I); if (T->isVectorTy()) { set(s,fi,I,op(OP_FCMP,w,{G(I.getOperand(0)),G(I.getOperand(1))},ic.getPredicate())); return; }
        ValId a=G(ic.getOperand(0)), b=G(ic.getOperand(1)); ValId v=icmp(ic.getPredicate(),a,b,s);
        if (!isConst(v) && client && client->splitICmp(*this,s,&ic,a,b)) { State t=s; if (learn(t,v,true)) { set(t,fi,I,constant(1,1)); forks.push_back(std::move(t)); } if (!learn(s,v,false)) { dead=true; return; } set(s,fi,I,constant(1,0)); return; }
        set(s,fi,I,v); return; }
      case Instruction::FCmp: { set(s,fi,I,op(OP_FCMP,w,{G(I.getOperand(0)),G(I.getOperand(1))},cast<FCmpInst>(I).getPredicate())); return; }
      case Instruction::Select: {
        ValId c=applyFacts(G(I.getOperand(0)),s); ValId a=G(I.getOperand(1)), b=G(I.getOperand(2)); if (vals[c].width!=1) { set(s,fi,I,op(OP_SELECT,w,{c,a,b})); return; }
        c=refine(c,s); uint64_t k; if (isConst(c,k)) { set(s,fi,I,k?a:b); return; } if (a==b) { set(s,fi,I,a); return; }
        if (w==1) { uint64_t x; if (isConst(a,x) && isConst(b)) { uint64_t y; isConst(b,y); set(s,fi,I,x?c:bnot1(c)); return; } if (isConst(b,x) && !x) { set(s,fi,I,bitop(Instruction::And,c,a)); return; } if (isConst(a,x) && x) { set(s,fi,I,bitop(Instruction::Or,c,b)); return; } }
        bool plain=T->isFPOrFPVectorTy(); if (!plain && !T->isPtrOrPtrVectorTy()) { auto* cy=fullSym(c); if (cy && cy->kind==SK_Op && cy->op==OP_FCMP) plain=true; }
        if (!plain && forks.size()<8) { State t=s; if (learn(t,c,true)) { set(t,fi,I,a); forks.push_back(std::move(t)); } if (!learn(s,c,false)) { dead=true; return; } set(s,fi,I,b); return; }
        set(s,fi,I,op(OP_SELECT,w,{c,a,b})); return; }
      case Instruction::ExtractValue: { auto& ev=cast<ExtractValueInst>(I); uint32_t off=aggOff(ev.getAggregateOperand()->getType(), ev.getIndices()); set(s,fi,I,slice(G(ev.getAggregateOperand()),off,w)); return; }
      case Instruction::InsertValue: { auto& iv=cast<InsertValueInst>(I); uint32_t off=aggOff(T,iv.getIndices()); ValId a=G(iv.getAggregateOperand()), e=G(iv.getInsertedValueOperand()); uint32_t ew=vals[e].width; ValId r=e; if (off) r=concat(slice(a,0,off),r); if (off+ew<w) r=concat(r,slice(a,off+ew,w-off-ew)); set(s,fi,I,r); return; }
      case Instruction::ExtractElement: { ValId v=G(I.getOperand(0)), ix=applyFacts(G(I.getOperand(1)),s); uint64_t k; if (isConst(ix,k) && (k+1)*w<=vals[v].width) { set(s,fi,I,slice(v,k*w,w)); return; } set(s,fi,I,op(Instruction::ExtractElement,w,{v,ix})); return; }
      case Instruction::InsertElement: { ValId v=G(I.getOperand(0)), e=G(I.getOperand(1)), ix=applyFacts(G(I.getOperand(2)),s); uint32_t ew=vals[e].width; uint64_t k; if (isConst(ix,k) && (k+1)*ew<=w) { ValId r=e; uint32_t off=k*ew; if (off) r=concat(slice(v,0,off),r); if (off+ew<w) r=concat(r,slice(v,off+ew,w-off-ew)); set(s,fi,I,r); return; } set(s,fi,I,op(Instruction::InsertElement,w,{v,e,ix})); return; }
      case Instruction::ShuffleVector: { auto& sv=cast<ShuffleVectorInst>(I); ValId a=G(sv.getOperand(0)), b=G(sv.getOperand(1)); auto* vt=cast<FixedVectorType>(sv.getOperand(0)->getType()); uint32_t n=vt->getNumElements(); uint32_t ew=vals[a].width/n; Val r; r.width=w; for (int m : sv.getShuffleMask()) { if (m<0) { r.segs.push_back({0,0,ew,0}); continue; } ValId e = (unsigned)m<n?slice(a,m*ew,ew):slice(b,(m-n)*ew,ew); for (auto& x : vals[e].segs) r.segs.push_back(x); } set(s,fi,I,internVal(std::move(r))); return; }
      case Instruction::AtomicRMW: {
        auto& rm=cast<AtomicRMWInst>(I); ValId p=G(rm.getPointerOperand()); uint32_t bytes=(w+7)/8; ValId old=loadPtr(s,p,bytes,&I,ctx); ValId x=G(rm.getValOperand()); ValId nv;
        switch (rm.getOperation()) { case AtomicRMWInst::Add: nv=add(old,x); break; case AtomicRMWInst::Sub: nv=sub(old,x); break; case AtomicRMWInst::Or: nv=bitop(Instruction::Or,old,x); break; case AtomicRMWInst::And: nv=bitop(Instruction::And,old,x); break; case AtomicRMWInst::Xchg: nv=x; break; default: nv=fresh(w,&I,ctx,1); }
        storePtr(s,p,nv,&I,ctx); set(s,fi,I,old); return; }
      case Instruction::AtomicCmpXchg: { auto& cx=cast<AtomicCmpXchgInst>(I); ValId p=G(cx.getPointerOperand()); ValId nv=G(cx.getNewValOperand()); uint32_t vw=vals[nv].width; 
        State t=s; storePtr(t,p,nv,&I,ctx); { Val r; r.width=w; ValId cmp=get(t,fi,cx.getCompareOperand(),&I,ctx); ValId v=concat(cmp,constant(1,1)); v=padTo(v,w); set(t,fi,I,v); (void)r; } forks.push_back(std::move(t));
        Ptr q=split(applyFacts(p,s)); ValId seen=fresh(vw,&I,ctx,3); if (q.r && !q.var) store(s,q.r,q.off,seen); set(s,fi,I,padTo(concat(seen,constant(1,0)),w)); return; }
      case Instruction::Fence: return;
      case Instruction::Call: case Instruction::Invoke: { call(cast<CallBase>(I),s,fi,ctx,forks,dead); return; }
      case Instruction::FNeg: set(s,fi,I,op(Instruction::FNeg,w,{G(I.getOperand(0))})); return;
      default: break;
    }
    if (auto* bo=dyn_cast<BinaryOperator>(&I)) {
      if (!T->isVectorTy() && w>1) { uint64_t k; ValId a=applyFacts(G(I.getOperand(0)),s), b=applyFacts(G(I.getOperand(1)),s); if (bo->getOpcode()==Instruction::Sub && isConst(a,k) && !k) forkBit(b,s,fi,I,ctx,forks); else if (bo->getOpcode()==Instruction::Xor && isConst(b,k) && k==(w>=64?~0ull:(1ull<<w)-1)) forkBit(a,s,fi,I,ctx,forks); }
      ValId a=G(bo->getOperand(0)), b=G(bo->getOperand(1)); set(s,fi,I,binop(bo->getOpcode(),a,b,w,s,T->isVectorTy())); return;
    }
    if (I.isCast()) { set(s,fi,I,op(I.getOpcode(),w,{G(I.getOperand(0))})); return; }
    if (w) set(s,fi,I,fresh(w,&I,ctx));
  }
  ValId binop(unsigned opc, ValId a, ValId b, uint32_t w, State& s, bool vec) {
    if (!vec) { a=applyFacts(a,s); b=applyFacts(b,s); }
    uint64_t x,y; bool ca=isConst(a,x), cb=isConst(b,y);
    if (vec) { if (opc==Instruction::And||opc==Instruction::Or||opc==Instruction::Xor) return bitop(opc,a,b); return op(opc,w,{a,b}); }
    switch (opc) {
      case Instruction::Add: if (w<=64) return add(a,b); break;
      case Instruction::Sub: if (w<=64) return sub(a,b); break;
      case Instruction::And: { if (w==64 && (ca||cb)) { uint64_t k=ca?x:y; ValId v=ca?b:a; Ptr p=split(v); uint64_t inv=~k; if (p.r && !p.var && p.r->kind!=RK_Deref && inv && (inv&(inv+1))==0 && inv<=127) { return add(p.r->base,constant(64,(uint64_t)p.off & k)); } if (p.r && !p.var && p.r->kind!=RK_Deref && inv<=~0ull && k<=127 && ((k+1)&k)==0) return constant(64,(uint64_t)p.off & k); } return applyFacts(bitop(opc,a,b),s); }
      case Instruction::Or: case Instruction::Xor: return applyFacts(bitop(opc,a,b),s);
      case Instruction::Shl: if (cb) return shl(a,y); break;
      case Instruction::LShr: if (cb) return lshr(a,y); break;
      case Instruction::AShr: if (cb) { ValId sb=applyFacts(signBit(a),s); uint64_t c; if (isConst(sb,c) && !c) return lshr(a,y); if (y<w) return sext(slice(a,y,w-y),w,&s); } break;
      case Instruction::Mul: if (w<=64) { if (ca&&cb) return constant(w,x*y); if (ca) { std::swap(a,b); std::swap(x,y); std::swap(ca,cb); } if (cb) { if (y==0) return b; if (y==1) return a; if ((y&(y-1))==0) return shl(a,__builtin_ctzll(y)); if (auto* sy=fullSym(a)) if (sy->kind==SK_Op && sy->op==Instruction::Add) { uint64_t k; if (isConst(sy->ops[1],k)) { ValId o=sy->ops[0]; return add(binop(Instruction::Mul,o,b,w,s,false),constant(w,k*y)); } } } if (a>b && !cb) std::swap(a,b); } break;
      case Instruction::UDiv: if (cb && y && ca) return constant(w,x/y); if (cb && y && (y&(y-1))==0) return lshr(a,__builtin_ctzll(y)); break;
      case Instruction::URem: if (cb && y && ca) return constant(w,x%y); if (cb && y && (y&(y-1))==0) return bitop(Instruction::And,a,constant(w,y-1)); break;
      case Instruction::SDiv: if (ca && cb && y && w<=64) return constant(w,(uint64_t)(sx(x,w)/sx(y,w))); break;
      case Instruction::SRem: if (ca && cb && y && w<=64) return constant(w,(uint64_t)(sx(x,w)%sx(y,w))); break;
      default: break;
    }
    bool comm = opc==Instruction::FAdd||opc==Instruction::FMul; if (comm && a>b) std::swap(a,b);
    return op(opc,w,{a,b});
  }
  // a boolean about to become a mask: consider both values separately
  bool forkBit(ValId v, State& s, FuncInfo& fi, const Instruction& I, CtxId ctx, std::vector<State>& forks) {
    if (!client || !client->splitMasks()) return false; auto& V=vals[v]; int at=-1; uint32_t pos=0; for (auto& g : V.segs) { if (g.sym) { if (g.len!=1||at>=0) return false; at=pos; } else if (g.c) return false; pos+=g.len; } if (at<0) return false;
    ValId b=slice(v,at,1); State t=s; bool okT=learn(t,b,true), okF=learn(s,b,false); if (!okT) return true; if (!okF) { s=std::move(t); return true; }
    bool dead=false; std::vector<State> more; step(I,t,fi,ctx,more,dead); if (!dead) forks.push_back(std::move(t)); for (auto& m : more) forks.push_back(std::move(m)); return true; }
  uint32_t aggOff(Type* t, ArrayRef<unsigned> idx) { uint64_t o=0; for (unsigned i : idx) { if (auto* st=dyn_cast<StructType>(t)) { o+=DL.getStructLayout(st)->getElementOffsetInBits(i); t=st->getElementType(i); } else { t=t->isArrayTy()?t->getArrayElementType():cast<VectorType>(t)->getElementType(); o+=(uint64_t)i*DL.getTypeAllocSizeInBits(t); } } return o; }
  ValId gep(const GEPOperator* g, State& s, FuncInfo& fi, CtxId ctx) {
    ValId p=get(s,fi,g->getPointerOperand(),nullptr,ctx); if (vals[p].width!=64) return fresh(bitsOf(g->getType()),g,ctx);
    p=applyFacts(p,s); uint64_t off=0; ValId var=0; int64_t extent=-1; Type* cont=nullptr; Type* next=nullptr;
    for (auto gti=gep_type_begin(g), ge=gep_type_end(g); gti!=ge; ++gti) {
      cont=next; next=gti.getIndexedType();
      if (StructType* st=gti.getStructTypeOrNull()) { off+=DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(gti.getOperand())->getZExtValue()); continue; }
      uint64_t sz=DL.getTypeAllocSize(gti.getIndexedType()); ValId ix=get(s,fi,gti.getOperand(),nullptr,ctx); if (vals[ix].width<64) ix=sext(applyFacts(ix,s),64,&s); ix=applyFacts(ix,s); uint64_t k;
      if (isConst(ix,k)) { off+=k*sz; continue; }
      if (cont && cont->isArrayTy() && cont->getArrayNumElements() && !var) extent=(int64_t)(cont->getArrayNumElements()*sz); else extent=-1;
      ValId t=binop(Instruction::Mul,ix,constant(64,sz),64,s,false); var = var?add(var,t):t;
    }
    ValId r=p; if (var) { uint64_t k; if (isConst(var,k)) r=add(r,var); else { r=ptradd(add(r,constant(64,off)),var); off=0; if (extent>=0) ptrExtent[r]=extent; else ptrExtent.erase(r); } }
    if (off) r=add(r,constant(64,off));
    return r;
  }

  // ---- calls -------------------------------------------------------------------------------------------------
  std::set<std::string> opaqueSeen;
  const Function* calleeOf(const CallBase& cb, State& s, FuncInfo& fi, CtxId ctx) {
    curCallee=0; if (auto* f=dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts())) return f;
    ValId v=curCallee=applyFacts(get(s,fi,cb.getCalledOperand(),&cb,ctx),s); Ptr p=split(v); if (p.r && !p.var && !p.off && p.r->kind==RK_Global) return dyn_cast<Function>(p.r->v); return nullptr;
  }
  void havocReach(State& s, ValId v, const CallBase* cb, CtxId ctx, int depth=0) {
    if (!v || vals[v].width!=64) return; Ptr p=split(applyFacts(v,s)); if (!p.r || p.r->constant) return; if (p.r->kind==RK_Deref && !p.r->base) return;
    if (client && client->keepHavoc(*this,s,p.r,cb)) return;
    if (depth<3) if (auto* m=memOf(s,p.r)) { std::vector<ValId> c; for (auto& x : m->cells) if (vals[x.second].width==64) { Ptr q=split(x.second); if (q.r && (q.r->kind==RK_Heap||q.r->kind==RK_Stack) && q.r!=p.r) c.push_back(x.second); } for (auto x : c) havocReach(s,x,cb,ctx,depth+1); }
    if (p.r->kind==RK_Global && isa<Function>(p.r->v)) return;
    havoc(s,p.r,cb,ctx);
  }
  void call(const CallBase& cb, State& s, FuncInfo& fi, CtxId ctx, std::vector<State>& forks, bool& dead) {
    uint32_t w=cb.getType()->isVoidTy()?0:bitsOf(cb.getType());
    const Function* F=calleeOf(cb,s,fi,ctx);
    std::vector<ValId> args; for (auto& a : cb.args()) args.push_back(applyFacts(get(s,fi,a.get(),&cb,ctx),s));
    auto G=[&](unsigned i){ return args[i]; };
    if (auto* ii=dyn_cast<IntrinsicInst>(&cb)) {
      switch (ii->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(s,G(0),G(1),G(2),&cb,ctx); return;
        case Intrinsic::memset: case Intrinsic::memset_inline: setMem(s,G(0),G(1),G(2),&cb,ctx); return;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: return;
        case Intrinsic::assume: { if (!learn(s,G(0),true)) dead=true; return; }
        case Intrinsic::expect: set(s,fi,cb,G(0)); return;
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { auto id=ii->getIntrinsicID(); ValId a=G(0),b=G(1); if (!cb.getType()->isVectorTy()) { ValId lt=(id==Intrinsic::umin||id==Intrinsic::umax)?icmpUlt(a,b,s):icmpSlt(a,b,s); uint64_t k; if (isConst(lt,k)) { bool mn=id==Intrinsic::umin||id==Intrinsic::smin; set(s,fi,cb,(k!=0)==mn?a:b); return; } } if (a>b) std::swap(a,b); set(s,fi,cb,op(id==Intrinsic::umin?OP_UMIN:id==Intrinsic::umax?OP_UMAX:id==Intrinsic::smin?OP_SMIN:OP_SMAX,w,{a,b})); return; }
        case Intrinsic::uadd_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::ssub_with_overflow: {
          auto id=ii->getIntrinsicID(); ValId a=G(0),b=G(1); uint32_t vw=vals[a].width; ValId r,o; uint64_t al,ah,bl,bh; range(a,s,al,ah); range(b,s,bl,bh); uint64_t m=vw>=64?~0ull:((1ull<<vw)-1); o=op(OP_INTR,1,{a,b},id);
          if (id==Intrinsic::uadd_with_overflow) { r=add(a,b); if (ah<=m-bh) o=constant(1,0); } else if (id==Intrinsic::umul_with_overflow) { r=binop(Instruction::Mul,a,b,vw,s,false); if ((__uint128_t)ah*bh<=m) o=constant(1,0); } else if (id==Intrinsic::usub_with_overflow) { r=sub(a,b); o=icmpUlt(a,b,s); }
          else { unsigned opc=id==Intrinsic::sadd_with_overflow?Instruction::Add:id==Intrinsic::smul_with_overflow?Instruction::Mul:Instruction::Sub; r=binop(opc,a,b,vw,s,false); }
          o=applyFacts(o,s); uint32_t off=DL.getStructLayout(cast<StructType>(cb.getType()))->getElementOffsetInBits(1); ValId v=padTo(r,off); v=concat(v,o); set(s,fi,cb,padTo(v,w)); return; }
        case Intrinsic::is_constant: set(s,fi,cb,constant(1,0)); return;
        case Intrinsic::bswap: { ValId a=G(0); uint64_t k; if (w<=64) { Val r; r.width=w; for (uint32_t i=0;i<w;i+=8) { ValId b=slice(a,w-8-i,8); for (auto& x : vals[b].segs) r.segs.push_back(x); } (void)k; set(s,fi,cb,internVal(std::move(r))); return; } break; }
        case Intrinsic::trap: dead=true; return;
        default: break;
      }
      if (client) client->onOpaqueCall(*this,s,&cb,F,args,ctx);
      if (ii->doesNotAccessMemory() || ii->onlyReadsMemory() || isa<DbgInfoIntrinsic>(ii)) { if (w) { if (ii->doesNotAccessMemory()) set(s,fi,cb,op(OP_INTR,w,args,ii->getIntrinsicID())); else set(s,fi,cb,fresh(w,&cb,ctx)); } return; }
      for (auto a : args) havocReach(s,a,&cb,ctx); if (w) set(s,fi,cb,fresh(w,&cb,ctx)); return;
    }
    std::vector<std::pair<State,ValId>> outs;
    auto finish=[&]{ if (outs.empty()) { dead=true; return; } for (size_t i=1;i<outs.size();i++) { if (outs[i].second) set(outs[i].first,fi,cb,outs[i].second); forks.push_back(std::move(outs[i].first)); } ValId r=outs[0].second; s=std::move(outs[0].first); if (r) set(s,fi,cb,r); };
    { std::vector<ValId> env=s.env; if (client && client->onCall(*this,s,&cb,F,args,ctx,outs)) { for (auto& o : outs) if (o.first.env.size()!=env.size()) o.first.env=env; finish(); return; } }
    StringRef n=F?F->getName():"";
    if (cb.isInlineAsm()) { if (w) set(s,fi,cb,fresh(w,&cb,ctx)); return; }
    if (n=="malloc"||n=="calloc"||n=="_Znwm"||n=="_Znam"||n=="aligned_alloc"||n=="realloc") {
      State t=s; if (client) client->onAlloc(*this,t,nullptr,&cb,ctx); set(t,fi,cb,constant(64,0)); forks.push_back(std::move(t));
      if (n=="realloc") { if (client) client->onFree(*this,s,G(0),&cb,ctx); }
      Region* r=siteRegion(RK_Heap,&cb,ctx); auto m=std::make_shared<RegMem>(); if (n=="calloc") { m->kills.push_back({-INF,INF,gen(&cb,ctx,1)}); } else m->kills.push_back({-INF,INF,gen(&cb,ctx,0)}); s.mem[r->id]=m;
      if (n=="calloc") { uint64_t a,b; if (isConst(G(0),a)&&isConst(G(1),b)&&a*b<=65536&&a*b) store(s,r,0,constant(a*b*8,0)); }
      if (client) client->onAlloc(*this,s,r,&cb,ctx); set(s,fi,cb,r->base); return; }
    if (n=="free"||n=="_ZdlPv"||n=="_ZdlPvm"||n=="_ZdaPv") { if (client) client->onFree(*this,s,G(0),&cb,ctx); return; }
    if (n=="memcpy"||n=="memmove") { copyMem(s,G(0),G(1),G(2),&cb,ctx); set(s,fi,cb,G(0)); return; }
    if (n=="memset") { ValId b=slice(G(1),0,8); setMem(s,G(0),b,G(2),&cb,ctx); set(s,fi,cb,G(0)); return; }
    if (n=="strlen"||n=="memcmp"||n=="memchr"||n=="strcmp"||n=="strncmp"||n=="pow"||n=="sqrt"||n=="floor"||n=="ceil"||n=="sin"||n=="cos"||n=="tan"||n=="atan2"||n=="acos"||n=="asin"||n=="fmod"||n=="atan"||n=="exp"||n=="log") { if (w) set(s,fi,cb,fresh(w,&cb,ctx)); return; }
    if (F && !F->isDeclaration() && !F->hasFnAttribute(Attribute::NoReturn) && ctxs[ctx].depth<maxDepth && std::find(stack.begin(),stack.end(),F)==stack.end() && args.size()>=F->arg_size() && (!client || client->inlineCall(*this,s,&cb,F,ctx,ctxs[ctx].depth))) {
      CtxId cc=childCtx(ctx,&cb,F); std::vector<ValId> env=s.env; std::vector<LoopTag> loops=s.loops;
      auto ex=run(F,args,std::move(s),cc);
      for (auto& e : ex) { e.s.env=env; e.s.loops=loops; outs.push_back({std::move(e.s),e.ret}); }
      finish(); return;
    }
    if (cb.doesNotReturn() || (F && F->doesNotReturn())) { if (client) client->onOpaqueCall(*this,s,&cb,F,args,ctx); dead=true; return; }
    opaqueSeen.insert(F?F->getName().str():"<indirect>");
    if (client) client->onOpaqueCall(*this,s,&cb,F,args,ctx);
    unsigned i=0; for (auto a : args) { bool ro = F && i<F->arg_size() && (F->getArg(i)->onlyReadsMemory() || roParam(F,i)); if (!ro) havocReach(s,a,&cb,ctx); i++; }
    if (w) set(s,fi,cb,fresh(w,&cb,ctx));
  }
  // parameter never written through, directly or by a callee (syntactic summary)
  std::map<std::pair<const Function*,unsigned>, int> roCache;
  bool roParam(const Function* F, unsigned i) {
    if (F->isDeclaration()) { StringRef n=F->getName(); return n=="strlen"||n=="memcmp"; }
    auto k=std::make_pair(F,i); auto it=roCache.find(k); if (it!=roCache.end()) return it->second==1; roCache[k]=1;
    std::vector<const Value*> wl{F->getArg(i)}; std::set<const Value*> seen; bool ro=true;
    while (!wl.empty() && ro) { auto* v=wl.back(); wl.pop_back(); if (!seen.insert(v).second) continue;
      for (auto* u : v->users()) { if (auto* st=dyn_cast<StoreInst>(u)) { ro=false; (void)st; break; } if (isa<LoadInst>(u)||isa<ICmpInst>(u)||isa<DbgInfoIntrinsic>(u)) continue; if (isa<GetElementPtrInst>(u)||isa<BitCastInst>(u)||isa<PHINode>(u)||isa<SelectInst>(u)) { wl.push_back(u); continue; }
        if (auto* mc=dyn_cast<MemTransferInst>(u)) { if (mc->getRawDest()==v) { ro=false; break; } continue; }
        if (auto* c=dyn_cast<CallBase>(u)) { auto* f=c->getCalledFunction(); if (!f) { ro=false; break; } for (unsigned a=0;a<c->arg_size();a++) if (c->getArgOperand(a)==v && (a>=f->arg_size() || !roParam(f,a))) { ro=false; break; } continue; }
        ro=false; break; } }
    roCache[k]=ro; return ro;
  }

  // runs a function from a state as a new root of the call tree
  std::vector<Exit> runRoot(const Function* F, const std::vector<ValId>& args, State s, uint64_t extraBudget) {
    ctxs.push_back({0,nullptr,0,F}); CtxId c=ctxs.size()-1; s.env.clear(); s.loops.clear(); stack.clear(); budget=steps+extraBudget;
    return run(F,args,std::move(s),c);
  }
  struct Leaf { SymId sym; uint32_t start, len; bool operator<(const Leaf& o) const { return std::tie(sym,start,len)<std::tie(o.sym,o.start,o.len); } };
  void leaves(ValId v, std::set<Leaf>& out, std::set<ValId>& seen) {
    if (!v || !seen.insert(v).second) return;
    auto segs=vals[v].segs; for (auto& g : segs) { if (!g.sym) continue; if (syms[g.sym].kind==SK_Op) { auto ops=syms[g.sym].ops; for (auto o : ops) leaves(o,out,seen); } else out.insert({g.sym,g.start,g.len}); }
  }
  std::set<Leaf> leavesOf(ValId v) { std::set<Leaf> o; std::set<ValId> s; leaves(v,o,s); return o; }

  // ---- printing ----------------------------------------------------------------------------------------------
  std::string str(ValId v, int depth=0) {
    if (!v) return "?"; std::string o; auto& V=vals[v]; uint64_t c; if (isConst(v,c)) return std::to_string((int64_t)sx(c,std::min<uint32_t>(64,V.width)));
    if (depth>5) return "..";
    bool f=true; for (auto& s : V.segs) { if (!f) o+="|"; f=false; if (!s.sym) { o+="#"+std::to_string(s.c)+":"+std::to_string(s.len); continue; } auto& y=syms[s.sym];
      switch (y.kind) { case SK_Mem: { int64_t bit=(int64_t)s.start-kBias*8; o+="["+regStr(y.region,depth+1)+(y.gen?"'"+std::to_string(y.gen):"")+"+"+std::to_string(bit/8)+(bit%8?"."+std::to_string(bit%8):"")+":"+(s.len%8?std::to_string(s.len)+"b":std::to_string(s.len/8))+"]"; continue; }
        case SK_Addr: o+="&"+regStr(y.region,depth+1); break; case SK_Arg: o+=y.tag.empty()?(y.v?y.v->getName().str():"arg"):y.tag; break;
        case SK_Op: { o+="op"+opName(y.op)+"("; for (size_t i=0;i<y.ops.size();i++) o+=(i?",":"")+str(y.ops[i],depth+1); o+=")"; break; }
        default: o+=(y.kind==SK_Phi?"phi":"v")+std::to_string(s.sym); }
      if (s.start||s.len!=y.width) o+="{"+std::to_string(s.start)+":"+std::to_string(s.len)+"}"; }
    return o;
  }
  std::string opName(unsigned o) { if (o<1000) return Instruction::getOpcodeName(o); static const char* n[]={"ptradd","eq","ult","slt","not","select","fcmp","umin","umax","smin","smax","intr","pure"}; return n[o-1000]; }
  std::string regStr(Region* r, int depth=0) { switch (r->kind) { case RK_Global: return r->name; case RK_Stack: return "stack"+std::to_string(r->id); case RK_Heap: return "heap"+std::to_string(r->id); default: return "*"+str(r->base,depth+1); } }
  static std::string locStr(const Instruction* I) {
    std::string o; const DILocation* L=I->getDebugLoc(); if (!L) { if (auto* sp=I->getFunction()->getSubprogram()) return sp->getFilename().str()+" ("+I->getFunction()->getName().str()+")"; return I->getFunction()->getName().str(); }
    std::string f=L->getFilename().str(); size_t p=f.find("/blend2d/"); if (p!=std::string::npos) f=f.substr(p+1); o=f+":"+std::to_string(L->getLine()); return o;
  }
  static std::string locFull(const Instruction* I) {
    const DILocation* L=I->getDebugLoc(); if (!L) return locStr(I); std::string o; int n=0;
    for (; L && n<4; L=L->getInlinedAt(),n++) { std::string f=L->getFilename().str(); size_t p=f.find("/blend2d/"); if (p!=std::string::npos) f=f.substr(p+1); std::string fn; if (auto* sp=L->getScope()->getSubprogram()) fn=sp->getName().str(); o+=(n?" <- ":"")+f+":"+std::to_string(L->getLine())+(fn.empty()?"":"("+fn+")"); }
    return o;
  }
  std::string callPath(CtxId c) { std::string o; int n=0; while (c && ctxs[c].call && n<8) { o+=(n?" <- ":"")+locStr(ctxs[c].call); c=ctxs[c].parent; n++; } return o; }
};
} // namespace sa
