// C02 / C21 / C19 on the raster rendering context: symbolic state machine checks through the public entry points.
//
// The context implementation is an unknown memory image; the entry points are interpreted by the engine over it, the
// function tables being what the library's own initialisation stores into them.
#pragma once
#include "layout.h"

namespace sa {
inline bool ptrToConst(const DIType* t) { t=Layouts::strip(t); auto* d=dyn_cast_or_null<DIDerivedType>(t); if (!d||d->getTag()!=dwarf::DW_TAG_pointer_type) return false; const DIType* b=d->getBaseType(); while (auto* q=dyn_cast_or_null<DIDerivedType>(b)) { if (q->getTag()==dwarf::DW_TAG_const_type) return true; if (q->getTag()==dwarf::DW_TAG_typedef) b=q->getBaseType(); else break; } return false; }
inline const DIType* pointee(const DIType* t) { t=Layouts::strip(t); auto* d=dyn_cast_or_null<DIDerivedType>(t); if (!d||d->getTag()!=dwarf::DW_TAG_pointer_type) return nullptr; return Layouts::strip(d->getBaseType()); }
inline bool isRef(const DIType* t) { auto* d=dyn_cast_or_null<DIDerivedType>(Layouts::strip(t)); return d&&(d->getTag()==dwarf::DW_TAG_reference_type||d->getTag()==dwarf::DW_TAG_rvalue_reference_type); }
inline bool refToConst(const DIType* t) { if (!isRef(t)) return false; const DIType* b=cast<DIDerivedType>(Layouts::strip(t))->getBaseType(); while (auto* q=dyn_cast_or_null<DIDerivedType>(b)) { if (q->getTag()==dwarf::DW_TAG_const_type) return true; if (q->getTag()==dwarf::DW_TAG_typedef) b=q->getBaseType(); else break; } return false; }
inline const DIType* pointeeOrRef(const DIType* t) { if (isRef(t)) return Layouts::strip(cast<DIDerivedType>(Layouts::strip(t))->getBaseType()); return pointee(t); }
inline const DIType* paramType(const Function* F, unsigned i) { auto* sp=F->getSubprogram(); if (!sp) return nullptr; auto ta=sp->getType()->getTypeArray(); if (i+1>=ta.size()) return nullptr; return ta[i+1]; }
inline std::string typeName(const DIType* t) { t=Layouts::strip(t); return t?t->getName().str():""; }

struct CtxCheck : Client {
  Module& M; Reporter& R; Layouts L; Engine E; State base; std::string prop;
  ValId ctxPtr=0, impl=0; Region *ctxReg=nullptr, *I=nullptr; uint64_t perRun=getenv("BLSA_RUN")?atoll(getenv("BLSA_RUN")):400000; bool releaseEvents=true; bool verbose=getenv("BLSA_VERBOSE")!=nullptr;
  std::map<ValId, Region*> destroyed;
  CtxCheck(Module& m, Reporter& r) : M(m), R(r), L(m), E(m) { E.client=this; E.K=getenv("BLSA_K")?atoi(getenv("BLSA_K")):128; }

  // ---- what the engine does not look into ----------------------------------------------------------------------
  bool onCall(Engine& E, State& s, const CallBase* cb, const Function* F, const std::vector<ValId>& args, CtxId c, std::vector<std::pair<State,ValId>>& out) override {
    if (!F) { // an object's own destroy callback: called with the context and the object the callback was loaded from
      if (args.size()>=2) { Engine::Ptr o=E.split(args.back()); ValId cv=E.curCallee; if (o.r && cv) for (auto& l : E.leavesOf(cv)) if (E.syms[l.sym].kind==SK_Mem && E.syms[l.sym].region==o.r) { s.client[0xD100000000ull+o.r->id]++; out.push_back({s,0}); return true; }
        auto under=[](const Value* v) { for (int k=0;k<8;k++) { if (auto* g=dyn_cast<GetElementPtrInst>(v)) v=g->getPointerOperand(); else break; } return v; };
        if (auto* ld=dyn_cast<LoadInst>(cb->getCalledOperand())) if (o.r && under(ld->getPointerOperand())==under(cb->getArgOperand(cb->arg_size()-1))) { s.client[0xD100000000ull+o.r->id]++; out.push_back({s,0}); return true; } }
      return false; }
    std::string n=shortName(F), file=fnFile(F);
    // destroying a container's implementation touches nothing the context still refers to
    auto has=[&](const char* x){ return n.find(x)!=std::string::npos; };
    if ((has("free_impl")||has("free_virtual_impl")||has("free_impl_with")||has("destroy_unknown_impl")||has("delete_impl")) && F->arg_size()>=1) { s.client[0xD000000000ull+args.back()]++; uint32_t w=cb->getType()->isVoidTy()?0:E.bitsOf(cb->getType()); out.push_back({s,w?E.constant(w,0):0}); return true; }
    if (n.size()>=6 && n.compare(n.size()-6,6,"_alloc")==0 && file.find("support/arenaallocator")!=std::string::npos) { // new memory, or none
      State t=s; out.push_back({t,E.constant(64,0)}); Region* r=E.siteRegion(RK_Heap,cb,c); auto m=std::make_shared<RegMem>(); m->kills.push_back({-Engine::INF,Engine::INF,E.gen(cb,c,0)}); s.mem[r->id]=m; out.push_back({s,r->base}); return true; }
    // geometry and gradient arithmetic: writes its typed out-parameters only, the numbers are unknown
    if (!F->isDeclaration() && (file.find("core/matrix")!=std::string::npos || file.find("pipeline/pipedefs")!=std::string::npos||file.find("core/gradient")!=std::string::npos) && (F->getName().starts_with("bl_matrix2d_")&&!has("apply_op")||file.find("pipedefs")!=std::string::npos||has("ensure_info")) && numericSummary(E,s,cb,F,args,c)) { uint32_t w=cb->getType()->isVoidTy()?0:E.bitsOf(cb->getType()); out.push_back({s,w?E.fresh(w,cb,c):0}); return true; }
    return false;
  }
  bool numericSummary(Engine& E, State& s, const CallBase* cb, const Function* F, const std::vector<ValId>& args, CtxId c) {
    for (unsigned k=0;k<2;k++) for (unsigned i=0;i<F->arg_size();i++) { if (!F->getArg(i)->getType()->isPointerTy()) continue; const DIType* t=paramType(F,i); if (!t) return false; if (ptrToConst(t)||refToConst(t)) continue; const DIType* e=pointeeOrRef(t); uint64_t n=e?Layouts::sizeOf(e):0; Engine::Ptr p=E.split(args[i]); if (!n||!p.r||p.var) return false; if (k) E.killRange(s,p.r,p.off,p.off+n,E.gen(cb,c,(int)i+1)); }
    return true; }
  bool inlineCall(Engine& E, State&, const CallBase*, const Function* F, CtxId, unsigned depth) override {
    std::string f=fnFile(F); return true;
  }
  // what the caller's arguments refer to need not be told apart
  std::map<Region*,bool> foreignCache;
  bool foreign(Region* r) { auto it=foreignCache.find(r); if (it!=foreignCache.end()) return it->second; bool f=false; if (r->kind==RK_Deref && r!=I && r!=ctxReg) { auto& V=E.vals[r->base]; if (V.segs.size()==1&&V.segs[0].sym) { auto& y=E.syms[V.segs[0].sym]; if (y.kind==SK_Arg) f=y.tag!="self"; else if (y.kind==SK_Mem && !y.gen) f=foreign(y.region); } } return foreignCache[r]=f; }
  bool joinRegion(Engine&, Region* r) override { return foreign(r); }
  // states are only joined when they agree on the flags and on what the styles and the saved state refer to
  std::vector<std::pair<int64_t,int64_t>> keyCells;
  uint64_t key(const State& s) override {
    uint64_t h=Client::key(s); if (!I||keyCells.empty()) return h; auto it=s.mem.find(I->id); if (it==s.mem.end()) return h;
    for (auto& kc : keyCells) { auto c=it->second->cells.lower_bound(kc.first-8); for (; c!=it->second->cells.end() && c->first<kc.second; ++c) { int64_t e=c->first+E.vals[c->second].width/8; if (e<=kc.first) continue; h=(h^(uint64_t)c->first)*1099511628211ull; h=(h^c->second)*1099511628211ull; } }
    return h; }

  void onOpaqueCall(Engine& E, State&, const CallBase* cb, const Function* F, const std::vector<ValId>&, CtxId) override { if (verbose) fprintf(stderr,"OPAQUE %s at %s\n",F?shortName(F).c_str():"(indirect)",E.locFull(cb).c_str()); }
  // ---- set up ---------------------------------------------------------------------------------------------------
  ValId arg(const std::string& tag, uint32_t w, int64_t ix) { Sym y; y.kind=SK_Arg; y.width=w; y.tag=tag; y.extra=ix; y.v=reinterpret_cast<const Value*>(std::hash<std::string>()(tag)); return E.ofSym(E.internSym(std::move(y))); }
  int64_t off(const std::string& p) { return L.member("BLRasterContextImpl",p).off; }
  bool setup(bool async) {
    Function* init=nullptr; for (auto& F : M) if (!F.isDeclaration() && shortName(&F)=="bl_raster_context_on_init") init=&F;
    int64_t oState=off("internal_state"), oFlags=off("context_flags"); const GlobalVariable* virt=nullptr;
    for (auto& g : M.globals()) { std::string n=demangle1(g.getName().str()); if (n.find(async?"raster_impl_virt_async":"raster_impl_virt_sync")!=std::string::npos) virt=&g; }
    if (!init||!virt||oState<0||oFlags<0) { R.broken("the raster context's initialisation, function table or layout was not found"); return false; }
    ValId rt=arg("rt",64,0); State s; auto ex=E.runRoot(init,{rt},s,perRun); if (ex.size()!=1) { R.broken("bl_raster_context_on_init has "+std::to_string(ex.size())+" outcomes"); return false; }
    base=ex[0].s; base.facts.clear(); base.ranges.clear();
    ctxPtr=arg("self",64,0); ctxReg=E.derefRegion(ctxPtr); impl=E.load(base,ctxReg,0,8); I=E.derefRegion(impl);
    E.store(base,I,0,E.globalRegion(virt)->base);
    int64_t oSt=off("state"); if (oSt>=0) E.store(base,I,oSt,E.add(impl,E.constant(64,oState)));
    int64_t oMode=off("rendering_mode"); auto en=L.enumerators.find(async?"RenderingMode::kAsync":"RenderingMode::kSync"); if (oMode>=0 && en!=L.enumerators.end()) E.store(base,I,oMode,E.constant(8,en->second)); else if (oMode>=0) E.store(base,I,oMode,E.constant(8,async?1:0));
    auto tp=[&](int i, const char* f) { int64_t a=off("transform_ptrs"), b=off(f); if (a>=0&&b>=0) E.store(base,I,a+8*i,E.add(impl,E.constant(64,b))); };
    tp(0,"internal_state.final_transform"); tp(1,"internal_state.meta_transform");
    for (auto* f : {"context_flags","saved_state","internal_state.style_type"}) { int64_t o=off(f); if (o>=0) keyCells.push_back({o,o+(std::string(f)=="context_flags"?4:std::string(f)=="saved_state"?8:2)}); }
    int64_t st0=off("internal_state.style"); Field fdp=L.member("StyleData","fetch_data"); int64_t sd=L.types.count("StyleData")?Layouts::sizeOf(L.types.at("StyleData")):0; if (st0>=0&&fdp.off>=0) for (int i=0;i<2;i++) keyCells.push_back({st0+i*sd+fdp.off,st0+i*sd+fdp.off+8});
    I->isolated=true;
    // bits of the flag word that have no name are never set
    uint32_t named=0; for (auto& e : L.enumerators) if (e.first.find("RasterEngine::ContextFlags::")!=std::string::npos && e.first.find("Invalid")==std::string::npos && __builtin_popcountll(e.second)<=2) named|=e.second;
    if (named) for (unsigned b=0;b<32;b++) if (!((named>>b)&1)) E.learn(base,E.slice(E.load(base,I,oFlags,4),b,1),false);
    return true;
  }
  // four initial states: each style implicit (solid) or holding its own fetch data object
  struct Init { State s; std::string name; };
  Region* fetchReg[2]={nullptr,nullptr};
  std::vector<Init> inits() {
    std::vector<Init> out; auto fl=L.enumerators.find("kFetchDataBase"); auto st0=L.member("BLRasterContextImpl","internal_state.style"); auto sd=L.types.count("StyleData")?Layouts::sizeOf(L.types.at("StyleData")):0;
    Field fd=L.member("StyleData","fetch_data"), so=L.member("StyleData","solid"); Field rc=L.member("RenderFetchData","ref_count");
    if (fl==L.enumerators.end()||st0.off<0||!sd||fd.off<0||so.off<0||rc.off<0) { R.note("style layout not recognised; initial states are not split"); out.push_back({base,"any"}); return out; }
    unsigned bit=__builtin_ctzll(fl->second); Field stt=L.member("BLRasterContextImpl","internal_state.style_type");
    for (int k=0;k<4;k++) { State s=base; std::string n;
      for (int i=0;i<2;i++) { int64_t o=st0.off+i*sd; bool expl=(k>>i)&1; n+=std::string(i?", ":"")+(i?"stroke ":"fill ")+(expl?"object":"solid");
        if (!fetchReg[i]) { fetchReg[i]=E.newRegion(RK_Heap,nullptr,0,0); fetchReg[i]->isolated=true; fetchReg[i]->name=i?"stroke fetch data":"fill fetch data"; }
        ValId bv=E.slice(E.load(s,I,off("context_flags"),4),bit+i,1); E.learn(s,bv,expl);
        if (expl) { E.store(s,I,o+fd.off,fetchReg[i]->base); ValId r=E.load(s,fetchReg[i],rc.off,4); E.setRange(s,r,1,0x7fffffff); }
        else E.store(s,I,o+fd.off,E.add(impl,E.constant(64,o+so.off))); }
      // save() limit and reference counts of live objects
      out.push_back({s,n}); }
    return out;
  }
  static bool lifecycle(const std::string& n) { for (auto* x : {"init","destroy","reset","assign","begin","end","flush","save","restore"}) if (n==std::string("bl_context_")+x || n.rfind(std::string("bl_context_")+x+"_",0)==0) { if (n=="bl_context_restore_clipping") return false; return true; } return false; }
  static bool renderOp(const std::string& n) { for (auto* x : {"fill_","stroke_","clear_","blit_"}) if (n.rfind(std::string("bl_context_")+x,0)==0) return true; return false; }
  std::vector<const Function*> setters() { std::vector<const Function*> o; for (auto* F : apiRoots(M)) { std::string n=F->getName().str(); if (n.rfind("bl_context_",0)!=0 || lifecycle(n) || renderOp(n) || !F->arg_size() || F->getReturnType()->isVoidTy()) continue; if (typeName(pointee(paramType(F,0)))!="BLContextCore" || ptrToConst(paramType(F,0))) continue; o.push_back(F); } return o; }
  std::vector<const Function*> getters() { std::vector<const Function*> o; for (auto* F : apiRoots(M)) { std::string n=F->getName().str(); if (n.rfind("bl_context_get_",0)!=0) continue; if (typeName(pointee(paramType(F,0)))!="BLContextCore") continue; o.push_back(F); } return o; }
  std::vector<ValId> argsOf(const Function* F) { std::vector<ValId> a{ctxPtr}; for (unsigned i=1;i<F->arg_size();i++) a.push_back(arg(F->getName().str()+"."+F->getArg(i)->getName().str(),E.bitsOf(F->getArg(i)->getType()),i)); return a; }
  bool isOk(State& s, ValId r) { uint64_t c; return E.isConst(E.applyFacts(r,s),c) && c==0; }

  std::string leafName(const Engine::Leaf& l) {
    auto& y=E.syms[l.sym]; if (y.kind==SK_Mem && y.region==I) { int64_t o=((int64_t)l.start)/8-Engine::kBias; return fieldAt(o); } Val v; v.width=l.len; v.segs.push_back({l.sym,l.start,l.len,0}); return E.str(E.internVal(std::move(v)));
  }
  std::vector<Field> fs; std::string fieldAt(int64_t o) { if (fs.empty()) fs=L.fields("BLRasterContextImpl"); for (auto& f : fs) if (o>=f.off && o<f.off+f.size) return f.path; return "+"+std::to_string(o); }

  // cells of the context that are computed from other cells: allowed sources
  std::vector<std::pair<std::string,std::vector<std::string>>> derivedSpec() { return {
    {"internal_state.final_transform_fixed",{"internal_state.final_transform","internal_state.user_transform","internal_state.meta_transform"}},
    {"internal_state.meta_transform_fixed",{"internal_state.meta_transform"}},
    {"internal_state.final_transform",{"internal_state.user_transform","internal_state.meta_transform"}},
    {"internal_state.toleranceFixedD",{"internal_state.approximation_options"}},
    {"internal_state.final_clip_box_i",{"internal_state.final_clip_box_d","internal_state.meta_clip_box_i"}},
    {"comp_op_simplify_info",{"internal_state.comp_op"}},
    {"sync_work_data.edge_builder",{"internal_state.final_clip_box_d","internal_state.approximation_options","internal_state.toleranceFixedD"}},
  }; }
  static bool under(const std::string& p, const std::string& prefix) { return p.rfind(prefix,0)==0 && (p.size()==prefix.size()||p[prefix.size()]=='.'||p[prefix.size()]=='['); }
  static bool immutableField(const std::string& p) { for (auto* x : {"render_target_info","dst_data","dst_image","fp_min_safe_coord_d","fp_max_safe_coord_d","solid_","rendering_mode","internal_state.target"}) if (p.rfind(x,0)==0) return true; return false; }
  // bookkeeping outside the state a user can observe
  static bool bookkeeping(const std::string& p) { for (auto* x : {"saved_state_pool","fetch_data_pool","base_zone","pipe_lookup_cache","pipe_provider","worker_mgr","state_id_counter","sync_work_data._accumulated","shared_fill_state","shared_stroke_state","context_flags","sync_work_data.tmp_path","sync_work_data.work_zone"}) if (p.rfind(x,0)==0) return true; return false; }

  // the region, or the region its base pointer was loaded from ..., belongs to the context's initial image
  bool rootedInCtx(Region* r, std::string& via) { for (int k=0;k<6 && r;k++) { if (r==I) return true; if (r==fetchReg[0]||r==fetchReg[1]) { via=r->name; return true; } if (r->kind!=RK_Deref) return false; auto& V=E.vals[r->base]; if (V.segs.size()!=1||!V.segs[0].sym) return false; auto& y=E.syms[V.segs[0].sym]; if (y.kind!=SK_Mem||y.gen) return false; if (y.region==I && via.empty()) via=fieldAt((int64_t)V.segs[0].start/8-Engine::kBias); r=y.region; } return false; }
};

// C02 ---------------------------------------------------------------------------------------------------------------
struct SaveRestore : CtxCheck {
  using CtxCheck::CtxCheck;
  // mode 0: every setter between save() and restore(); mode 1: pairs of setters that change a common field;
  // mode 2: all pairs; mode 3: like 1, without first setters that have many outcomes. `part` selects initial states (-1: all).
  std::map<const Function*, std::set<std::string>> touched; std::set<const Function*> big;
  void run(bool async, int mode, int part) {
    if (!setup(async)) return; const Function *save=M.getFunction("bl_context_save"), *rest=M.getFunction("bl_context_restore"); if (!save||!rest) { R.broken("save/restore not found"); return; }
    auto sets=setters(); if (sets.size()<30) { R.broken("only "+std::to_string(sets.size())+" state changing functions found"); return; }
    auto ini=inits(); std::string ms=async?"async":"sync"; int ix=0;
    for (auto& in : ini) { int k=ix++; if (part>=0 && k!=part) continue;
      std::vector<Engine::Exit> saved; try { saved=E.runRoot(save,{ctxPtr,E.constant(64,0)},in.s,perRun); } catch (BudgetExceeded&) { R.broken("bl_context_save exceeds the budget"); return; }
      std::vector<Engine::Exit> ok; for (auto& x : saved) if (isOk(x.s,x.ret)) ok.push_back(x);
      if (ok.empty()) { R.broken("bl_context_save has no successful path"); return; }
      std::map<const Function*,std::vector<Engine::Exit>> midsOf;
      for (auto* F : sets) { if (auto* only=getenv("BLSA_ONLY")) if (!mode && F->getName()!=only) continue;
        auto a=argsOf(F); unsigned paths=0; bool budget=false; std::vector<Engine::Exit> mids;
        for (auto& sv : ok) { std::vector<Engine::Exit> mid; try { mid=E.runRoot(F,a,sv.s,perRun); } catch (BudgetExceeded&) { budget=true; break; }
          for (auto& m : mid) { noteTouched(F,sv.s,m.s); if (mode) mids.push_back(m); else if (!finish(F,F->getName().str(),rest,in,m,ms,paths)) { budget=true; break; } } }
        if (!mode) R.count("setter runs ("+ms+")",1);
        if (!mode) { R.count("paths compared",paths); if (!paths && !budget) R.note(F->getName().str()+": no path to a successful restore"); }
        if (budget) { R.note(F->getName().str()+" ("+ms+", "+in.name+"): analysis budget exceeded, not decided"); continue; }
        if (mode) midsOf[F]=mode==1?mids:representatives(in,mids);
      }
      if (mode) for (auto* F : sets) { if (!midsOf.count(F)) continue; if (auto* only=getenv("BLSA_ONLY")) if (F->getName()!=only) continue; R.count("first setters of pairs ("+ms+")",1); second(F,midsOf[F],sets,rest,in,ms,mode); }
    }
  }
  // outcomes that changed the same fields (and the same parts of the saved state) and agree on the context flags are
  // alike for what follows: one of each is carried on
  std::vector<Engine::Exit> representatives(Init& in, std::vector<Engine::Exit>& mids) {
    std::map<std::string,unsigned> seen; std::vector<Engine::Exit> out; int64_t fo=off("context_flags");
    for (auto& m : mids) { std::string k; uint64_t rc; k+=E.isConst(m.ret,rc)?(rc?"E":"S"):"?"; if (k=="E") continue; k+=std::to_string(E.applyFacts(E.load(m.s,I,fo,4),m.s));
      for (auto& r : m.s.mem) { auto i0=in.s.mem.find(r.first); if (i0!=in.s.mem.end() && *i0->second==*r.second) continue; Region* g=E.regions[r.first-1].get(); if (g->kind==RK_Stack) continue; k+="|"+std::to_string(r.first)+":"; for (auto& c : r.second->cells) { if (i0!=in.s.mem.end()) { auto it=i0->second->cells.find(c.first); if (it!=i0->second->cells.end() && it->second==c.second) continue; } k+=std::to_string(c.first)+","; } }
      if (!seen[k]++) out.push_back(m); }
    return out;
  }
  void noteTouched(const Function* F, State& before, State& after) {
    if (fs.empty()) fs=L.fields("BLRasterContextImpl"); auto a=before.mem.find(I->id), b=after.mem.find(I->id); if (b==after.mem.end()) return; std::map<int64_t,ValId> none; auto& ca=a==before.mem.end()?none:a->second->cells;
    for (auto& c : b->second->cells) { auto it=ca.find(c.first); if (it!=ca.end() && it->second==c.second) continue; std::string f=fieldAt(c.first); if (f!="context_flags" && !bookkeeping(f)) touched[F].insert(f); }
  }
  void second(const Function* F, std::vector<Engine::Exit>& mids, std::vector<const Function*>& sets, const Function* rest, Init& in, const std::string& ms, int mode) {
    for (auto* G : sets) {
      if (mode!=2) { if (touched.count(G)||mode) { bool common=false; for (auto& t : touched[F]) if (touched[G].count(t)) common=true; if (!common) continue; } else if (G!=F) continue; }
      std::string tag=F->getName().str()+"() and "+G->getName().str(); auto a=argsOf(G); if (G==F) for (unsigned i=1;i<G->arg_size();i++) a[i]=arg(G->getName().str()+"."+G->getArg(i)->getName().str()+"'",E.bitsOf(G->getArg(i)->getType()),i);
      unsigned paths=0; bool budget=false;
      for (auto& m : mids) { std::vector<Engine::Exit> nx; try { nx=E.runRoot(G,a,m.s,perRun); } catch (BudgetExceeded&) { budget=true; break; } if (mode!=1) nx=representatives(in,nx); for (auto& x : nx) if (!finish(G,tag,rest,in,x,ms,paths)) { budget=true; break; } if (budget) break; }
      R.count("setter pairs ("+ms+")",1); R.count("paths compared",paths); if (budget) R.note(tag+" ("+ms+", "+in.name+"): analysis budget exceeded, not decided"); }
  }
  bool finish(const Function* F, const std::string& tag, const Function* rest, Init& in, Engine::Exit& m, const std::string& ms, unsigned& paths) {
    std::vector<Engine::Exit> fin; try { fin=E.runRoot(rest,{ctxPtr,E.constant(64,0)},m.s,perRun); } catch (BudgetExceeded&) { return false; }
    for (auto& f : fin) { if (!isOk(f.s,f.ret)) { uint64_t c; if (E.isConst(f.ret,c)) R.violation(F->getName().str()+"/restore-fails",fnLoc(F),"restore() after "+tag+"() fails with error "+std::to_string(c)+" although save() succeeded",ms+", "+in.name); continue; }
      paths++; compare(F,tag,in,f.s,ms); }
    return true;
  }
  void compare(const Function* F, const std::string& tag, Init& in, State& s, const std::string& mode) {
    if (fs.empty()) fs=L.fields("BLRasterContextImpl"); auto spec=derivedSpec(); std::string fn=F->getName().str();
    for (auto& m : s.mem) { Region* r=E.regions[m.first-1].get();
      if (r!=I) { std::string via; if (r->kind!=RK_Deref && r!=fetchReg[0] && r!=fetchReg[1]) continue; if (r->kind==RK_Deref) { if (!rootedInCtx(r,via)) { continue; } if (via.empty()||via.rfind("internal_state",0)!=0) { if (via!="fill fetch data" && via!="stroke fetch data") continue; } } else via=r->name;
        auto i0=in.s.mem.find(m.first); if (i0!=in.s.mem.end() && *i0->second==*m.second) continue;
        for (auto& c : m.second->cells) { uint32_t n=E.vals[c.second].width/8; ValId was=E.load(in.s,r,c.first,n); ValId now=E.applyFacts(c.second,s); was=E.applyFacts(was,s); if (was==now) continue; ValId q=E.icmpEq(was,now,s); uint64_t k; if (E.isConst(q,k)&&k) continue;
          R.count("object cells compared",1); if (verbose) fprintf(stderr,"OBJ %s %s %s+%ld was %s now %s\n",fn.c_str(),in.name.c_str(),via.c_str(),c.first,E.str(was).c_str(),E.str(now).c_str());
          R.violation(fn+"/object/"+via,fnLoc(F),"after save(), "+tag+"() and restore() the object held by "+via+" is not as before (offset "+std::to_string(c.first)+", reference count or contents)",mode+", "+in.name+": was "+E.str(was)+", is "+E.str(now)); }
        continue; }
      std::set<std::string> bad; 
      for (auto& f : fs) { if (f.size<=0||f.size>64||bookkeeping(f.path)) { if (f.path!="context_flags") continue; }
        ValId was=E.applyFacts(E.load(in.s,I,f.off,f.size),s), now=E.applyFacts(E.load(s,I,f.off,f.size),s); R.count("fields compared",1);
        if (f.path=="context_flags") { flags(F,tag,in,s,was,now,mode); continue; }
        if (was==now) continue; ValId q=E.icmpEq(was,now,s); uint64_t k; if (E.isConst(q,k)&&k) continue;
        // padding of a style that is disabled, and solid data hidden behind an object style
        if (inactive(f,in,s)) continue;
        const std::vector<std::string>* src=nullptr; for (auto& d : spec) if (under(f.path,d.first)) { src=&d.second; break; }
        bool good=true; std::string why; bool pub=under(f.path,"internal_state") && f.off<off("internal_state.transform_types_packed") && !under(f.path,"internal_state.final_transform");
        if (pub||!src) { good=false; why="is "+E.str(now); if (!pub) { good=initialOnly(now,nullptr,why); } }
        else good=initialOnly(now,src,why);
        if (!good && bad.insert(f.path).second) { if (verbose) fprintf(stderr,"CTX %s [%s %s] %s was %s now %s\n",fn.c_str(),mode.c_str(),in.name.c_str(),f.path.c_str(),E.str(was).c_str(),E.str(now).c_str());
          R.violation(fn+"/"+f.path,fnLoc(F),"after save(), "+tag+"() and restore() the context's "+f.path+" is not what it was before save()",mode+", "+in.name+": "+why); }
      }
    }
  }
  // every leaf of the value is part of the context as it was before save(): `src` (or anything) plus immutable fields
  bool initialOnly(ValId v, const std::vector<std::string>* src, std::string& why) {
    for (auto& l : E.leavesOf(v)) { auto& y=E.syms[l.sym]; if (y.kind==SK_Addr && y.region->kind==RK_Global) continue;
      if (y.kind==SK_Mem && y.region==I && y.gen==0) { std::string n=leafName(l); if (immutableField(n)) continue; if (!src) continue; bool ok=false; for (auto& p : *src) if (under(n,p)) ok=true; if (ok) continue; why="depends on "+n; return false; }
      if (y.kind==SK_Mem && y.gen==0 && y.region->kind==RK_Global) continue;
      why="depends on "+leafName(l); return false; }
    return true;
  }
  bool inactive(const Field& f, Init& in, State& s) { return false; }
  void flags(const Function* F, const std::string& tag, Init& in, State& s, ValId was, ValId now, const std::string& mode) {
    auto get=[&](const char* n, uint64_t d){ auto it=L.enumerators.find(n); return it==L.enumerators.end()?d:it->second; };
    uint64_t shared=get("kSharedStateAllFlags",0), keep=get("kPreservedFlags",0);
    for (unsigned b=0;b<32;b++) { ValId x=E.applyFacts(E.slice(was,b,1),s), y=E.applyFacts(E.slice(now,b,1),s); if (x==y) continue; uint64_t c; if (((shared>>b)&1) && E.isConst(y,c) && !c) continue; if ((keep>>b)&1) continue;
      std::string nm="bit "+std::to_string(b); for (auto& e : L.enumerators) if (e.second==(1ull<<b) && e.first.find("RasterEngine::ContextFlags::")!=std::string::npos) nm=e.first;
      if (verbose) fprintf(stderr,"FLG %s [%s] %s was %s now %s\n",F->getName().str().c_str(),in.name.c_str(),nm.c_str(),E.str(x).c_str(),E.str(y).c_str());
      R.violation(F->getName().str()+"/context_flags/"+nm,fnLoc(F),"after save(), "+tag+"() and restore() the context flag "+nm+" differs from before save()",mode+", "+in.name+": is "+E.str(y)); }
  }
};

// C21 / C05 / C19 on the rendering context ---------------------------------------------------------------------------
// what a state-changing function is allowed to change, by the name of the property it sets
struct SetGet : CtxCheck {
  std::string which; using CtxCheck::CtxCheck;
  static std::vector<std::string> mayChange(const std::string& n0) {
    std::string n=n0.substr(strlen("bl_context_")); auto sty=[](int i){ std::string k="["+std::to_string(i)+"]"; return std::vector<std::string>{"internal_state.style_type"+k,"internal_state.style"+k}; };
    if (n=="set_hint"||n=="set_hints") return {"internal_state.hints"};
    if (n=="set_flatten_mode") return {"internal_state.approximation_options.flatten_mode"};
    if (n=="set_flatten_tolerance") return {"internal_state.approximation_options.flatten_tolerance","internal_state.toleranceFixedD","sync_work_data.edge_builder"};
    if (n=="set_approximation_options") return {"internal_state.approximation_options","internal_state.toleranceFixedD","sync_work_data.edge_builder","internal_state.offset_parameter"};
    if (n.rfind("set_fill_style",0)==0||n=="disable_fill_style") return sty(0);
    if (n.rfind("set_stroke_style",0)==0||n=="disable_stroke_style") return sty(1);
    if (n=="swap_styles") return {"internal_state.style","internal_state.style_type","internal_state.style_alpha","internal_state.styleAlphaI"};
    if (n=="set_fill_alpha") return {"internal_state.style_alpha[0]","internal_state.styleAlphaI[0]"};
    if (n=="set_stroke_alpha") return {"internal_state.style_alpha[1]","internal_state.styleAlphaI[1]"};
    if (n=="set_global_alpha") return {"internal_state.global_alpha","internal_state.global_alpha_i","internal_state.styleAlphaI"};
    if (n=="set_comp_op") return {"internal_state.comp_op","comp_op_simplify_info"};
    if (n=="set_fill_rule") return {"internal_state.fill_rule"};
    if (n=="set_stroke_options") return {"internal_state.stroke_options"};
    if (n=="set_stroke_caps") return {"internal_state.stroke_options.caps","internal_state.stroke_options.start_cap","internal_state.stroke_options.end_cap","internal_state.stroke_options.hints"};
    if (n=="set_stroke_cap") return {"internal_state.stroke_options.caps","internal_state.stroke_options.start_cap","internal_state.stroke_options.end_cap","internal_state.stroke_options.hints"};
    if (n=="set_stroke_join"||n=="set_stroke_transform_order") return {"internal_state.stroke_options."+n.substr(strlen("set_stroke_")),"internal_state.stroke_options.hints"};
    if (n=="set_stroke_dash_array") return {"internal_state.stroke_options.dash_array"};
    if (n.rfind("set_stroke_",0)==0) return {"internal_state.stroke_options."+n.substr(strlen("set_stroke_"))};
    if (n=="apply_transform_op") return {"internal_state.user_transform","internal_state.final_transform","internal_state.transform_types","internal_state.final_transform_fixed","internal_state.translation_i","internal_state.transform_types_packed","internal_state.fixed_transform_types[0]","internal_state.final_transform_type","internal_state.final_transform_fixed_type"};
    if (n=="user_to_meta") return {"internal_state.user_transform","internal_state.meta_transform","internal_state.meta_transform_fixed","internal_state.meta_transform_type","internal_state.meta_transform_fixed_type","internal_state.transform_types","internal_state.transform_types_packed","internal_state.fixed_transform_types"};
    if (n.rfind("clip_to_rect",0)==0||n=="restore_clipping") return {"internal_state.final_clip_box","sync_work_data.edge_builder","sync_work_data.clip_mode","internal_state.final_clip"};
    return {"?"};
  }
  static bool allowedBy(const std::string& p, const std::vector<std::string>& a) { for (auto& x : a) if (under(p,x) || (x.back()!=']' && p.rfind(x,0)==0 && x.find("final_clip")!=std::string::npos)) return true; return false; }
  bool unchanged(State& s, ValId was, ValId now) { was=E.applyFacts(was,s); now=E.applyFacts(now,s); if (was==now) return true; ValId q=E.icmpEq(was,now,s); uint64_t k; return E.isConst(q,k)&&k; }
  static bool semantic(const std::string& p) { if (bookkeeping(p)) return false; for (auto* x : {"internal_state","comp_op_simplify_info","sync_work_data.clip_mode","sync_work_data.edge_builder"}) if (under(p,x)) return p.find("saved_state_count")==std::string::npos; return false; }
  void run(bool async, const std::string& prop) {
    which=prop; if (!setup(async)) return; if (which=="C19") { Field ft=L.member("BLRasterContextImpl","internal_state.final_transform"); if (ft.off>=0) keyCells.push_back({ft.off,ft.off+32}); } std::string ms=async?"async":"sync"; auto sets=setters(); auto gets=getters(); if (sets.size()<30||gets.size()<20) { R.broken("setters/getters not found"); return; }
    const Function *save=M.getFunction("bl_context_save"), *rest=M.getFunction("bl_context_restore"); if (!save||!rest) { R.broken("save/restore not found"); return; }
    uint64_t sh=0; int shb[3]={-1,-1,-1}; if (which=="C19") { int k=0; for (auto* n : {"kSharedStateFill","kSharedStateStrokeBase","kSharedStateStrokeExt"}) { auto it=L.enumerators.find(n); if (it!=L.enumerators.end()) { sh|=it->second; shb[k]=__builtin_ctzll(it->second); } k++; } if (!sh) { R.broken("shared state flags not found"); return; } }
    for (auto& in : inits()) for (auto* F : sets) {
      if (auto* only=getenv("BLSA_ONLY")) if (F->getName()!=only) continue;
      auto a=argsOf(F); std::string fn=F->getName().str(); R.count("setter runs ("+ms+")",1);
      if (which=="C19") { shared(F,a,in,ms,save,rest,shb); continue; }
      std::vector<Engine::Exit> ex; try { ex=E.runRoot(F,a,in.s,perRun); } catch (BudgetExceeded&) { R.note(fn+" ("+ms+", "+in.name+"): analysis budget exceeded, not decided"); continue; }
      auto may=mayChange(fn); if (may.size()==1 && may[0]=="?") { R.note(fn+": not in the table of properties, frame rule not applied"); }
      for (auto& x : ex) { uint64_t rc; bool known=E.isConst(E.applyFacts(x.ret,x.s),rc); if (!known) { R.count("paths with an undetermined result",1); continue; }
        if (which=="C05") { if (rc) { R.count("error paths",1); std::string w="reported an error ("+std::to_string(rc)+") but"; frame(F,in,x.s,{},ms,w); flagRule(F,in,x.s,{},ms,w); } continue; }
        if (rc) continue; R.count("successful paths",1);
        if (!(may.size()==1&&may[0]=="?")) { frame(F,in,x.s,may,ms,""); flagRule(F,in,x.s,may,ms,""); }
        effect(F,a,in,x.s,ms); }
    }
  }
  void frame(const Function* F, Init& in, State& s, const std::vector<std::string>& may, const std::string& ms, const std::string& why) {
    if (fs.empty()) fs=L.fields("BLRasterContextImpl"); std::string fn=F->getName().str();
    for (auto& f : fs) { if (f.size<=0||f.size>64||!semantic(f.path)||allowedBy(f.path,may)) continue; R.count("fields compared",1);
      ValId was=E.load(in.s,I,f.off,f.size), now=E.load(s,I,f.off,f.size); if (was==now||unchanged(s,was,now)) continue;
      if (f.path.find(".style")!=std::string::npos && may.empty()==false && sameStyle(f)) continue;
      if (verbose) fprintf(stderr,"%s %s [%s %s] %s was %s now %s\n",which.c_str(),fn.c_str(),ms.c_str(),in.name.c_str(),f.path.c_str(),E.str(E.applyFacts(was,s)).c_str(),E.str(E.applyFacts(now,s)).c_str());
      R.violation(fn+"/"+f.path,fnLoc(F),fn+"() "+(why.empty()?"changes":why+" has changed")+" "+f.path+(why.empty()?", which belongs to another property":""),ms+", "+in.name+": is "+E.str(E.applyFacts(now,s))); }
  }
  // flags that say a part of the state makes drawing a no-op (or how a style is held) belong to that part
  void flagRule(const Function* F, Init& in, State& s, const std::vector<std::string>& may, const std::string& ms, const std::string& why) {
    static const struct { const char* flag; const char* group; int slot; } T[]={{"kNoGlobalAlpha","alpha",-1},{"kNoFillAlpha","alpha",0},{"kNoStrokeAlpha","alpha",1},{"kNoFillStyle","style",0},{"kNoStrokeStyle","style",1},{"kFetchDataFill","style",0},{"kFetchDataStroke","style",1},{"kNoClipRect","clip",-1},{"kNoClipMask","clip",-1},{"kNoMetaTransform","transform",-1},{"kNoUserTransform","transform",-1}};
    int64_t fo=off("context_flags"); if (fo<0) return; ValId was=E.load(in.s,I,fo,4), now=E.load(s,I,fo,4); std::string fn=F->getName().str(); std::map<unsigned,std::string> groupOf;
    for (auto& t : T) { auto it=L.enumerators.find(t.flag); if (it!=L.enumerators.end()) groupOf[__builtin_ctzll(it->second)]=t.group; }
    for (auto& t : T) { auto it=L.enumerators.find(t.flag); if (it==L.enumerators.end()) { if (std::string(t.flag)=="kNoFillStyle") R.note("context flag names not recognised"); continue; } unsigned b=__builtin_ctzll(it->second); R.count("state flags checked",1);
      ValId x=E.applyFacts(E.slice(was,b,1),s), y=E.applyFacts(E.slice(now,b,1),s); if (x==y) continue; bool ok=false; std::string g=t.group;
      for (auto& m : may) { std::string k=g=="alpha"?"alpha":g; if (m.find(k)==std::string::npos) continue; if (g=="style"&&m.find("alpha")!=std::string::npos) continue; if (t.slot>=0 && g!="transform" && m.find('[')!=std::string::npos && m.find("["+std::to_string(t.slot)+"]")==std::string::npos) continue; ok=true; }
      std::string bad; if (!ok) bad=std::string(why.empty()?"changes":why+" has changed")+" the flag "+t.flag+(why.empty()?", which belongs to another property":"");
      else for (auto& l : E.leavesOf(y)) { auto& m=E.syms[l.sym]; if (m.kind!=SK_Mem||m.region!=I||m.gen) continue; int64_t bit=(int64_t)l.start-8*(fo+Engine::kBias); for (unsigned q=0;q<l.len;q++) if (bit+q>=0 && bit+q<32) { auto gi=groupOf.find(bit+q); if (gi==groupOf.end()||gi->second!=g) bad=std::string("computes the flag ")+t.flag+" from a flag of another property (bit "+std::to_string(bit+q)+")"; } }
      if (!bad.empty()) R.violation(fn+"/flag/"+t.flag,fnLoc(F),fn+"() "+bad,ms+", "+in.name+": is "+E.str(y)); }
  }
  // an element of an array view of a union that no named member of the union covers
  bool unnamedSlot(const std::string& T, const Field& f) { if (f.path.empty()||f.path.back()!=']') return false; for (auto& g : L.fields(T)) if (g.path.back()!=']' && g.path.find("reserved")==std::string::npos && g.off<f.off+f.size && f.off<g.off+g.size) return false; std::string head=f.path.substr(0,f.path.find('[')); bool any=false; for (auto& g : L.fields(T)) if (g.path.back()!=']' && g.path.find("reserved")==std::string::npos) for (auto& h : L.fields(T)) if (h.path.rfind(head+"[",0)==0 && g.off<h.off+h.size && h.off<g.off+g.size) any=true; return any; }
  bool sameStyle(const Field&) { return false; }
  // the getter of the same property
  void effect(const Function* F, std::vector<ValId>& a, Init& in, State& s, const std::string& ms) {
    std::string fn=F->getName().str(), p="bl_context_set_"; if (fn.rfind(p,0)!=0) return; std::string prop=fn.substr(p.size());
    for (auto* suf : {"_rgba32","_rgba64","_rgba","_with_mode"}) { size_t l=strlen(suf); if (prop.size()>l && prop.compare(prop.size()-l,l,suf)==0) prop=prop.substr(0,prop.size()-l); }
    const Function* G=M.getFunction("bl_context_get_"+prop); if (!G||G->isDeclaration()) return; unsigned na=F->arg_size(); std::vector<ValId> ga{ctxPtr};
    const Argument* last=F->getArg(na-1); bool valPtr=last->getType()->isPointerTy(); bool outG=G->arg_size()>=2 && G->getArg(G->arg_size()-1)->getType()->isPointerTy() && !ptrToConst(paramType(G,G->arg_size()-1));
    if (fn.find("_style")!=std::string::npos) { style(F,G,a,in,s,ms); return; }
    if (!outG) { if (G->arg_size()!=na-1) return; for (unsigned i=1;i+1<na;i++) ga.push_back(a[i]);
      std::vector<Engine::Exit> gx; try { gx=E.runRoot(G,ga,s,perRun); } catch (BudgetExceeded&) { R.note(G->getName().str()+": budget"); return; }
      for (auto& g : gx) { R.count("values read back",1); ValId v=E.applyFacts(g.ret,g.s), w=E.applyFacts(a[na-1],g.s); if (v==w||unchanged(g.s,w,v)) continue;
        bool dep=false, other=false; ValId raw=a[na-1]; SymId as=E.vals[raw].segs[0].sym; for (auto& l : E.leavesOf(v)) { if (l.sym==as) dep=true; else other=true; }
        bool clamp=F->getArg(na-1)->getType()->isDoubleTy() && (prop.find("alpha")!=std::string::npos||prop.find("tolerance")!=std::string::npos); uint64_t k;
        if (clamp && !other && (dep||E.isConst(v,k))) continue;
        R.violation(fn+"/read-back",fnLoc(F),"after a successful "+fn+"(), "+G->getName().str()+"() does not return the value set",ms+", "+in.name+": returns "+E.str(v)+" for "+E.str(w)); }
      return; }
    if (!valPtr || G->arg_size()!=2 || na!=2) return; std::string T=typeName(pointee(paramType(G,1))), U=typeName(pointee(paramType(F,1))); if (T!=U||T.empty()) return;
    ValId out=arg(G->getName().str()+".out",64,9); ga.push_back(out); Region* ro=E.derefRegion(out); Region* ra=E.derefRegion(a[1]); State s0=s; std::vector<Engine::Exit> gx; try { gx=E.runRoot(G,ga,s0,perRun); } catch (BudgetExceeded&) { R.note(G->getName().str()+": budget"); return; }
    for (auto& g : gx) { uint64_t rc; if (!E.isConst(g.ret,rc)||rc) continue; for (auto& f : L.fields(T)) { if (f.size<=0||f.size>64) continue; if (f.path.find("reserved")!=std::string::npos||f.path.find("_unused")!=std::string::npos) continue; if (unnamedSlot(T,f)) continue; R.count("values read back",1); ValId v=E.load(g.s,ro,f.off,f.size), w=E.load(g.s,ra,f.off,f.size); if (v==w||unchanged(g.s,w,v)) continue;
        v=E.applyFacts(v,g.s); w=E.applyFacts(w,g.s); bool ok=true; auto wl=E.leavesOf(w); for (auto& l : E.leavesOf(v)) { auto& y=E.syms[l.sym]; if (!(y.kind==SK_Mem && y.region==ra)) ok=false; } if (ok && f.path.find("tolerance")!=std::string::npos) continue;
        if (verbose) fprintf(stderr,"%s %s: %s got %s set %s\n",which.c_str(),fn.c_str(),f.path.c_str(),E.str(v).c_str(),E.str(w).c_str());
        R.violation(fn+"/read-back/"+f.path,fnLoc(F),"after a successful "+fn+"(), "+G->getName().str()+"() returns another "+f.path,ms+", "+in.name+": returns "+E.str(v)); } }
  }
  void style(const Function* F, const Function* G, std::vector<ValId>& a, Init& in, State& s, const std::string& ms) {
    std::string fn=F->getName().str(); ValId out=arg(G->getName().str()+".out",64,9); Region* ro=E.derefRegion(out); State s0=s;
    // the destination variable holds nothing that needs releasing
    auto oi=L.member("BLObjectCore","_d"); (void)oi; E.store(s0,ro,8,E.constant(64,0)); { auto it=L.enumerators.find("BL_OBJECT_TYPE_NULL"); (void)it; }
    std::vector<Engine::Exit> gx; try { gx=E.runRoot(G,{ctxPtr,out},s0,perRun); } catch (BudgetExceeded&) { R.note(G->getName().str()+": budget"); return; }
    for (auto& g : gx) { uint64_t rc; if (!E.isConst(g.ret,rc)) continue; R.count("values read back",1);
      auto bad=[&](const std::string& w){ R.violation(fn+"/read-back",fnLoc(F),"after a successful "+fn+"(), "+G->getName().str()+"() "+w,ms+", "+in.name); };
      if (fn.find("_rgba32")!=std::string::npos||fn.find("_rgba64")!=std::string::npos) { unsigned n=fn.find("_rgba32")!=std::string::npos?4:8; if (rc) { bad("fails"); continue; } ValId v=E.load(g.s,ro,0,n); if (!unchanged(g.s,v,a[1])) bad("returns another colour: "+E.str(v)); }
      else if (fn.find("_rgba")!=std::string::npos) { if (rc) continue; Region* ra=E.derefRegion(a[1]); for (int i=0;i<4;i++) { ValId v=E.load(g.s,ro,i*4,4); bool own=false, other=false; for (auto& l : E.leavesOf(v)) { auto& y=E.syms[l.sym]; if (y.kind==SK_Mem&&y.region==ra) { int64_t o=(int64_t)l.start/8-Engine::kBias; if (o==i*4) own=true; else other=true; } } if (other) bad("mixes up the colour components"); (void)own; } }
      else { if (rc) continue; Region* ra=E.derefRegion(a[1]); ValId v=E.load(g.s,ro,0,8), w=E.load(g.s,ra,0,8), v2=E.load(g.s,ro,8,8), w2=E.load(g.s,ra,8,8); if (verbose) fprintf(stderr,"STYLE %s %s / %s ; %s / %s\n",fn.c_str(),E.str(v).c_str(),E.str(w).c_str(),E.str(v2).c_str(),E.str(w2).c_str());
        for (ValId q : {v,v2}) for (auto& l : E.leavesOf(q)) { auto& y=E.syms[l.sym]; if (y.kind==SK_Mem && y.region==I && y.gen==0) { bad("returns what was set before: "+E.str(q)); break; } } } }
  }
  // C19: state captured for worker threads is dropped when its source changes
  void shared(const Function* F, std::vector<ValId>& a, Init& in, const std::string& ms, const Function* save, const Function* rest, int shb[3]) {
    static const std::vector<std::pair<int,std::vector<std::string>>> src={
      {0,{"internal_state.final_clip_box_d","internal_state.final_transform_fixed","internal_state.toleranceFixedD"}},
      {1,{"internal_state.stroke_options","internal_state.approximation_options"}},
      {2,{"internal_state.user_transform","internal_state.meta_transform_fixed"}}};
    State b=in.s; int64_t oF=off("context_flags"); auto set1=[&](State& s){ ValId w=E.load(s,I,oF,4); for (int k=0;k<3;k++) { ValId lo=E.slice(w,0,shb[k]), hi=E.slice(w,shb[k]+1,31-shb[k]); w=E.concat(E.concat(lo,E.constant(1,1)),hi); } E.store(s,I,oF,w); };
    auto judge=[&](State& before, State& after, const std::string& what) {
      ValId w=E.load(after,I,oF,4);
      for (auto& g : src) { ValId bit=E.applyFacts(E.slice(w,shb[g.first],1),after); uint64_t c; bool cleared=E.isConst(bit,c)&&!c; R.count("captured groups checked",1); if (cleared) continue;
        for (auto& f : fs) { if (f.size<=0||f.size>64) continue; bool is=false; for (auto& p : g.second) if (under(f.path,p)) is=true; if (!is) continue; if (f.path.find("m20")!=std::string::npos||f.path.find("m21")!=std::string::npos||f.path.find("m[4]")!=std::string::npos||f.path.find("m[5]")!=std::string::npos) continue;
          ValId was=E.load(before,I,f.off,f.size), now=E.load(after,I,f.off,f.size); if (was==now||unchanged(after,was,now)) continue; if (f.path.find("transform")!=std::string::npos && comparedEqual(before,after)) continue;
          if (verbose) fprintf(stderr,"C19 %s [%s] %s was %s now %s bit %s\n",what.c_str(),in.name.c_str(),f.path.c_str(),E.str(was).c_str(),E.str(now).c_str(),E.str(bit).c_str());
          static const char* nm[]={"fill","stroke","transformed stroke"};
          R.violation(F->getName().str()+"/shared-"+nm[g.first]+"/"+f.path,fnLoc(F),what+" changes "+f.path+" but keeps the "+nm[g.first]+" state captured from it for worker threads",ms+", "+in.name); } } };
    if (fs.empty()) fs=L.fields("BLRasterContextImpl"); std::string fn=F->getName().str();
    try { State s1=b; set1(s1); for (auto& x : E.runRoot(F,a,s1,perRun)) { judge(s1,x.s,fn+"()"); }
      for (auto& sv : E.runRoot(save,{ctxPtr,E.constant(64,0)},b,perRun)) { if (!isOk(sv.s,sv.ret)) continue; for (auto& m : E.runRoot(F,a,sv.s,perRun)) { State s2=m.s; set1(s2); for (auto& r : E.runRoot(rest,{ctxPtr,E.constant(64,0)},s2,perRun)) if (isOk(r.s,r.ret)) judge(s2,r.s,"restore() after "+fn+"()"); } }
    } catch (BudgetExceeded&) { R.note(fn+" ("+ms+", "+in.name+"): analysis budget exceeded, not decided"); }
  }
  // the path compared the scale part of the final transform before and after and found it unchanged
  bool comparedEqual(State& before, State& after) {
    int64_t o=off("internal_state.final_transform"); if (o<0) return false; int n=0;
    for (int i=0;i<4;i++) { ValId was=E.load(before,I,o+8*i,8), now=E.load(after,I,o+8*i,8); if (was==now) { n++; continue; } bool ok=false;
      for (auto& f : after.facts) { auto& y=E.syms[f.first.first]; if (y.kind!=SK_Op||y.op!=OP_FCMP||y.ops.size()!=2) continue; bool m=(y.ops[0]==was&&y.ops[1]==now)||(y.ops[0]==now&&y.ops[1]==was); if (!m) continue; bool t=f.second.second&1; if ((y.extra==FCmpInst::FCMP_UNE && !t)||(y.extra==FCmpInst::FCMP_OEQ && t)||(y.extra==FCmpInst::FCMP_ONE&&!t)||(y.extra==FCmpInst::FCMP_UEQ&&t)) ok=true; }
      if (ok) n++; }
    return n==4; }
};
} // namespace sa
