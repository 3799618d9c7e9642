// C01 / C03 / C04 / C05 / C07 / C11 / C19 / C21 on the value objects.
//
// Every exported function is interpreted over unknown arguments: the handle a pointer argument refers to, the
// implementation the handle refers to and the buffers that refers to are unknown memory named by where their pointer
// was loaded from.
#pragma once
#include "ctx.h"
namespace sa {
struct ObjCheck : Client {
  Module& M; Reporter& R; Layouts L; Engine E; uint64_t perRun=getenv("BLSA_RUN")?atoll(getenv("BLSA_RUN")):400000; bool verbose=getenv("BLSA_VERBOSE")!=nullptr; std::string prop;
  ObjCheck(Module& m, Reporter& r, const std::string& p="") : M(m), R(r), L(m), E(m), prop(p) { E.client=this; E.K=getenv("BLSA_K")?atoi(getenv("BLSA_K")):48; }
  std::map<std::string,int> opaque;
  void onOpaqueCall(Engine& E, State& s, const CallBase* cb, const Function* F, const std::vector<ValId>& as, CtxId) override { std::string n=F?shortName(F):"(indirect) "+E.locFull(cb); if (n.rfind("llvm.",0)!=0) opaque[n]++; if (prop=="C11") refOpaque(s,as,n); if (prop=="C04") for (auto a : as) { Engine::Ptr q=E.split(a); if (q.r&&q.r->kind==RK_Heap) s.client.erase(0x11FE000000000000ull|q.r->id); } }
  bool inlineCall(Engine& E, State&, const CallBase*, const Function* F, CtxId, unsigned depth) override { unsigned k=0; for (auto* g : E.stack) if (g==F && ++k>=2) return false; std::string f=fnFile(F); for (auto* x : {"/opentype/","/codec/","/raster/","/pipeline/","/pixelops/","/compression/"}) if (f.find(x)!=std::string::npos) return false; return true; }
  bool splitMasks() override { return true; }
  // destroying an object runs its own destructor on memory nobody else refers to
  bool onCall(Engine& E, State& s, const CallBase* cb, const Function* F, const std::vector<ValId>& args, CtxId c, std::vector<std::pair<State,ValId>>& out) override {
    uint32_t w=cb->getType()->isVoidTy()?0:E.bitsOf(cb->getType());
    if (!F) { ValId cv=E.curCallee; for (auto& l : E.leavesOf(cv)) if (E.syms[l.sym].kind==SK_Mem) for (auto a : args) { Engine::Ptr p=E.split(a); if (!p.r) continue; Region* r=E.syms[l.sym].region; for (int k=0;k<3&&r;k++) { if (r==p.r) { out.push_back({s,w?E.fresh(w,cb,c):0}); return true; } if (r->kind!=RK_Deref) break; Region* up=nullptr; for (auto& q : E.leavesOf(r->base)) if (E.syms[q.sym].kind==SK_Mem) up=E.syms[q.sym].region; r=up; } }
      return false; }
    if (shortName(F)=="bl_object_destroy_unknown_impl") { if (prop=="C11" && !args.empty()) refDestroy(s,args[0],cb,c); out.push_back({s,w?E.constant(w,0):0}); return true; }
    return false; }
  ValId arg(const std::string& tag, uint32_t w, int64_t ix) { Sym y; y.kind=SK_Arg; y.width=w; y.tag=tag; y.extra=ix; y.v=reinterpret_cast<const Value*>(std::hash<std::string>()(tag)); return E.ofSym(E.internSym(std::move(y))); }

  // ---- where a region comes from ---------------------------------------------------------------------------------
  struct Org { int arg=-1; bool isConst=false; std::vector<Region*> impls; const DIType* type=nullptr; std::string path; bool known() const { return arg>=0; } };
  std::map<Region*,Org> orgs; const Function* root=nullptr;  std::vector<ValId> rootArgs; std::vector<Region*> handles;
  std::string implTypeOf(std::string h) { if (h.rfind("BL",0)!=0) return ""; if (h.size()>4 && h.compare(h.size()-4,4,"Core")==0) h.resize(h.size()-4); for (auto& c : {h+"PrivateImpl",h+"Impl"}) if (L.types.count(c)) return c; return ""; }
  const Org& org(Region* r) {
    auto it=orgs.find(r); if (it!=orgs.end()) return it->second; Org o; orgs[r]=o; if (r->kind!=RK_Deref||!r->base) return orgs[r];
    auto& V=E.vals[r->base]; if (V.segs.size()!=1||!V.segs[0].sym) return orgs[r]; auto sg=V.segs[0]; Sym y=E.syms[sg.sym];
    if (y.kind==SK_Arg) { for (unsigned i=0;i<rootArgs.size();i++) if (rootArgs[i]==r->base) { o.arg=i; const DIType* t=paramType(root,i); o.isConst=t&&(ptrToConst(t)||refToConst(t)||(prop=="C07"&&i==0&&styleHelpers.count(root))); o.type=t?pointeeOrRef(t):nullptr; o.path=root->getArg(i)->getName().str(); } }
    else if (y.kind==SK_Mem && !y.gen && sg.len==64) { Org p=org(y.region); if (p.known()) { int64_t off=(int64_t)sg.start/8-Engine::kBias; o=p; o.type=nullptr; std::string at="+"+std::to_string(off);
        if (p.type && off>=0) { std::vector<Field> fs; L.leaves(p.type,"",0,fs); for (auto& f : fs) if (off>=f.off && off<f.off+f.size) { at=f.path; 
            if (typeName(f.type)=="BLObjectDetail" && off==f.off) { o.impls.push_back(r); std::string h=typeName(p.type); std::string fp=f.path; size_t d=fp.rfind("_d"); if (d!=std::string::npos && d>0) { Field m=L.memberOf(p.type,fp.substr(0,d-1),0); if (m.off>=0) h=typeName(m.type); } std::string it=implTypeOf(h); if (!it.empty()) o.type=L.types.at(it); at=fp.substr(0,d==std::string::npos?0:d)+"impl"; }
            else o.type=pointee(f.type); break; } }
        o.path=p.path+"."+at; } }
    return orgs[r]=o; }
  // states are kept apart by whether a handle refers to shared data and what is known about its reference count
  std::map<SymId,int> tracked;
  int classify(SymId id) {
    auto it=tracked.find(id); if (it!=tracked.end()) return it->second; int r=0; Sym y=E.syms[id];
    if (y.kind==SK_Mem && !y.gen) { const Org& o=org(y.region); int64_t off=y.extra; if (o.known()) { if (o.type && typeName(o.type).size()>4 && valueType(typeName(o.type)) && o.impls.empty()) r=1; else if (o.impls.size()==1 && o.impls[0]==y.region) r=2; } (void)off; }
    else if (y.kind==SK_Op && y.op==OP_EQ) { for (auto v : y.ops) for (auto& l : E.leavesOf(v)) { Sym m=E.syms[l.sym]; if (m.kind==SK_Mem && !m.gen) { const Org& o=org(m.region); int64_t b=(int64_t)l.start/8-Engine::kBias; if (o.known() && o.impls.size()==1 && o.impls[0]==m.region && b>=-16 && b<-8) r=3; } } }
    else if (y.kind==SK_Op && y.op==OP_ULT && prop=="C11") { uint64_t c; auto mdr=L.enumerators.find("BL_OBJECT_INFO_MDR_FLAGS"); if (mdr!=L.enumerators.end() && y.ops.size()==2 && E.isConst(y.ops[1],c) && c==(uint32_t)mdr->second) { bool direct=!E.vals[y.ops[0]].segs.empty(); for (auto& g : E.vals[y.ops[0]].segs) { if (!g.sym) continue; Sym m=E.syms[g.sym]; int64_t b=(int64_t)g.start/8-Engine::kBias; if (m.kind!=SK_Mem||m.gen||!holdsHandles(m.region)||(org(m.region).impls.empty()&&(b<12||b>=16))||b>256) direct=false; } if (direct) r=3; } }
    return tracked[id]=r; }
  uint64_t key(const State& s) override { uint64_t h=Client::key(s); if (getenv("BLSA_KEY")) for (auto& f : s.facts) if (int c=classify(f.first.first)) fprintf(stderr,"KEY %d %s:%u = %lx\n",c,E.str(E.slice(E.ofSym(f.first.first),f.first.second,f.second.first)).c_str(),f.second.first,(unsigned long)f.second.second); for (auto* hr : handles) { auto it=s.mem.find(hr->id); if (it==s.mem.end()) continue; Engine::Ptr p=E.split(E.load(s,hr,0,8)); h^=p.r?(uint64_t)p.r->id*2654435761u+1:3; h*=1099511628211ull; } for (auto& f : s.facts) { int c=classify(f.first.first); if (!c) continue; int64_t b=(int64_t)f.first.second/8-Engine::kBias; if (c==1 && (b<12||b>=16)) continue; if (c==1) { uint32_t bit=f.first.second-8*(uint32_t)(12+Engine::kBias); if (bit>30||bit+f.second.first<=30) continue; h^=(uint64_t)f.first.first*7919+((f.second.second>>(30-bit))&1)+1; h*=1099511628211ull; continue; } if (c==2 && (b<-16||b>=-8)) continue; h^=(uint64_t)f.first.first*31+f.first.second*17+f.second.second; h*=1099511628211ull; } return h; }
  ValId rcOf(Region* impl) { return E.load(State(),impl,-16,8); }
  bool lastRelease(State& s, Region* impl) {
ValId fl=E.load(State(),impl,-8,8); State none; ValId q=E.icmpEq(rcOf(impl),E.zext(E.slice(fl,0,2),64),none); uint64_t c; if (E.isConst(E.applyFacts(q,s),c)) return c; /* the same test made on a narrower form of the count */
    for (auto& f : s.facts) { if (!(f.second.second&1)||f.first.second) continue; Sym y=E.syms[f.first.first]; if (y.kind!=SK_Op||y.op!=OP_EQ||y.ops.size()!=2) continue; auto from=[&](ValId v, int64_t lo) { bool any=false; for (auto& l : E.leavesOf(v)) { Sym m=E.syms[l.sym]; int64_t b=(int64_t)l.start/8-Engine::kBias; if (m.kind!=SK_Mem||m.gen||m.region!=impl||b<lo||b>=lo+8) return false; any=true; } return any; }; if ((from(y.ops[0],-16)&&from(y.ops[1],-8))||(from(y.ops[1],-16)&&from(y.ops[0],-8))) return true; }
    return false; }
  bool exclusive(State& s, Region* impl) { uint64_t c; if (E.isConst(E.applyFacts(rcOf(impl),s),c) && c==1) return true; return lastRelease(s,impl); }

  static bool valueType(const std::string& t) { for (auto* x : {"BLArrayCore","BLBitArrayCore","BLBitSetCore","BLStringCore","BLPathCore","BLGradientCore","BLImageCore","BLPatternCore","BLFontCore","BLFontFaceCore","BLFontDataCore","BLFontFeatureSettingsCore","BLFontVariationSettingsCore","BLVarCore","BLObjectCore"}) if (t==x) return true; return false; }
  bool wants(const Function* F) { std::string n=F->getName().str(); if (F->isDeclaration()) return false; if (prop=="C07") return n.rfind("bl_runtime",0)!=0 && n.rfind("bl_context",0)!=0; for (auto* f : {"array","bit_","font","glyph","gradient","image","path","pattern","string","var","object"}) if (n.rfind(std::string("bl_")+f,0)==0) return true; return false; }
  bool valueRegion(const Org& o) { if (!o.known()) return false; const DIType* t=paramType(root,o.arg); return t && valueType(typeName(pointeeOrRef(t))); }

  // ---- the built-in default objects --------------------------------------------------------------------------------
  std::set<Region*> defaultImpls;
  bool defaultRegion(Region* r) { for (int k=0;r&&k<4;k++) { if (defaultImpls.count(r)) return true; if (r->kind!=RK_Deref||!r->base) return false; auto& V=E.vals[r->base]; if (V.segs.size()!=1||!V.segs[0].sym) return false; Sym y=E.syms[V.segs[0].sym]; if (y.kind!=SK_Mem) return false; r=y.region; } return false; }
  void assumeDefaults(State& s) {
    auto* g=M.getNamedGlobal("bl_object_defaults"); if (!g) { R.broken("bl_object_defaults not found"); return; } Region* gr=E.globalRegion(g); uint64_t n=M.getDataLayout().getTypeAllocSize(g->getValueType())/16;
    for (uint64_t i=0;i<n;i++) { Region* im=E.derefRegion(E.load(s,gr,16*i,8)); im->isolated=true; defaultImpls.insert(im); im->zeroLo=-16; im->zeroHi=0;
      for (auto* h : {"Path","Gradient"}) { std::string H=h, U; for (char ch : H) U+=toupper(ch); auto e=L.enumerators.find("BL_OBJECT_TYPE_"+U); std::string t="BL"+H+"PrivateImpl"; if (e==L.enumerators.end()||e->second!=i||!L.types.count(t)) continue; for (auto* fn : {"size","capacity"}) { Field f=L.member(t,fn); if (f.off<0) { std::vector<Field> fs=L.fields(t); for (auto& q : fs) if (q.size==8 && q.path.size()>=strlen(fn) && q.path.compare(q.path.size()-strlen(fn),std::string::npos,fn)==0) f=q; } if (f.off>=0) E.setRange(s,E.load(s,im,f.off,8),0,1ull<<60); } } } }
  // fields that only cache what the rest of the object determines; changing them is not visible through another handle
  std::string fieldAt(const Org& o, int64_t off) { if (!o.type) return "+"+std::to_string(off); std::vector<Field> fs; L.leaves(o.type,"",0,fs); for (auto& f : fs) if (off>=f.off && off<f.off+f.size) return f.path; return "+"+std::to_string(off); }
  bool cacheField(const Org& o, const std::string& f) { std::string t=o.type?typeName(o.type):""; auto pre=[&](const char* p){ return f.rfind(p,0)==0; };
    if (prop=="C05" && (t=="BLGradientPrivateImpl" && (pre("lut")||pre("info32")) || f=="ref_count")) return true; if (t=="BLPathPrivateImpl") return f=="flags"||pre("control_box")||pre("bounding_box"); if (t=="BLFontFacePrivateImpl") return pre("character_coverage"); return false; }
  bool examined(State& s, Region* impl) { { auto& V=E.vals[impl->base]; Sym y=E.syms[V.segs[0].sym]; if (y.kind==SK_Mem) { int64_t off=(int64_t)V.segs[0].start/8-Engine::kBias; uint64_t c; if (E.isConst(E.applyFacts(E.slice(E.load(State(),y.region,off+12,4),30,1),s),c) && !c) return true; } } for (auto& f : s.facts) { Sym y=E.syms[f.first.first]; if (y.kind!=SK_Op||y.op!=OP_EQ) continue; for (auto v : y.ops) for (auto& l : E.leavesOf(v)) { Sym m=E.syms[l.sym]; int64_t b=(int64_t)l.start/8-Engine::kBias; if (m.kind==SK_Mem&&!m.gen&&m.region==impl&&b>=-16&&b<-8) return true; } } uint64_t c; return E.isConst(E.applyFacts(rcOf(impl),s),c); }

  // a compare-and-swap on a handle's info word claims the 16 bytes of the handle
  uint64_t casKey(Region* r, int64_t off) { return 0xCA50000000000000ull^((uint64_t)r->id<<24)^(uint64_t)((off&~15ll)&0xFFFFFF); }
  uint64_t plainKey(Region* r, int64_t off) { return 0xCA51000000000000ull^((uint64_t)r->id<<20)^(uint64_t)(off&0xFFFFF); }
  long nStores=0, nUnres=0;
  void onStore(Engine& E, State& s, Region* r, int64_t off, bool var, ValId val, uint32_t bytes, const Instruction* I, CtxId c) override {
    if (prop=="C11") refStore(s,r,off,var,I,c);
    if (prop!="C01" && prop!="C07") return; if (r->kind==RK_Stack||r->kind==RK_Heap) return; if (r->kind==RK_Global) return;
    if (isa<AtomicCmpXchgInst>(I) && !var && prop=="C07" && styleHelpers.count(root)) { R.count("publications examined",1); if (s.client.count(plainKey(r,off))) R.violation(root->getName().str()+"/plain-read",E.locFull(I),root->getName().str()+"() reads a field by a plain load which it publishes by compare-exchange: what another thread published may be used before it is visible",E.callPath(c)); }
    if (isa<AtomicCmpXchgInst>(I) && !var) s.client[casKey(r,off)]=1; if (isa<AtomicRMWInst>(I)||isa<AtomicCmpXchgInst>(I)) return; if (auto* st=dyn_cast<StoreInst>(I)) if (st->isAtomic()) return;
    if (prop=="C01" && defaultRegion(r)) { if (getenv("BLSA_FACTS")) { for (auto& f : s.facts) fprintf(stderr,"    fact %s:%u = %lx\n",E.str(E.slice(E.ofSym(f.first.first),f.first.second,f.second.first)).c_str(),f.second.first,(unsigned long)f.second.second); for (auto& f : s.ranges) fprintf(stderr,"    range %s %lx..%lx\n",E.str(f.first).c_str(),f.second.first,f.second.second); } R.violation(root->getName().str()+"/default",E.locFull(I),root->getName().str()+"() writes into a built-in default object",E.callPath(c)); return; }
    const Org& o=org(r); if (!o.known()) { nUnres++; if (verbose) fprintf(stderr,"UNRES %s %s at %s\n",root->getName().str().c_str(),E.str(r->base?r->base:0).c_str(),E.locFull(I).c_str()); return; } nStores++;
    if (prop=="C07") { if (!o.isConst) return; R.count("stores to objects passed by const pointer examined",1); std::string fld=var?"[..]":fieldAt(o,off); for (auto* q=r; q && q->kind==RK_Deref; ) { if (s.client.count(casKey(q,off))) return; break; }
      R.violation(root->getName().str()+"/arg"+std::to_string(o.arg)+o.path.substr(o.path.find('.')==std::string::npos?o.path.size():o.path.find('.'))+"."+fld,E.locFull(I),root->getName().str()+"() writes to "+o.path+"."+fld+" of an argument it takes by const pointer, and the write is not atomic",E.callPath(c)); return; }
    if (!valueRegion(o) || o.impls.empty()) return; std::string fld=var?"[..]":fieldAt(o,off); if (!var && cacheField(o,fld)) return; bool weak=false; for (auto* g : E.stack) { std::string n=shortName(g); if (n=="bl_bit_set_assign_words"||n=="bl_bit_set_add_words") weak=true; } R.count("stores to shared data checked",1);
    for (auto* im : o.impls) if (!exclusive(s,im) && !(weak && examined(s,im))) { if (verbose) { fprintf(stderr,"C01 %s %s rc=%s at %s\n",root->getName().str().c_str(),o.path.c_str(),E.str(E.applyFacts(rcOf(im),s)).c_str(),E.locFull(I).c_str()); if (getenv("BLSA_FACTS")) { for (auto& f : s.facts) fprintf(stderr,"    fact %s:%u = %lx\n",E.str(E.slice(E.ofSym(f.first.first),f.first.second,f.second.first)).c_str(),f.second.first,(unsigned long)f.second.second); for (auto* h : handles) fprintf(stderr,"    handle %s\n",E.str(E.load(s,h,0,8)).c_str()); } }
      R.violation(root->getName().str()+"/"+o.path+"."+fld,E.locFull(I),root->getName().str()+"() writes to "+o.path+"."+fld+" on a path on which its data may have other owners (the reference count is not known to be 1)",E.callPath(c)); return; } }
  // a live object holds no fewer references than the number at which it is destroyed
  void onLoad(Engine& E, State& s, Region* r, int64_t off, bool var, uint32_t bytes, const Instruction* I, CtxId) override { if (prop=="C07" && !var && r->kind==RK_Deref && !rootArgs.empty() && r->base==rootArgs[0] && styleHelpers.count(root)) if (auto* ld=dyn_cast_or_null<LoadInst>(I)) if (!ld->isAtomic() && ld->getType()->isPointerTy()) s.client[plainKey(r,off)]=1;
    if (off!=-16||var||bytes!=8||r->kind!=RK_Deref) return; const Org& o=org(r); if (o.impls.empty()||o.impls.back()!=r||defaultImpls.count(r)) return; ValId rc=E.applyFacts(rcOf(r),s); uint64_t c; if (E.isConst(rc,c)) return;
    auto& V=E.vals[r->base]; Sym y=E.syms[V.segs[0].sym]; auto mdr=L.enumerators.find("BL_OBJECT_INFO_MDR_FLAGS"); if (mdr==L.enumerators.end()) { R.broken("BL_OBJECT_INFO_MDR_FLAGS not found"); return; }
    if (y.kind==SK_Mem) { ValId info=E.load(State(),y.region,(int64_t)V.segs[0].start/8-Engine::kBias+12,4), t=E.applyFacts(E.icmpUlt(info,E.constant(32,(uint32_t)mdr->second),s),s); if (E.isConst(t,c)) { if (c) { E.learn(s,E.icmpEq(rc,E.constant(64,0),s),true); return; } E.setRange(s,rc,1,1ull<<48); } }
    ValId d=E.sub(rc,E.zext(E.slice(E.load(State(),r,-8,8),0,2),64)); if (!s.ranges.count(d)) E.setRange(s,d,0,1ull<<48); }
  bool exclusiveAll(State& s, const Org& o) { for (auto* i : o.impls) if (!exclusive(s,i)) return false; return true; }

  // ---- C05: what an error exit leaves behind ---------------------------------------------------------------------------
  int retKind(const Engine::Exit& x) { if (!x.ret) return 0; uint64_t c,l,h; ValId v=E.applyFacts(x.ret,x.s); if (E.isConst(v,c)) return c?1:-1; E.range(v,x.s,l,h); return l?1:0; }
  bool resultFn() { auto* sp=root->getSubprogram(); if (!sp||!sp->getType()||sp->getType()->getTypeArray().size()<1) return false; auto* t=sp->getType()->getTypeArray()[0]; return t && t->getName()=="BLResult"; }
  void errorExit(Engine::Exit& x) {
    std::string rn=root->getName().str(); if (!resultFn()||rn.find("_init")!=std::string::npos||rn.find("_destroy")!=std::string::npos) return;
    int k=retKind(x); if (k<0) return; if (k==0) { R.count("paths with an undetermined result",1); return; } R.count("error paths",1); State none;
    bool repr=rn.find("_shrink")!=std::string::npos||rn.find("_settings_set_value")!=std::string::npos||rn.find("_replace_stop")!=std::string::npos||rn.find("_apply_op_format")!=std::string::npos; // may switch to another representation of the same contents first
    for (unsigned i=0;i<1&&!repr;i++) { if (!root->getArg(i)->getType()->isPointerTy()) continue; Region* hr=E.derefRegion(rootArgs[i]); const Org& o=org(hr); if (!o.known()||o.isConst||!o.type) continue; std::string tn=typeName(o.type); if (!valueType(tn)) continue;
      R.count("objects compared on error paths",1);
      for (int64_t off : {0,8}) { ValId a=E.applyFacts(E.load(x.s,hr,off,8),x.s), b=E.applyFacts(E.load(none,hr,off,8),x.s); if (a!=b) { if (verbose) fprintf(stderr,"C05 %s arg%u handle+%ld: %s -> %s ret %s\n",rn.c_str(),i,(long)off,E.str(b).c_str(),E.str(a).c_str(),E.str(x.ret).c_str()); R.violation(rn+"/arg"+std::to_string(i)+(off?".info":".impl pointer"),rn,rn+"() can return an error after it changed the object in argument "+std::to_string(i)+" (its handle now refers to other data)",""); } } }
    for (auto& m : x.s.mem) { Region* r=E.regions[m.first-1].get(); if (r->kind!=RK_Deref) continue; const Org& o=org(r); if (!o.known()||o.arg!=0||o.isConst||o.impls.empty()||!valueRegion(o)) continue; bool owner=false; for (auto* h : handles) if (E.derefRegion(rootArgs[o.arg])==h) owner=true; if (!owner) continue;
      auto say=[&](const std::string& f, const std::string& d) { if (verbose) fprintf(stderr,"C05 %s %s.%s: %s\n",rn.c_str(),o.path.c_str(),f.c_str(),d.c_str()); R.violation(rn+"/arg"+std::to_string(o.arg)+o.path.substr(std::min(o.path.size(),o.path.find('.')))+"."+f,rn,rn+"() can return an error after it changed "+o.path+"."+f+" of the object in argument "+std::to_string(o.arg),""); };
      for (auto& c : m.second->cells) { std::string f=fieldAt(o,c.first); if (cacheField(o,f)||c.first<0) continue; uint32_t n=E.vals[c.second].width/8; ValId a=E.applyFacts(c.second,x.s), b=E.applyFacts(E.load(none,r,c.first,n),x.s); if (a!=b) say(f,E.str(b)+" -> "+E.str(a)); }
      if (rn.find("_apply_op_format")==std::string::npos) for (auto& kl : m.second->kills) { if (kl.hi<=0) continue; say("[..]","killed"); break; } if (!m.second->vars.empty() && rn.find("_apply_op_format")==std::string::npos /* formats into the spare capacity */) say("[..]","variable store"); } }

  // ---- C01: writable pointers into the data handed out to the caller ------------------------------------------------------
  void handedOut(Engine::Exit& x) {
    if (!root->arg_size()||!root->getArg(0)->getType()->isPointerTy()||retKind(x)>0) return; const Org& self=org(E.derefRegion(rootArgs[0])); if (!self.known()||self.isConst||!self.type||!valueType(typeName(self.type))) return; std::string rn=root->getName().str();
    for (unsigned i=1;i<root->arg_size();i++) { if (!root->getArg(i)->getType()->isPointerTy()) continue; const DIType* t=paramType(root,i); if (!t||ptrToConst(t)||refToConst(t)) continue; const DIType* p=pointeeOrRef(t); if (p&&valueType(typeName(p))) continue; if (p&&ptrToConst(p)) continue;
      auto it=x.s.mem.find(E.derefRegion(rootArgs[i])->id); if (it==x.s.mem.end()) continue;
      std::vector<Field> fs; if (p) L.leaves(p,"",0,fs); auto pointerAt=[&](int64_t off){ if (fs.empty()) return true; for (auto& f : fs) if (f.off==off) { auto* d=dyn_cast_or_null<DIDerivedType>(f.type); return d&&d->getTag()==dwarf::DW_TAG_pointer_type; } return false; };
      for (auto& c : it->second->cells) { if (E.vals[c.second].width!=64||!pointerAt(c.first)) continue; Engine::Ptr q=E.split(E.applyFacts(c.second,x.s)); if (!q.r||q.r->kind!=RK_Deref) continue; const Org& o=org(q.r); if (!o.known()||o.arg!=0||o.impls.empty()) continue; R.count("writable pointers handed out",1); { Field ff=L.member("BLImageImpl","format"); uint64_t c; if (typeName(self.type)=="BLImageCore"&&ff.off>=0&&E.isConst(E.applyFacts(E.load(State(),o.impls[0],ff.off,1),x.s),c)&&!c) continue; } // an empty image has no data
        for (auto* im : o.impls) if (!exclusive(x.s,im)) { R.violation(rn+"/out"+std::to_string(i),rn,rn+"() hands out a writable pointer to "+o.path+" on a path on which that data may have other owners",""); break; } } } }

  // ---- C19: caches dropped when the contents change ------------------------------------------------------------------------
  bool bytesChanged(State& s, Region* r, int64_t lo, int64_t hi, bool walks=false) { auto it=s.mem.find(r->id); if (it==s.mem.end()) return false; State none; for (auto& c : it->second->cells) { if (c.first>=hi||c.first+(int64_t)E.vals[c.second].width/8<=lo) continue; ValId a=E.applyFacts(c.second,s), b=E.applyFacts(E.load(none,r,c.first,E.vals[c.second].width/8),s); if (a!=b) return true; } bool any=walks||lo<=-(1ll<<40)&&hi>=(1ll<<40); auto far=[&](int64_t a, int64_t b){ return !any&&(a<=-(1ll<<39)||b>=(1ll<<39)); }; /* a walking pointer with no known extent says nothing about one field */ for (auto& k : it->second->kills) if (k.lo<hi&&k.hi>lo&&!far(k.lo,k.hi)) return true; for (auto& v : it->second->vars) if (v.lo<hi&&v.hi>lo&&!far(v.lo,v.hi)) return true; return false; }
  bool payloadChanged(State& s, Region* impl, int64_t ptrOff, int64_t hdr) { State none; Region* pay=E.derefRegion(E.load(none,impl,ptrOff,8)); return bytesChanged(s,pay,-(1ll<<40),1ll<<40)||bytesChanged(s,impl,hdr,1ll<<40); }
  void caches(Engine::Exit& x) {
    std::string rn=root->getName().str(); State none; if (rn.find("_destroy")!=std::string::npos) return; for (auto* n : {"_shrink","_reserve","_optimize"}) if (rn.size()>strlen(n)&&rn.compare(rn.size()-strlen(n),strlen(n),n)==0) return; // same contents in another representation
    for (unsigned i=0;i<root->arg_size();i++) { if (!root->getArg(i)->getType()->isPointerTy()) continue; Region* hr=E.derefRegion(rootArgs[i]); const Org& o=org(hr); if (!o.known()||o.isConst||!o.type) continue; std::string tn=typeName(o.type); if (tn.size()>4&&tn.compare(tn.size()-4,4,"Core")==0) tn.resize(tn.size()-4);
      auto constIs=[&](ValId v, uint64_t k) { uint64_t c; return E.isConst(E.applyFacts(v,x.s),c)&&c==k; };
      if (tn=="BLPath"||tn=="BLGradient") {
        const DIType* it=L.types.count(tn+"PrivateImpl")?L.types.at(tn+"PrivateImpl"):nullptr; if (!it) { R.broken(tn+"PrivateImpl not found"); return; } int64_t hdr=it->getSizeInBits()/8;
        auto off=[&](const std::string& n) { std::vector<Field> fs; L.leaves(it,"",0,fs); for (auto& f : fs) if (f.path==n||(f.path.size()>n.size()&&f.path.compare(f.path.size()-n.size()-1,n.size()+1,"."+n)==0)||f.path.rfind(n+".",0)==0) return f.off; return (int64_t)-1; };
        Region* im0=E.derefRegion(E.load(none,hr,0,8)); Engine::Ptr q=E.split(E.applyFacts(E.load(x.s,hr,0,8),x.s)); if (!q.r) continue; bool fresh=q.r->kind==RK_Heap; if (q.r!=im0&&!fresh) continue;
        if (tn=="BLPath") { int64_t fo=off("flags"), so=off("size"), co=off("command_data"), vo=off("vertex_data"), bo=off("bounding_box"); if (fo<0||so<0||co<0||vo<0||bo<0) { R.broken("BLPathPrivateImpl layout"); return; }
          bool ch=fresh||bytesChanged(x.s,im0,so,so+8)||payloadChanged(x.s,im0,co,hdr)||payloadChanged(x.s,im0,vo,hdr); if (!ch) continue; R.count("path modifications examined",1);
          if (q.var) continue; ValId f=E.applyFacts(E.load(x.s,q.r,q.off+fo,4),x.s); int bit=30; { auto e=L.enumerators.find("BL_PATH_FLAG_DIRTY"); if (e!=L.enumerators.end()) { bit=0; while ((1ull<<bit)<(uint64_t)(uint32_t)e->second&&bit<31) bit++; } else { R.broken("BL_PATH_FLAG_DIRTY"); return; } }
          if (constIs(E.slice(f,bit,1),1)) continue; bool stale=false; uint64_t c; if (E.isConst(f,c)) stale=true; for (auto& l : E.leavesOf(f)) { Sym y=E.syms[l.sym]; if (y.kind==SK_Mem&&!y.gen&&y.region==im0&&fresh==false) stale=true; }
          if (!stale) continue; if (verbose) fprintf(stderr,"C19 %s flags@%ld %s fresh %d reg %s raw %s\n",rn.c_str(),(long)fo,E.str(f).c_str(),fresh,E.regStr(q.r).c_str(),E.str(E.load(x.s,q.r,fo,4)).c_str()); R.violation(rn+"/arg"+std::to_string(i)+".flags",rn,rn+"() can change the geometry of the path without marking its cached bounds and flags as out of date",""); }
        else { int64_t so=off("size"), po=off("stops"), l0=off("lut[0]"), io=off("info32"); { std::vector<Field> fs; L.leaves(it,"",0,fs); for (auto& f : fs) { if (l0<0&&f.path.rfind("lut",0)==0) l0=f.off; if (io<0&&f.path.rfind("info32",0)==0) io=f.off; } Field m=L.member(it->getName().str(),"info32"); if (io<0&&m.off>=0) io=m.off; } if (so<0||po<0||io<0) { std::string d; std::vector<Field> fs; L.leaves(it,"",0,fs); for (auto& f : fs) d+=f.path+"@"+std::to_string(f.off)+" "; R.broken("BLGradientPrivateImpl layout: "+d); return; } l0=io-16;
          bool ch=bytesChanged(x.s,im0,so,so+8)||payloadChanged(x.s,im0,po,hdr); if (fresh||!ch) continue; R.count("gradient modifications examined",1);
          for (auto& w : std::vector<std::tuple<int64_t,int,const char*>>{{l0,8,"lut[0]"},{l0+8,8,"lut[1]"},{io,4,"info32"}}) if (!constIs(E.load(x.s,q.r,std::get<0>(w),std::get<1>(w)),0)) { if (verbose) fprintf(stderr,"C19 %s %s %s\n",rn.c_str(),std::get<2>(w),E.str(E.load(x.s,q.r,std::get<0>(w),std::get<1>(w))).c_str()); R.violation(rn+"/arg"+std::to_string(i)+"."+std::get<2>(w),rn,rn+"() can change the stops of the gradient and keep "+std::get<2>(w)+", which was computed from the earlier stops",""); } } }
      else if (tn=="BLBitSet") { Region* im0=E.derefRegion(E.load(none,hr,0,8)); Engine::Ptr q=E.split(E.applyFacts(E.load(x.s,hr,0,8),x.s)); if (!q.r) continue; if (q.r!=im0) continue; int64_t sc=L.member("BLBitSetImpl","segment_count").off; if (sc<0) { R.broken("BLBitSetImpl layout"); return; }
        bool dyn=constIs(E.slice(E.load(none,hr,12,4),30,1),1); if (!dyn||!bytesChanged(x.s,im0,sc,sc+4)&&!bytesChanged(x.s,im0,8,1ll<<40,true)) continue; R.count("bit set modifications examined",1);
        if (!constIs(E.load(x.s,hr,8,4),0)) { if (verbose) fprintf(stderr,"C19 %s cardinality %s\n",rn.c_str(),E.str(E.load(x.s,hr,8,4)).c_str()); R.violation(rn+"/arg"+std::to_string(i)+".cardinality",rn,rn+"() can change the bits of the bit set and keep the cardinality cached from the earlier contents",""); } } } }
  // a query must not hand out path information that may be out of date
  void pathQueries(Engine::Exit& x) {
    std::string rn=root->getName().str(); State none; for (unsigned i=0;i<root->arg_size();i++) { if (!root->getArg(i)->getType()->isPointerTy()) continue; Region* hr=E.derefRegion(rootArgs[i]); const Org& o=org(hr); if (!o.known()||!o.type||typeName(o.type)!="BLPathCore") continue; Region* im=E.derefRegion(E.load(none,hr,0,8)); auto f=[&](const char* n) { std::vector<Field> fs; L.leaves(L.types.at("BLPathPrivateImpl"),"",0,fs); for (auto& q : fs) if (q.path==n||q.path.rfind(std::string(n)+".",0)==0) return q.off; return (int64_t)-1; }; int64_t fo=f("flags"),cb=f("control_box"),bb=f("bounding_box"); if (fo<0||cb<0||bb<0) { R.broken("BLPathPrivateImpl layout"); return; }
      auto stale=[&](ValId v) {  bool uses=false; for (auto& l : E.leavesOf(v)) { Sym y=E.syms[l.sym]; if (y.kind!=SK_Mem||y.gen||y.region!=im) continue; int64_t b=(int64_t)l.start/8-Engine::kBias; if ((b>=cb&&b<cb+32)||(b>=bb&&b<bb+32)) uses=true; } if (!uses) return false; uint64_t c; ValId fl=E.load(none,im,fo,4); for (auto* n : {"BL_PATH_FLAG_DIRTY"}) { uint64_t e=(uint32_t)L.enumerators.at(n); unsigned bit=0; while ((1ull<<bit)<e) bit++; if (E.isConst(E.applyFacts(E.slice(fl,bit,1),x.s),c)&&!c) return false; } { uint64_t e=(uint32_t)L.enumerators.at("BL_PATH_FLAG_INVALID"); unsigned bit=0; while ((1ull<<bit)<e) bit++; if (E.isConst(E.applyFacts(E.slice(fl,bit,1),x.s),c)&&c) return false; } /* an invalid path has no bounds and the query fails */ if (verbose) { fprintf(stderr,"STALE %s %s\n",rn.c_str(),E.str(v).c_str()); for (auto& f : x.s.facts) fprintf(stderr,"    fact %s:%u = %lx\n",E.str(E.slice(E.ofSym(f.first.first),f.first.second,f.second.first)).c_str(),f.second.first,(unsigned long)f.second.second); } return true; };
      for (unsigned j=0;j<root->arg_size();j++) { if (j==i||!root->getArg(j)->getType()->isPointerTy()) continue; auto it=x.s.mem.find(E.derefRegion(rootArgs[j])->id); if (it==x.s.mem.end()) continue; for (auto& c : it->second->cells) { R.count("path query results examined",1); if (stale(c.second)) R.violation(rn+"/out"+std::to_string(j),rn,rn+"() can return bounds of a path that were cached before the path changed (the dirty flag is not tested)",""); } } } }

  // ---- C04: blocks acquired by the call ------------------------------------------------------------------------------------
  static constexpr uint64_t kLive=0x11FE000000000000ull, kFreed=0xF4EE000000000000ull, kFail=0xFA11ull; std::map<uint32_t,const Instruction*> allocAt;
  void onAlloc(Engine& E, State& s, Region* h, const Instruction* I, CtxId) override { if (prop=="C03") { if (!h) s.client[kFail]=1; return; } if (prop!="C04") return; if (!h) return; s.client[kLive|h->id]=1; s.client.erase(kFreed|h->id); allocAt[h->id]=I; }
  void onFree(Engine& E, State& s, ValId p, const Instruction* I, CtxId c) override { if (prop=="C11") refDestroy(s,p,I,c); if (prop!="C04") return; Engine::Ptr q=E.split(E.applyFacts(p,s)); if (!q.r) return; R.count("blocks freed",1);
    if (q.r->kind==RK_Heap||q.r->kind==RK_Deref) { if (getenv("BLSA_FACTS")) { fprintf(stderr,"FREE %s at %s rc %s again %d\n",E.regStr(q.r).c_str(),E.locFull(I).c_str(),E.str(E.load(s,q.r,-16,8)).c_str(),(int)s.client.count(kFreed|q.r->id)); if (s.client.count(kFreed|q.r->id)) for (auto& f : s.facts) fprintf(stderr,"    fact %s:%u = %lx\n",E.str(E.slice(E.ofSym(f.first.first),f.first.second,f.second.first)).c_str(),f.second.first,(unsigned long)f.second.second); } if (s.client.count(kFreed|q.r->id)) R.violation(root->getName().str()+"/double free",E.locFull(I),root->getName().str()+"() can free the same block twice",E.callPath(c)); s.client[kFreed|q.r->id]=1; } s.client.erase(kLive|q.r->id); }
  void leaks(Engine::Exit& x) {
    std::set<unsigned> live; for (auto& kv : x.s.client) if ((kv.first>>48)==(kLive>>48)) live.insert((unsigned)(kv.first&0xFFFFFFFF)); if (live.empty()) return; std::set<unsigned> reach; std::vector<ValId> wl;
    auto scan=[&](Region* r) { auto it=x.s.mem.find(r->id); if (it==x.s.mem.end()) return; for (auto& c : it->second->cells) wl.push_back(c.second); for (auto& v : it->second->vars) { wl.push_back(v.val); } };
    for (auto& m : x.s.mem) { Region* r=E.regions[m.first-1].get(); if (r->kind==RK_Global||r->kind==RK_Deref) scan(r); } if (x.ret) wl.push_back(x.ret);
    std::set<ValId> seen; while (!wl.empty()) { ValId v=wl.back(); wl.pop_back(); if (!v||!seen.insert(v).second) continue; std::vector<Region*> rs; Engine::Ptr q=E.split(v); if (q.r) rs.push_back(q.r); for (auto& l : E.leavesOf(v)) { Sym y=E.syms[l.sym]; if (y.kind==SK_Addr&&y.region) rs.push_back(y.region); } for (auto* r : rs) if (r->kind==RK_Heap&&reach.insert(r->id).second) scan(r); }
    for (auto id : live) { R.count("blocks live at exit",1); if (reach.count(id)) continue; int k=retKind(x); if (verbose) { fprintf(stderr,"LEAK heap%u ret %s at %s\n",id,E.str(x.ret).c_str(),E.locFull(allocAt[id]).c_str()); for (auto& f : x.s.facts) fprintf(stderr,"    fact %s:%u = %lx\n",E.str(E.slice(E.ofSym(f.first.first),f.first.second,f.second.first)).c_str(),f.second.first,(unsigned long)f.second.second); for (auto& m : x.s.mem) { Region* r=E.regions[m.first-1].get(); if (r->kind==RK_Stack) continue; for (auto& c : m.second->cells) fprintf(stderr,"    mem %s+%ld = %s\n",E.regStr(r).c_str(),(long)c.first,E.str(c.second).c_str()); } } std::string rn=root->getName().str(); R.violation(rn+"/"+fnName(allocAt[id]->getFunction())+(k>0?"/error":"/"),E.locFull(allocAt[id]),rn+"() can return"+(k>0?" an error":"")+" without having released, or handed to an object, a block it allocated",""); } }
  void onNullDeref(Engine& E, State& s, ValId p, const Instruction* I, CtxId c) override { if (prop!="C03"||!s.client.count(kFail)) return; R.violation(root->getName().str()+"/"+shortName(I->getFunction()),E.locFull(I),root->getName().str()+"() uses a null pointer on a path on which an allocation failed",E.callPath(c)); }

  // ---- C11: every handle accounts for exactly one reference --------------------------------------------------------------
  static constexpr uint64_t kRc=0x5C00000000000000ull, kDead=0xDE00000000000000ull, kOpq=0x0A00000000000000ull;
  bool isImpl(Region* r) { if (r->kind!=RK_Deref) return false; const Org& o=org(r); if (!o.known()||o.impls.empty()||o.impls.back()!=r) return false; Sym y=E.syms[E.vals[r->base].segs[0].sym]; return y.kind==SK_Mem&&holdsHandles(y.region); }
  bool holdsHandles(Region* h) { const Org& p=org(h); return p.known()&&(p.impls.empty()||p.impls.back()==h); } // not the items of an array
  bool notCounted(State& s, Region* im) { // the handle's info says the data is not reference counted
    auto& V=E.vals[im->base]; Sym y=E.syms[V.segs[0].sym]; auto mdr=L.enumerators.find("BL_OBJECT_INFO_MDR_FLAGS"); if (y.kind!=SK_Mem||mdr==L.enumerators.end()) return true; ValId info=E.load(State(),y.region,(int64_t)V.segs[0].start/8-Engine::kBias+12,4); uint64_t c;
    if (E.isConst(E.applyFacts(E.icmpUlt(info,E.constant(32,(uint32_t)mdr->second),s),s),c)&&c) return true; for (auto& f : s.facts) { if (f.first.second||!(f.second.second&1)) continue; Sym q=E.syms[f.first.first]; if (q.kind!=SK_Op||q.op!=OP_ULT||q.ops.size()!=2||!E.isConst(q.ops[1],c)||c!=(uint32_t)mdr->second) continue; bool all=true, any=false; int64_t io=(int64_t)V.segs[0].start/8-Engine::kBias+12; for (auto& l : E.leavesOf(q.ops[0])) { Sym m=E.syms[l.sym]; int64_t b=(int64_t)l.start/8-Engine::kBias; any=true; if (m.kind!=SK_Mem||m.gen||m.region!=y.region||b<io||b>=io+4) all=false; } if (any&&all) return true; }
    if (E.isConst(E.applyFacts(E.load(State(),im,-8,1),s),c)&&!(c&1)) return true; if (E.isConst(E.applyFacts(E.slice(E.load(State(),im,-8,1),0,1),s),c)&&!c) return true; return E.isConst(E.applyFacts(rcOf(im),s),c)&&!c; }
  void refStore(State& s, Region* r, int64_t off, bool var, const Instruction* I, CtxId c) {
    if (var||off!=-16||!isImpl(r)||defaultImpls.count(r)||s.client.count(kOpq|r->id)) return; R.count("reference count updates examined",1); auto* rm=dyn_cast<AtomicRMWInst>(I); const ConstantInt* k=rm?dyn_cast<ConstantInt>(rm->getValOperand()):nullptr;
    if (!rm) { if (auto* st=dyn_cast<StoreInst>(I)) if (exclusive(s,r)) return; R.violation(root->getName().str()+"/"+fnName(I->getFunction()),E.locFull(I),root->getName().str()+"() changes the reference count of shared data without an atomic read-modify-write",E.callPath(c)); return; }
    if (!k||(rm->getOperation()!=AtomicRMWInst::Add&&rm->getOperation()!=AtomicRMWInst::Sub)) { s.client[kOpq|r->id]=1; return; }
    int64_t d=k->getSExtValue(); if (rm->getOperation()==AtomicRMWInst::Sub) d=-d; int64_t& t=s.client[kRc|r->id]; t+=d; if (t>3||t<-3) { s.client[kOpq|r->id]=1; t=0; } if (!t) s.client.erase(kRc|r->id); }
  // a block is freed through a pointer computed from the implementation it holds
  Region* implOfBlock(Region* r) { for (int k=0;k<2&&r&&!isImpl(r)&&r->kind==RK_Deref&&r->base;k++) { auto& V=E.vals[r->base]; if (V.segs.size()!=1||!V.segs[0].sym) break; Sym y=E.syms[V.segs[0].sym]; if (y.kind!=SK_Op||y.op!=Instruction::Sub||y.ops.empty()) break; Engine::Ptr q=E.split(y.ops[0]); if (!q.r||q.r==r) break; r=q.r; } return r; }
  void refDestroy(State& s, ValId p, const Instruction* I, CtxId c) { Engine::Ptr q=E.split(E.applyFacts(p,s)); if (!q.r) return; q.r=implOfBlock(q.r); if (q.r->kind==RK_Heap) { s.client[kDead|q.r->id]=1; return; } if (!isImpl(q.r)||defaultImpls.count(q.r)) return; R.count("destructions examined",1); uint64_t dk=kDead|q.r->id;
    if (!s.client.count(dk) && !notCounted(s,q.r) && root->getName().str().find("_destroy")==std::string::npos && !(s.client.count(kRc|q.r->id) && s.client[kRc|q.r->id]==-1 && exclusive(s,q.r)) && !exclusive(s,q.r)) { if (verbose) { fprintf(stderr,"C11 %s destroys %s rc %s delta %ld at %s\n",root->getName().str().c_str(),org(q.r).path.c_str(),E.str(E.applyFacts(rcOf(q.r),s)).c_str(),(long)(s.client.count(kRc|q.r->id)?s.client[kRc|q.r->id]:0),E.locFull(I).c_str()); } R.violation(root->getName().str()+"/destroy",E.locFull(I),root->getName().str()+"() destroys shared data on a path on which it is not known to have dropped the last reference",E.callPath(c)); }
    s.client[dk]=1; }
  void refOpaque(State& s, const std::vector<ValId>& as, const std::string& n) { if (n.rfind("llvm.",0)==0||n=="memcpy"||n=="memmove"||n=="memset"||n=="memcmp"||n=="free") return; for (auto a : as) { Engine::Ptr q=E.split(a); if (q.r && q.r->kind==RK_Deref && holdsHandles(q.r)) s.client[kOpq|q.r->id]=1; } }
  // the handle was written through a variable offset (inline data), so what it refers to now is not known
  bool lostHandle(State& s, Region* im) { auto& V=E.vals[im->base]; Sym y=E.syms[V.segs[0].sym]; auto it=s.mem.find(y.region->id); if (it==s.mem.end()) return false; int64_t o=(int64_t)V.segs[0].start/8-Engine::kBias; for (auto& k : it->second->kills) if (k.lo<o+8&&k.hi>o) return true; for (auto& k : it->second->vars) if (k.lo<o+8&&k.hi>o) return true; return false; }
  void refBalance(Engine::Exit& x) {
    std::string rn=root->getName().str(); State none; std::map<Region*,int> delta, cells; std::set<Region*> cand, unsure; bool init=rn.find("_init")!=std::string::npos||rn.rfind("bl_object_alloc_impl",0)==0, destroy=rn.find("_destroy")!=std::string::npos;
    for (auto& kv : x.s.client) if ((kv.first>>56)==(kRc>>56)) { Region* r=E.regions[(unsigned)(kv.first&0xFFFFFFFF)-1].get(); delta[r]=(int)kv.second; cand.insert(r); }
    auto home=[&](Region* im) { Sym y=E.syms[E.vals[im->base].segs[0].sym]; return y.region; };
    for (auto& m : x.s.mem) { Region* r=E.regions[m.first-1].get(); if (r->kind==RK_Stack) continue; bool dead=x.s.client.count(kDead|r->id); std::set<int64_t> words; for (auto& c : m.second->cells) for (int64_t o=c.first&~7ll;o<c.first+(int64_t)E.vals[c.second].width/8;o+=8) words.insert(o); for (int64_t wo : words) { Engine::Ptr q=E.split(E.applyFacts(E.load(x.s,r,wo,8),x.s)); Region* was=nullptr; if (r->kind!=RK_Heap) { ValId b=E.load(none,r,wo,8); Engine::Ptr p=E.split(b); if (p.r&&!p.off&&!p.var&&isImpl(p.r)) was=p.r; }
        if (was) { bool joined=false; for (auto& l : E.leavesOf(E.applyFacts(E.load(x.s,r,wo,8),x.s))) if (E.syms[l.sym].kind==SK_Phi) joined=true; if (joined) { unsure.insert(was); continue; } }
        Region* now=q.r&&!q.off&&!q.var&&!q.null&&isImpl(q.r)?q.r:nullptr; if (dead) now=nullptr; if (was==now) continue; if (init && was && r==E.derefRegion(rootArgs[0])) was=nullptr; if (now) { cells[now]++; cand.insert(now); } if (was) { cells[was]--; cand.insert(was); } } }
    // handles inside destroyed data are gone
    for (auto* im : cand) { Region* h=home(im); if (!x.s.client.count(kDead|h->id)) continue; int64_t off=(int64_t)E.vals[im->base].segs[0].start/8-Engine::kBias; Engine::Ptr q=E.split(E.load(x.s,h,off,8)); if (q.r==im) cells[im]--; }
    if (destroy && root->arg_size()) { Region* im=E.derefRegion(E.load(none,E.derefRegion(rootArgs[0]),0,8)); Engine::Ptr q=E.split(E.load(x.s,E.derefRegion(rootArgs[0]),0,8)); if (q.r==im) { cells[im]--; cand.insert(im); } }
    for (auto* im : cand) { if (unsure.count(im)||defaultRegion(im)||x.s.client.count(kOpq|im->id)||x.s.client.count(kOpq|home(im)->id)||lostHandle(x.s,im)) continue; const Org& o=org(im); if (o.type==nullptr||!valueRegion(o)) continue; if (notCounted(x.s,im)) continue; R.count("reference balances checked",1); int d=delta[im], n=cells[im]; if (d==n) continue; if (x.s.client.count(kDead|im->id) && d==0 && n==-1) continue;
      if (verbose) { fprintf(stderr,"C11 %s %s count %+d handles %+d ret %s\n",rn.c_str(),o.path.c_str(),d,n,x.ret?E.str(x.ret).c_str():""); if (getenv("BLSA_FACTS")) for (auto& m : x.s.mem) { Region* r=E.regions[m.first-1].get(); if (r->kind==RK_Stack) continue; for (auto& c : m.second->cells) fprintf(stderr,"    mem %s+%ld = %s\n",E.regStr(r).c_str(),(long)c.first,E.str(E.applyFacts(c.second,x.s)).c_str()); for (auto& k : m.second->kills) fprintf(stderr,"    kill %s %ld..%ld\n",E.regStr(r).c_str(),(long)k.lo,(long)k.hi); for (auto& k : m.second->vars) fprintf(stderr,"    var %s %ld..%ld\n",E.regStr(r).c_str(),(long)k.lo,(long)k.hi); }
        if (getenv("BLSA_FACTS")) for (auto& f : x.s.facts) fprintf(stderr,"    fact %s:%u = %lx\n",E.str(E.slice(E.ofSym(f.first.first),f.first.second,f.second.first)).c_str(),f.second.first,(unsigned long)f.second.second); }
      R.violation(rn+"/"+o.path,rn,rn+"() can change the reference count of "+o.path+" by "+std::to_string(d)+" while the number of handles referring to it changes by "+std::to_string(n),""); } }

  // element counts are bounded by the address space
  void assumeSizes(State& s) {
    for (unsigned i=0;i<root->arg_size();i++) { const DIType* t=paramType(root,i); if (!t||!root->getArg(i)->getType()->isPointerTy()) continue; const DIType* p=pointeeOrRef(t); std::string h=typeName(p); if (!valueType(h)) continue; std::string it=implTypeOf(h); if (it.empty()) continue;
      Region* hr=E.derefRegion(rootArgs[i]); Region* im=E.derefRegion(E.load(s,hr,0,8)); std::vector<Field> fs; L.leaves(L.types.at(it),"",0,fs); for (auto& f : fs) if (f.size==8 && (f.path.find("size")!=std::string::npos||f.path.find("capacity")!=std::string::npos)) E.setRange(s,E.load(s,im,f.off,8),0,1ull<<60); else if (f.size==4 && f.path.find("capacity")!=std::string::npos) E.setRange(s,E.load(s,im,f.off,4),0,1u<<30);
      int64_t cap=-1, sz=-1; for (auto& f : fs) if (f.size==8) { if (f.path=="capacity") cap=f.off; else if (f.path=="size"||(f.path.size()>5&&f.path.compare(f.path.size()-5,5,".size")==0)) sz=f.off; } if (cap>=0&&sz>=0) E.setRange(s,E.sub(E.applyFacts(E.load(s,im,cap,8),s),E.applyFacts(E.load(s,im,sz,8),s)),0,1ull<<60); } }
  // functions of the object modules that the renderer calls with the data of a style, image or path it is given: a context only reads those, and so may any number of them at once
  std::set<const Function*> styleHelpers;
  std::vector<const Function*> helpers() { std::vector<const Function*> o; for (auto& F : M) { if (F.isDeclaration()||!F.arg_size()||!F.getArg(0)->getType()->isPointerTy()||isApi(&F)) continue; if (fnFile(&F).find("/core/")==std::string::npos) continue; const DIType* t=paramType(&F,0); std::string n=t?typeName(pointeeOrRef(t)):""; bool impl=false; for (auto* h : {"BLGradient","BLPattern","BLPath","BLImage","BLFont","BLFontFace"}) for (auto* sfx : {"PrivateImpl","Impl"}) if (n==std::string(h)+sfx) impl=true; if (!impl) continue; std::string fn=shortName(&F); if (fn.rfind("free_impl")!=std::string::npos||fn.find("destroy")!=std::string::npos) continue;
      bool used=false; for (auto* u : F.users()) if (auto* cb=dyn_cast<CallBase>(u)) if (cb->getCalledOperand()==&F) { std::string f=fnFile(cb->getFunction()); if (f.find("/raster/")!=std::string::npos) used=true; }
      if (used) { o.push_back(&F); styleHelpers.insert(&F); R.sample("helper",fn); } } return o; }
  void run() {
    std::vector<const Function*> roots=apiRoots(M); if (prop=="C07") { auto h=helpers(); if (h.empty()) R.note("the renderer calls no function on the data of a style"); roots.insert(roots.end(),h.begin(),h.end()); R.count("functions the renderer calls on shared data",h.size()); }
    unsigned n=0; for (auto* F : roots) { if (!wants(F)) continue; if (auto* o=getenv("BLSA_ONLY")) if (F->getName()!=o) continue; root=F; orgs.clear(); tracked.clear(); rootArgs.clear(); handles.clear(); n++;
      for (unsigned i=0;i<F->arg_size();i++) { rootArgs.push_back(arg(F->getName().str()+"."+std::to_string(i)+"."+F->getArg(i)->getName().str(),E.bitsOf(F->getArg(i)->getType()),i)); if (F->getArg(i)->getType()->isPointerTy()) { Region* hr=E.derefRegion(rootArgs.back()); hr->isolated=true; const DIType* t=paramType(F,i); if (t&&valueType(typeName(pointeeOrRef(t)))) handles.push_back(hr); } }
      if (getenv("BLSA_TIME")) fprintf(stderr,"START %s\n",F->getName().str().c_str());
      State s; std::vector<Engine::Exit> ex; assumeSizes(s); assumeDefaults(s); try { ex=E.runRoot(F,rootArgs,s,perRun); } catch (BudgetExceeded&) { R.note(F->getName().str()+": analysis budget exceeded, not decided completely"); continue; }
      if (getenv("BLSA_TIME")) fprintf(stderr,"TIME %s exits %zu steps %lu t %ld\n",F->getName().str().c_str(),ex.size(),(unsigned long)0,(long)time(nullptr));
      for (auto& x : ex) { if (prop=="C05") errorExit(x); else if (prop=="C01") handedOut(x); else if (prop=="C19") { caches(x); pathQueries(x); } else if (prop=="C04") leaks(x); else if (prop=="C11") refBalance(x); }
      R.count("API functions analysed",1); R.count("paths",ex.size()); }
    if (n<300 && !getenv("BLSA_ONLY")) R.broken("only "+std::to_string(n)+" object functions found");
    R.count("stores resolved",nStores); R.count("stores through pointers of unknown origin",nUnres);
  }
};
}
