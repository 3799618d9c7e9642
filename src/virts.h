// Function tables: every slot of every table is filled, on every path of its initialiser, with the function made for it.
#pragma once
#include "graph.h"
#include "llvm/Analysis/PostDominators.h"

namespace sa {

struct VirtRules {
  Module& M; Reporter& R; const DataLayout& DL; CallGraphX cg; std::map<std::string, const DICompositeType*> dis;
  VirtRules(Module& m, Reporter& r) : M(m), R(r), DL(m.getDataLayout()), cg(m) {
    DebugInfoFinder f; f.processModule(m); for (auto* t : f.types()) if (auto* c=dyn_cast<DICompositeType>(t)) if (!c->isForwardDecl() && !c->getName().empty()) { auto& e=dis[c->getName().str()]; if (!e||c->getElements().size()>e->getElements().size()) e=c; } }
  static std::string norm(const std::string& s) { std::string o; for (char c : s) if (isalnum(c)) o+=tolower(c); return o; }
  struct Slot { uint64_t off; std::string name; };
  static const DIType* peel(const DIType* t) { while (auto* d=dyn_cast_or_null<DIDerivedType>(t)) { if (d->getTag()==dwarf::DW_TAG_typedef||d->getTag()==dwarf::DW_TAG_const_type||d->getTag()==dwarf::DW_TAG_volatile_type) t=d->getBaseType(); else break; } return t; }
  void slotsOf(const DIType* t, uint64_t off, std::vector<Slot>& out, bool& onlyFns) {
    t=peel(t); if (auto* c=dyn_cast_or_null<DICompositeType>(t)) { if (c->getTag()!=dwarf::DW_TAG_structure_type&&c->getTag()!=dwarf::DW_TAG_class_type) { onlyFns=false; return; } if (c->isForwardDecl()||c->getElements().empty()) { auto it=dis.find(c->getName().str()); if (it!=dis.end()) c=it->second; } for (auto* e : c->getElements()) if (auto* m=dyn_cast<DIDerivedType>(e)) if ((m->getTag()==dwarf::DW_TAG_member && !m->isStaticMember())||m->getTag()==dwarf::DW_TAG_inheritance) { auto* b=peel(m->getBaseType()); auto* d=dyn_cast_or_null<DIDerivedType>(b); if (d && d->getTag()==dwarf::DW_TAG_pointer_type && isa_and_nonnull<DISubroutineType>(peel(d->getBaseType()))) out.push_back({off+m->getOffsetInBits()/8,m->getName().str()}); else if (isa_and_nonnull<DICompositeType>(b)) slotsOf(b,off+m->getOffsetInBits()/8,out,onlyFns); else onlyFns=false; } }
    else onlyFns=false; }
  // tables inside a type: maximal structures made of function pointers only (two or more)
  struct Table { uint64_t off; std::string type; std::vector<Slot> slots; };
  void tablesIn(const DIType* t, uint64_t off, std::vector<Table>& out, int depth=0) {
    t=peel(t); auto* c=dyn_cast_or_null<DICompositeType>(t); if (!c||depth>6) return; if (c->getElements().empty()) { auto it=dis.find(c->getName().str()); if (it!=dis.end()) c=it->second; }
    bool only=true; std::vector<Slot> s; slotsOf(c,off,s,only); if (only && s.size()>=2) { out.push_back({off,c->getName().str(),s}); return; }
    for (auto* e : c->getElements()) if (auto* m=dyn_cast<DIDerivedType>(e)) if ((m->getTag()==dwarf::DW_TAG_member&&!m->isStaticMember())||m->getTag()==dwarf::DW_TAG_inheritance) { auto* b=peel(m->getBaseType()); std::string tn=c->getName().str(); if (isa_and_nonnull<DICompositeType>(b)) tablesIn(b,off+m->getOffsetInBits()/8,out,depth+1);
        // storage wrapped in a template holder: bl::Wrap<T>, with bytes only
        }
    for (auto* tp : c->getTemplateParams()) if (auto* tt=dyn_cast<DITemplateTypeParameter>(tp)) if (StringRef(c->getName()).startswith("Wrap<")) tablesIn(tt->getType(),off,out,depth+1); }

  struct Fill { const Function* f; const Instruction* at; bool always; };
  // what a function stores through an argument or global: (base value, offset) -> fills
  using Where=std::pair<const Value*, int64_t>;
  std::map<const Function*, std::vector<std::pair<Where,Fill>>> memo; std::set<const Function*> active;
  const std::vector<std::pair<Where,Fill>>& fills(const Function* F) {
    auto it=memo.find(F); if (it!=memo.end()) return it->second; auto& out=memo[F]; if (active.count(F)||F->isDeclaration()) return out; active.insert(F);
    std::vector<std::pair<Where,Fill>> v; PostDominatorTree PDT(const_cast<Function&>(*F)); const BasicBlock* en=&F->getEntryBlock();
    auto base=[&](const Value* p, Where& w){ APInt o(64,0); const Value* b=p->stripAndAccumulateConstantOffsets(DL,o,true); w={b,o.getSExtValue()}; return isa<GlobalVariable>(b)||isa<Argument>(b); };
    for (auto& I : instructions(F)) { bool always=PDT.dominates(I.getParent(),en);
      if (auto* st=dyn_cast<StoreInst>(&I)) { const Value* val=st->getValueOperand(); Where w; if (!val->getType()->isPointerTy()||!base(st->getPointerOperand(),w)) continue; if (auto* f=dyn_cast<Function>(val->stripPointerCasts())) v.push_back({w,{f,&I,always}}); else if (isa<ConstantPointerNull>(val)) v.push_back({w,{nullptr,&I,always}}); else if (auto* sel=dyn_cast<SelectInst>(val)) { for (auto* q : {sel->getTrueValue(),sel->getFalseValue()}) if (auto* f=dyn_cast<Function>(q->stripPointerCasts())) v.push_back({w,{f,&I,always}}); } else if (isa<PHINode>(val)) { for (auto& q : cast<PHINode>(val)->incoming_values()) if (auto* f=dyn_cast<Function>(q->stripPointerCasts())) v.push_back({w,{f,&I,always}}); } }
      else if (auto* cb=dyn_cast<CallBase>(&I)) if (auto* t=cb->getCalledFunction()) if (!t->isDeclaration()) for (auto& kv : std::vector<std::pair<Where,Fill>>(fills(t))) { Where w=kv.first; if (auto* a=dyn_cast<Argument>(w.first)) { if (a->getArgNo()>=cb->arg_size()) continue; Where x; if (!base(cb->getArgOperand(a->getArgNo()),x)) continue; x.second+=w.second; v.push_back({x,{kv.second.f,kv.second.at,kv.second.always&&always}}); } } }
    active.erase(F); return memo[F]=v; }

  static std::string targs(const Function* F) { std::string n=fnName(F); size_t a=n.find('<'), p=n.find('('); if (a==std::string::npos||(p!=std::string::npos&&a>p)) return ""; int d=0; for (size_t i=a;i<n.size();i++) { if (n[i]=='<') d++; if (n[i]=='>'&&--d==0) return n.substr(a,i-a+1); } return ""; }
  static std::string baseFn(const Function* F) { std::string s=shortName(F); size_t lt=s.find('<'); if (lt!=std::string::npos) s=s.substr(0,lt); size_t c=s.rfind("::"); if (c!=std::string::npos) s=s.substr(c+2); size_t sp=s.rfind(' '); if (sp!=std::string::npos) s=s.substr(sp+1); return s; }

  void run() {
    destructors();
    std::map<const GlobalVariable*, std::map<int64_t, std::vector<Fill>>> at;
    for (auto& F : M) { if (F.isDeclaration()) continue; for (auto& kv : fills(&F)) if (auto* g=dyn_cast<GlobalVariable>(kv.first.first)) at[g][kv.first.second].push_back(kv.second); }
    for (auto& G : M.globals()) { if (G.isDeclaration()) continue; const DIType* gt=nullptr; SmallVector<DIGlobalVariableExpression*,2> ge; G.getDebugInfo(ge); for (auto* e : ge) gt=e->getVariable()->getType(); if (!gt) continue;
      std::vector<Table> tabs; { auto* p=peel(gt); if (auto* arr=dyn_cast_or_null<DICompositeType>(p)) if (arr->getTag()==dwarf::DW_TAG_array_type) { uint64_t n=0; for (auto* e : arr->getElements()) if (auto* s=dyn_cast<DISubrange>(e)) if (auto* ci=s->getCount().dyn_cast<ConstantInt*>()) n=ci->getZExtValue(); std::vector<Table> one; tablesIn(arr->getBaseType(),0,one); auto* el=arr->getBaseType(); uint64_t es=el?el->getSizeInBits()/8:0; for (uint64_t i=0;i<n&&i<256&&es;i++) for (auto t : one) { t.off+=i*es; for (auto& s : t.slots) s.off+=i*es; tabs.push_back(t); } p=nullptr; } if (p) tablesIn(p,0,tabs); }
      for (auto& T : tabs) { auto& stores=at[&G]; std::vector<const Function*> inInit; bool any=false; std::map<uint64_t,const Function*> init;
        for (auto& s : T.slots) { Constant* c=G.hasInitializer()?ConstantFoldLoadFromConst(G.getInitializer(),PointerType::get(M.getContext(),0),APInt(64,s.off),DL):nullptr; if (c) if (auto* f=dyn_cast<Function>(c->stripPointerCasts())) { init[s.off]=f; any=true; } for (auto& fl : stores[s.off]) if (fl.f) any=true; }
        if (!any) { R.note("table "+T.type+" in "+G.getName().str()+" is never filled slot by slot"); continue; }
        R.count("function tables",1); std::string gname=demangle1(G.getName().str()); R.sample("table",T.type+" in "+gname+" ("+std::to_string(T.slots.size())+" slots)");
        std::map<std::string,std::vector<std::string>> modes; std::map<const Function*, std::vector<std::string>> usedBy;
        for (auto& s : T.slots) { R.count("table slots",1); bool filled=init.count(s.off); std::vector<const Function*> fns; if (filled) fns.push_back(init[s.off]); const Instruction* where=nullptr;
          for (auto& fl : stores[s.off]) { if (fl.f) { fns.push_back(fl.f); if (fl.always) filled=true; } else if (fl.always) R.violation("null:"+gname+":"+s.name,Engine::locFull(fl.at),"the slot '"+s.name+"' of "+gname+" is set to null"); where=fl.at; }
          if (!filled) R.violation("unfilled:"+gname+":"+s.name,where?Engine::locFull(where):gname,"the slot '"+s.name+"' of the function table "+T.type+" in "+gname+" is not filled on every path of its initialiser");
          for (auto* f : fns) { std::string fn=norm(baseFn(f)); const Slot* best=nullptr; size_t bl=0; for (auto& o : T.slots) { std::string on=norm(o.name); if (on.size()>bl && fn.find(on)!=std::string::npos) { best=&o; bl=on.size(); } }
            R.count("slot assignments compared",1); if (best && best->off!=s.off && norm(best->name)!=norm(s.name) && fn.find(norm(s.name))==std::string::npos) R.violation("slot:"+gname+":"+s.name,where?Engine::locFull(where):fnLoc(f),"the slot '"+s.name+"' of "+gname+" holds "+shortName(f)+"(), the function of the slot '"+best->name+"'");
            else if (best && best->off!=s.off && norm(best->name).size()>norm(s.name).size() && norm(best->name)!=norm(s.name)) { bool other=false; for (auto& fl : stores[best->off]) if (fl.f==f) other=true; if (other) R.violation("slot:"+gname+":"+s.name,where?Engine::locFull(where):fnLoc(f),"the slot '"+s.name+"' of "+gname+" holds "+shortName(f)+"(), the function of the slot '"+best->name+"'"); }
            usedBy[f].push_back(s.name); std::string ta=targs(f); if (!ta.empty()) modes[ta].push_back(s.name); } }
        if (modes.size()>1) { size_t most=0; std::string m; for (auto& kv : modes) if (kv.second.size()>most) { most=kv.second.size(); m=kv.first; } for (auto& kv : modes) if (kv.first!=m && most>3*kv.second.size()) for (auto& s : kv.second) R.violation("mode:"+gname+":"+s,gname,"the slot '"+s+"' of "+gname+" holds an instance for "+kv.first+" where the others are for "+m); }
        for (auto& kv : usedBy) if (kv.second.size()>1 && std::set<std::string>(kv.second.begin(),kv.second.end()).size()>1 && !notImpl(kv.first) && T.type.find("Virt")!=std::string::npos) R.violation("twice:"+gname+":"+shortName(kv.first),fnLoc(kv.first),shortName(kv.first)+"() fills the slots '"+kv.second[0]+"' and '"+kv.second[1]+"' of "+gname);
      } }
  }
  // dispatch on the object type: each type's case reaches the destructor written for that type, and no other type's
  void destructors() {
    std::map<std::string,const Function*> frees; for (auto& F : M) { std::string n=shortName(&F); size_t p=n.find("Internal::free_impl"); if (p==std::string::npos||F.isDeclaration()) continue; size_t q=n.rfind("::",p); frees[norm(n.substr(q==std::string::npos?0:q+2,p-(q==std::string::npos?0:q+2)))]=&F; } 
    // destructors that are inlined everywhere exist in the debug information only
    auto ownOf=[&](const DISubprogram* sp)->std::string { if (!sp||sp->getName()!="free_impl") return ""; for (const DIScope* sc=sp->getScope(); sc; sc=sc->getScope()) { StringRef n=sc->getName(); if (n.endswith("Internal")) return norm(n.drop_back(8).str()); if (isa<DIFile>(sc)) break; } return ""; };
    { DebugInfoFinder f; f.processModule(M); for (auto* sp : f.subprograms()) { std::string o=ownOf(sp); if (!o.empty()) frees.emplace(o,nullptr); } } frees.erase("object");
    std::map<uint64_t,std::string> types; { auto it=dis.find("BLObjectType"); if (it!=dis.end()) for (auto* e : it->second->getElements()) if (auto* en=dyn_cast<DIEnumerator>(e)) { std::string n=en->getName().str(); if (StringRef(n).startswith("BL_OBJECT_TYPE_")) { n=n.substr(15); if (StringRef(n).startswith("MIN")||StringRef(n).startswith("MAX")||StringRef(n).startswith("FORCE")) continue; uint64_t v=en->getValue().getZExtValue(); if (!types.count(v)) types[v]=norm(n); } } }
    if (types.empty()||frees.empty()) { R.note("object types or destructors not found"); return; }
    auto ownerOf=[&](const std::string& t)->std::string { std::string best; for (auto& f : frees) if (t.rfind(f.first,0)==0 && (t.size()==f.first.size()||f.first=="array") && f.first.size()>best.size()) best=f.first; return best; };
    for (auto& F : M) { if (F.isDeclaration()) continue; for (auto& B : F) { auto* sw=dyn_cast<SwitchInst>(B.getTerminator()); if (!sw) continue;
        auto reached=[&](const BasicBlock* b){ std::set<std::string> out; std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> wl={b}; while (!wl.empty()) { auto* x=wl.back(); wl.pop_back(); if (!seen.insert(x).second||seen.size()>60) continue; for (auto& I : *x) { for (const DILocation* l=I.getDebugLoc().get(); l; l=l->getInlinedAt()) if (l->getScope()) { std::string o=ownOf(l->getScope()->getSubprogram()); if (frees.count(o)) out.insert(o); } if (auto* cb=dyn_cast<CallBase>(&I)) if (auto* t=cb->getCalledFunction()) for (auto& f : frees) if (f.second && f.second==t) out.insert(f.first); } for (auto* s : successors(x)) wl.push_back(s); } return out; };
        std::set<std::string> any; for (auto c : sw->cases()) for (auto& x : reached(c.getCaseSuccessor())) any.insert(x); if (any.size()<3) continue;
        R.count("type dispatches",1); for (auto& t : types) { std::string want=ownerOf(t.second); const BasicBlock* to=sw->getDefaultDest(); for (auto c : sw->cases()) if (c.getCaseValue()->getZExtValue()==t.first) to=c.getCaseSuccessor(); auto got=reached(to); if (!want.empty()) { R.count("object types dispatched",1); if (got.size()!=1||*got.begin()!=want) R.violation("destroy:"+t.second,Engine::locFull(sw),shortName(&F)+"() destroys an object of type "+t.second+" with "+(got.empty()?std::string("no destructor of its own"):"the destructor of "+*got.begin())); } else if (!got.empty() && !virtualType(t.second)) R.violation("destroy:"+t.second,Engine::locFull(sw),shortName(&F)+"() destroys an object of type "+t.second+" with the destructor of "+*got.begin()); } } } }
  static bool virtualType(const std::string&) { return false; }
  // a function that does nothing but return one constant result
  static bool notImpl(const Function* F) { if (F->isDeclaration()||F->size()>1) return false; for (auto& I : instructions(F)) { if (isa<ReturnInst>(I)||isa<DbgInfoIntrinsic>(I)) continue; auto* cb=dyn_cast<CallBase>(&I); if (!cb) return false; for (auto& a : cb->args()) if (!isa<Constant>(a)) return false; } return true; }
};

} // namespace sa
