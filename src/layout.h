// Field layout of the library's own types, read from the debug information clang emits for the sources.
#pragma once
#include "common.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/BinaryFormat/Dwarf.h"

namespace sa {
struct Field { std::string path; int64_t off, size; const DIType* type; };

struct Layouts {
  std::map<std::string, const DICompositeType*> types; std::map<std::string, uint64_t> enumerators;
  explicit Layouts(Module& M) {
    DebugInfoFinder F; F.processModule(M);
    for (auto* t : F.types()) { auto* c=dyn_cast<DICompositeType>(t); if (!c || c->isForwardDecl()) continue;
      std::string scope; for (auto* s=c->getScope(); s; s=s->getScope()) if (!s->getName().empty() && !isa<DIFile>(s) && !isa<DICompileUnit>(s)) scope=s->getName().str()+"::"+scope;
      std::string n=c->getName().str(); if (n.empty()) { if (c->getTag()==dwarf::DW_TAG_enumeration_type) addEnum(c,scope); continue; }
      if (c->getTag()==dwarf::DW_TAG_enumeration_type) addEnum(c,scope+n+"::");
      auto& p=types[scope+n]; if (!p) p=c; auto& q=types[n]; if (!q) q=c; }
  }
  void addEnum(const DICompositeType* c, const std::string& pre) { for (auto* e : c->getElements()) if (auto* en=dyn_cast_or_null<DIEnumerator>(e)) { enumerators[en->getName().str()]=en->getValue().getZExtValue(); enumerators[pre+en->getName().str()]=en->getValue().getZExtValue(); } }
  static const DIType* strip(const DIType* t) { while (auto* d=dyn_cast_or_null<DIDerivedType>(t)) { auto tag=d->getTag(); if (tag==dwarf::DW_TAG_typedef||tag==dwarf::DW_TAG_const_type||tag==dwarf::DW_TAG_volatile_type) t=d->getBaseType(); else break; } return t; }
  // leaf fields (scalars and pointers), arrays expanded up to `maxArray` elements
  void leaves(const DIType* t, const std::string& path, int64_t off, std::vector<Field>& out, int depth=0) const {
    const DIType* s=strip(t); if (!s||depth>12) return;
    if (auto* c=dyn_cast<DICompositeType>(s)) {
      if (c->isForwardDecl()) { auto it=types.find(c->getName().str()); if (it==types.end()) return; c=it->second; }
      if (c->getTag()==dwarf::DW_TAG_enumeration_type) { out.push_back({path,off,(int64_t)c->getSizeInBits()/8,c}); return; }
      if (c->getTag()==dwarf::DW_TAG_array_type) { uint64_t n=1; for (auto* e : c->getElements()) if (auto* r=dyn_cast_or_null<DISubrange>(e)) if (auto* ci=dyn_cast_if_present<ConstantInt*>(r->getCount())) n*=ci->getZExtValue(); const DIType* b=c->getBaseType(); int64_t es=sizeOf(b); if (n>64||es<=0) { out.push_back({path,off,(int64_t)(c->getSizeInBits()/8),c}); return; } for (uint64_t i=0;i<n;i++) leaves(b,path+"["+std::to_string(i)+"]",off+i*es,out,depth+1); return; }
      if (c->getName()=="BLObjectDetail") { out.push_back({path,off,(int64_t)c->getSizeInBits()/8,c}); return; }
      for (auto* e : c->getElements()) if (auto* m=dyn_cast_or_null<DIDerivedType>(e)) { if (m->isStaticMember()) continue; if (m->getTag()==dwarf::DW_TAG_inheritance) leaves(m->getBaseType(),path,off+m->getOffsetInBits()/8,out,depth+1); else if (m->getTag()==dwarf::DW_TAG_member) { std::string n=m->getName().str(); leaves(m->getBaseType(), n.empty()?path:(path.empty()?n:path+"."+n), off+m->getOffsetInBits()/8,out,depth+1); } }
      return;
    }
    out.push_back({path,off,sizeOf(s),s});
  }
  static int64_t sizeOf(const DIType* t) { t=strip(t); return t?(int64_t)t->getSizeInBits()/8:0; }
  std::vector<Field> fields(const std::string& type) const { std::vector<Field> o; auto it=types.find(type); if (it!=types.end()) leaves(it->second,"",0,o); return o; }
  // offset and size of a member path such as "internal_state.style_alpha"; off<0 when there is none
  Field member(const std::string& type, const std::string& path) const { auto it=types.find(type); if (it==types.end()) return {path,-1,0,nullptr}; return memberOf(it->second,path,0); }
  Field memberOf(const DIType* t, const std::string& path, int64_t off) const {
    auto* c=dyn_cast_or_null<DICompositeType>(strip(t)); if (!c) return {path,-1,0,nullptr}; if (c->isForwardDecl()) { auto it=types.find(c->getName().str()); if (it==types.end()) return {path,-1,0,nullptr}; c=it->second; }
    size_t p=path.find('.'); std::string head=path.substr(0,p), rest=p==std::string::npos?"":path.substr(p+1);
    for (auto* e : c->getElements()) if (auto* m=dyn_cast_or_null<DIDerivedType>(e)) { if (m->isStaticMember()) continue; int64_t mo=off+m->getOffsetInBits()/8;
      if (m->getTag()==dwarf::DW_TAG_inheritance || (m->getTag()==dwarf::DW_TAG_member && m->getName().empty())) { Field f=memberOf(m->getBaseType(),path,mo); if (f.off>=0) return f; }
      else if (m->getTag()==dwarf::DW_TAG_member && m->getName()==head) { if (rest.empty()) return {path,mo,sizeOf(m->getBaseType()),m->getBaseType()}; return memberOf(m->getBaseType(),rest,mo); } }
    return {path,-1,0,nullptr};
  }
};
} // namespace sa
