// Source-level rules over clang's syntax tree. Usage: blast CMD file.cpp -- compiler flags
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/ASTUnit.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/ArgumentsAdjusters.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <cstdio>
using namespace clang;

static std::string jstr(const std::string& s) { std::string o="\""; for (unsigned char c : s) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c<32) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o+"\""; }
struct Rep {
  std::map<std::string,long> n; std::set<std::string> keys; std::map<std::string,int> ns;
  void violation(const std::string& key, const std::string& loc, const std::string& msg) { if (keys.insert(key).second) printf("{\"type\":\"violation\",\"key\":%s,\"loc\":%s,\"msg\":%s,\"path\":\"\"}\n",jstr(key).c_str(),jstr(loc).c_str(),jstr(msg).c_str()); }
  void count(const std::string& k, long v=1) { n[k]+=v; }
  void sample(const std::string& k, const std::string& t) { if (ns[k]++<8) printf("{\"type\":\"sample\",\"kind\":%s,\"text\":%s}\n",jstr(k).c_str(),jstr(t).c_str()); }
  void finish() { for (auto& c : n) printf("{\"type\":\"count\",\"name\":%s,\"n\":%ld}\n",jstr(c.first).c_str(),c.second); printf("{\"type\":\"end\"}\n"); }
} R;

using Toks=std::vector<std::string>;
static Toks toks(const std::string& s) { Toks o; std::string c; for (char ch : s) { if (ch=='_') { if (!c.empty()) o.push_back(c); c.clear(); } else c+=tolower(ch); } if (!c.empty()) o.push_back(c); return o; }
static bool startsWith(const Toks& a, const Toks& p) { return a.size()>=p.size() && std::equal(p.begin(),p.end(),a.begin()); }
static std::string joined(const Toks& t) { std::string o; for (auto& x : t) o+=x; return o; }
static bool hasSeq(const Toks& a, const Toks& p) { if (p.empty()) return false; for (size_t i=0;i+p.size()<=a.size();i++) if (std::equal(p.begin(),p.end(),a.begin()+i)) return true; return false; }
static std::string snake(const std::string& cls) { std::string s=cls; if (s.rfind("BL",0)==0) s=s.substr(2); std::string o; for (size_t i=0;i<s.size();i++) { if (isupper(s[i]) && i && !(isupper(s[i-1]))) o+='_'; o+=tolower(s[i]); } return o; }

struct CalleeInfo { std::string name; std::vector<std::string> params; std::vector<QualType> types; const FunctionDecl* fd=nullptr; bool slot=false, ctor=false; QualType ret; };

struct Wrappers {
  ASTContext& C; SourceManager& SM; std::map<std::string,const FunctionDecl*> capi; std::map<std::string, std::set<std::string>> slots; // record -> slot names
  Wrappers(ASTContext& c) : C(c), SM(c.getSourceManager()) {}
  std::string loc(SourceLocation l) { l=SM.getExpansionLoc(l); std::string f=SM.getFilename(l).str(); size_t p=f.find("/blend2d/"); if (p!=std::string::npos) f=f.substr(p+1); return f+":"+std::to_string(SM.getExpansionLineNumber(l)); }
  std::string file(SourceLocation l) { return SM.getFilename(SM.getExpansionLoc(l)).str(); }

  static const Expr* strip(const Expr* e) {
    for (;;) { const Expr* b=e; e=e->IgnoreParenCasts();
      if (auto* u=dyn_cast<UnaryOperator>(e)) if (u->getOpcode()==UO_AddrOf||u->getOpcode()==UO_Deref) e=u->getSubExpr();
      if (auto* m=dyn_cast<MaterializeTemporaryExpr>(e)) e=m->getSubExpr(); if (auto* m=dyn_cast<ExprWithCleanups>(e)) e=m->getSubExpr(); if (auto* m=dyn_cast<CXXBindTemporaryExpr>(e)) e=m->getSubExpr(); if (auto* d=dyn_cast<CXXDefaultArgExpr>(e)) return d;
      if (auto* m=dyn_cast<MemberExpr>(e)) if (m->getMemberDecl()->getName()=="value" || m->getMemberDecl()->getName()=="_d") e=m->getBase();
      if (auto* m=dyn_cast<CXXDependentScopeMemberExpr>(e)) if (!m->isImplicitAccess() && m->getMember().getAsString()=="value") e=m->getBase();
      if (auto* k=dyn_cast<CXXConstructExpr>(e)) if (k->getNumArgs()==1) e=k->getArg(0);
      if (auto* k=dyn_cast<CXXUnresolvedConstructExpr>(e)) if (k->getNumArgs()==1) e=k->getArg(0);
      if (auto* c=dyn_cast<CallExpr>(e)) if (!isa<CXXMemberCallExpr>(c) && c->getNumArgs()==1) { std::string n; if (auto* f=c->getDirectCallee()) n=f->getNameAsString(); else if (auto* u=dyn_cast<UnresolvedLookupExpr>(c->getCallee()->IgnoreParenCasts())) n=u->getName().getAsString(); if (n=="move"||n=="forward"||n=="bl_cast_func"||n=="bl_move"||n=="bl_forward"||n=="operator()") e=c->getArg(0); }
      if (e==b) return e; } }
  static const ParmVarDecl* param(const Expr* e) { e=strip(e); if (auto* d=dyn_cast<DeclRefExpr>(e)) return dyn_cast<ParmVarDecl>(d->getDecl()); return nullptr; }
  static bool isThis(const Expr* e) { return isa<CXXThisExpr>(strip(e)); }

  bool callee(const Expr* e, CalleeInfo& o, std::vector<const Expr*>& args) {
    args.clear(); o=CalleeInfo();
    auto fromFD=[&](const FunctionDecl* f){ o.fd=f; o.name=f->getNameAsString(); o.ret=f->getReturnType(); for (auto* p : f->parameters()) { o.params.push_back(p->getNameAsString()); o.types.push_back(p->getType()); } };
    if (auto* k=dyn_cast<CXXConstructExpr>(e)) { fromFD(k->getConstructor()); o.ctor=true; for (auto* a : k->arguments()) args.push_back(a); return true; }
    auto* c=dyn_cast<CallExpr>(e); if (!c) return false; for (auto* a : c->arguments()) args.push_back(a);
    if (auto* oc=dyn_cast<CXXOperatorCallExpr>(e)) return false;
    if (auto* f=c->getDirectCallee()) { fromFD(f); return true; }
    auto* x=c->getCallee()->IgnoreParenImpCasts();
    if (auto* u=dyn_cast<UnresolvedLookupExpr>(x)) { if (std::distance(u->decls_begin(),u->decls_end())==1) if (auto* f=dyn_cast<FunctionDecl>((*u->decls_begin())->getUnderlyingDecl())) { fromFD(f); return true; } return false; }
    if (auto* u=dyn_cast<UnresolvedMemberExpr>(x)) { const FunctionDecl* only=nullptr; int n=0; for (auto* d : u->decls()) if (auto* f=dyn_cast<CXXMethodDecl>(d->getUnderlyingDecl())) { only=f; n++; } if (n==1) { fromFD(only); return true; } o.name=u->getMemberName().getAsString(); return true; }
    if (auto* m=dyn_cast<MemberExpr>(x)) if (auto* fd=dyn_cast<FieldDecl>(m->getMemberDecl())) { o.slot=true; o.name=fd->getNameAsString(); o.ret=c->getType(); if (auto* ts=fd->getTypeSourceInfo()) { TypeLoc tl=ts->getTypeLoc(); tl=tl.IgnoreParens(); if (auto pl=tl.getAs<PointerTypeLoc>()) { TypeLoc in=pl.getPointeeLoc().IgnoreParens(); while (auto al=in.getAs<AttributedTypeLoc>()) in=al.getModifiedLoc().IgnoreParens(); if (auto fl=in.getAs<FunctionProtoTypeLoc>()) for (auto* p : fl.getParams()) if (p) { o.params.push_back(p->getNameAsString()); o.types.push_back(p->getType()); } } } return true; }
    return false; }

  struct Walk : RecursiveASTVisitor<Walk> { std::vector<const Expr*> calls; std::vector<const DeclRefExpr*> refs; std::set<const Stmt*> discarded; int stmts=0; bool VisitCallExpr(CallExpr* e) { calls.push_back(e); return true; } bool VisitCXXConstructExpr(CXXConstructExpr* e) { calls.push_back(e); return true; } bool VisitDeclRefExpr(DeclRefExpr* e) { refs.push_back(e); return true; }
    bool VisitCompoundStmt(CompoundStmt* s) { for (auto* x : s->body()) { stmts++; if (auto* e=dyn_cast<Expr>(x)) { const Expr* q=e; if (auto* w=dyn_cast<ExprWithCleanups>(q)) q=w->getSubExpr(); discarded.insert(q); } } return true; } bool shouldVisitImplicitCode() const { return false; } };

  static std::string typeKey(QualType t) { return t.isNull()?"":t.getNonReferenceType().getUnqualifiedType().getCanonicalType().getAsString(); }
  static bool sameFamily(QualType a, QualType b) { if (a.isNull()||b.isNull()) return false; return typeKey(a)==typeKey(b) || (a->isArithmeticType() && b->isArithmeticType()); }

  void examine(const FunctionDecl* FD, bool header) {
    const Stmt* body=FD->getBody(); if (!body) return;
    auto* MD=dyn_cast<CXXMethodDecl>(FD); std::string cls; if (MD) cls=MD->getParent()->getNameAsString(); std::string m=FD->getNameAsString(); std::string L=loc(FD->getLocation());
    std::string who=(cls.empty()?"":cls+"::")+m; Walk W; W.TraverseStmt(const_cast<Stmt*>(body)); if (auto* CD=dyn_cast<CXXConstructorDecl>(FD)) for (auto* in : CD->inits()) if (in->isWritten()) W.TraverseStmt(in->getInit());
    std::set<const ParmVarDecl*> used; for (auto* r : W.refs) if (auto* p=dyn_cast<ParmVarDecl>(r->getDecl())) used.insert(p);
    std::string sig; for (auto* p : FD->parameters()) sig+=(sig.empty()?"":",")+p->getType().getAsString();
    std::string key=who+"("+sig+")"; bool api=false, forwards=false;
    std::map<std::string,const ParmVarDecl*> byName; for (auto* p : FD->parameters()) if (!p->getName().empty()) byName[p->getNameAsString()]=p;
    std::string pre="bl_"+snake(cls)+"_"; std::vector<std::string> ops; Toks extra0;
    for (auto* ce : W.calls) { CalleeInfo ci; std::vector<const Expr*> args; if (!callee(ce,ci,args)) continue;
      bool isApi=ci.fd && ci.fd->getNameAsString().rfind("bl_",0)==0 && !isa<CXXMethodDecl>(ci.fd); if (isApi||ci.slot) api=true;
      if (isApi||ci.slot) forwards=true;
      // R1: an argument goes to the parameter of its own name, and equally typed arguments keep their order
      const ParmVarDecl* last=nullptr; size_t lastI=0;
      for (size_t i=0;i<args.size() && i<ci.params.size();i++) { auto* p=param(args[i]); if (!p||p->getDeclContext()!=FD) continue; R.count("arguments matched to parameters"); std::string N=ci.params[i], W0=p->getNameAsString();
        bool named=N==W0; if (!named && byName.count(N) && byName[N]!=p && sameFamily(byName[N]->getType(),p->getType())) R.violation("crossed:"+key+":"+ci.name+":"+N,loc(ce->getExprLoc()),who+"() passes '"+W0+"' as the parameter '"+N+"' of "+ci.name+"(), although it has a parameter '"+N+"'");
        if ((isApi||ci.slot||ci.name[0]=='_') && last && last!=p && sameFamily(last->getType(),p->getType()) && last->getFunctionScopeIndex()>p->getFunctionScopeIndex() && !(named && ci.params[lastI]==last->getNameAsString())) R.violation("order:"+key+":"+ci.name+":"+W0,loc(ce->getExprLoc()),who+"() passes '"+last->getNameAsString()+"' before '"+W0+"' to "+ci.name+"(), the reverse of its own parameter order");
        last=p; lastI=i; }
      // R7: the wrapper hands a parameter over as it is: it does not choose between it and something else, nor change the parameter of that name
      if ((isApi&&ci.fd->isExternC())||ci.slot) for (size_t i=0;i<args.size();i++) { if (param(args[i])) continue; const Expr* e=strip(args[i]); for (int k=0;k<4;k++) { auto* dr=dyn_cast<DeclRefExpr>(e); auto* v=dr?dyn_cast<VarDecl>(dr->getDecl()):nullptr; if (!v||!v->hasLocalStorage()||!v->getInit()||isa<ParmVarDecl>(v)) break; e=strip(v->getInit()); }
        bool cond=isa<ConditionalOperator>(e), arith=false; if (auto* b=dyn_cast<BinaryOperator>(e)) arith=!b->isComparisonOp()&&!b->isAssignmentOp(); if (!cond&&!arith) continue; std::string given; auto mention=[&](const Expr* x){ if (auto* p=param(x)) if (p->getDeclContext()==FD && (cond || (i<ci.params.size() && p->getNameAsString()==ci.params[i]))) given=p->getNameAsString(); };
        if (cond) { auto* q=cast<ConditionalOperator>(e); mention(q->getTrueExpr()); mention(q->getFalseExpr()); } else { auto* q=cast<BinaryOperator>(e); mention(q->getLHS()); mention(q->getRHS()); }
        if (!given.empty()) R.violation("altered:"+key+":"+ci.name+":"+given,loc(ce->getExprLoc()),who+"() does not always pass '"+given+"' to "+ci.name+"() as it was given"); }
      // R1b: data is not handed over as another type
      if (isApi||ci.slot) for (auto* a : args) if (auto* p=param(a)) { QualType from=p->getType().getNonReferenceType(); if (from->isPointerType()) from=from->getPointeeType(); QualType to=a->IgnoreImpCasts()->getType(); if (!to->isPointerType()) continue; to=to->getPointeeType(); auto *fr=from->getAsCXXRecordDecl(), *tr=to->getAsCXXRecordDecl(); if (!fr||!tr||isa<ClassTemplateSpecializationDecl>(fr)||!fr->hasDefinition()||!tr->hasDefinition()) continue; R.count("data types compared"); if (fr->getCanonicalDecl()!=tr->getCanonicalDecl() && !fr->isDerivedFrom(tr) && !tr->isDerivedFrom(fr)) R.violation("cast:"+key+":"+ci.name,loc(ce->getExprLoc()),who+"() passes a "+fr->getNameAsString()+" to "+ci.name+"() as a "+tr->getNameAsString()); }
      // R5: the object the method is called on is the object the C function works on
      if (isApi && MD && !MD->isStatic() && !isa<CXXConstructorDecl>(MD) && !ci.params.empty() && ci.params[0]=="self" && ci.name.rfind(pre,0)==0 && !args.empty()) { R.count("self arguments"); if (!isThis(args[0]) && !isa<MemberExpr>(strip(args[0]))) R.violation("self:"+key+":"+ci.name,loc(ce->getExprLoc()),who+"() does not pass the object it is called on to "+ci.name+"()"); }
      if (isApi && ci.name.rfind(pre,0)==0) ops.push_back(ci.name.substr(pre.size())); else if (ci.slot) ops.push_back(ci.name);
      else if (ci.fd && isa<CXXMethodDecl>(ci.fd) && ci.name.size()>1 && ci.name[0]=='_' && ci.name!="_impl" && !ci.ctor && MD && cast<CXXMethodDecl>(ci.fd)->getParent()==MD->getParent()) { ops.push_back(ci.name.substr(1)); }
      // R4b: an enumerator that names a type agrees with the type of the data passed with it; flags agree with the name
      for (size_t i=0;i+1<args.size();i++) if (auto* dr=dyn_cast<DeclRefExpr>(args[i]->IgnoreParenCasts())) if (auto* ec=dyn_cast<EnumConstantDecl>(dr->getDecl())) { auto* q=param(args[i+1]); if (!q) continue; QualType t=q->getType().getNonReferenceType(); if (t->isPointerType()) t=t->getPointeeType(); auto* rd=t->getAsCXXRecordDecl(); if (!rd||isa<ClassTemplateSpecializationDecl>(rd)) continue; std::string tn=rd->getNameAsString(); if (tn.rfind("BL",0)!=0) continue; tn=tn.substr(2); if (tn.size()>4 && tn.substr(tn.size()-4)=="Core") tn=tn.substr(0,tn.size()-4); for (auto& ch : tn) ch=tolower(ch);
        auto* en=cast<EnumDecl>(ec->getDeclContext()); const EnumConstantDecl* want=nullptr; for (auto* e : en->enumerators()) { Toks t=toks(e->getNameAsString()); if (t.empty()) continue; if (t.size()!=toks(ec->getNameAsString()).size()) continue; if (t.back()==tn||(!want&&t.back()==tn+"d")) want=e; }
        if (want) { R.count("typed enumerators compared"); Toks me=toks(ec->getNameAsString()); if (want!=ec && !(me.size() && hasSeq(toks(m),{me.back()}))) R.violation("type:"+key+":"+ec->getNameAsString(),loc(ce->getExprLoc()),who+"() passes "+ec->getNameAsString()+" with data of type "+rd->getNameAsString()); } }
      for (size_t i=0;i<args.size()&&i<ci.params.size();i++) if (auto* bl=dyn_cast<CXXBoolLiteralExpr>(args[i]->IgnoreParenCasts())) { auto nt=toks(ci.params[i]); Toks mt0=toks(m); if (nt.size()!=1) continue; bool inName=std::find(mt0.begin(),mt0.end(),nt[0])!=mt0.end(); if (bl->getValue()) extra0.push_back(nt[0]); R.count("flags compared"); if (inName && !bl->getValue()) R.violation("flag:"+key+":"+ci.params[i],loc(ce->getExprLoc()),who+"() passes false as '"+ci.params[i]+"'"); if (!inName && bl->getValue() && MD) for (auto* o : MD->getParent()->methods()) { Toks ot=toks(o->getNameAsString()); Toks w=mt0; w.push_back(nt[0]); std::sort(ot.begin(),ot.end()); std::sort(w.begin(),w.end()); if (ot==w) { R.violation("flag:"+key+":"+ci.params[i],loc(ce->getExprLoc()),who+"() passes true as '"+ci.params[i]+"', which is what "+o->getNameAsString()+"() does"); break; } } }
      // R6: the result of the operation is what the wrapper returns
      if ((isApi||ci.slot) && !ci.ret.isNull() && ci.ret.getAsString().find("BLResult")!=std::string::npos && FD->getReturnType().getAsString().find("BLResult")!=std::string::npos && W.discarded.count(ce)) R.violation("dropped:"+key+":"+ci.name,loc(ce->getExprLoc()),who+"() drops the result of "+ci.name+"()");
    }
    if (!forwards && ops.empty() && !header) return;
    if (forwards || !ops.empty()) { R.count("wrappers examined"); R.sample("wrapper",who+" -> "+(ops.empty()?std::string("(other)"):ops[0])+" at "+L); }
    // R2: no parameter is ignored
    if (forwards || !ops.empty()) for (auto* p : FD->parameters()) if (!p->getName().empty() && !used.count(p)) R.violation("unused:"+key+":"+p->getNameAsString(),L,who+"() never uses its parameter '"+p->getNameAsString()+"'");
    // R3: a method named like a C function calls that one (or a variant of it)
    Toks mt=toks(cls.empty()?(m.rfind("bl_context_",0)==0?m.substr(11):m):m); Toks extra=extra0; for (auto* r : W.refs) if (auto* ec=dyn_cast<EnumConstantDecl>(r->getDecl())) for (auto& t : toks(ec->getNameAsString())) extra.push_back(t);
    if (ops.size()==1 && !mt.empty() && (header||!cls.empty()||m.rfind("bl_context_",0)==0)) { Toks ot=toks(ops[0]); bool exists=false; std::string cand; auto consider=[&](const std::string& op){ if (startsWith(toks(op),mt)) { exists=true; if (cand.empty()||op.size()<cand.size()) cand=op; } };
      if (cls.empty()) { for (auto& s : slots["BLContextVirt"]) if (toks(s)==mt) { exists=true; cand=s; } } else { for (auto& f : capi) if (f.first.rfind(pre,0)==0) consider(f.first.substr(pre.size())); if (cls=="BLContext") for (auto& s : slots["BLContextVirt"]) consider(s); }
      if (exists) { R.count("operation names compared"); bool ok=joined(ot).rfind(joined(mt),0)==0; if (cls.empty()) ok=ot==mt; if (!ok) { Toks rest=ot; rest.insert(rest.end(),extra.begin(),extra.end()); ok=true; for (auto& t : mt) { bool found=false; for (auto& q : rest) if (q.rfind(t,0)==0) found=true; if (!found) ok=false; } }
        if (!ok) R.violation("operation:"+key+":"+ops[0],L,who+"() performs '"+ops[0]+"' although there is an operation '"+cand+"'"); } }
    // R4: an enumerator passed or indexed with names the same thing as the method
    if (W.stmts<=8) for (auto* r : W.refs) if (auto* ec=dyn_cast<EnumConstantDecl>(r->getDecl())) { auto* en=cast<EnumDecl>(ec->getDeclContext()); if (en->getNameAsString().empty()) continue; Toks common; bool first=true; int cnt=0; for (auto* e : en->enumerators()) { if (e->getName().endswith("_FORCE_UINT")) continue; cnt++; Toks t=toks(e->getNameAsString()); if (first) { common=t; first=false; } else { size_t i=0; while (i<common.size()&&i<t.size()&&common[i]==t[i]) i++; common.resize(i); } }
        if (cnt<2) continue; auto tail=[&](const EnumConstantDecl* e){ Toks t=toks(e->getNameAsString()); return Toks(t.begin()+std::min(common.size(),t.size()),t.end()); };
        Toks at=mt; if (!at.empty() && at[0]=="set") at[0]="assign"; Toks mine=tail(ec); size_t best=0, pos=99; Toks bt; const EnumConstantDecl* bestE=nullptr; for (auto* e : en->enumerators()) { Toks t=tail(e); for (size_t i=0;!t.empty()&&i+t.size()<=at.size();i++) if (std::equal(t.begin(),t.end(),at.begin()+i)) { if (t.size()>best||(t.size()==best&&i<pos)) { best=t.size(); pos=i; bestE=e; bt=t; } break; } }
        if (bestE && FD->getNumParams()>1) { Toks pt=bt; pt.push_back("pt"); for (auto* e : en->enumerators()) if (tail(e)==pt) { bt=pt; bestE=e; break; } }
        R.count("enumerators compared"); if (bestE && (FD->getNumParams()==1 ? mine!=bt && !(startsWith(mine,bt) && mine.back()!="pt") : !startsWith(mine,bt))) R.violation("enumerator:"+key+":"+ec->getNameAsString(),loc(r->getExprLoc()),who+"() uses "+ec->getNameAsString()+" where its name suggests "+bestE->getNameAsString()); }
  }

  struct Collect : RecursiveASTVisitor<Collect> { Wrappers& P; std::vector<const FunctionDecl*> fns; Collect(Wrappers& p) : P(p) {}
    bool VisitFunctionDecl(FunctionDecl* f) { std::string file=P.file(f->getLocation()); if (file.find("/blend2d/")==std::string::npos) return true; if (f->isExternC() && f->getNameAsString().rfind("bl_",0)==0) { auto& e=P.capi[f->getNameAsString()]; if (!e) e=f; } if (f->doesThisDeclarationHaveABody() && !f->isImplicit() && !f->isDefaulted()) fns.push_back(f); return true; }
    bool VisitFieldDecl(FieldDecl* f) { if (f->getType()->isFunctionPointerType()) P.slots[f->getParent()->getNameAsString()].insert(f->getNameAsString()); return true; } };
};

int main(int argc, char** argv) {
  if (argc<4) return 2; std::string cmd=argv[1], file=argv[2]; std::vector<std::string> args; for (int i=4;i<argc;i++) args.push_back(argv[i]);
  std::ifstream in(file); std::stringstream ss; ss<<in.rdbuf();
  auto AST=tooling::buildASTFromCodeWithArgs(ss.str(),args,file,"clang-tool"); if (!AST) { printf("{\"type\":\"broken\",\"text\":\"no syntax tree\"}\n"); return 1; }
  if (AST->getDiagnostics().hasErrorOccurred()) { printf("{\"type\":\"broken\",\"text\":\"the source does not parse\"}\n"); return 1; }
  ASTContext& C=AST->getASTContext();
  if (cmd=="wrappers") { Wrappers P(C); Wrappers::Collect col(P); col.TraverseDecl(C.getTranslationUnitDecl()); for (auto* f : col.fns) { std::string fl=P.file(f->getLocation()); bool hdr=fl.size()>2 && fl.substr(fl.size()-2)==".h" && fl.find("_p.h")==std::string::npos; if (hdr) P.examine(f,true); else if (fl==file && f->isExternC() && f->getNameAsString().rfind("bl_context_",0)==0) P.examine(f,false); }
    for (auto& f : P.capi) printf("{\"type\":\"decl\",\"name\":%s,\"loc\":%s,\"vis\":%d,\"params\":%u}\n",jstr(f.first).c_str(),jstr(P.loc(f.second->getLocation())).c_str(),(int)(f.second->getVisibility()==DefaultVisibility && f.second->hasAttr<VisibilityAttr>()),f.second->getNumParams());
  }
  R.finish(); return 0;
}
