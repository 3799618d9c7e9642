#include "graph.h"
#include "prep.h"
#include "ctx.h"
#include "obj.h"
#include "locks.h"
#include "refs.h"
#include "virts.h"
#include "init.h"
#include "errs.h"
#include "recur.h"
#include "uninit.h"
#include "isa.h"
using namespace sa;
int main(int argc, char** argv) {
  if (argc<3) { fprintf(stderr,"usage: blsa CMD all.bc [args]\n"); return 2; }
  std::string cmd=argv[1]; LLVMContext C; SMDiagnostic err; auto M=parseIRFile(argv[2],err,C); if (!M) { err.print("blsa",errs()); return 2; }
  if (cmd=="prep") return prepare(*M,argv[3]);
  Reporter R;
  if (cmd=="sinks-term") effectSinks(*M,R,true);
  else if (cmd=="sinks-input") effectSinks(*M,R,false);
  else if (cmd=="uninit") UninitRules(*M,R).run();
  else if (cmd=="locks") LockRules(*M,R).run();
  else if (cmd=="virts") VirtRules(*M,R).run();
  else if (cmd=="init") InitRules(*M,R).run();
  else if (cmd=="errs") ErrRules(*M,R).run(argc>3?argv[3]:"C22");
  else if (cmd=="exports") { for (auto& F : *M) if (isApi(&F)) printf("{\"type\":\"export\",\"name\":%s,\"params\":%zu}\n",jstr(F.getName().str()).c_str(),F.arg_size()); }
  else if (cmd=="recur") RecurRules(*M,R).run();
  else if (cmd=="isa") IsaRules(*M,R).run();
  else if (cmd=="refs") RefRules(*M,R).run();
  else if (cmd=="globals") GlobalState(*M,R).run();
  else if (cmd=="obj") ObjCheck(*M,R,argc>3?argv[3]:"C01").run();
  else if (cmd=="ctx-set") { std::string pr=argc>3?argv[3]:"C21"; if (pr!="C19") SetGet(*M,R).run(false,pr); SetGet(*M,R).run(true,pr); }
  else if (cmd=="ctx-save") { int mode=argc>3?atoi(argv[3]):0, part=argc>4?atoi(argv[4]):-1; int am=argc>5?atoi(argv[5]):2; if (am!=1) SaveRestore(*M,R).run(false,mode,part); if (am!=0) SaveRestore(*M,R).run(true,mode,part); }
  else { fprintf(stderr,"unknown command %s\n",cmd.c_str()); return 2; }
  R.finish(); return 0;
}
