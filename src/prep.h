// Inlines lambda bodies into the function that creates them, so that captured variables become ordinary values.
#pragma once
#include "common.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/FileSystem.h"
namespace sa {
inline int prepare(Module& M, const char* out) {
  auto lambda=[](const Function* F){ if (F->isDeclaration()) return false; StringRef n=F->getName(); return n.contains("ENK3$_") || n.contains("EN3$_") || (n.contains("$_")&&n.contains("cl")) || (n.contains("UlvE")||n.contains("Ul")&&n.contains("E_cl")); };
  long n=0; for (int round=0; round<6; round++) { std::vector<CallBase*> sites; for (auto& F : M) for (auto& I : instructions(F)) if (auto* cb=dyn_cast<CallBase>(&I)) if (auto* f=cb->getCalledFunction()) if (f!=&F && lambda(f)) sites.push_back(cb);
    if (sites.empty()) break; for (auto* cb : sites) { InlineFunctionInfo ifi; if (InlineFunction(*cb,ifi).isSuccess()) n++; } }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
  ModulePassManager MPM; if (auto e=PB.parsePassPipeline(MPM,"function(sroa,early-cse,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup>),globaldce")) { errs()<<"pipeline\n"; return 2; }
  MPM.run(M,MAM); std::error_code ec; raw_fd_ostream os(out,ec); if (ec) return 2; WriteBitcodeToFile(M,os); fprintf(stderr,"prep: %ld lambda calls inlined\n",n); return 0;
}
}
