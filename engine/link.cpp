// Link bitcode files, keep the entry point, and run a scalar -O1 pipeline.
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/BasicBlock.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Support/FileSystem.h>
#include <cstdio>
#include <string>
#include <set>
using namespace llvm;
namespace sx {
int linkMain(int argc, char** argv) {
  LLVMContext C; SMDiagnostic err;
  std::string out = argv[1];
  std::unique_ptr<Module> M;
  int opt = 1;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-O0") { opt = 0; continue; }
    auto m = parseIRFile(a, err, C);
    if (!m) { err.print("sx link", errs()); return 3; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link failed: %s\n", a.c_str()); return 3; }
  }
  std::set<std::string> keep{"sx_main"};
  { // a harness that defines sx_json_parse / sx_json_dump stands in for the text level of the JSON library
    auto redirect = [&](const char* stub, const char* tag, unsigned args) {
      Function* to = M->getFunction(stub); if (!to || to->isDeclaration()) return;
      for (Function& F : *M) { StringRef n = F.getName();
        if (F.isDeclaration() || !n.contains("10basic_json") || n.contains("10serializer") || !n.contains(tag) || F.arg_size() != args || !F.hasStructRetAttr()) continue;
        if (args == 5 && (!n.contains("5parseIRK") || F.getParamDereferenceableBytes(1) != 32)) continue; // from a std::string
        F.deleteBody(); F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr);
        BasicBlock* bb = BasicBlock::Create(C, "", &F); CallInst* ci = CallInst::Create(to->getFunctionType(), to, {F.getArg(0), F.getArg(1)}, "", bb); ci->setAttributes(to->getAttributes()); ReturnInst::Create(C, bb); } };
    redirect("sx_json_parse", "5parseI", 5); redirect("sx_json_dump", "4dumpE", 6);
    if (Function* to = M->getFunction("sx_number_text")) for (Function& F : *M) { StringRef n = F.getName(); // std::to_string, used in messages only
      if (F.isDeclaration() || !(n.contains("12__to_xstring") || n.starts_with("_ZNSt7__cxx119to_stringE")) || !F.hasStructRetAttr()) continue;
      F.deleteBody(); F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr);
      BasicBlock* bb = BasicBlock::Create(C, "", &F); CallInst* ci = CallInst::Create(to->getFunctionType(), to, {F.getArg(0)}, "", bb); ci->setAttributes(to->getAttributes()); ReturnInst::Create(C, bb); }
  }
  for (Function& F : *M) {
    StringRef n = F.getName();
    if (n.contains("8BasePRNGI") && n.ends_with("4randEv")) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
    F.removeFnAttr(Attribute::OptimizeNone);
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PipelineTuningOptions PTO; PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopUnrolling = false; PTO.LoopInterleaving = false; PTO.MergeFunctions = false;
  PassBuilder PB(nullptr, PTO);
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  MPM.addPass(InternalizePass([&](const GlobalValue& g) { return keep.count(g.getName().str()) > 0; }));
  MPM.addPass(GlobalDCEPass());
  if (opt) MPM.addPass(PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1));
  MPM.addPass(GlobalDCEPass());
  MPM.run(*M, MAM);
  std::error_code ec; raw_fd_ostream os(out, ec, sys::fs::OF_None);
  if (ec) return 3;
  WriteBitcodeToFile(*M, os);
  return 0;
}
}
