// LLVM IR helpers shared by the harnesses that run on generated modules.
#pragma once
#include "mc.h"
#include "llvm/AsmParser/Parser.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/ValueSymbolTable.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <memory>
#include <string>

namespace ir {
/// Parses and verifies; a module that is not well-formed is a harness error.
inline std::unique_ptr<llvm::Module> parse(const std::string &Text, llvm::LLVMContext &Ctx) {
  llvm::SMDiagnostic Err;
  auto M = llvm::parseAssemblyString(Text, Err, Ctx);
  if (!M) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    Err.print("ir", OS);
    fprintf(stderr, "harness error: %s\n%s\n", OS.str().c_str(), Text.c_str());
    fflush(stderr);
    _exit(3);
  }
  std::string S;
  llvm::raw_string_ostream OS(S);
  if (llvm::verifyModule(*M, &OS)) {
    fprintf(stderr, "harness error: %s\n%s\n", OS.str().c_str(), Text.c_str());
    fflush(stderr);
    _exit(3);
  }
  return M;
}
/// A context per process, replaced from time to time so that constants and types do not pile up.
inline llvm::LLVMContext &context(bool Fresh = false) {
  static std::unique_ptr<llvm::LLVMContext> C;
  static unsigned Uses;
  if (!C || Fresh || ++Uses > 5000) {
    C = std::make_unique<llvm::LLVMContext>();
    Uses = 0;
  }
  return *C;
}
/// The named instruction/argument of a function.
inline llvm::Value *val(llvm::Function *F, llvm::StringRef Name) {
  return F->getValueSymbolTable()->lookup(Name);
}
inline std::string str(const llvm::Value *V) {
  if (!V)
    return "<null>";
  std::string S;
  llvm::raw_string_ostream OS(S);
  if (auto *F = llvm::dyn_cast<llvm::Function>(V))
    OS << "@" << F->getName();
  else if (llvm::isa<llvm::Instruction>(V))
    V->print(OS);
  else
    V->printAsOperand(OS, true);
  return llvm::StringRef(OS.str()).trim().str();
}
} // namespace ir
