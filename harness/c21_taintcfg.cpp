// Taint configurations: what a JSON file or annotations in the code describe is what is marked, and all queries agree on it.
#include "ir.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/TaintConfig/LLVMTaintConfig.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigData.h"
// with its parser, which needs the JSON schema validator (see nlohmann/json-schema.hpp here)
#include "../lib/PhasarLLVM/TaintConfig/TaintConfigBase.cpp"
#include <fstream>
#include <set>
#include <unistd.h>
using namespace psr;
using V = const llvm::Value *;
using std::to_string;
enum Cat { Source, Sink, Sanitizer };
static const char *CatName[] = {"source", "sink", "sanitizer"};
using Marks = std::array<std::set<std::string>, 3>; // names of values: "f#0" parameter 0 of f, "main:x" instruction x

static std::string nameOf(V X) {
  if (auto *A = llvm::dyn_cast<llvm::Argument>(X))
    return A->getParent()->getName().str() + "#" + to_string(A->getArgNo());
  if (auto *I = llvm::dyn_cast<llvm::Instruction>(X))
    return I->getFunction()->getName().str() + ":" + (I->hasName() ? I->getName().str() : ir::str(I));
  return ir::str(X);
}

/// All queries of the configuration against the expected marks.
static void check(mc::Ctx &C, const LLVMTaintConfig &TC, const llvm::Module &M, const Marks &E, const std::string &Name, bool Callbacks = false) {
  auto At = [&](const std::string &S) { return [&Name, S] { return Name + ": " + S; }; };
  std::vector<V> All;
  for (auto &G : M.globals())
    All.push_back(&G);
  for (auto &F : M) {
    All.push_back(&F);
    for (auto &A : F.args())
      All.push_back(&A);
    for (auto &I : llvm::instructions(F))
      All.push_back(&I);
  }
  auto Has = [&](Cat K, V X) { return E[K].count(nameOf(X)) > 0; };
  for (auto *X : All) {
    C.states(1);
    C.check(TC.isSource(X) == Has(Source, X), Has(Source, X) ? "missing-source" : "wrong-source", At(nameOf(X)));
    C.check(TC.isSink(X) == Has(Sink, X), Has(Sink, X) ? "missing-sink" : "wrong-sink", At(nameOf(X)));
    C.check(TC.isSanitizer(X) == Has(Sanitizer, X), Has(Sanitizer, X) ? "missing-sanitizer" : "wrong-sanitizer", At(nameOf(X)));
    auto Ct = Has(Source, X) ? TaintCategory::Source : Has(Sink, X) ? TaintCategory::Sink : Has(Sanitizer, X) ? TaintCategory::Sanitizer : TaintCategory::None;
    C.check(TC.getCategory(X) == Ct, "category", At(nameOf(X)));
    auto *CB = llvm::dyn_cast<llvm::CallBase>(X);
    auto *I = llvm::dyn_cast<llvm::Instruction>(X);
    if (!I)
      continue;
    std::vector<const llvm::Function *> Callees = {nullptr};
    if (CB)
      if (auto *F = llvm::dyn_cast<llvm::Function>(CB->getCalledOperand()->stripPointerCasts()))
        Callees.push_back(F);
    for (auto *F : Callees) {
      std::set<V> Gen, Leak, San, XGen, XLeak, XSan;
      TC.forAllGeneratedValuesAt(I, F, [&](V Y) { Gen.insert(Y); });
      TC.forAllLeakCandidatesAt(I, F, [&](V Y) { Leak.insert(Y); });
      TC.forAllSanitizedValuesAt(I, F, [&](V Y) { San.insert(Y); });
      if (Has(Source, X))
        XGen.insert(X);
      if (F)
        for (auto &A : F->args()) {
          if (A.getArgNo() >= CB->arg_size())
            continue;
          auto *Y = CB->getArgOperand(A.getArgNo());
          if (Has(Source, &A))
            XGen.insert(Y);
          if (Has(Sink, &A))
            XLeak.insert(Y);
          if (Has(Sanitizer, &A))
            XSan.insert(Y);
        }
      else
        for (auto *Op : I->operand_values())
          if ((llvm::isa<llvm::Instruction>(Op) || llvm::isa<llvm::Argument>(Op)) && Has(Source, Op))
            XGen.insert(Op);
      C.check(Gen == XGen, "generated-at", At("at " + ir::str(I) + (F ? "" : " without callee")));
      C.check(Leak == XLeak, "leaked-at", At("at " + ir::str(I)));
      C.check(San == XSan, "sanitized-at", At("at " + ir::str(I)));
      if (F) // (without callee and for sources in operands, the predicates are only meant for the generated values)
        C.check(!TC.generatesValuesAt(I, F) ? XGen.empty() : true, "generates-at", At("at " + ir::str(I)));
      else
        C.check(TC.generatesValuesAt(I, F) == !XGen.empty(), "generates-at", At("at " + ir::str(I)));
      C.check(TC.mayLeakValuesAt(I, F) == !XLeak.empty(), "leaks-at", At("at " + ir::str(I)));
      C.check(TC.sanitizesValuesAt(I, F) == !XSan.empty(), "sanitizes-at", At("at " + ir::str(I)));
    }
  }
  // seeds: source instructions at themselves, source parameters of defined functions at their start
  std::map<const llvm::Instruction *, std::set<V>> Seeds;
  for (auto *X : All) {
    auto *A = llvm::dyn_cast<llvm::Argument>(X);
    auto *I = llvm::dyn_cast<llvm::Instruction>(X);
    if (Has(Source, X) && I)
      Seeds[I].insert(X);
    else if (Has(Source, X) && A && !A->getParent()->isDeclaration()) {
      auto *St = &A->getParent()->front().front();
      if (llvm::isa<llvm::DbgInfoIntrinsic>(St))
        St = St->getNextNonDebugInstruction();
      Seeds[St].insert(A);
    }
  }
  C.check(TC.makeInitialSeeds() == Seeds, "seeds", At("initial seeds"));
}

//------------------------------------------------ JSON
static const char *Module = R"(
%struct.S = type { i32, i32, i32 }
%struct.T = type { i32, i32 }
%"class.N::U.3" = type { i32 }
@fp = global i32 (i32*, i32*)* null
declare i32 @f(i32*, i32*)
define i32 @d(i32* %p, i32* %q) { ret i32 0 }
declare void @take(i32 (i32*, i32*)*)
declare i32 @other(i32*, i32*)
declare void @llvm.dbg.declare(metadata, metadata, metadata)
define i32 @_Z3cppPi(i32* %p) !dbg !20 { ret i32 0 }
define i32 @main() !dbg !4 {
  %x = alloca i32
  %y = alloca i32
  %z = alloca i32
  %s = alloca %struct.S
  %t = alloca %struct.T
  %u = alloca %"class.N::U.3"
  call void @llvm.dbg.declare(metadata i32* %x, metadata !9, metadata !DIExpression()), !dbg !15
  call void @llvm.dbg.declare(metadata i32* %y, metadata !10, metadata !DIExpression()), !dbg !15
  call void @llvm.dbg.declare(metadata i32* %z, metadata !11, metadata !DIExpression()), !dbg !15
  call void @llvm.dbg.declare(metadata %struct.S* %s, metadata !12, metadata !DIExpression()), !dbg !15
  call void @llvm.dbg.declare(metadata %struct.T* %t, metadata !13, metadata !DIExpression()), !dbg !15
  call void @llvm.dbg.declare(metadata %"class.N::U.3"* %u, metadata !14, metadata !DIExpression()), !dbg !15
  %c1 = call i32 @f(i32* %x, i32* %y)
  %c2 = call i32 @f(i32* %y, i32* %z)
  %k1 = call i32 bitcast (i32 (i32*, i32*)* @f to i32 (i32*, i32*, i32)*)(i32* %x, i32* %y, i32 1)
  %e1 = call i32 @d(i32* %x, i32* %y), !dbg !15
  %e2 = call i32 @_Z3cppPi(i32* %x), !dbg !15
  %o1 = call i32 @other(i32* %x, i32* %y)
  store i32 (i32*, i32*)* @f, i32 (i32*, i32*)** @fp
  call void @take(i32 (i32*, i32*)* @f)
  call void @take(i32 (i32*, i32*)* @d)
  %m = getelementptr %struct.S, %struct.S* %s, i32 0, i32 0
  %mm = getelementptr %struct.S, %struct.S* %s, i32 0, i32 1
  %m5 = getelementptr %struct.S, %struct.S* %s, i32 0, i32 0
  %x6 = getelementptr %struct.S, %struct.S* %s, i32 0, i32 2
  %m7 = getelementptr %struct.T, %struct.T* %t, i32 0, i32 0
  %x8 = getelementptr %struct.T, %struct.T* %t, i32 0, i32 1
  %m9 = getelementptr %"class.N::U.3", %"class.N::U.3"* %u, i32 0, i32 0
  ret i32 0
}
!llvm.dbg.cu = !{!0}
!llvm.module.flags = !{!2, !3}
!0 = distinct !DICompileUnit(language: DW_LANG_C_plus_plus, file: !1, emissionKind: FullDebug)
!1 = !DIFile(filename: "a.cpp", directory: "/")
!2 = !{i32 7, !"Dwarf Version", i32 4}
!3 = !{i32 2, !"Debug Info Version", i32 3}
!4 = distinct !DISubprogram(name: "main", scope: !1, file: !1, line: 3, type: !5, spFlags: DISPFlagDefinition, unit: !0)
!5 = !DISubroutineType(types: !6)
!6 = !{!7}
!7 = !DIBasicType(name: "int", size: 32, encoding: DW_ATE_signed)
!8 = !{}
!9 = !DILocalVariable(name: "x", scope: !4, file: !1, line: 5, type: !7)
!10 = !DILocalVariable(name: "y", scope: !4, file: !1, line: 5, type: !7)
!11 = !DILocalVariable(name: "x", scope: !4, file: !1, line: 7, type: !7)
!12 = !DILocalVariable(name: "s", scope: !4, file: !1, line: 8, type: !16)
!13 = !DILocalVariable(name: "t", scope: !4, file: !1, line: 8, type: !17)
!14 = !DILocalVariable(name: "u", scope: !4, file: !1, line: 8, type: !18)
!15 = !DILocation(line: 5, scope: !4)
!16 = !DICompositeType(tag: DW_TAG_structure_type, name: "S", file: !1, line: 1, size: 96, elements: !8)
!17 = !DICompositeType(tag: DW_TAG_structure_type, name: "T", file: !1, line: 1, size: 64, elements: !8)
!18 = !DICompositeType(tag: DW_TAG_class_type, name: "U", scope: !19, file: !1, line: 1, size: 32, elements: !8)
!19 = !DINamespace(name: "N", scope: null)
!20 = distinct !DISubprogram(name: "cpp", linkageName: "_Z3cppPi", scope: !1, file: !1, line: 2, type: !5, spFlags: DISPFlagDefinition, unit: !0)
)";

struct Item {
  std::string Json;                                  // of one entry
  bool Var;
  std::vector<std::pair<Cat, std::string>> Marks;    // what it marks
};
static std::vector<Item> items() {
  std::vector<Item> R;
  auto Fn = [&](std::string Name, std::string Body, std::vector<std::pair<Cat, std::string>> Mk) { R.push_back({"{\"name\": \"" + Name + "\"" + (Body.empty() ? "" : ", " + Body) + "}", false, Mk}); };
  auto Param = [&](std::string Name, Cat K, std::string Idx, std::vector<std::string> Mk) {
    std::vector<std::pair<Cat, std::string>> P;
    for (auto &X : Mk)
      P.push_back({K, X});
    Fn(Name, std::string("\"params\": {\"") + CatName[K] + "\": [" + Idx + "]}", P);
  };
  for (Cat K : {Source, Sink, Sanitizer}) {
    Fn("f", std::string("\"ret\": \"") + CatName[K] + "\"", {{K, "main:c1"}, {K, "main:c2"}, {K, "main:k1"}});
    Param("f", K, "0", {"f#0"});
    Param("f", K, "1, 0", {"f#0", "f#1"});
    Param("f", K, "1, 5", {"f#1"}); // out of bounds
    Param("f", K, "", {});
    Param("d", K, "1", {"d#1"});
    Param("cpp", K, "0", {"_Z3cppPi#0"});
    Param("_Z3cppPi", K, "0", {"_Z3cppPi#0"});
    Param("missing", K, "0", {});
  }
  Fn("cpp", "\"ret\": \"SOURCE\"", {{Source, "main:e2"}});
  Fn("d", "\"ret\": \"source\", \"params\": {\"sink\": [0], \"sanitizer\": [1], \"source\": [1]}", {{Source, "main:e1"}, {Sink, "d#0"}, {Sanitizer, "d#1"}, {Source, "d#1"}});
  Param("f", Sink, "\"all\"", {"f#0", "f#1"});
  Param("d", Sink, "0, \"all\"", {"d#0", "d#1"});
  Param("main", Sink, "\"all\"", {});
  Fn("f", "", {});
  auto Var = [&](std::string Name, std::string Scope, int Line, Cat K, std::vector<std::string> Mk) {
    std::vector<std::pair<Cat, std::string>> P;
    for (auto &X : Mk)
      P.push_back({K, X});
    R.push_back({"{\"name\": \"" + Name + "\", \"scope\": \"" + Scope + "\", \"line\": " + to_string(Line) + ", \"cat\": \"" + CatName[K] + "\"}", true, P});
  };
  for (Cat K : {Source, Sink, Sanitizer}) {
    Var("x", "main", 5, K, {"main:x"});
    Var("x", "main", 7, K, {"main:z"});
    Var("x", "main", 6, K, {});
    Var("y", "main", 5, K, {"main:y"});
    Var("m", "S", 1, K, {"main:m", "main:m5"});
    Var("mm", "S", 1, K, {"main:mm"});
    Var("x", "S", 1, K, {"main:x6"});
    Var("m", "T", 1, K, {"main:m7"});
    Var("m", "U", 1, K, {"main:m9"});
    Var("q", "S", 1, K, {});
    Var("m", "Unknown", 1, K, {});
  }
  return R;
}

static std::string file(const std::string &Text) {
  static const std::string Path = std::string(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : ".") + "/taint." + to_string(getpid()) + ".json";
  std::ofstream(Path) << Text;
  return Path;
}

//------------------------------------------------ annotations
struct Annot {
  const char *Name, *Text; // @A: the annotation string
  std::vector<std::string> Mk;
  int Where; // 0 in main's entry, 1 global list
};

int main(int Argc, char **Argv) {
  std::vector<mc::Part> Ps;
  bool T = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  static const auto Items = items();
  static llvm::LLVMContext Ctx;
  static LLVMProjectIRDB *DB = nullptr;
  auto GetDB = [] {
    if (!DB)
      DB = new LLVMProjectIRDB(ir::parse(Module, Ctx));
    return DB;
  };
  for (unsigned K = 0; K <= (T ? 3u : 2u); ++K)
    Ps.push_back({"json_" + to_string(K), [K, GetDB](mc::Ctx &C) {
                    std::vector<unsigned> Sel;
                    for (unsigned I = 0; I < K; ++I)
                      Sel.push_back(C.choose(unsigned(Items.size())));
                    if (!C.mine())
                      return;
                    std::string Fns, Vars;
                    Marks E;
                    for (auto S : Sel) {
                      auto &X = Items[S];
                      auto &To = X.Var ? Vars : Fns;
                      To += (To.empty() ? "" : ", ") + X.Json;
                      for (auto &[Ct, N] : X.Marks)
                        E[Ct].insert(N);
                    }
                    std::string J = "{\"name\": \"n\", \"version\": 1.0";
                    if (!Fns.empty())
                      J += ", \"functions\": [" + Fns + "]";
                    if (!Vars.empty())
                      J += ", \"variables\": [" + Vars + "]";
                    J += "}";
                    auto Path = file(J);
                    auto D = parseTaintConfigOrNull(Path);
                    unlink(Path.c_str());
                    C.trace();
                    C.nontrivial(mc::hashStr(J));
                    C.check(D.has_value(), "rejected", [&] { return J; });
                    if (!D)
                      return;
                    auto *B = GetDB();
                    LLVMTaintConfig TC(*B, *D);
                    check(C, TC, *B->getModule(), E, J);
                  }});
  // every list of parameter indices, also with ones that are out of bounds
  Ps.push_back({"indices", [GetDB](mc::Ctx &C) {
                  static const char *const Fns[] = {"f", "d", "cpp", "missing"}, *const IR[] = {"f", "d", "_Z3cppPi", ""};
                  static const unsigned NParams[] = {2, 2, 1, 0};
                  Cat K = Cat(C.choose(3));
                  unsigned Fn = C.choose(4), Len = C.choose(4);
                  std::string Idx;
                  Marks E;
                  for (unsigned I = 0; I < Len; ++I) {
                    unsigned X = C.choose(K == Sink ? 5 : 4); // 0, 1, 2, 9, "all"
                    for (unsigned A = 0; A < NParams[Fn]; ++A)
                      if (X == A || X == 4)
                        E[K].insert(std::string(IR[Fn]) + "#" + to_string(A));
                    Idx += (I ? ", " : "") + (X == 4 ? std::string("\"all\"") : to_string(X == 3 ? 9 : X));
                  }
                  if (!C.mine())
                    return;
                  std::string J = std::string("{\"functions\": [{\"name\": \"") + Fns[Fn] + "\", \"params\": {\"" + CatName[K] + "\": [" + Idx + "]}}]}";
                  auto Path = file(J);
                  auto D = parseTaintConfigOrNull(Path);
                  unlink(Path.c_str());
                  C.trace();
                  C.nontrivial(mc::hashStr(J));
                  C.check(D.has_value(), "rejected", [&] { return J; });
                  if (!D)
                    return;
                  auto *B = GetDB();
                  LLVMTaintConfig TC(*B, *D);
                  check(C, TC, *B->getModule(), E, J);
                }});
  // malformed files are rejected
  Ps.push_back({"malformed", [](mc::Ctx &C) {
                  static const std::vector<std::string> Bad = {"", "{", "[]", "3", "\"x\"", "{\"functions\": 3}", "{\"functions\": {\"name\": \"f\"}}", "{\"functions\": [{\"name\": 3}]}", "{\"functions\": [{\"name\": \"f\", \"ret\": \"nothing\"}]}",
                                                               "{\"functions\": [{\"name\": \"f\", \"ret\": 3}]}", "{\"functions\": [{\"name\": \"f\", \"params\": {\"source\": [\"x\"]}}]}", "{\"functions\": [{\"name\": \"f\", \"params\": {\"sink\": [\"none\"]}}]}",
                                                               "{\"variables\": [{\"name\": \"x\", \"scope\": \"main\", \"cat\": \"bad\"}]}", "{\"variables\": 3}", "{\"variables\": [{\"name\": [], \"scope\": \"main\", \"cat\": \"source\"}]}", "{\"name\": 3}", "{\"version\": \"x\"}"};
                  unsigned I = C.choose(unsigned(Bad.size()) + 1);
                  if (!C.mine())
                    return;
                  std::string Path = I < Bad.size() ? file(Bad[I]) : "does/not/exist.json";
                  C.trace();
                  C.nontrivial(I);
                  auto D = parseTaintConfigOrNull(Path);
                  bool Thrown = false;
                  try {
                    (void)parseTaintConfig(Path);
                  } catch (std::exception &) {
                    Thrown = true;
                  }
                  if (I < Bad.size())
                    unlink(Path.c_str());
                  C.check(!D && Thrown, "accepted", [&] { return I < Bad.size() ? Bad[I] : Path; });
                }});
  static const std::vector<Annot> Annots = {
      {"int", "%i = alloca i32\n%ic = bitcast i32* %i to i8*\ncall void @llvm.var.annotation(i8* %ic, @A)\nstore i32 1, i32* %i", {"main:i"}, 0},
      {"char", "%h = alloca i8\ncall void @llvm.var.annotation(i8* %h, @A)\nstore i8 1, i8* %h", {"main:h"}, 0},
      {"param", "store i32 %p, i32* %pa\n%pc = bitcast i32* %pa to i8*\ncall void @llvm.var.annotation(i8* %pc, @A)", {"main#0"}, 0},
      {"charparam", "store i8 %q, i8* %qa\ncall void @llvm.var.annotation(i8* %qa, @A)", {"main#1"}, 0},
      {"initialised with param", "%l = alloca i32\n%lc = bitcast i32* %l to i8*\ncall void @llvm.var.annotation(i8* %lc, @A)\nstore i32 %p, i32* %l", {"main:l"}, 0},
      {"char initialised with param", "%l8 = alloca i8\ncall void @llvm.var.annotation(i8* %l8, @A)\nstore i8 %q, i8* %l8", {"main:l8"}, 0},
      {"member", "%g = getelementptr %S, %S* %s, i32 0, i32 0\n%gc = bitcast i32* %g to i8*\n%gx = call i8* @llvm.ptr.annotation.p0i8(i8* %gc, @A)", {"main:g"}, 0},
      {"charmember", "%g8 = getelementptr %S, %S* %s, i32 0, i32 1\n%gy = call i8* @llvm.ptr.annotation.p0i8(i8* %g8, @A)", {"main:g8"}, 0},
      {"function", "i8* bitcast (i32 (i32)* @f to i8*)", {"main:c1", "main:c2"}, 1},
      {"defined", "i8* bitcast (i32 (i32)* @d to i8*)", {"main:c3"}, 1},
      {"global", "i8* bitcast (i32* @gv to i8*)", {}, 1},
  };
  static const std::vector<std::pair<const char *, int>> Strs = {{"psr.source", 0}, {"psr.sink", 1}, {"psr.sanitizer", 2}, {"other.source", -1}, {"psr.unknown", -1}, {"source", -1}, {"x", -1}, {"", -1}};
  for (unsigned K = 0; K <= (T ? 3u : 2u); ++K)
    Ps.push_back({"annotations_" + to_string(K), [K](mc::Ctx &C) {
                    std::vector<std::pair<unsigned, unsigned>> Sel;
                    for (unsigned I = 0, Lo = 0; I < K; ++I) {
                      if (Lo >= Annots.size())
                        return;
                      unsigned A = Lo + C.choose(unsigned(Annots.size()) - Lo);
                      Lo = A + 1;
                      Sel.push_back({A, C.choose(unsigned(Strs.size()))});
                    }
                    if (!C.mine())
                      return;
                    std::string Body, Glob, Name, Defs;
                    unsigned NG = 0;
                    Marks E;
                    for (unsigned I = 0; I < Sel.size(); ++I) {
                      auto &A = Annots[Sel[I].first];
                      auto &S = Strs[Sel[I].second];
                      std::string N = "@str" + to_string(I), Len = to_string(strlen(S.first) + 1), Ty = "[" + Len + " x i8]";
                      Defs += N + " = private constant " + Ty + (*S.first ? " c\"" + std::string(S.first) + "\\00\"\n" : " zeroinitializer\n");
                      std::string Args = "i8* getelementptr inbounds (" + Ty + ", " + Ty + "* " + N + ", i32 0, i32 0), i8* getelementptr inbounds ([2 x i8], [2 x i8]* @file, i32 0, i32 0), i32 3, i8* null";
                      std::string Tx = A.Text;
                      if (A.Where == 0) {
                        auto P = Tx.find("@A");
                        Tx.replace(P, 2, Args);
                        Body += Tx + "\n";
                      } else {
                        Glob += std::string(NG++ ? ", " : "") + "{ i8*, i8*, i8*, i32, i8* } { " + Tx + ", " + Args + " }";
                      }
                      if (S.second >= 0)
                        for (auto &M : A.Mk)
                          E[S.second].insert(M);
                      Name += std::string(I ? ", " : "") + A.Name + " " + S.first;
                    }
                    std::string Tx = "%S = type { i32, i8 }\n@gv = global i32 0\n@fp = global i32 (i32)* null\n@file = private constant [2 x i8] c\"a\\00\"\n" + Defs +
                                     "declare void @llvm.var.annotation(i8*, i8*, i8*, i32, i8*)\ndeclare i8* @llvm.ptr.annotation.p0i8(i8*, i8*, i8*, i32, i8*)\ndeclare i32 @f(i32)\n"
                                     "define i32 @d(i32 %x) {\nret i32 %x\n}\ndeclare void @take(i32 (i32)*)\n";
                    if (NG)
                      Tx += "@llvm.global.annotations = appending global [" + to_string(NG) + " x { i8*, i8*, i8*, i32, i8* }] [" + Glob + "], section \"llvm.metadata\"\n";
                    Tx += "define i32 @main(i32 %p, i8 %q) {\n%pa = alloca i32\n%qa = alloca i8\n%s = alloca %S\n" + Body +
                          "%c1 = call i32 @f(i32 1)\n%c2 = call i32 @f(i32 2)\n%c3 = call i32 @d(i32 3)\nstore i32 (i32)* @f, i32 (i32)** @fp\ncall void @take(i32 (i32)* @f)\nret i32 0\n}\n";
                    C.trace();
                    C.nontrivial(mc::hashStr(Name));
                    LLVMProjectIRDB IRDB(ir::parse(Tx, ir::context()));
                    LLVMTaintConfig TC(IRDB);
                    check(C, TC, *IRDB.getModule(), E, Name);
                  }});
  return mc::run(Argc, Argv, Ps);
}
