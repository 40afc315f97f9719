// Source positions of IR values: every kind of value with every combination of debug information, file names and file contents.
#include "ir.h"
#include "mc.h"
#include "phasar/PhasarLLVM/Utils/LLVMIRToSrc.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "nlohmann/json.hpp"
#include <filesystem>
#include <fstream>
using namespace psr;
namespace fs = std::filesystem;

// What the debug information says about a value
struct Exp {
  std::string Var, Fun, File, Dir, Line; // Line: the text of the line
  unsigned L = 0, Col = 0;
  bool HasFile = false, Loc = false;
};

static const std::string Contents[] = {"one\n  two \n\tthree\n", "one\r\n two\r\nthree", "\n\nthree\n\n", "only", "", std::string(5000, 'x') + "\n \n" + std::string(70000, 'y') + std::string("\0z\n", 3) + "last"};
static constexpr unsigned NContents = sizeof(Contents) / sizeof(*Contents);
static std::vector<std::string> linesOf(const std::string &S) {
  std::vector<std::string> R;
  size_t P = 0;
  while (P < S.size()) {
    auto E = S.find('\n', P);
    R.push_back(S.substr(P, E == std::string::npos ? E : E - P));
    if (E == std::string::npos)
      break;
    P = E + 1;
  }
  return R;
}
static std::string trim(std::string S) {
  auto A = S.find_first_not_of(" \t\n\v\f\r"), B = S.find_last_not_of(" \t\n\v\f\r");
  return A == std::string::npos ? "" : S.substr(A, B - A + 1);
}

enum Kind { AllocaDeclared, Alloca, AllocaNoLoc, LoadLoc, LoadNoLoc, LoadUsedByMetadata, LoadDescribed, ArgSpilled, ArgDescribed, ArgPlain, ArgStoredElsewhere, ArgSpilledSecond, GlobalDI, GlobalNone, FunDI, FunNone, FunDecl, Call, Kinds };
static const char *const KindName[] = {"alloca with dbg.declare", "alloca with position", "alloca without position", "load with position", "load without position", "load with position that is part of the value of a variable", "load with dbg.value",
                                       "argument stored to a declared variable", "argument with dbg.value", "argument", "argument stored to a global", "argument stored to a global and to a declared variable", "global with debug info", "global without",
                                       "function with debug info", "function without", "declaration", "call"};

static void one(mc::Ctx &C, Kind K) {
  // A: file of the function and of the global; B: file of the lexical block of the instruction or variable
  unsigned NameKind = C.choose(5), Same = C.flip(), Content = C.choose(NContents + 2), Line = C.choose(5), Col = C.choose(2) * 7;
  bool Linked = C.flip(), Member = C.flip();
  if (!C.mine())
    return;
  C.nontrivial(mc::hashStr(std::to_string(K) + "," + std::to_string(NameKind) + "," + std::to_string(Same) + "," + std::to_string(Content) + "," + std::to_string(Line) + "," + std::to_string(Col) + std::to_string(Linked) + std::to_string(Member)));
  std::string Base = getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp";
  Base += "/src." + std::to_string(getpid());
  fs::create_directories(Base + "/sub");
  std::string File, Dir, Path;
  switch (NameKind) {
  case 0: File = "f.c", Dir = Base, Path = Base + "/f.c"; break;
  case 1: File = Base + "/f.c", Dir = "/somewhere/else", Path = File; break; // absolute names stand for themselves
  case 2: File = "sub/f.c", Dir = Base, Path = Base + "/sub/f.c"; break;
  case 3: File = Base + "/sub/f.c", Dir = "", Path = File; break;
  default: File = "../" + Base.substr(Base.rfind('/') + 1) + "/f.c", Dir = Base + "/sub/..", Path = Dir + "/" + File; break;
  }
  std::error_code EC;
  for (auto P : {"/f.c", "/sub/f.c"})
    fs::remove_all(Base + P, EC);
  bool Exists = Content < NContents;
  if (Exists)
    std::ofstream(fs::path(Path).lexically_normal(), std::ios::binary) << Contents[Content];
  else if (Content == NContents)
    fs::create_directories(fs::path(Path).lexically_normal()); // a directory, not a file
  std::string OF = "other.h", OD = "/other", SrcName = Linked ? "llvm-link" : "f.c";
  std::string FA = Same ? File : OF, DA = Same ? Dir : OD;
  auto Loc = [&](bool On) { return On ? ", !dbg !8" : ""; };
  std::string T = "source_filename = \"" + SrcName + "\"\n";
  T += "@g = global i32 0" + std::string(K == GlobalDI ? ", !dbg !12" : "") + "\n@h = global i32 0\ndeclare void @llvm.dbg.declare(metadata, metadata, metadata)\ndeclare void @llvm.dbg.value(metadata, metadata, metadata)\ndeclare i32 @ext()\n";
  T += "define i32 @_Z3fooi(i32 %a)" + std::string(K != FunNone ? " !dbg !5" : "") + " {\nentry:\n";
  bool Decl = K == AllocaDeclared || K == ArgSpilled || K == ArgSpilledSecond;
  T += std::string("%v = alloca i32") + Loc(K == Alloca) + "\n";
  auto Var = [](const char *What, bool D) { return std::string("call void @llvm.dbg.") + (D ? "declare" : "value") + "(metadata i32" + (D ? "* " : " ") + What + ", metadata !9, metadata !DIExpression()), !dbg !8\n"; };
  if (Decl)
    T += Var("%v", true);
  if (K == ArgDescribed)
    T += Var("%a", false);
  if (K == ArgStoredElsewhere || K == ArgSpilledSecond)
    T += "store i32 %a, i32* @h\n";
  if (K == ArgSpilled || K == ArgSpilledSecond)
    T += "store i32 %a, i32* %v\n";
  T += std::string("%l = load i32, i32* %v") + Loc(K == LoadLoc || K == LoadUsedByMetadata) + "\n";
  if (K == LoadUsedByMetadata)
    T += "call void @llvm.dbg.value(metadata !DIArgList(i32 %l, i32 %l), metadata !9, metadata !DIExpression(DW_OP_LLVM_arg, 0, DW_OP_LLVM_arg, 1, DW_OP_plus, DW_OP_stack_value)), !dbg !8\n";
  if (K == LoadDescribed)
    T += Var("%l", false);
  if (K == Call)
    T += "%c = call i32 @ext(), !dbg !8\n";
  T += "ret i32 0\n}\n";
  unsigned N = Line;
  T += "!llvm.module.flags = !{!0}\n!llvm.dbg.cu = !{!1}\n!0 = !{i32 2, !\"Debug Info Version\", i32 3}\n"
       "!1 = distinct !DICompileUnit(language: DW_LANG_C99, file: !2, isOptimized: false, runtimeVersion: 0, emissionKind: FullDebug)\n"
       "!2 = !DIFile(filename: \"" + FA + "\", directory: \"" + DA + "\")\n!3 = !DIFile(filename: \"" + File + "\", directory: \"" + Dir + "\")\n!4 = !DISubroutineType(types: !{})\n"
       "!5 = distinct !DISubprogram(name: \"foo\", linkageName: \"_Z3fooi\", scope: !2, file: !3, line: " + std::to_string(N) + ", type: !4, scopeLine: 99, spFlags: DISPFlagDefinition, unit: !1, retainedNodes: !{})\n"
       "!7 = !DILexicalBlockFile(scope: !5, file: !3, discriminator: 0)\n!8 = !DILocation(line: " + std::to_string(N) + ", column: " + std::to_string(Col) + ", scope: " + (Member ? "!7" : "!5") + ")\n"
       "!9 = !DILocalVariable(name: \"var\", scope: " + (Member ? "!7" : "!5") + ", file: !3, line: 77, type: !10)\n!10 = !DIBasicType(name: \"int\", size: 32, encoding: DW_ATE_signed)\n"
       "!12 = !DIGlobalVariableExpression(var: !13, expr: !DIExpression())\n!13 = distinct !DIGlobalVariable(name: \"glob\", linkageName: \"g\", scope: !1, file: !3, line: " + std::to_string(N) + ", type: !10, isLocal: false, isDefinition: true)\n";
  auto M = ir::parse(T, ir::context());
  M->setModuleIdentifier("the module");
  auto *F = M->getFunction("_Z3fooi");
  auto Named = [&](llvm::StringRef X) -> llvm::Value * {
    for (auto &I : llvm::instructions(F))
      if (I.getName() == X)
        return &I;
    return nullptr;
  };
  const llvm::Value *V = nullptr;
  Exp E;
  E.Fun = "_Z3fooi";
  auto Pos = [&](bool WithCol) {
    E.File = Path, E.Dir = Dir, E.L = N, E.Col = WithCol ? Col : 0, E.HasFile = true, E.Loc = true;
    if (Exists && N) {
      auto Ls = linesOf(Contents[Content]);
      E.Line = N <= Ls.size() ? Ls[N - 1] : "";
    }
  };
  auto None = [&] { E.File = SrcName; };
  switch (K) {
  case AllocaDeclared: V = Named("v"), Pos(true), E.Var = "var"; break;
  case Alloca: V = Named("v"), Pos(true); break;
  case AllocaNoLoc: V = Named("v"), None(); break;
  case LoadLoc:
  case LoadUsedByMetadata: V = Named("l"), Pos(true); break;
  case LoadNoLoc: V = Named("l"), None(); break;
  case LoadDescribed: V = Named("l"), Pos(true), E.Var = "var"; break;
  case ArgSpilled:
  case ArgSpilledSecond:
  case ArgDescribed: V = F->getArg(0), Pos(true), E.Var = "var"; break;
  case ArgPlain:
  case ArgStoredElsewhere: V = F->getArg(0), None(); break;
  case GlobalDI: V = M->getNamedGlobal("g"), Pos(false), E.Var = "glob", E.Fun = ""; break;
  case GlobalNone: V = M->getNamedGlobal("h"), E.Fun = ""; break;
  case FunDI: V = F, Pos(false); break;
  case FunNone: V = F, None(); break;
  case FunDecl: V = M->getFunction("ext"), None(), E.Fun = "ext"; break;
  case Call: V = Named("c"), Pos(true); break;
  default: break;
  }
  auto At = [&](const char *What, const std::string &Got, const std::string &Want) { return std::string(KindName[K]) + ", file '" + File + "' in '" + Dir + "', content " + std::to_string(Content) + ", line " + std::to_string(N) + ": " + What + " is '" + Got.substr(0, 300) + "' instead of '" + Want.substr(0, 300) + "'"; };
  auto Eq = [&](const char *What, const std::string &Got, const std::string &Want) {
    C.transition(1);
    C.check(Got == Want, What, [&] { return At(What, Got, Want); });
  };
  auto Num = [&](const char *What, unsigned Got, unsigned Want) { Eq(What, std::to_string(Got), std::to_string(Want)); };
  C.state(mc::hashStr(std::to_string(K) + "," + std::to_string(NameKind) + "," + std::to_string(Same) + "," + std::to_string(Content) + "," + std::to_string(Line) + "," + std::to_string(Col) + std::to_string(Linked) + std::to_string(Member)));
  C.trace();
  Eq("variable name", getVarNameFromIR(V), E.Var);
  Eq("function name", getFunctionNameFromIR(V), E.Fun);
  Eq("file path", getFilePathFromIR(V), E.File);
  Eq("directory", getDirectoryFromIR(V), E.Dir);
  Num("line", getLineFromIR(V), E.L);
  Num("column", getColumnFromIR(V), E.Col);
  Num("line of the pair", getLineAndColFromIR(V).first, E.L);
  Num("column of the pair", getLineAndColFromIR(V).second, E.Col);
  Eq("module", getModuleIDFromIR(V), "the module");
  auto *DF = getDIFileFromIR(V);
  Eq("file", DF ? getFilePathFromIR(DF) : "none", E.HasFile ? E.File : "none");
  Eq("line of code", getSrcCodeFromIR(V, false), E.Line);
  Eq("trimmed line of code", getSrcCodeFromIR(V), trim(E.Line));
  auto DL = getDebugLocation(V);
  Eq("existence of a debug location", DL ? "yes" : "no", E.Loc ? "yes" : "no");
  if (DL) {
    Num("line of the debug location", DL->Line, E.L);
    Num("column of the debug location", DL->Column, E.Col);
    Eq("file of the debug location", DL->File ? getFilePathFromIR(DL->File) : "none", E.File);
  }
  auto Info = getSrcCodeInfoFromIR(V);
  Eq("line of code of the info", Info.SourceCodeLine, trim(E.Line));
  Eq("file of the info", Info.SourceCodeFilename, E.File);
  Eq("function of the info", Info.SourceCodeFunctionName, E.Fun == "_Z3fooi" ? "foo(int)" : E.Fun);
  Num("line of the info", Info.Line, E.L);
  Num("column of the info", Info.Column, E.Col);
  Eq("emptiness of the info", Info.empty() ? "yes" : "no", trim(E.Line).empty() ? "yes" : "no");
  nlohmann::json J = Info;
  auto Back = nlohmann::json::parse(J.dump()).get<SourceCodeInfo>();
  C.check(Back == Info && Back.equivalentWith(Info) && Info.equivalentWith(Back) && Back.SourceCodeFunctionName == Info.SourceCodeFunctionName, "JSON", [&] { return At("the info read back from JSON", nlohmann::json(Back).dump(), J.dump()); });
  // the same source in another directory is equivalent; any other difference is not
  auto Alt = Info;
  auto Sl = Alt.SourceCodeFilename.rfind('/');
  Alt.SourceCodeFilename = "/a/b/" + (Sl == std::string::npos ? Alt.SourceCodeFilename : Alt.SourceCodeFilename.substr(Sl + 1));
  C.check(Info.equivalentWith(Alt), "equivalence", [&] { return At("equivalence with another directory", "no", "yes"); });
  for (unsigned D = 0; D < 5; ++D) {
    auto Df = Alt;
    switch (D) {
    case 0: ++Df.Line; break;
    case 1: ++Df.Column; break;
    case 2: Df.SourceCodeLine += "x"; break;
    case 3: Df.SourceCodeFunctionName += "x"; break;
    default: Df.SourceCodeFilename = "/a/b/zz.c"; break;
    }
    C.check(Info.SourceCodeFilename.empty() ? true : !Info.equivalentWith(Df), "equivalence", [&] { return At("equivalence with a difference in part", std::to_string(D), "none"); });
    C.check(D == 3 || D == 4 || Info != Df, "equality", [&] { return At("equality with a difference in part", std::to_string(D), "none"); });
  }
  if (C.wantSample())
    C.sample(std::string(KindName[K]) + ": line " + std::to_string(E.L) + " of " + E.File + ": " + E.Line);
  fs::remove_all(Base, EC);
}

int main(int Argc, char **Argv) {
  std::vector<mc::Part> Ps;
  for (unsigned K = 0; K < Kinds; ++K)
    Ps.push_back({std::string("kind_") + std::to_string(K), [K](mc::Ctx &C) { one(C, Kind(K)); }});
  return mc::run(Argc, Argv, Ps);
}
