// C12: call graphs of the shipped resolvers against every execution of generated programs.
// C13 (MC_TYPES=1): type hierarchies and vtables of generated class hierarchies.
#include "classes.h"
#include "interp.h"
#include "phasar/ControlFlow/CallGraphData.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCallGraph.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.h"
#include "phasar/PhasarLLVM/ControlFlow/Resolver/Resolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMVFTableProvider.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.h"
#include "phasar/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchyData.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMVFTable.h"
#include "llvm/IR/DebugInfo.h"
#include "nlohmann/json.hpp"
#include <algorithm>

using namespace psr;
using cls::Hier;
using cls::num;
using I = const llvm::Instruction *;
using F = const llvm::Function *;

//---------------------------------------------------------------- C13
static const llvm::StructType *structTy(const llvm::Module &M, const std::string &Name) { return llvm::StructType::getTypeByName(M.getContext(), Name); }

template <typename TH, typename Ty>
static void checkTypes(mc::Ctx &C, const TH &T, const std::vector<Ty> &Types, const std::vector<std::string> &Names, const std::function<bool(unsigned, unsigned)> &Sub, const std::string &W) {
  C.check(T.size() == Types.size(), "size", [&] { return W + ": size() is " + num(T.size()); });
  C.check(T.empty() == Types.empty(), "empty", W);
  auto All = T.getAllTypes();
  C.check(std::set<Ty>(All.begin(), All.end()) == std::set<Ty>(Types.begin(), Types.end()) && All.size() == Types.size(), "getAllTypes", W);
  for (unsigned X = 0; X < Types.size(); ++X) {
    C.check(T.hasType(Types[X]), "hasType", W);
    C.check(T.getTypeName(Types[X]) == Names[X], "getTypeName", W);
    C.check(static_cast<Ty>(T.getType(Names[X])) == Types[X], "getType", [&] { return W + ": getType(" + Names[X] + ")"; });
    std::set<Ty> Want;
    for (unsigned Y = 0; Y < Types.size(); ++Y) {
      C.check(T.isSubType(Types[X], Types[Y]) == Sub(Y, X), "isSubType", [&] { return W + ": isSubType(" + Names[X] + ", " + Names[Y] + ") is wrong"; });
      if (Sub(Y, X))
        Want.insert(Types[Y]);
    }
    C.check(T.getSubTypes(Types[X]) == Want, "getSubTypes", [&] { return W + ": getSubTypes(" + Names[X] + ")"; });
  }
  C.check(!static_cast<Ty>(T.getType("no such type")), "getType", W);
}

static void checkLLVMTypes(mc::Ctx &C, const Hier &H) {
  auto M = ir::parse(H.ir() + "%struct.Other = type { i32 }\ndefine void @other(%struct.Other* %o) {\n  ret void\n}\n", ir::context(true));
  LLVMProjectIRDB DB(M.get());
  auto W = H.str();
  std::vector<const llvm::StructType *> Ty;
  std::vector<std::string> Nm;
  for (unsigned K = 0; K < H.N; ++K) {
    Nm.push_back(H.tyName(K));
    Ty.push_back(structTy(*M, Nm.back()));
  }
  Nm.push_back("struct.Other");
  Ty.push_back(structTy(*M, Nm.back()));
  auto Sub = [&](unsigned X, unsigned Y) { return X == Y || (X < H.N && Y < H.N && H.tiSubOf(X, Y)); };
  LLVMTypeHierarchy TH(DB);
  checkTypes<LLVMTypeHierarchy, const llvm::StructType *>(C, TH, Ty, Nm, Sub, W);
  std::string Ser, Dot;
  llvm::raw_string_ostream OS(Ser), OD(Dot);
  TH.printAsJson(OS);
  TH.print(OD);
  TH.printAsDot(OD);
  LLVMTypeHierarchy TH2(DB, LLVMTypeHierarchyData::loadJsonString(OS.str()));
  checkTypes<LLVMTypeHierarchy, const llvm::StructType *>(C, TH2, Ty, Nm, Sub, "deserialized " + W);
  LLVMTypeHierarchy TH3(*M);
  checkTypes<LLVMTypeHierarchy, const llvm::StructType *>(C, TH3, Ty, Nm, Sub, "from module " + W);

  // the graph as JSON: the subtypes are what is reachable
  for (auto *T : {&TH, &TH2, &TH3}) {
    auto J = T->getAsJson();
    C.check(J.size() == 1 && J.begin()->size() == Nm.size(), "JSON types", [&] { return W + ": " + J.dump(); });
    auto &G = *J.begin();
    for (unsigned X = 0; X < Nm.size(); ++X) {
      std::set<std::string> Reach{Nm[X]}, WantReach;
      std::vector<std::string> WL{Nm[X]};
      while (!WL.empty()) {
        auto It = G.find(WL.back());
        WL.pop_back();
        if (It != G.end())
          for (auto &Y : *It)
            if (Reach.insert(Y.get<std::string>()).second)
              WL.push_back(Y);
      }
      for (unsigned Y = 0; Y < Nm.size(); ++Y)
        if (Sub(Y, X))
          WantReach.insert(Nm[Y]);
      C.check(G.count(Nm[X]) && Reach == WantReach, "JSON subtypes", [&] { return W + ": subtypes of " + Nm[X] + " in " + J.dump(); });
    }
  }
  LLVMVFTableProvider VTP(DB);
  for (unsigned K = 0; K < H.N; ++K) {
    std::vector<F> Want;
    for (auto &T : H.tables(K))
      for (auto &S : T)
        Want.push_back(M->getFunction(H.fn(S.Impl, S.Method, S.Thunk)));
    auto *VT = VTP.getVFTableOrNull(Ty[K]);
    C.check((VT ? VT->getAllFunctions() : std::vector<F>{}) == Want, "vtable", [&] { return W + ": vtable of C" + num(K) + " is wrong"; });
    if (!VT)
      continue;
    C.check(VT->size() == Want.size() && VT->empty() == Want.empty(), "vtable", W);
    for (unsigned S = 0; S < Want.size() + 2; ++S)
      C.check(VT->getFunction(S) == (S < Want.size() ? Want[S] : nullptr), "vtable entry", [&] { return W + ": entry " + num(S) + " of C" + num(K); });
    for (auto &Fn : *M) {
      auto It = std::find(Want.begin(), Want.end(), &Fn);
      C.check(VT->getIndex(&Fn) == (It == Want.end() ? -1 : int(It - Want.begin())), "vtable index", W);
    }
    if (!Want.empty())
      C.check(VTP.hasVFTable(Ty[K]), "hasVFTable", W);
  }
  C.trace();
  C.states(H.N + 1);
  C.transition(H.N * H.N);
  C.nontrivial(mc::hashStr(W));
  C.outcome(mc::hashStr(Ser) % 1000);
  if (C.wantSample())
    C.sample(W);
}

// debug-info based
static std::string diText(const Hier &H, unsigned Naming, bool Reverse, bool Typedefs, std::vector<std::string> &Ids) {
  // naming: 0 identifiers, 1 no identifiers, 2 the same name in different namespaces
  std::string S = "declare void @__cxa_pure_virtual()\n", R, D;
  unsigned Next = 20;
  std::vector<unsigned> Node(H.N);
  for (unsigned C = 0; C < H.N; ++C)
    Node[C] = Next++;
  Ids.assign(H.N, "");
  std::vector<std::string> Retained;
  for (unsigned C = 0; C < H.N; ++C) {
    auto Name = Naming == 2 ? std::string("A") : "C" + num(C);
    auto Ident = Naming == 1 ? std::string() : "_ZTS" + (Naming == 2 ? "N2n" + num(C) + "1AE" : "2C" + num(C));
    Ids[C] = Ident.empty() ? Name : Ident;
    std::string Els;
    for (auto P : H.Par[C]) {
      auto Base = Node[P];
      if (Typedefs) {
        D += "!" + num(Next) + " = !DIDerivedType(tag: DW_TAG_typedef, name: \"" + (Naming == 2 ? "A" : "C" + num(P)) + "\", file: !1, baseType: !" + num(Base) + ")\n";
        Base = Next++;
      }
      D += "!" + num(Next) + " = !DIDerivedType(tag: DW_TAG_inheritance, scope: !" + num(Node[C]) + ", baseType: !" + num(Base) + ", extraData: i32 0)\n";
      Els += (Els.empty() ? "!" : ", !") + num(Next++);
    }
    for (unsigned M = 0; M < 2; ++M)
      if (H.Decl[C][M]) {
        int Sl = H.slot(C, M);
        D += "!" + num(Next) + " = !DISubprogram(name: \"m" + num(M) + "\", linkageName: \"" + H.fn(int(C), M) + "\", scope: !" + num(Node[C]) + ", file: !1, line: 1, type: !5, scopeLine: 1, containingType: !" +
             num(Node[C]) + ", virtualIndex: " + num(unsigned(Sl)) + ", flags: DIFlagPrototyped, spFlags: " + (H.Decl[C][M] == 2 ? "DISPFlagPureVirtual" : "DISPFlagVirtual") + ")\n";
        if (H.Decl[C][M] == 1) {
          D += "!" + num(Next + 1) + " = distinct !DISubprogram(name: \"m" + num(M) + "\", linkageName: \"" + H.fn(int(C), M) + "\", scope: !" + num(Node[C]) + ", file: !1, line: 1, type: !5, scopeLine: 1, unit: !0, declaration: !" +
               num(Next) + ", retainedNodes: !2)\n";
          S += "define void @" + H.fn(int(C), M) + "(i8* %this) !dbg !" + num(Next + 1) + " {\n  ret void\n}\n";
        }
        Els += (Els.empty() ? "!" : ", !") + num(Next++);
        if (H.Decl[C][M] == 1)
          ++Next;
      }
    D += "!" + num(Next) + " = !{" + Els + "}\n";
    unsigned E = Next++;
    std::string Scope;
    if (Naming == 2) {
      D += "!" + num(Next) + " = !DINamespace(name: \"n" + num(C) + "\", scope: null)\n";
      Scope = ", scope: !" + num(Next++);
    }
    D += "!" + num(Node[C]) + " = distinct !DICompositeType(tag: DW_TAG_" + (H.Kw ? "class" : "structure") + "_type, name: \"" + Name + "\"" + Scope + ", file: !1, line: 1, size: 64, elements: !" + num(E) +
         (Ident.empty() ? "" : ", identifier: \"" + Ident + "\"") + ")\n";
    Retained.push_back("!" + num(Node[C]));
  }
  if (Reverse)
    std::reverse(Retained.begin(), Retained.end());
  std::string RT;
  for (auto &X : Retained)
    RT += (RT.empty() ? "" : ", ") + X;
  S += "!llvm.dbg.cu = !{!0}\n!llvm.module.flags = !{!3}\n!0 = distinct !DICompileUnit(language: DW_LANG_C_plus_plus, file: !1, producer: \"x\", isOptimized: false, runtimeVersion: 0, emissionKind: FullDebug, enums: !2, retainedTypes: !4)\n"
       "!1 = !DIFile(filename: \"a.cpp\", directory: \"/\")\n!2 = !{}\n!3 = !{i32 2, !\"Debug Info Version\", i32 3}\n!4 = !{" +
       RT + "}\n!5 = !DISubroutineType(types: !6)\n!6 = !{null}\n";
  return S + D;
}
static void checkDI(mc::Ctx &C, const Hier &H, unsigned Naming, bool Reverse, bool Typedefs) {
  std::vector<std::string> Ids;
  auto M = ir::parse(diText(H, Naming, Reverse, Typedefs, Ids), ir::context(true));
  LLVMProjectIRDB DB(M.get());
  auto W = "debug info of " + H.str() + (Naming == 1 ? " without identifiers" : Naming == 2 ? " with equal names" : "") + (Reverse ? " reversed" : "") + (Typedefs ? " through typedefs" : "");
  std::vector<const llvm::DIType *> Ty(H.N);
  llvm::DebugInfoFinder DIF;
  DIF.processModule(*M);
  for (auto *T : DIF.types())
    if (auto *X = llvm::dyn_cast<llvm::DICompositeType>(T))
      for (unsigned K = 0; K < H.N; ++K)
        if ((Naming == 1 ? X->getName() : X->getIdentifier()) == Ids[K])
          Ty[K] = X;
  auto Sub = [&](unsigned X, unsigned Y) { return H.subOf(X, Y); };
  auto all = [&](const DIBasedTypeHierarchy &TH, const std::string &W) {
    checkTypes<DIBasedTypeHierarchy, const llvm::DIType *>(C, TH, Ty, Ids, Sub, W);
    C.check(TH.getAllVTables().size() == H.N, "di vtables", W);
    auto All = TH.getAllTypes();
    for (unsigned K = 0; K < H.N; ++K) {
      std::vector<F> Want;
      for (unsigned Mt = 0; Mt < 2; ++Mt)
        if (H.Decl[K][Mt] == 1) {
          auto Sl = unsigned(H.slot(K, Mt));
          if (Want.size() <= Sl)
            Want.resize(Sl + 1);
          Want[Sl] = M->getFunction(H.fn(int(K), Mt));
        }
      auto Idx = std::find(All.begin(), All.end(), Ty[K]) - All.begin();
      C.check(TH.getAllVTables()[size_t(Idx)].getAllFunctions() == Want, "di vtable", [&] { return W + ": vtable of C" + num(K); });
      // the closure starts with the type itself
      auto R = TH.subTypesOf(Ty[K]);
      C.check(R.begin() != R.end() && *R.begin() == Ty[K], "di order", W);
    }
    std::string Out;
    llvm::raw_string_ostream OS(Out);
    TH.print(OS);
    TH.printAsDot(OS);
  };
  DIBasedTypeHierarchy TH(DB);
  all(TH, W);
  std::string Ser;
  llvm::raw_string_ostream OS(Ser);
  TH.printAsJson(OS);
  DIBasedTypeHierarchy TH2(&DB, DIBasedTypeHierarchyData::loadJsonString(OS.str()));
  all(TH2, "deserialized " + W);
  C.trace();
  C.states(H.N + 1);
  C.transition(H.N * H.N);
  C.nontrivial(mc::hashStr(W));
  if (C.wantSample())
    C.sample(W);
}
/// C: unnamed structures and unions beside named ones
static void unnamed(mc::Ctx &C) {
  static const char *const Kind[] = {"structure", "union", "class"};
  unsigned N = 1 + C.choose(4);
  std::vector<unsigned> K(N), Nm(N);
  for (unsigned X = 0; X < N; ++X) {
    K[X] = C.choose(3);
    Nm[X] = C.choose(2);
  }
  if (!C.mine())
    return;
  std::string RT, D, W = "unnamed types:";
  for (unsigned X = 0; X < N; ++X) {
    RT += (X ? ", !" : "!") + num(20 + X);
    D += "!" + num(20 + X) + " = distinct !DICompositeType(tag: DW_TAG_" + Kind[K[X]] + "_type" + (Nm[X] ? ", name: \"S" + num(X) + "\"" : "") + ", file: !1, line: " + num(X + 1) + ", size: 64, elements: !2)\n";
    W += std::string(" ") + Kind[K[X]] + (Nm[X] ? " S" + num(X) : "");
  }
  auto M = ir::parse("!llvm.dbg.cu = !{!0}\n!llvm.module.flags = !{!3}\n!0 = distinct !DICompileUnit(language: DW_LANG_C99, file: !1, producer: \"x\", isOptimized: false, runtimeVersion: 0, emissionKind: FullDebug, enums: !2, retainedTypes: !4)\n"
                     "!1 = !DIFile(filename: \"a.c\", directory: \"/\")\n!2 = !{}\n!3 = !{i32 2, !\"Debug Info Version\", i32 3}\n!4 = !{" + RT + "}\n" + D,
                     ir::context(true));
  LLVMProjectIRDB DB(M.get());
  DIBasedTypeHierarchy TH(DB);
  C.check(TH.size() == N && TH.getAllTypes().size() == N, "unnamed types", W);
  unsigned Line = 0;
  std::set<std::string> Names;
  for (auto *T : TH.getAllTypes()) {
    Line += T->getLine();
    C.check(TH.hasType(T) && TH.isSubType(T, T) && TH.getSubTypes(T).size() == 1, "unnamed types", W);
    if (!T->getName().empty())
      C.check(TH.getType(T->getName()) == T, "unnamed types", W);
  }
  C.check(Line == N * (N + 1) / 2 && !TH.getType(""), "unnamed types", W);
  C.trace();
  C.states(N);
  C.transition();
  C.nontrivial(mc::hashStr(W));
}
/// the direct bases of a class: every ordered choice of up to Max of the classes before it
static std::vector<unsigned> chooseBases(mc::Ctx &C, unsigned K, unsigned Max) {
  std::vector<unsigned> R;
  for (unsigned J = 0; J < Max && R.size() == J; ++J) {
    std::vector<unsigned> Cand;
    for (unsigned X = 0; X < K; ++X)
      if (std::find(R.begin(), R.end(), X) == R.end())
        Cand.push_back(X);
    unsigned Pick = C.choose(unsigned(Cand.size()) + 1);
    if (Pick)
      R.push_back(Cand[Pick - 1]);
  }
  return R;
}
static void types(mc::Ctx &C, unsigned N, bool Few, bool DI) {
  Hier H;
  H.N = N;
  H.Par.resize(N);
  H.Decl.resize(N);
  for (unsigned K = 1; K < N; ++K)
    H.Par[K] = chooseBases(C, K, 2);
  for (unsigned K = 0; K < N; ++K) {
    if (Few) {
      unsigned D = C.choose(3);
      H.Decl[K] = {uint8_t(D == 1), uint8_t(D == 2)};
    } else {
      H.Decl[K][0] = uint8_t(C.choose(3));
      H.Decl[K][1] = uint8_t(C.choose(3));
    }
  }
  if (DI) {
    unsigned Naming = C.choose(3);
    bool Rev = C.flip(), Td = C.flip();
    if (!C.mine())
      return;
    checkDI(C, H, Naming, Rev, Td);
    return;
  }
  H.Kw = Few ? 2 : C.choose(3);
  H.Ns = Few || C.flip();
  if (!C.mine())
    return;
  checkLLVMTypes(C, H);
}

//---------------------------------------------------------------- C12
struct CallObserver : interp::Observer {
  std::map<I, std::set<F>> Targets;
  std::set<F> Reached;
  bool external(interp::Exec &, const llvm::CallBase *, F Fn, std::vector<interp::Val> &, interp::Val &) override { return Fn->getName() == "nd"; }
  void call(interp::Exec &, const llvm::CallBase *CB, F Fn) override {
    Targets[CB].insert(Fn);
    Reached.insert(Fn);
  }
};
struct Runs {
  std::map<I, std::set<F>> Targets;
  std::set<F> Reached;
  uint64_t N = 0;
};
static Runs execute(mc::Ctx &C, const llvm::Module &M, const std::string &W) {
  Runs R;
  R.N = interp::explore(
      M, M.getFunction("main"), [] { return std::make_unique<CallObserver>(); },
      [&](interp::Exec &E, CallObserver &O, interp::Stop S) {
        if (S == interp::Stop::Trap && E.TrapWhy != "unreachable" && E.TrapWhy != "bad call" && E.TrapWhy != "bad access") {
          fprintf(stderr, "harness error: execution stopped (%s) in %s\n", E.TrapWhy.c_str(), W.c_str());
          _exit(3);
        }
        for (auto &[X, T] : O.Targets)
          R.Targets[X].insert(T.begin(), T.end());
        R.Reached.insert(O.Reached.begin(), O.Reached.end());
        C.states(E.Steps);
        C.transition(E.Steps);
        C.trace();
      },
      600);
  R.Reached.insert(M.getFunction("main"));
  return R;
}
template <typename V> static std::string names(const V &S) {
  std::vector<std::string> N;
  for (auto *X : S)
    N.push_back(X ? X->getName().str() : "<null>");
  std::sort(N.begin(), N.end());
  std::string R = "{";
  for (auto &X : N)
    R += " " + X;
  return R + " }";
}
static bool indirect(I X) { return !llvm::isa<llvm::Function>(llvm::cast<llvm::CallBase>(X)->getCalledOperand()->stripPointerCastsAndAliases()); }

/// what holds of every call graph
static void wellFormed(mc::Ctx &C, const LLVMBasedICFG &ICF, const llvm::Module &M, const LLVMProjectIRDB &DB, const std::set<F> &Entries, const std::string &W) {
  auto &CG = ICF.getCallGraph();
  std::set<F> Want = Entries;
  std::vector<F> WL(Entries.begin(), Entries.end());
  std::map<F, std::multiset<I>> Callers;
  std::set<I> Sites;
  while (!WL.empty()) {
    auto *X = WL.back();
    WL.pop_back();
    std::multiset<I> Within;
    for (auto &In : llvm::instructions(*X))
      if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&In)) {
        Sites.insert(CB);
        Within.insert(CB);
        auto Cs = ICF.getCalleesOfCallAt(CB);
        std::set<F> Set(Cs.begin(), Cs.end());
        C.check(Set.size() == Cs.size() && !Set.count(nullptr), "callees twice", [&] { return W + ": callees of " + ir::str(CB) + " are " + names(Cs); });
        if (!indirect(CB))
          C.check(Set == std::set<F>{llvm::cast<llvm::Function>(CB->getCalledOperand()->stripPointerCastsAndAliases())}, "direct call", [&] { return W + ": callees of " + ir::str(CB) + " are " + names(Cs); });
        for (auto *T : Set) {
          Callers[T].insert(CB);
          if (Want.insert(T).second)
            WL.push_back(T);
        }
        std::multiset<I> RS, WantRS;
        for (auto *S : ICF.getReturnSitesOfCallAt(CB))
          RS.insert(S);
        if (auto *Inv = llvm::dyn_cast<llvm::InvokeInst>(CB))
          WantRS = {&Inv->getNormalDest()->front(), &Inv->getUnwindDest()->front()};
        else
          WantRS = {CB->getNextNode()};
        C.check(RS == WantRS, "return sites", [&] { return W + ": return sites of " + ir::str(CB); });
        C.check(ICF.isIndirectFunctionCall(CB) == CB->isIndirectCall(), "isIndirectFunctionCall", [&] { return W + ": " + ir::str(CB); });
      }
    auto CW = ICF.getCallsFromWithin(X);
    C.check(std::multiset<I>(CW.begin(), CW.end()) == Within, "calls from within", W);
  }
  auto Vs = CG.getAllVertexFunctions();
  std::set<F> Vtx(Vs.begin(), Vs.end());
  // a declaration that is an entry point has no vertex unless it is called
  for (auto *E : Entries)
    if (E->isDeclaration() && Callers[E].empty())
      Want.erase(E);
  C.check(Vtx == Want && CG.getNumVertexFunctions() == Want.size() && CG.size() == Want.size() && CG.empty() == Want.empty(), "reachable functions",
          [&] { return W + ": functions of the call graph are " + names(Vtx) + ", reachable are " + names(Want); });
  auto Ss = CG.getAllVertexCallSites();
  C.check(std::set<I>(Ss.begin(), Ss.end()) == Sites && CG.getNumVertexCallSites() == Sites.size(), "call sites", W);
  for (auto &Fn : M) {
    auto Cr = ICF.getCallersOf(&Fn);
    C.check(std::multiset<I>(Cr.begin(), Cr.end()) == Callers[&Fn], "callers", [&] { return W + ": callers of " + Fn.getName().str() + " do not match the callees"; });
    for (auto &In : llvm::instructions(Fn))
      if (!Sites.count(&In))
        C.check(ICF.getCalleesOfCallAt(&In).empty(), "callees of unreachable", W);
  }
  // written and read back
  std::string Ser, Ser2;
  llvm::raw_string_ostream OS(Ser), OS2(Ser2);
  ICF.printAsJson(OS);
  LLVMBasedICFG ICF2(&DB, CallGraphData::loadJsonString(OS.str()));
  ICF2.printAsJson(OS2);
  for (auto &Fn : M) {
    auto A = ICF.getCallersOf(&Fn), B = ICF2.getCallersOf(&Fn);
    C.check(std::multiset<I>(A.begin(), A.end()) == std::multiset<I>(B.begin(), B.end()), "deserialized callers", [&] { return W + ": " + Ser; });
    for (auto &In : llvm::instructions(Fn)) {
      auto X = ICF.getCalleesOfCallAt(&In), Y = ICF2.getCalleesOfCallAt(&In);
      C.check(std::multiset<F>(X.begin(), X.end()) == std::multiset<F>(Y.begin(), Y.end()), "deserialized callees", [&] { return W + ": " + Ser; });
    }
  }
  // entries that do not fit the module are ignored
  auto Bad = CallGraphData::loadJsonString(OS.str());
  Bad.FToFunctionVertexTy["no such function"] = {0};
  if (!Vtx.empty())
    Bad.FToFunctionVertexTy[(*Vtx.begin())->getName().str()].push_back(99999);
  LLVMBasedICFG ICF3(&DB, Bad);
  for (auto &Fn : M) {
    auto A = ICF.getCallersOf(&Fn), B = ICF3.getCallersOf(&Fn);
    C.check(std::multiset<I>(A.begin(), A.end()) == std::multiset<I>(B.begin(), B.end()), "deserialized with invalid ids", [&] { return W + ": " + Ser; });
  }
  C.check(ICF3.getCallGraph().getNumVertexFunctions() == Vtx.size() && ICF3.getCallGraph().getNumVertexCallSites() == ICF2.getCallGraph().getNumVertexCallSites(), "deserialized with invalid ids", W);
  auto V2 = ICF2.getCallGraph().getAllVertexFunctions();
  C.check(std::set<F>(V2.begin(), V2.end()) == Vtx, "deserialized functions", [&] { return W + ": " + Ser; });
  // the backward graph has the same calls
  LLVMBasedBackwardICFG Bw(const_cast<LLVMBasedICFG *>(&ICF));
  for (auto *X : Want) {
    C.check(std::multiset<I>(Bw.getCallersOf(X).begin(), Bw.getCallersOf(X).end()) == Callers[X], "backward callers", W);
    for (auto *S : Bw.getCallsFromWithin(X)) {
      auto A = ICF.getCalleesOfCallAt(S), B = Bw.getCalleesOfCallAt(S);
      C.check(std::set<F>(A.begin(), A.end()) == std::set<F>(B.begin(), B.end()), "backward callees", W);
      auto RS = Bw.getReturnSitesOfCallAt(S);
      std::multiset<I> Got(RS.begin(), RS.end()), WantRS;
      if (S->getPrevNode())
        WantRS = {S->getPrevNode()};
      else
        for (auto *P : llvm::predecessors(S->getParent()))
          WantRS.insert(P->getTerminator());
      if (S != &X->getEntryBlock().front())
        C.check(Got == WantRS, "backward return sites", [&] { return W + ": " + ir::str(S); });
    }
  }
  auto NC = ICF.allNonCallStartNodes();
  std::multiset<I> WantNC;
  for (auto &Fn : M)
    for (auto &In : llvm::instructions(Fn))
      if (!llvm::isa<llvm::CallBase>(In) && &In != &Fn.getEntryBlock().front())
        WantNC.insert(&In);
  C.check(std::multiset<I>(NC.begin(), NC.end()) == WantNC, "allNonCallStartNodes", W);
}
static const char *const TyName[] = {"NORESOLVE", "CHA", "RTA", "OTF"};
static const CallGraphAnalysisType TyOf[] = {CallGraphAnalysisType::NORESOLVE, CallGraphAnalysisType::CHA, CallGraphAnalysisType::RTA, CallGraphAnalysisType::OTF};

/// every executed call is in the call graph
static void sound(mc::Ctx &C, const LLVMBasedICFG &ICF, const Runs &R, const std::string &Sig, const std::string &W) {
  for (auto &[X, T] : R.Targets) {
    auto Cs = ICF.getCalleesOfCallAt(X);
    for (auto *Fn : T)
      C.check(std::find(Cs.begin(), Cs.end(), Fn) != Cs.end(), Sig, [&, X = X] {
        return W + ": an execution calls " + Fn->getName().str() + " at " + ir::str(X) + " in " + X->getFunction()->getName().str() + ", the call graph has " + names(Cs);
      }());
  }
}

// virtual calls
enum Alloc { None, Stack, Heap, Array, Member, Global, StaticGlobal, NumAlloc };
static const char *const AllocName[] = {"-", "stack", "heap", "array", "member", "global", "static"};
static std::string callerIR(const Hier &H) {
  std::string S;
  for (unsigned C = 0; C < H.N; ++C)
    for (unsigned M = 0; M < 2; ++M) {
      int Sl = H.slot(C, M);
      if (Sl < 0)
        continue;
      // the signature as seen from this class: the one of the nearest declaration
      unsigned D = C;
      while (!H.Decl[D][M])
        D = H.Par[D][0];
      auto T = H.ty(C), Rt = H.ret(D, M), FT = Rt + " (" + H.result(M, false) + T + "*)";
      S += "define void @call_" + num(C) + "_" + num(M) + "(" + T + "* %p) {\n  %o = alloca " + T + "*\n  store " + T + "* %p, " + T + "** %o\n  %l = load " + T + "*, " + T + "** %o\n  %b = bitcast " + T + "* %l to " + FT +
           "***\n  %vt = load " + FT + "**, " + FT + "*** %b\n  %e = getelementptr inbounds " + FT + "*, " + FT + "** %vt, i64 " + num(unsigned(Sl)) + "\n  %f = load " + FT + "*, " + FT + "** %e\n  " + (M && H.Sret ? "%res = alloca %struct.Res\n  " : "");
      S += (Rt == "void" ? "" : "%r = ") + std::string("call ") + Rt + " %f(" + H.result(M, true) + T + "* %l)\n  ret void\n}\n";
    }
  return S;
}
static void virtuals(mc::Ctx &C, const Hier &H, const std::vector<unsigned> &Al, bool Multi = false) {
  std::string Main, Glob, Ctor;
  unsigned Id = 0;
  for (unsigned K = 0; K < H.N; ++K) {
    auto T = H.ty(K);
    std::string P = "%o" + num(K), Pre;
    switch (Al[K]) {
    case None: continue;
    case Stack: Pre = "  " + P + " = alloca " + T + "\n"; break;
    case Heap: Pre = "  %h" + num(K) + " = call i8* @_Znwm(i64 " + num(H.size(K)) + ")\n  " + P + " = bitcast i8* %h" + num(K) + " to " + T + "*\n"; break;
    case Array: Pre = "  %a" + num(K) + " = alloca [2 x " + T + "]\n  " + P + " = getelementptr inbounds [2 x " + T + "], [2 x " + T + "]* %a" + num(K) + ", i64 0, i64 1\n"; break;
    case Member:
      Glob += "%struct.H" + num(K) + " = type { i32, " + T + " }\n";
      Pre = "  %a" + num(K) + " = alloca %struct.H" + num(K) + "\n  " + P + " = getelementptr inbounds %struct.H" + num(K) + ", %struct.H" + num(K) + "* %a" + num(K) + ", i32 0, i32 1\n";
      break;
    case Global:
      Glob += "@g" + num(K) + " = global " + T + " zeroinitializer\n";
      P = "@g" + num(K);
      break;
    case StaticGlobal:
      Glob += "@g" + num(K) + " = global { i8** } { " + H.vptr(K) + " }\n";
      P = "bitcast ({ i8** }* @g" + num(K) + " to " + T + "*)";
      break;
    }
    Main += Pre;
    if (Al[K] != StaticGlobal)
      Main += "  call void @" + H.ctor(K) + "(" + T + "* " + P + ")\n";
    for (unsigned S = 0; S < H.N; ++S)
      if (H.subOf(K, S)) {
        auto U = P;
        if (S != K) {
          auto O = num(unsigned(H.offsetOf(K, S)));
          U = "%u" + num(Id++);
          if (O == "0")
            Main += "  " + U + " = bitcast " + T + "* " + P + " to " + H.ty(S) + "*\n";
          else
            Main += "  " + U + "a = bitcast " + T + "* " + P + " to i8*\n  " + U + "b = getelementptr i8, i8* " + U + "a, i64 " + O + "\n  " + U + " = bitcast i8* " + U + "b to " + H.ty(S) + "*\n";
        }
        for (unsigned M = 0; M < 2; ++M)
          if (H.slot(S, M) >= 0)
            Main += "  call void @call_" + num(S) + "_" + num(M) + "(" + H.ty(S) + "* " + U + ")\n";
      }
  }
  auto Text = H.ir() + H.ctors() + callerIR(H) + Glob + "define i32 @main() {\n" + Main + "  ret i32 0\n}\n";
  auto M = ir::parse(Text, ir::context(true));
  auto W = H.str() + " objects:";
  for (auto X : Al)
    W += std::string(" ") + AllocName[X];
  LLVMProjectIRDB DB(M.get());
  auto R = execute(C, *M, W);
  LLVMTypeHierarchy TH(DB);
  for (unsigned T = 0; T < 4; ++T) {
    LLVMAliasSet AS(&DB);
    LLVMBasedICFG ICF(&DB, TyOf[T], {"main"}, &TH, &AS, Soundness::Soundy, false);
    auto WT = std::string(TyName[T]) + " for " + W;
    wellFormed(C, ICF, *M, DB, {M->getFunction("main")}, WT);
    if (T == 0) {
      for (auto &[X, Tg] : R.Targets)
        if (indirect(X))
          C.check(ICF.getCalleesOfCallAt(X).empty(), "noresolve", WT);
      continue;
    }
    sound(C, ICF, R, Multi ? "secondary-base-" + std::string(TyName[T]) : std::string(TyName[T]) + " misses a call", WT);
    for (unsigned K = 0; K < H.N && !Multi; ++K)
      for (unsigned Mt = 0; Mt < 2; ++Mt) {
        auto *Fn = M->getFunction("call_" + num(K) + "_" + num(Mt));
        if (!Fn || !ICF.getCallGraph().getCallersOf(Fn).size())
          continue;
        I Site = nullptr;
        for (auto &In : llvm::instructions(*Fn))
          if (llvm::isa<llvm::CallBase>(In))
            Site = &In;
        C.check(ICF.isVirtualFunctionCall(Site), "isVirtualFunctionCall", WT);
        // never more than the overriders of the static type's subtypes
        std::set<F> Cha, Rta, Got;
        auto Sl = size_t(H.slot(K, Mt));
        for (unsigned X = 0; X < H.N; ++X)
          if (H.subOf(X, K)) {
            auto E = H.tables(X)[0][Sl];
            if (E.Impl >= 0) {
              Cha.insert(M->getFunction(H.fn(E.Impl, Mt)));
              if (Al[X])
                Rta.insert(M->getFunction(H.fn(E.Impl, Mt)));
            }
          }
        for (auto *X : ICF.getCalleesOfCallAt(Site))
          Got.insert(X);
        if (T == 1)
          C.check(Got == Cha, "CHA callees", [&] { return WT + ": callees in " + Fn->getName().str() + " are " + names(Got) + ", expected " + names(Cha); });
        else
          C.check(T > 2 || std::includes(Cha.begin(), Cha.end(), Got.begin(), Got.end()), "too many callees", [&] { return WT + ": callees in " + Fn->getName().str() + " are " + names(Got) + ", CHA " + names(Cha); });
        if (T == 2 && !Rta.empty()) {
          bool OnlyKnown = true; // the exact set, where all objects are created in ways the resolver tracks
          for (auto X : Al)
            OnlyKnown = OnlyKnown && (X == None || X == Stack || X == Heap);
          if (OnlyKnown)
            C.check(Got == Rta, "RTA callees", [&] { return WT + ": callees in " + Fn->getName().str() + " are " + names(Got) + ", expected " + names(Rta); });
        }
      }
  }
  C.nontrivial(mc::hashStr(W));
  C.outcome(R.Targets.size());
  if (C.wantSample())
    C.sample(W);
}
static void virtualsPart(mc::Ctx &C, unsigned N, bool AllDecl) {
  Hier H;
  H.N = N;
  H.Par.resize(N);
  H.Decl.resize(N);
  for (unsigned K = 1; K < N; ++K)
    H.Par[K] = chooseBases(C, K, 1);
  for (unsigned K = 0; K < N; ++K) {
    if (!H.Par[K].empty() && !AllDecl) {
      H.Decl[K] = {uint8_t(C.choose(2)), 0};
    } else if (!H.Par[K].empty()) {
      H.Decl[K] = {uint8_t(C.choose(3)), uint8_t(C.choose(3))};
    } else {
      H.Decl[K] = {uint8_t(1 + C.choose(2)), uint8_t(AllDecl ? C.choose(3) : 0)}; // roots are polymorphic
    }
  }
  if (AllDecl) {
    unsigned Kind = C.choose(3);
    H.Covariant = Kind == 1;
    H.Sret = Kind == 2;
  }
  std::vector<unsigned> Al(N);
  for (unsigned K = 0; K < N; ++K)
    if (!H.abstract(K))
      Al[K] = C.choose(AllDecl ? 3 : NumAlloc);
  H.Kw = AllDecl ? 0 : 1;
  H.Ns = !AllDecl;
  if (!C.mine())
    return;
  virtuals(C, H, Al);
}

/// several base classes
static void multiPart(mc::Ctx &C, unsigned N) {
  Hier H;
  H.N = N;
  H.Par.resize(N);
  H.Decl.resize(N);
  bool Multi = false;
  for (unsigned K = 1; K < N; ++K) {
    H.Par[K] = chooseBases(C, K, 2);
    if (H.Par[K].size() == 2) {
      Multi = true;
      for (unsigned X = 0; X < K; ++X) // no base twice
        if (H.subOf(H.Par[K][0], X) && H.subOf(H.Par[K][1], X))
          return;
    }
  }
  for (unsigned K = 0; K < N; ++K)
    H.Decl[K] = {uint8_t(H.Par[K].empty() ? 1 : C.choose(2)), uint8_t(C.choose(2))};
  std::vector<unsigned> Al(N);
  for (unsigned K = 0; K < N; ++K)
    Al[K] = C.choose(3);
  if (!C.mine() || !Multi)
    return;
  virtuals(C, H, Al, true);
}

// function pointers
enum Hop { HLocal, HGlobal, HField, HElem, HHeap, HParam, HRet, HSelect, HPhi, HCast, HOut, HParamPtr, HCopyStruct, NumHop };
static const char *const HopName[] = {"local", "global", "field", "element", "heap", "param", "return", "select", "phi", "cast", "out-param", "param by pointer", "struct copy"};
enum Src { SFn, SGlobal, STable, SOps, SObjOps, SMethodTable, NumSrc };
static const char *const SrcName[] = {"function", "initialized global", "constant table", "struct of functions", "object with a struct of functions", "object with an array of functions"};
/// Where a function pointer comes from, and the ways it takes to the call.  Signature 0: void (), 1: i32 (i32), 2: void (%struct.O*)
struct FpProg {
  unsigned Sig = 0, From = 0;
  std::vector<unsigned> Hops;
  bool Stage2 = false; // the called function sets up the next call
  std::string fty() const { return Sig == 0 ? "void ()" : Sig == 1 ? "i32 (i32)" : "void (%struct.O*)"; }
  std::string str() const {
    std::string S = fty() + " from " + SrcName[From];
    for (auto H : Hops)
      S += std::string(" -> ") + HopName[H];
    return S + (Stage2 ? ", then the call sets a global pointer" : "");
  }
  std::string ir() const {
    auto T = fty() + "*", Ar = std::string(Sig == 0 ? "" : Sig == 1 ? "i32 0" : "%struct.O* @obj");
    auto Par = std::string(Sig == 0 ? "" : Sig == 1 ? "i32 %a" : "%struct.O* %a"), Rt = std::string(Sig == 1 ? "i32" : "void"), RetI = std::string(Sig == 1 ? "ret i32 0" : "ret void");
    std::string G = "target datalayout = \"e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128\"\n%struct.O = type { " + fty() + "**, %struct.Ops* }\n%struct.Ops = type { i32, " + T + ", " + T + " }\n%struct.S = type { i32, " + T + " }\n";
    G += "@tab = constant [2 x " + T + "] [" + T + " @f0, " + T + " @f1]\n@ops = constant %struct.Ops { i32 0, " + T + " @f0, " + T + " @f1 }\n";
    G += "@obj = global %struct.O { " + T + "* getelementptr ([2 x " + T + "], [2 x " + T + "]* @tab, i32 0, i32 0), %struct.Ops* @ops }\n@ini = global " + T + " @f0\n@g = global " + T + " null\n@g2 = global " + T + " null\n";
    G += "declare i1 @nd()\ndeclare i8* @malloc(i64)\n";
    for (unsigned K = 0; K < 4; ++K)
      G += "define " + Rt + " @f" + num(K) + "(" + Par + ") {\n" + (Stage2 && K == 0 ? "  store " + T + " @f2, " + T + "* @g2\n" : "") + "  " + RetI + "\n}\n";
    G += "define void @unrelated(double %d) {\n  ret void\n}\n@keep = global void (double)* @unrelated\n";
    std::string B, Fns, V = "@f0", Head = "define i32 @main() {\nentry:\n", Tail;
    unsigned Id = 0;
    auto n = [&] { return "%v" + num(Id++); };
    auto cond = [&] {
      auto X = n();
      B += "  " + X + " = call i1 @nd()\n";
      return X;
    };
    switch (From) {
    case SFn: break;
    case SGlobal: V = n(); B += "  " + V + " = load " + T + ", " + T + "* @ini\n"; break;
    case STable: {
      auto C = cond(), X = n(), P = n();
      B += "  " + X + " = select i1 " + C + ", i64 0, i64 1\n  " + P + " = getelementptr [2 x " + T + "], [2 x " + T + "]* @tab, i64 0, i64 " + X + "\n";
      V = n();
      B += "  " + V + " = load " + T + ", " + T + "* " + P + "\n";
      break;
    }
    case SOps: V = n(); B += "  " + V + " = load " + T + ", " + T + "* getelementptr (%struct.Ops, %struct.Ops* @ops, i32 0, i32 1)\n"; break;
    case SObjOps: {
      auto A = n(), P = n(), Q = n();
      B += "  " + A + " = getelementptr %struct.O, %struct.O* @obj, i32 0, i32 1\n  " + P + " = load %struct.Ops*, %struct.Ops** " + A + "\n  " + Q + " = getelementptr %struct.Ops, %struct.Ops* " + P + ", i32 0, i32 2\n";
      V = n();
      B += "  " + V + " = load " + T + ", " + T + "* " + Q + "\n";
      break;
    }
    case SMethodTable: {
      auto A = n(), P = n(), Q = n();
      B += "  " + A + " = getelementptr %struct.O, %struct.O* @obj, i32 0, i32 0\n  " + P + " = load " + T + "*, " + T + "** " + A + "\n  " + Q + " = getelementptr " + T + ", " + T + "* " + P + ", i64 1\n";
      V = n();
      B += "  " + V + " = load " + T + ", " + T + "* " + Q + "\n";
      break;
    }
    }
    auto through = [&](const std::string &P) {
      B += "  store " + T + " " + V + ", " + T + "* " + P + "\n";
      V = n();
      B += "  " + V + " = load " + T + ", " + T + "* " + P + "\n";
    };
    unsigned HN = 0;
    for (auto H : Hops) {
      auto K = num(HN++);
      switch (H) {
      case HLocal: {
        auto A = n();
        B += "  " + A + " = alloca " + T + "\n";
        through(A);
        break;
      }
      case HGlobal: through("@g"); break;
      case HField: {
        auto A = n(), P = n();
        B += "  " + A + " = alloca %struct.S\n  " + P + " = getelementptr %struct.S, %struct.S* " + A + ", i32 0, i32 1\n";
        B += "  store " + T + " " + V + ", " + T + "* " + P + "\n";
        auto P2 = n();
        B += "  " + P2 + " = getelementptr %struct.S, %struct.S* " + A + ", i32 0, i32 1\n";
        V = n();
        B += "  " + V + " = load " + T + ", " + T + "* " + P2 + "\n";
        break;
      }
      case HElem: {
        auto A = n(), P0 = n(), P1 = n(), C = cond(), X = n(), P = n();
        B += "  " + A + " = alloca [2 x " + T + "]\n  " + P0 + " = getelementptr [2 x " + T + "], [2 x " + T + "]* " + A + ", i64 0, i64 0\n  store " + T + " @f3, " + T + "* " + P0 + "\n  " + P1 + " = getelementptr [2 x " + T + "], [2 x " + T +
             "]* " + A + ", i64 0, i64 1\n  store " + T + " " + V + ", " + T + "* " + P1 + "\n  " + X + " = select i1 " + C + ", i64 0, i64 1\n  " + P + " = getelementptr [2 x " + T + "], [2 x " + T + "]* " + A + ", i64 0, i64 " + X + "\n";
        V = n();
        B += "  " + V + " = load " + T + ", " + T + "* " + P + "\n";
        break;
      }
      case HHeap: {
        auto A = n(), P = n();
        B += "  " + A + " = call i8* @malloc(i64 8)\n  " + P + " = bitcast i8* " + A + " to " + T + "*\n";
        through(P);
        break;
      }
      case HParam:
        B += "  call void @p" + K + "(" + T + " " + V + ")\n";
        Fns += Head + B + Tail + (Head[7] == 'i' ? "  ret i32 0\n}\n" : "  ret void\n}\n");
        Head = "define void @p" + K + "(" + T + " %fp) {\nentry:\n";
        B.clear();
        V = "%fp";
        break;
      case HParamPtr: {
        auto A = n();
        B += "  " + A + " = alloca " + T + "\n  store " + T + " " + V + ", " + T + "* " + A + "\n  call void @p" + K + "(" + T + "* " + A + ")\n";
        Fns += Head + B + Tail + (Head[7] == 'i' ? "  ret i32 0\n}\n" : "  ret void\n}\n");
        Head = "define void @p" + K + "(" + T + "* %fpp) {\nentry:\n";
        V = n();
        B = "  " + V + " = load " + T + ", " + T + "* %fpp\n";
        break;
      }
      case HRet: {
        auto R = n();
        B += "  " + R + " = call " + T + " @id" + K + "(" + T + " " + V + ")\n";
        Fns += "define " + T + " @id" + K + "(" + T + " %x) {\n  ret " + T + " %x\n}\n";
        V = R;
        break;
      }
      case HSelect: {
        auto C = cond(), R = n();
        B += "  " + R + " = select i1 " + C + ", " + T + " " + V + ", " + T + " @f3\n";
        V = R;
        break;
      }
      case HPhi: {
        auto C = cond(), R = n();
        B += "  br i1 " + C + ", label %a" + K + ", label %b" + K + "\na" + K + ":\n  br label %c" + K + "\nb" + K + ":\n  br label %c" + K + "\nc" + K + ":\n  " + R + " = phi " + T + " [ " + V + ", %a" + K + " ], [ @f3, %b" + K + " ]\n";
        V = R;
        break;
      }
      case HCast: {
        auto A = n(), R = n();
        B += "  " + A + " = bitcast " + T + " " + V + " to i8*\n  " + R + " = bitcast i8* " + A + " to " + T + "\n";
        V = R;
        break;
      }
      case HOut: {
        auto A = n(), R = n();
        B += "  " + A + " = alloca " + T + "\n  call void @out" + K + "(" + T + " " + V + ", " + T + "* " + A + ")\n  " + R + " = load " + T + ", " + T + "* " + A + "\n";
        Fns += "define void @out" + K + "(" + T + " %x, " + T + "* %o) {\n  store " + T + " %x, " + T + "* %o\n  ret void\n}\n";
        V = R;
        break;
      }
      case HCopyStruct: {
        auto A = n(), P = n(), A2 = n(), L = n(), P2 = n();
        B += "  " + A + " = alloca %struct.S\n  " + P + " = getelementptr %struct.S, %struct.S* " + A + ", i32 0, i32 1\n  store " + T + " " + V + ", " + T + "* " + P + "\n  " + A2 + " = alloca %struct.S\n  " + L + " = load %struct.S, %struct.S* " + A +
             "\n  store %struct.S " + L + ", %struct.S* " + A2 + "\n  " + P2 + " = getelementptr %struct.S, %struct.S* " + A2 + ", i32 0, i32 1\n";
        V = n();
        B += "  " + V + " = load " + T + ", " + T + "* " + P2 + "\n";
        break;
      }
      }
    }
    auto R = Sig == 1 ? n() + " = " : std::string();
    B += "  " + R + "call " + Rt + " " + V + "(" + Ar + ")\n";
    if (Stage2) {
      auto X = n(), R2 = Sig == 1 ? n() + " = " : std::string();
      B += "  " + X + " = load " + T + ", " + T + "* @g2\n  " + R2 + "call " + Rt + " " + X + "(" + Ar + ")\n";
    }
    Fns += Head + B + (Head[7] == 'i' ? "  ret i32 0\n}\n" : "  ret void\n}\n");
    return G + Fns;
  }
};
static void fnptrs(mc::Ctx &C, unsigned NumHops) {
  FpProg P;
  P.Sig = NumHops < 3 || C.thorough() ? C.choose(3) : 1;
  P.From = C.choose(NumSrc);
  P.Stage2 = C.flip();
  for (unsigned K = 0; K < NumHops; ++K)
    P.Hops.push_back(C.choose(NumHop));
  if (!C.mine())
    return;
  auto M = ir::parse(P.ir(), ir::context(true));
  auto W = P.str();
  LLVMProjectIRDB DB(M.get());
  auto R = execute(C, *M, W);
  LLVMTypeHierarchy TH(DB);
  for (unsigned T = 0; T < 4; ++T) {
    LLVMAliasSet AS(&DB);
    LLVMBasedICFG ICF(&DB, TyOf[T], {"main"}, &TH, &AS, Soundness::Soundy, false);
    auto WT = std::string(TyName[T]) + " for " + W;
    wellFormed(C, ICF, *M, DB, {M->getFunction("main")}, WT);
    for (auto &[X, Tg] : R.Targets) {
      if (!indirect(X))
        continue;
      auto Cs = ICF.getCalleesOfCallAt(X);
      if (T == 0)
        C.check(Cs.empty(), "noresolve", WT);
      else
        for (auto *Fn : Cs) // only what the call can call at all
          C.check(Fn->hasAddressTaken() && Fn->arg_size() == llvm::cast<llvm::CallBase>(X)->arg_size(), "inconsistent callee", [&, X = X] { return WT + ": callees of " + ir::str(X) + " are " + names(Cs); }());
    }
    if (T) { // OTF last: it has a known finding
      bool Mem = std::find(P.Hops.begin(), P.Hops.end(), unsigned(HParamPtr)) != P.Hops.end();
      sound(C, ICF, R, T == 3 && Mem ? "otf-memory-argument" : std::string(TyName[T]) + " misses a call", WT);
      }
  }
  C.nontrivial(mc::hashStr(W));
  C.outcome(R.Targets.size());
  if (C.wantSample())
    C.sample(W);
}

// entry points
static void entries(mc::Ctx &C, unsigned N) {
  static const char *const Nm[] = {"main", "a", "b", "c"};
  std::vector<unsigned> Link(N), Calls(N);
  for (unsigned K = 0; K < N; ++K) {
    Link[K] = C.choose(3); // external, internal, declaration
    Calls[K] = Link[K] == 2 ? 0 : C.choose(1u << N);
  }
  unsigned E = C.choose((1u << N) + 2);
  if (!C.mine())
    return;
  std::string S, W = "functions";
  for (unsigned K = 0; K < N; ++K) {
    W += std::string(" ") + (Link[K] == 1 ? "internal " : Link[K] == 2 ? "declared " : "") + Nm[K] + "(";
    if (Link[K] == 2) {
      S += std::string("declare void @") + Nm[K] + "()\n";
    } else {
      S += std::string("define ") + (Link[K] ? "internal " : "") + "void @" + Nm[K] + "() {\n";
      for (unsigned X = 0; X < N; ++X)
        if (Calls[K] >> X & 1) {
          S += std::string("  call void @") + Nm[X] + "()\n";
          W += Nm[X];
        }
      S += "  ret void\n}\n";
    }
    W += ")";
  }
  auto M = ir::parse(S, ir::context(true));
  LLVMProjectIRDB DB(M.get());
  std::vector<std::string> Names;
  std::set<F> Want;
  if (E == (1u << N)) {
    Names = {"__ALL__"};
    for (unsigned K = 0; K < N; ++K)
      if (Link[K] == 0 || (Link[K] == 1 && K == 0))
        Want.insert(M->getFunction(Nm[K]));
  } else {
    Names = {"nope"};
    for (unsigned K = 0; K < N; ++K)
      if (E > (1u << N) || (E >> K & 1)) {
        Names.push_back(Nm[K]);
        if (Link[K] != 2)
          Want.insert(M->getFunction(Nm[K]));
      }
    if (E > (1u << N)) // repeated
      Names.insert(Names.end(), Names.begin(), Names.end());
  }
  W += " from";
  for (auto &X : Names)
    W += " " + X;
  for (unsigned T = 0; T < 4; ++T) {
    LLVMBasedICFG ICF(&DB, TyOf[T], Names, nullptr, nullptr, Soundness::Soundy, false);
    wellFormed(C, ICF, *M, DB, Want, std::string(TyName[T]) + " for " + W);
    LLVMTypeHierarchy TH(DB);
    LLVMVFTableProvider VTP(DB);
    std::vector<LLVMBasedCallGraph> Gs;
    std::vector<F> Fns(Want.begin(), Want.end());
    Gs.push_back(buildLLVMBasedCallGraph(DB, TyOf[T], Names, TH, VTP));
    Gs.push_back(buildLLVMBasedCallGraph(DB, TyOf[T], Fns, TH, VTP));
    LLVMAliasSet AS(&DB);
    auto Res = Resolver::create(TyOf[T], &DB, &VTP, &TH, &AS);
    Gs.push_back(buildLLVMBasedCallGraph(DB, *Res, Names));
    Gs.push_back(buildLLVMBasedCallGraph(DB, *Res, Fns));
    auto Cp = std::make_unique<LLVMBasedCallGraph>(Gs[0]); // copied and assigned
    LLVMBasedCallGraph As;
    As = *Cp;
    Gs.push_back(*Cp);
    Cp.reset();
    Gs.push_back(As);
    Gs.push_back(std::move(As));
    for (auto &G : Gs) {
      for (auto *CB : G.getAllVertexCallSites()) {
        auto A = ICF.getCalleesOfCallAt(CB), B = G.getCalleesOfCallAt(CB);
        C.check(std::multiset<F>(A.begin(), A.end()) == std::multiset<F>(B.begin(), B.end()), "other constructions", W);
      }
      C.check(G.size() == ICF.getCallGraph().size(), "other constructions", W);
      for (auto &Fn : *M) {
        auto A = ICF.getCallersOf(&Fn), B = G.getCallersOf(&Fn);
        C.check(std::multiset<I>(A.begin(), A.end()) == std::multiset<I>(B.begin(), B.end()), "other constructions", W);
      }
    }
  }
  C.trace();
  C.states(N);
  C.transition(N);
  C.nontrivial(mc::hashStr(W));
  C.outcome(Want.size());
  if (C.wantSample())
    C.sample(W);
}

int main(int argc, char **argv) {
  std::vector<mc::Part> Parts;
  if (getenv("MC_TYPES")) {
    for (unsigned N : {1u, 2u, 3u})
      Parts.push_back({"llvm_types_" + num(N), [N](mc::Ctx &C) { types(C, N, false, false); }});
    Parts.push_back({"di_unnamed", unnamed});
    for (unsigned N : {1u, 2u})
      Parts.push_back({"di_types_" + num(N), [N](mc::Ctx &C) { types(C, N, false, true); }});
    for (unsigned N : {3u, 4u})
      Parts.push_back({"di_types_" + num(N), [N](mc::Ctx &C) { types(C, N, true, true); }});
    Parts.push_back({"llvm_types_4", [](mc::Ctx &C) { types(C, 4, true, false); }});
  } else {
    for (unsigned N : {1u, 2u, 3u})
      Parts.push_back({"entries_" + num(N), [N](mc::Ctx &C) { entries(C, N); }});
    for (unsigned N : {0u, 1u, 2u})
      Parts.push_back({"fnptr_" + num(N), [N](mc::Ctx &C) { fnptrs(C, N); }});
    for (unsigned N : {1u, 2u, 3u})
      Parts.push_back({"virtual_alloc_" + num(N), [N](mc::Ctx &C) { virtualsPart(C, N, false); }});
    for (unsigned N : {1u, 2u, 3u})
      Parts.push_back({"virtual_decl_" + num(N), [N](mc::Ctx &C) { virtualsPart(C, N, true); }});
    for (unsigned N : {3u, 4u})
      Parts.push_back({"virtual_multi_" + num(N), [N](mc::Ctx &C) {
                         if (N == 3 || C.thorough())
                           multiPart(C, N);
                       }});
    Parts.push_back({"fnptr_3", [](mc::Ctx &C) { fnptrs(C, 3); }});
    Parts.push_back({"virtual_alloc_4", [](mc::Ctx &C) {
                       if (C.thorough())
                         virtualsPart(C, 4, false);
                     }});
  }
  return mc::run(argc, argv, Parts, {});
}
