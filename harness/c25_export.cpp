// Exported graphs (DOT and JSON) of control flow and calls: exactly the nodes and edges of the program.
#include "ir.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/PhasarLLVM/Utils/LLVMIRToSrc.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
#include "llvm/IR/CFG.h"
#include "nlohmann/json.hpp"
#include <map>
#include <set>
using namespace psr;
using I = const llvm::Instruction *;
using std::to_string;

//---------------------------------------------------------------- a reader of DOT
struct Dot {
  std::map<std::string, std::string> Node;                                // id -> label
  std::vector<std::tuple<std::string, std::string, std::string>> Edge; // from, to, label
  std::string Err;
};
static Dot readDot(const std::string &S, const std::string &Kind) {
  Dot D;
  size_t P = S.find('{');
  if (S.compare(0, 8, "digraph ") != 0 || P == std::string::npos)
    D.Err = "no " + Kind;
  ++P;
  auto ws = [&] {
    while (P < S.size() && isspace((unsigned char)S[P]))
      ++P;
  };
  auto id = [&] {
    ws();
    std::string R;
    while (P < S.size() && (isalnum((unsigned char)S[P]) || S[P] == '_' || (S[P] == '-' && S.compare(P, 2, "->") != 0)))
      R += S[P++];
    return R;
  };
  auto attr = [&]() -> std::string {
    ws();
    if (P >= S.size() || S[P] != '[')
      return "";
    if (S.compare(P, 8, "[label=\"") != 0) {
      D.Err = "attribute";
      return "";
    }
    P += 8;
    std::string R;
    while (P < S.size() && S[P] != '"') {
      if (S[P] == '\\') {
        ++P;
        if (isdigit((unsigned char)S[P])) {
          R += char(std::stoi(S.substr(P, 3), nullptr, 8));
          P += 3;
          continue;
        }
        R += S[P] == 'n' ? '\n' : S[P] == 't' ? '\t' : S[P];
        ++P;
        continue;
      }
      R += S[P++];
    }
    if (S.compare(P, 2, "\"]") != 0)
      D.Err = "unclosed label";
    P += 2;
    return R;
  };
  for (;;) {
    ws();
    if (P >= S.size()) {
      D.Err = "no end";
      break;
    }
    if (S[P] == '}') {
      ++P;
      ws();
      if (P != S.size())
        D.Err = "text after the end";
      break;
    }
    auto A = id();
    if (A.empty()) {
      D.Err = "syntax at " + S.substr(P, 20);
      break;
    }
    ws();
    if (S.compare(P, 2, "->") == 0) {
      P += 2;
      auto B = id();
      auto L = attr();
      D.Edge.emplace_back(A, B, L);
    } else {
      auto L = attr();
      if (!D.Node.emplace(A, L).second)
        D.Err = "node " + A + " twice";
    }
    ws();
    if (P >= S.size() || S[P] != ';') {
      D.Err = "no ; at " + S.substr(P, 20);
      break;
    }
    ++P;
  }
  return D;
}

//---------------------------------------------------------------- the program
struct Prog {
  struct B {
    std::string Items; // o: operation, d: debug intrinsic, g h u e p r: calls
    char T = 'r';      // r: return, b: branch, c: conditional, s: switch with one case, S: with two, x: unreachable, i/j: invoke g/d
    std::vector<unsigned> Succ;
  };
  std::vector<B> Bs;
  unsigned Callee = 0; // form of the callees
  std::string str() const {
    std::string S = "callees " + to_string(Callee) + ": ";
    for (unsigned K = 0; K < Bs.size(); ++K) {
      S += "b" + to_string(K) + ":" + Bs[K].Items + "," + Bs[K].T;
      for (auto X : Bs[K].Succ)
        S += " b" + to_string(X);
      S += "; ";
    }
    return S;
  }
  std::string ir() const {
    std::string Dbg = "call void @llvm.dbg.value(metadata i32 0, metadata !7, metadata !DIExpression()), !dbg !8\n";
    std::string S = "declare void @d()\ndeclare i32 @__gxx_personality_v0(...)\ndeclare void @llvm.dbg.value(metadata, metadata, metadata)\n"
                    "@fp = global void ()* @g\n@\"a#b\\22!\" = global i32 0\n"
                    "define void @unused() {\nret void\n}\n";
    std::string G = Callee & 1 ? Dbg : "";
    std::string Sp = Callee & 1 ? " !dbg !10" : "";
    auto fix = [&](std::string X, const char *N) {
      for (size_t P; (P = X.find("!8")) != std::string::npos;)
        X.replace(P, 2, N);
      return X;
    };
    G = fix(G, "!11");
    size_t Q = G.find("!7");
    if (Q != std::string::npos)
      G.replace(Q, 2, "!12");
    S += "define void @g()" + Sp + " {\n" + G + (Callee & 2 ? "call void @d()" + std::string(Callee & 1 ? ", !dbg !11" : "") + "\n" : "") + "ret void\n}\n";
    S += "define void @h() {\n%c = load i32, i32* @\"a#b\\22!\"\n%t = icmp eq i32 %c, 0\nbr i1 %t, label %x, label %y\nx:\n" + std::string(Callee & 2 ? "call void @g()\n" : "") +
         "ret void\ny:\nret void\n}\n";
    S += "define void @u() {\nbr label %l\nl:\nbr label %l\n}\n";
    S += "define void @e() personality i8* bitcast (i32 (...)* @__gxx_personality_v0 to i8*) {\ninvoke void @d() to label %n unwind label %p\nn:\nret void\np:\n%l = landingpad { i8*, i32 } cleanup\nresume { i8*, i32 } %l\n}\n";
    S += "define i32 @main(i32 %x) personality i8* bitcast (i32 (...)* @__gxx_personality_v0 to i8*) !dbg !4 {\nentry:\n%c = icmp eq i32 %x, 0\nbr label %b0\n";
    std::set<unsigned> Pads;
    for (auto &X : Bs)
      if (X.T == 'i' || X.T == 'j')
        Pads.insert(X.Succ[1]);
    for (unsigned K = 0; K < Bs.size(); ++K) {
      auto &X = Bs[K];
      auto L = [&](unsigned J) { return "label %b" + to_string(X.Succ[J]); };
      S += "b" + to_string(K) + ":\n";
      if (Pads.count(K))
        S += "%l" + to_string(K) + " = landingpad { i8*, i32 } cleanup\n";
      std::string Loc = ", !dbg !8\n";
      for (unsigned J = 0; J < X.Items.size(); ++J) {
        auto Id = to_string(K) + "_" + to_string(J);
        switch (X.Items[J]) {
        case 'o': S += "%v" + Id + " = add i32 %x, " + to_string(J) + Loc; break;
        case 'q': S += "store i32 %x, i32* @\"a#b\\22!\"\n"; break;
        case 'd': S += Dbg; break;
        case 'g': S += "call void @g()" + Loc; break;
        case 'h': S += "call void @h()" + Loc; break;
        case 'u': S += "call void @u()" + Loc; break;
        case 'e': S += "call void @e()" + Loc; break;
        case 'D': S += "call void @d()" + Loc; break;
        case 'r': S += "%v" + Id + " = call i32 @main(i32 %x)" + Loc; break;
        case 'P': S += "%p" + Id + " = select i1 %c, void ()* @h, void ()* @d\ncall void %p" + Id + "()" + Loc; break;
        case 'p': S += "%p" + Id + " = load void ()*, void ()** @fp\ncall void %p" + Id + "()" + Loc; break;
        }
      }
      switch (X.T) {
      case 'r': S += "ret i32 0" + Loc; break;
      case 'b': S += "br " + L(0) + Loc; break;
      case 'c': S += "br i1 %c, " + L(0) + ", " + L(1) + Loc; break;
      case 's': S += "switch i32 %x, " + L(0) + " [ i32 1, " + L(1) + " ]" + Loc; break;
      case 'S': S += "switch i32 %x, " + L(0) + " [ i32 1, " + L(1) + " i32 2, " + L(0) + " ]" + Loc; break;
      case 'x': S += "unreachable" + Loc; break;
      case 'i': S += "invoke void @e() to " + L(0) + " unwind " + L(1) + Loc; break;
      case 'j': S += "invoke void @d() to " + L(0) + " unwind " + L(1) + Loc; break;
      }
    }
    S += "}\n!llvm.dbg.cu = !{!0}\n!llvm.module.flags = !{!3}\n!0 = distinct !DICompileUnit(language: DW_LANG_C99, file: !1, producer: \"x\", isOptimized: false, runtimeVersion: 0, "
         "emissionKind: FullDebug, enums: !2)\n!1 = !DIFile(filename: \"a\\22\\5c.c\", directory: \"/\")\n!2 = !{}\n!3 = !{i32 2, !\"Debug Info Version\", i32 3}\n"
         "!4 = distinct !DISubprogram(name: \"main\", scope: !1, file: !1, line: 1, type: !5, scopeLine: 1, unit: !0, retainedNodes: !2)\n!5 = !DISubroutineType(types: !6)\n!6 = !{null}\n"
         "!7 = !DILocalVariable(name: \"x\", scope: !4, file: !1, line: 1, type: !9)\n!8 = !DILocation(line: 3, column: 7, scope: !4)\n!9 = !DIBasicType(name: \"int\", size: 32, encoding: DW_ATE_signed)\n"
         "!10 = distinct !DISubprogram(name: \"g\", scope: !1, file: !1, line: 2, type: !5, scopeLine: 1, unit: !0, retainedNodes: !2)\n!11 = !DILocation(line: 4, column: 1, scope: !10)\n"
         "!12 = !DILocalVariable(name: \"y\", scope: !10, file: !1, line: 1, type: !9)\n";
    return S;
  }
};

static void checkProg(mc::Ctx &C, const Prog &P) {
  C.trace();
  auto M = ir::parse(P.ir(), ir::context());
  LLVMProjectIRDB IRDB(M.get());
  LLVMTypeHierarchy TH(IRDB);
  LLVMAliasSet AS(&IRDB);
  LLVMBasedICFG ICF(&IRDB, CallGraphAnalysisType::OTF, {"main"}, &TH, &AS, Soundness::Soundy, false);
  auto Name = P.str();
  C.nontrivial(mc::hashStr(Name));
  auto At = [&](const std::string &S) { return [&Name, S] { return S + " in " + Name; }; };
  auto next = [](I X) -> I {
    do
      X = X->getNextNode();
    while (X && llvm::isa<llvm::DbgInfoIntrinsic>(X));
    return X;
  };
  auto first = [&](const llvm::BasicBlock *BB) -> I { return llvm::isa<llvm::DbgInfoIntrinsic>(&BB->front()) ? next(&BB->front()) : &BB->front(); };
  auto succs = [&](I X) {
    std::vector<I> R;
    if (X->isTerminator())
      for (auto *S : llvm::successors(X))
        R.push_back(first(S));
    else
      R.push_back(next(X));
    return R;
  };
  using E = std::tuple<I, I, std::string>;
  // what has to be there, and what may be: exceptional exits and the normal successor (and the other way round) are not told apart
  std::set<I> Nodes;
  std::set<E> Must, May;
  std::set<const llvm::Function *> Funs;
  for (auto *F : ICF.getAllVertexFunctions())
    Funs.insert(F);
  C.check(Funs.count(M->getFunction("main")) && !Funs.count(M->getFunction("unused")), "functions", At("the functions of the graph"));
  for (auto *F : Funs)
    for (auto &X : llvm::instructions(F)) {
      if (llvm::isa<llvm::DbgInfoIntrinsic>(X))
        continue;
      Nodes.insert(&X);
      auto *CB = llvm::dyn_cast<llvm::CallBase>(&X);
      auto S = succs(&X);
      if (!CB) {
        auto *Br = llvm::dyn_cast<llvm::BranchInst>(&X);
        for (size_t K = 0; K < S.size(); ++K) {
          std::string L = Br && Br->isConditional() ? (K ? "false" : "true") : "";
          Must.emplace(&X, S[K], L);
        }
        continue;
      }
      bool Decl = false, Any = false;
      for (auto *G : ICF.getCalleesOfCallAt(&X)) {
        Any = true;
        if (G->isDeclaration()) {
          Decl = true;
          continue;
        }
        Must.emplace(&X, first(&G->front()), "");
        for (auto &Y : llvm::instructions(G))
          if (llvm::isa<llvm::ReturnInst>(Y) || llvm::isa<llvm::ResumeInst>(Y))
            for (size_t K = 0; K < S.size(); ++K) {
              std::string L = llvm::isa<llvm::InvokeInst>(X) ? (K ? "unwind" : "normal") : "";
              May.emplace(&Y, S[K], L);
              if (!llvm::isa<llvm::InvokeInst>(X) ? llvm::isa<llvm::ReturnInst>(Y) : llvm::isa<llvm::ReturnInst>(Y) == (K == 0))
                Must.emplace(&Y, S[K], L);
            }
      }
      if (Decl && ICF.getCalleesOfCallAt(&X).size() > 1)
        C.count("mixed_callees");
      if (Decl || !Any)
        for (size_t K = 0; K < S.size(); ++K)
          Must.emplace(&X, S[K], llvm::isa<llvm::InvokeInst>(X) ? (K ? "unwind" : "normal") : "");
    }
  May.insert(Must.begin(), Must.end());
  C.states(Nodes.size());
  auto show = [](const E &X) { return ir::str(std::get<0>(X)) + " -> " + ir::str(std::get<1>(X)) + (std::get<2>(X).empty() ? "" : " (" + std::get<2>(X) + ")"); };
  auto cmp = [&](const std::set<E> &G, bool Labels, const std::string &What) {
    auto strip = [&](const std::set<E> &X) {
      if (Labels)
        return X;
      std::set<E> R;
      for (auto &Y : X)
        R.emplace(std::get<0>(Y), std::get<1>(Y), "");
      return R;
    };
    auto Mu = strip(Must), Ma = strip(May);
    auto isSw = [](I X) { return llvm::isa<llvm::SwitchInst>(X); };
    std::set<E> GG;
    for (auto &X : G) // a switch has no labels that mean something
      GG.emplace(std::get<0>(X), std::get<1>(X), !Labels || isSw(std::get<0>(X)) ? "" : std::get<2>(X));
    for (auto &X : Mu)
      C.check(GG.count(X), "missing-edge", At(What + ": no edge " + show(X)));
    for (auto &X : GG)
      C.check(Ma.count(X), "wrong-edge", At(What + ": edge " + show(X)));
    C.outcome(mc::mix(GG.size(), mc::hashStr(What)));
  };
  // DOT of the ICFG
  std::map<std::string, I> ByStr;
  for (auto X : Nodes)
    C.check(ByStr.emplace(llvmIRToStableString(X), X).second, "ambiguous", At("two instructions as " + llvmIRToStableString(X)));
  for (bool Sci : {false, true}) {
    auto Tx = ICF.exportICFGAsDot(Sci);
    auto D = readDot(Tx, "ICFG");
    std::string What = Sci ? "DOT with source code" : "DOT";
    C.check(D.Err.empty(), "syntax", At(What + ": " + D.Err));
    std::map<std::string, I> Id;
    std::set<I> G;
    for (auto &[K, L] : D.Node) {
      std::string Ir = L;
      if (Sci) {
        auto P1 = L.find("\nIR: "), P2 = L.find("\nLine: ");
        Ir = P1 == std::string::npos ? "?" : L.substr(P1 + 5, P2 == std::string::npos ? P2 : P2 - P1 - 5);
      }
      auto It = ByStr.find(Ir);
      if (It == ByStr.end()) {
        C.fail("wrong-node", What + ": node " + L + " in " + Name);
        continue;
      }
      Id[K] = It->second;
      C.check(G.insert(It->second).second, "repeated-node", At(What + ": two nodes for " + ir::str(It->second)));
      if (Sci) {
        auto S = getSrcCodeInfoFromIR(It->second);
        std::string W = "File: " + S.SourceCodeFilename + "\nFunction: " + S.SourceCodeFunctionName + "\nIR: " + Ir;
        if (S.Line)
          W += "\nLine: " + to_string(S.Line) + "\nColumn: " + to_string(S.Column);
        C.check(L == W, "label", At(What + ": label " + L));
      }
    }
    C.check(G == Nodes, "missing-node", At(What));
    std::set<E> Es;
    for (auto &[A, B, L] : D.Edge) {
      C.check(Id.count(A) && Id.count(B), "dangling-edge", At(What + ": edge from or to no node"));
      if (Id.count(A) && Id.count(B))
        Es.emplace(Id[A], Id[B], L);
    }
    cmp(Es, true, What);
  }
  // JSON of the ICFG
  for (bool Sci : {false, true}) {
    auto J = nlohmann::json::parse(ICF.exportICFGAsJson(Sci).dump());
    std::string What = Sci ? "JSON with source code" : "JSON";
    C.check(J.is_array() || (J.is_null() && Must.empty()), "syntax", At(What));
    std::set<E> Es;
    auto get = [&](const nlohmann::json &X) -> I {
      std::string S = Sci ? X.at("IR").get<std::string>() : X.get<std::string>();
      auto It = ByStr.find(S);
      C.check(It != ByStr.end(), "wrong-node", At(What + ": " + S));
      if (It == ByStr.end())
        return nullptr;
      if (Sci)
        C.check(X.get<SourceCodeInfo>() == getSrcCodeInfoFromIR(It->second), "label", At(What + ": " + X.dump()));
      return It->second;
    };
    for (auto &X : J) {
      I A = get(X.at("from")), B = get(X.at("to"));
      if (!A || !B)
        continue;
      // a call leads to the first instruction of the callee that has source code
      bool Any = false;
      auto may = [&](I Y) { return std::any_of(May.begin(), May.end(), [&](const E &Z) { return std::get<0>(Z) == A && std::get<1>(Z) == Y; }); };
      if (Sci && llvm::isa<llvm::CallBase>(A))
        for (auto *G : ICF.getCalleesOfCallAt(A))
          if (!G->isDeclaration() && B->getParent() == &G->front()) {
            Es.emplace(A, first(B->getParent()), "");
            Any = true;
          }
      if (!Any || may(B))
        Es.emplace(A, B, "");
    }
    cmp(Es, false, What);
  }
  // the calls alone
  {
    std::string Tx;
    llvm::raw_string_ostream OS(Tx);
    ICF.print(OS);
    auto D = readDot(OS.str(), "CallGraph");
    C.check(D.Err.empty(), "syntax", At("call graph: " + D.Err));
    std::multiset<std::string> Nd, WNd;
    for (auto &[K, L] : D.Node)
      Nd.insert(L);
    for (auto *F : Funs)
      WNd.insert(F->getName().str());
    C.check(Nd == WNd, "functions", At("nodes of the call graph"));
    std::set<std::array<std::string, 3>> Es, W;
    for (auto &[A, B, L] : D.Edge)
      Es.insert({D.Node[A], D.Node[B], L});
    for (auto *F : Funs)
      for (auto &X : llvm::instructions(F))
        if (llvm::isa<llvm::CallBase>(X))
          for (auto *G : ICF.getCalleesOfCallAt(&X))
            W.insert({F->getName().str(), G->getName().str(), llvmIRToStableString(&X)});
    C.check(Es == W, "call-edges", At("call graph: " + to_string(Es.size()) + " edges, expected " + to_string(W.size())));
  }
  // one function
  for (bool Ign : {true, false}) {
    LLVMBasedCFG Cfg(Ign);
    for (auto *F : Funs) {
      if (F->isDeclaration())
        continue;
      auto J = nlohmann::json::parse(Cfg.exportCFGAsJson(F).dump());
      std::set<std::pair<std::string, std::string>> G, W;
      for (auto &X : J)
        G.emplace(X.at("from").get<std::string>(), X.at("to").get<std::string>());
      for (auto &X : llvm::instructions(F)) {
        if (Ign && llvm::isa<llvm::DbgInfoIntrinsic>(X))
          continue;
        if (X.isTerminator())
          for (auto *S : llvm::successors(&X))
            W.emplace(llvmIRToString(&X), llvmIRToString(Ign ? first(S) : &S->front()));
        else
          W.emplace(llvmIRToString(&X), llvmIRToString(Ign ? next(&X) : X.getNextNode()));
      }
      C.check(G == W, "cfg-edges", At("JSON of function " + F->getName().str() + ": " + to_string(G.size()) + " edges, expected " + to_string(W.size())));
    }
  }
  if (C.wantSample())
    C.sample(Name);
}

int main(int Argc, char **Argv) {
  bool T = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough";
  std::vector<mc::Part> Ps;
  static const std::string Kinds = "odghuDerpqP";
  Ps.push_back({"lines", [T](mc::Ctx &C) {
                  Prog P;
                  P.Bs.resize(1);
                  unsigned N = C.choose(T ? 5 : 4);
                  for (unsigned K = 0; K < N; ++K)
                    P.Bs[0].Items += Kinds[C.choose(unsigned(Kinds.size()))];
                  P.Bs[0].T = C.flip() ? 'x' : 'r';
                  P.Callee = C.choose(4);
                  if (C.mine())
                    checkProg(C, P);
                }});
  for (unsigned N : {2u, 3u})
    Ps.push_back({"blocks" + to_string(N), [N, T](mc::Ctx &C) {
                    Prog P;
                    P.Bs.resize(N);
                    std::vector<int> Pad(N, 0); // 1: needs a landing pad, 2: must not have one
                    for (unsigned K = 0; K < N; ++K) {
                      auto &B = P.Bs[K];
                      static const std::string I2 = "oghDePd";
                      if (N == 2 || T) {
                        unsigned It = C.choose(unsigned(N == 2 ? I2.size() : 4) + 1);
                        if (It)
                          B.Items = I2[It - 1];
                      } else if (K == 1 && C.flip()) {
                        B.Items = 'g';
                      }
                      B.T = "rbcsxijS"[C.choose(N == 2 || T ? 8 : 7)];
                      unsigned NS = B.T == 'r' || B.T == 'x' ? 0 : B.T == 'b' ? 1 : 2;
                      for (unsigned J = 0; J < NS; ++J)
                        B.Succ.push_back(C.choose(N));
                      for (unsigned J = 0; J < NS; ++J)
                        Pad[B.Succ[J]] |= (B.T == 'i' || B.T == 'j') && J == 1 ? 1 : 2;
                    }
                    Pad[0] |= 2; // the entry leads there
                    for (auto X : Pad)
                      if (X == 3)
                        return;
                    P.Callee = 2;
                    if (C.mine())
                      checkProg(C, P);
                  }});
  return mc::run(Argc, Argv, Ps);
}
