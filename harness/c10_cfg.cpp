// C10: identities of instructions and values in LLVMProjectIRDB.
// C11 (MC_CFG=1): LLVMBasedCFG and LLVMBasedBackwardCFG against the generated program.
#include "ir.h"
#include "phasar/Config/Configuration.h"
#include "phasar/ControlFlow/SpecialMemberFunctionType.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Support/MemoryBuffer.h"
#include <algorithm>

using namespace psr;
using I = const llvm::Instruction *;

static std::string num(size_t N) { return std::to_string(N); }

//---------------------------------------------------------------- CFG
struct Blk {
  std::string Items; // o: operation, c: call, d: debug intrinsic, l: landingpad, L: field load, S: field store
  enum Term { Ret, Br, Cond, Switch, Unreachable, Invoke, Resume, IndirectBr } T = Ret;
  std::vector<unsigned> Succ;
};
struct CProg {
  std::vector<Blk> B;
  bool Lazy = false; // the conditional branch of block 0 is the check of a lazily initialised static variable
  std::string ir() const {
    std::string S = "declare void @g()\ndeclare i32 @__gxx_personality_v0(...)\ndeclare void @llvm.dbg.value(metadata, metadata, metadata)\n"
                    "declare i32 @__cxa_guard_acquire(i64*)\n@_ZGVZ1fvE1x = global i64 0\n%T = type { i32, i32 }\n"
                    "define void @f(i1 %c, i32 %x, i8* %p, %T* %t) personality i8* bitcast (i32 (...)* @__gxx_personality_v0 to i8*) !dbg !4 {\n";
    for (unsigned K = 0; K < B.size(); ++K) {
      auto &X = B[K];
      auto lbl = [](unsigned T) { return "label %b" + num(T); };
      S += "b" + num(K) + ":\n";
      for (unsigned J = 0; J < X.Items.size(); ++J) {
        auto Id = num(K) + "_" + num(J);
        switch (X.Items[J]) {
        case 'o': S += "  %v" + Id + " = add i32 %x, " + num(J) + "\n"; break;
        case 'c': S += "  call void @g()\n"; break;
        case 'd': S += "  call void @llvm.dbg.value(metadata i32 %x, metadata !7, metadata !DIExpression()), !dbg !8\n"; break;
        case 'l': S += "  %l" + Id + " = landingpad { i8*, i32 } cleanup\n"; break;
        case 'L': S += "  %g" + Id + " = getelementptr %T, %T* %t, i32 0, i32 1\n  %v" + Id + " = load i32, i32* %g" + Id + "\n"; break;
        case 'S': S += "  %g" + Id + " = getelementptr %T, %T* %t, i32 0, i32 1\n  store i32 %x, i32* %g" + Id + "\n"; break;
        case 'G': S += "  %q" + Id + " = call i32 @__cxa_guard_acquire(i64* @_ZGVZ1fvE1x)\n  %k = icmp eq i32 %q" + Id + ", 0\n"; break;
        case 'A':
          S += "  %q" + Id + " = load atomic i8, i8* bitcast (i64* @_ZGVZ1fvE1x to i8*) acquire, align 8\n  %k = icmp eq i8 %q" + Id + ", 0\n";
          break;
        }
      }
      switch (X.T) {
      case Blk::Ret: S += "  ret void\n"; break;
      case Blk::Br: S += "  br " + lbl(X.Succ[0]) + "\n"; break;
      case Blk::Cond: S += std::string("  br i1 ") + (Lazy && K == 0 ? "%k" : "%c") + ", " + lbl(X.Succ[0]) + ", " + lbl(X.Succ[1]) + "\n"; break;
      case Blk::Switch:
        S += "  switch i32 %x, " + lbl(X.Succ[0]) + " [";
        for (unsigned J = 1; J < X.Succ.size(); ++J)
          S += " i32 " + num(J) + ", " + lbl(X.Succ[J]);
        S += " ]\n";
        break;
      case Blk::Unreachable: S += "  unreachable\n"; break;
      case Blk::Invoke: S += "  invoke void @g() to " + lbl(X.Succ[0]) + " unwind " + lbl(X.Succ[1]) + "\n"; break;
      case Blk::Resume: S += "  resume { i8*, i32 } %l" + num(K) + "_" + num(X.Items.find('l')) + "\n"; break;
      case Blk::IndirectBr:
        S += "  indirectbr i8* %p, [";
        for (unsigned J = 0; J < X.Succ.size(); ++J)
          S += (J ? ", " : "") + lbl(X.Succ[J]);
        S += "]\n";
        break;
      }
    }
    S += "}\n!llvm.dbg.cu = !{!0}\n!llvm.module.flags = !{!3}\n!0 = distinct !DICompileUnit(language: DW_LANG_C99, file: !1, producer: \"x\", isOptimized: false, runtimeVersion: 0, "
         "emissionKind: FullDebug, enums: !2)\n!1 = !DIFile(filename: \"a.c\", directory: \"/\")\n!2 = !{}\n!3 = !{i32 2, !\"Debug Info Version\", i32 3}\n"
         "!4 = distinct !DISubprogram(name: \"f\", scope: !1, file: !1, line: 1, type: !5, scopeLine: 1, unit: !0, retainedNodes: !2)\n!5 = !DISubroutineType(types: !6)\n!6 = !{null}\n"
         "!7 = !DILocalVariable(name: \"x\", scope: !4, file: !1, line: 1, type: !9)\n!8 = !DILocation(line: 1, column: 1, scope: !4)\n!9 = !DIBasicType(name: \"int\", size: 32, encoding: DW_ATE_signed)\n";
    return S;
  }
  std::string str() const {
    static const char *TN[] = {"ret", "br", "br.cond", "switch", "unreachable", "invoke", "resume", "indirectbr"};
    std::string S;
    for (unsigned K = 0; K < B.size(); ++K) {
      S += "b" + num(K) + ":" + B[K].Items + "," + TN[B[K].T];
      for (auto X : B[K].Succ)
        S += " b" + num(X);
      S += "; ";
    }
    if (Lazy)
      S += "(lazy static init)";
    return S;
  }
};

// nodes of the model
struct Nd {
  unsigned B;
  char K; // item kind, 't' terminator, 'g': address computation (operation)
  I Inst;
};

static void checkCFG(mc::Ctx &C, const CProg &P, bool FreshCtx = false) {
  auto M = ir::parse(P.ir(), ir::context(FreshCtx));
  auto *F = M->getFunction("f");
  std::vector<std::vector<Nd>> N(P.B.size());
  {
    unsigned K = 0;
    for (auto &BB : *F) {
      std::string Kinds;
      for (char X : P.B[K].Items)
        Kinds += X == 'L' ? "gL" : X == 'S' ? "gS" : X == 'G' ? "cg" : X == 'A' ? "gg" : std::string(1, X);
      Kinds += 't';
      auto It = BB.begin();
      for (char X : Kinds) {
        N[K].push_back({K, X, &*It});
        ++It;
      }
      if (It != BB.end()) {
        fprintf(stderr, "harness error: block layout\n");
        _exit(3);
      }
      ++K;
    }
  }
  LLVMProjectIRDB IRDB(M.get());
  auto name = [&](I X) -> std::string {
    if (!X)
      return "<null>";
    for (auto &Bs : N)
      for (size_t J = 0; J < Bs.size(); ++J)
        if (Bs[J].Inst == X)
          return "b" + num(Bs[J].B) + "[" + num(J) + "]" + Bs[J].K;
    return "<other>";
  };
  auto names = [&](std::vector<I> V) {
    std::vector<std::string> R;
    for (auto X : V)
      R.push_back(name(X));
    std::sort(R.begin(), R.end());
    std::string S;
    for (auto &X : R)
      S += X + " ";
    return S;
  };
  uint64_t NSt = 0;
  bool ResumeFinding = false;
  for (bool Ign : {true, false}) {
    auto vis = [&](const Nd &X) { return !(Ign && X.K == 'd'); };
    auto first = [&](unsigned B) -> I {
      for (auto &X : N[B])
        if (vis(X))
          return X.Inst;
      return nullptr;
    };
    // the model's edges, in order
    std::map<I, std::vector<I>> Succ, Pred;
    std::vector<std::pair<I, I>> Edges;
    std::vector<I> Vis;
    for (auto &Bs : N) {
      I Prev = nullptr;
      for (auto &X : Bs)
        if (vis(X)) {
          Vis.push_back(X.Inst);
          if (Prev) {
            Succ[Prev].push_back(X.Inst);
            Pred[X.Inst].push_back(Prev);
          }
          Prev = X.Inst;
        }
      auto &B = P.B[Bs[0].B];
      bool Lazy = P.Lazy && Bs[0].B == 0;
      for (size_t J = 0; J < B.Succ.size(); ++J)
        if (!Lazy || J == 0)
          Succ[Prev].push_back(first(B.Succ[J]));
      for (auto T : B.Succ) // predecessors keep the "already initialised" edge
        Pred[first(T)].push_back(Prev);
    }
    for (auto &[A, S] : Succ)
      for (auto T : S)
        Edges.emplace_back(A, T);
    std::vector<I> Starts{first(0)}, Exits, Rets;
    for (auto &Bs : N) {
      auto T = P.B[Bs[0].B].T;
      if (T == Blk::Ret || T == Blk::Resume)
        Exits.push_back(Bs.back().Inst);
      if (T == Blk::Ret)
        Rets.push_back(Bs.back().Inst);
    }
    auto has = [](auto &V, I X) { return std::find(V.begin(), V.end(), X) != V.end(); };
    std::string W = P.str() + (Ign ? " [ignoring debug intrinsics] " : " ");
    auto eq = [&](const char *Sig, auto &&Got, const std::vector<I> &Want, const std::string &What) {
      std::vector<I> G(Got.begin(), Got.end()), X = Want;
      std::sort(G.begin(), G.end());
      std::sort(X.begin(), X.end());
      C.check(G == X, Sig, [&] { return What + " = {" + names(G) + "}, expected {" + names(X) + "} in " + W; });
    };
    auto eqE = [&](const char *Sig, std::vector<std::pair<I, I>> G, std::vector<std::pair<I, I>> X) {
      std::sort(G.begin(), G.end());
      std::sort(X.begin(), X.end());
      auto Str = [&](auto &V) {
        std::string S;
        for (auto &E : V)
          S += name(E.first) + "->" + name(E.second) + " ";
        return S;
      };
      C.check(G == X, Sig, [&] { return "edges {" + Str(G) + "}, expected {" + Str(X) + "} in " + W; });
    };
    LLVMBasedCFG Cfg(Ign);
    C.check(Cfg.getIgnoreDbgInstructions() == Ign, "option", W);
    eqE("edges", Cfg.getAllControlFlowEdges(F), Edges);
    eq("starts", Cfg.getStartPointsOf(F), Starts, "start points");
    eq("exits", Cfg.getExitPointsOf(F), Exits, "exit points");
    std::vector<I> All;
    for (auto &Bs : N)
      for (auto &X : Bs)
        All.push_back(X.Inst);
    {
      std::vector<I> G;
      for (auto X : Cfg.getAllInstructionsOf(F))
        G.push_back(X);
      C.check(G == All, "instructions", W);
    }
    LLVMBasedBackwardCFG Bwd(Ign), BwdR(IRDB, Ign);
    auto BR = BwdR.getExitPointsOf(F);
    C.check(BR.size() == 1 && BR[0] && !has(All, BR[0]), "backward return", "the backward CFG has no return of its own in " + W);
    I BRet = BR[0];
    for (auto &Bs : N)
      for (auto &X : Bs) {
        if (!vis(X))
          continue;
        ++NSt;
        I Q = X.Inst;
        auto &S = Succ[Q];
        auto &Pr = Pred[Q];
        C.transition(S.size());
        eq("succs", Cfg.getSuccsOf(Q), S, "successors of " + name(Q));
        eq("preds", Cfg.getPredsOf(Q), Pr, "predecessors of " + name(Q));
        C.check(Cfg.getFunctionOf(Q) == F, "function", W);
        C.check(Cfg.isStartPoint(Q) == has(Starts, Q), "start", [&] { return "isStartPoint(" + name(Q) + ") in " + W; });
        bool IsCall = X.K == 'c' || X.K == 'd' || (X.K == 't' && P.B[X.B].T == Blk::Invoke);
        C.check(Cfg.isCallSite(Q) == IsCall, "call", [&] { return "isCallSite(" + name(Q) + ") in " + W; });
        C.check(Cfg.isFieldLoad(Q) == (X.K == 'L') && Cfg.isFieldStore(Q) == (X.K == 'S'), "field", [&] { return name(Q) + " in " + W; });
        C.check(Cfg.getStatementId(Q) == num(IRDB.getInstructionId(Q)), "statement id", [&] { return name(Q) + " has id " + Cfg.getStatementId(Q) + " in " + W; });
        bool Exit = Cfg.isExitInst(Q);
        if (Exit != has(Exits, Q)) {
          if (!Exit && X.K == 't' && P.B[X.B].T == Blk::Resume)
            ResumeFinding = true;
          else
            C.fail("exit", "isExitInst(" + name(Q) + ") in " + W);
        }
        auto Term = P.B[X.B].T;
        std::vector<I> TS;
        if (X.K == 't')
          for (auto T : P.B[X.B].Succ)
            TS.push_back(first(T));
        for (I O : Vis) {
          C.check(Cfg.isBranchTarget(Q, O) == has(TS, O), "branch target", [&] { return "isBranchTarget(" + name(Q) + ", " + name(O) + ") is wrong in " + W; });
          bool FT = X.K == 't' && (Term == Blk::Br || Term == Blk::Cond) && TS.back() == O;
          C.check(Cfg.isFallThroughSuccessor(Q, O) == FT, "fall through", [&] { return "isFallThroughSuccessor(" + name(Q) + ", " + name(O) + ") is wrong in " + W; });
          for (auto *B : {&Bwd, &BwdR})
            C.check(B->isBranchTarget(O, Q) == has(TS, O), "backward branch target", [&] { return "backward isBranchTarget(" + name(O) + ", " + name(Q) + ") is wrong in " + W; });
        }
        // backward: everything swapped; instructions without predecessors lead to the backward return
        auto PrR = Pr;
        if (Pr.empty())
          PrR.push_back(BRet);
        eq("backward succs", Bwd.getSuccsOf(Q), Pr, "backward successors of " + name(Q));
        eq("backward succs", BwdR.getSuccsOf(Q), PrR, "backward successors of " + name(Q));
        for (auto *B : {&Bwd, &BwdR}) {
          eq("backward preds", B->getPredsOf(Q), S, "backward predecessors of " + name(Q));
          C.check(B->getFunctionOf(Q) == F, "backward function", W);
          bool St = B->isStartPoint(Q);
          if (St != has(Exits, Q)) {
            if (!St && X.K == 't' && Term == Blk::Resume)
              ResumeFinding = true;
            else
              C.fail("backward start", "backward isStartPoint(" + name(Q) + ") in " + W);
          }
        }
        C.check(Bwd.isExitInst(Q) == has(Starts, Q), "backward exit", [&] { return "backward isExitInst(" + name(Q) + ") in " + W; });
        C.check(!BwdR.isExitInst(Q), "backward exit", [&] { return "backward isExitInst(" + name(Q) + ") with explicit returns in " + W; });
      }
    // backward edges
    std::vector<std::pair<I, I>> BE, BER;
    for (I Q : Vis) {
      for (I O : Pred[Q])
        BE.emplace_back(Q, O);
      BER.insert(BER.end(), BE.end() - Pred[Q].size(), BE.end());
      if (Pred[Q].empty())
        BER.emplace_back(Q, BRet);
    }
    eqE("backward edges", Bwd.getAllControlFlowEdges(F), BE);
    eqE("backward edges", BwdR.getAllControlFlowEdges(F), BER);
    for (auto *B : {&Bwd, &BwdR})
      eq("backward starts", B->getStartPointsOf(F), Exits, "backward start points");
    eq("backward exits", Bwd.getExitPointsOf(F), Starts, "backward exit points");
    C.check(BwdR.isExitInst(BRet) && !BwdR.isStartPoint(first(0)) == !has(Exits, first(0)), "backward return", W);
    C.check(BwdR.getFunctionOf(BRet) == F, "backward return", "function of the backward return in " + W);
    C.check(BwdR.getSuccsOf(BRet).empty(), "backward return", "successors of the backward return in " + W);
    {
      // exactly the instructions that lead there: those of the entry (blocks without predecessors are dead code)
      auto G = BwdR.getPredsOf(BRet);
      C.check(std::find(G.begin(), G.end(), Starts[0]) != G.end(), "backward return preds", [&] { return "predecessors of the backward return miss the function's first instruction in " + W; });
      for (I X : G)
        C.check(X && Pred[X].empty(), "backward return preds", W);
    }
    // declarations
    for (auto *D : {M->getFunction("g")}) {
      C.check(Cfg.getStartPointsOf(D).empty() && Cfg.getExitPointsOf(D).empty() && Bwd.getStartPointsOf(D).empty() && Bwd.getExitPointsOf(D).empty() && BwdR.getStartPointsOf(D).empty(),
              "declaration", W);
      C.check(BwdR.getExitPointsOf(D).empty(), "declaration backward", "a declaration has backward exit points");
    }
    for (bool R : {false, true}) {
      auto &B = R ? BwdR : Bwd;
      C.check(B.getStartPointsOf(nullptr).empty() && B.getExitPointsOf(nullptr).empty() && Cfg.getStartPointsOf(nullptr).empty() && Cfg.getExitPointsOf(nullptr).empty(), "null function", "");
    }
    C.outcome(mc::mix(Edges.size(), Exits.size()));
  }
  C.states(NSt);
  C.trace();
  C.nontrivial(mc::hashStr(P.str()));
  if (C.wantSample())
    C.sample(P.str());
  C.check(!ResumeFinding, "resume-no-exit", "isExitInst(resume) is false although getExitPointsOf() lists it, in " + P.str());
}

static void chooseTerm(mc::Ctx &C, Blk &X, unsigned NB, bool Deep) {
  const unsigned K = NB - 1; // possible targets: not the entry
  auto T = [&] { return 1 + C.choose(K); };
  switch (C.choose(K ? (Deep ? 7 : 6) : 2)) {
  case 0: X.T = Blk::Ret; break;
  case 1: X.T = Blk::Unreachable; break;
  case 2:
    X.T = Blk::Br;
    X.Succ = {T()};
    break;
  case 3:
    X.T = Blk::Cond;
    X.Succ.push_back(T());
    X.Succ.push_back(T());
    break;
  case 4:
    X.T = Blk::Switch;
    X.Succ.push_back(T());
    for (unsigned J = C.choose(3); J; --J)
      X.Succ.push_back(T());
    break;
  case 5:
    X.T = Blk::IndirectBr;
    X.Succ.push_back(T());
    break;
  case 6:
    X.T = Blk::IndirectBr;
    X.Succ.push_back(T());
    X.Succ.push_back(T());
    break;
  }
}
static void cfgShapes(mc::Ctx &C, unsigned NB, const std::vector<std::string> &Items, bool Deep) {
  CProg P;
  P.B.resize(NB);
  for (auto &X : P.B) {
    X.Items = Items[C.choose(Items.size())];
    chooseTerm(C, X, NB, Deep);
  }
  if (!C.mine())
    return;
  checkCFG(C, P);
}
// invoke: b0 (entry), b1, b2 ordinary, b3 landing pad
static void cfgInvoke(mc::Ctx &C) {
  CProg P;
  P.B.resize(4);
  static const std::vector<std::string> Items = {"", "d", "o", "dc"};
  for (unsigned K = 0; K < 4; ++K) {
    auto &X = P.B[K];
    if (K == 3) {
      X.Items = std::vector<std::string>{"l", "ld", "lo", "ldc"}[C.choose(4)];
      switch (C.choose(4)) {
      case 0: X.T = Blk::Resume; break;
      case 1: X.T = Blk::Ret; break;
      case 2: X.T = Blk::Unreachable; break;
      case 3:
        X.T = Blk::Br;
        X.Succ = {1 + C.choose(2)};
        break;
      }
      continue;
    }
    X.Items = Items[C.choose(C.thorough() ? 4 : 3)];
    switch (C.choose(4)) {
    case 0: X.T = Blk::Ret; break;
    case 1:
      X.T = Blk::Br;
      X.Succ = {1 + C.choose(2)};
      break;
    case 2:
      X.T = Blk::Invoke;
      X.Succ = {1 + C.choose(2), 3};
      break;
    case 3:
      X.T = Blk::Cond;
      X.Succ = {1, 2};
      break;
    }
  }
  if (!C.mine())
    return;
  checkCFG(C, P);
}
static void cfgFields(mc::Ctx &C) {
  CProg P;
  P.B.resize(2);
  static const std::vector<std::string> Items = {"L", "S", "LS", "dL", "SoL"};
  for (auto &X : P.B) {
    X.Items = Items[C.choose(Items.size())];
    chooseTerm(C, X, 2, false);
  }
  if (!C.mine())
    return;
  checkCFG(C, P, true);
}
static void cfgLazy(mc::Ctx &C) {
  CProg P;
  P.Lazy = true;
  P.B.resize(3);
  static const std::vector<std::string> Items = {"", "d", "o", "do", "od"};
  P.B[0].Items = C.flip() ? "A" : "G";
  if (C.flip())
    P.B[0].Items = "d" + P.B[0].Items;
  if (C.flip())
    P.B[0].Items += "d";
  P.B[0].T = Blk::Cond;
  P.B[0].Succ = {1 + C.choose(2), 1 + C.choose(2)};
  for (unsigned K = 1; K < 3; ++K) {
    P.B[K].Items = Items[C.choose(Items.size())];
    chooseTerm(C, P.B[K], 3, false);
  }
  if (!C.mine())
    return;
  checkCFG(C, P);
}
//---- special member functions: names of the Itanium mangling
static void special(mc::Ctx &C) {
  static const std::vector<std::string> Names = {"A", "C1", "D0", "C12", "aSERKS_", "fooC1", "D2D2D2", "B7C1"};
  auto enc = [](const std::string &S) { return std::to_string(S.size()) + S; };
  std::string S;
  SpecialMemberFunctionType Want = SpecialMemberFunctionType::None;
  switch (C.choose(4)) {
  case 0: // a C name
    S = Names[C.choose(Names.size())];
    break;
  case 1: // a free function
    S = "_Z" + enc(Names[C.choose(Names.size())]);
    S += std::vector<std::string>{"v", "i", "P1A"}[C.choose(3)];
    break;
  default: { // a member of a nested class
    unsigned D = 1 + C.choose(2);
    S = "_ZN";
    for (unsigned K = 0; K < D; ++K)
      S += enc(Names[C.choose(Names.size())]);
    unsigned K = C.choose(9);
    static const char *Mem[] = {"C1Ev", "C2Ei", "D0Ev", "D1Ev", "D2Ev", "aSERKS_", "aSEOS_", "", "aSEi"};
    using T = SpecialMemberFunctionType;
    static const T Ty[] = {T::Constructor, T::Constructor, T::Destructor, T::Destructor, T::Destructor, T::CopyAssignment, T::MoveAssignment, T::None, T::None};
    if (K == 7)
      S += enc(Names[C.choose(Names.size())]) + "Ev";
    else
      S += Mem[K];
    if ((K == 5 || K == 6) && D == 2)
      S.insert(S.size() - 1, "0"), S = S.substr(0, S.rfind('S')) + "S0_"; // the class is the second substitution
    Want = Ty[K];
    if ((K == 5 || K == 6) && D == 2)
      return; // spelled with another substitution, which the classification does not cover
  }
  }
  if (!C.mine())
    return;
  auto &Ctx = ir::context();
  llvm::Module M("m", Ctx);
  auto *F = llvm::Function::Create(llvm::FunctionType::get(llvm::Type::getVoidTy(Ctx), false), llvm::Function::ExternalLinkage, S, M);
  LLVMBasedCFG Cfg;
  auto Got = Cfg.getSpecialMemberFunctionType(F);
  auto str = [](SpecialMemberFunctionType T) { return psr::toString(T); };
  C.trace();
  C.state(mc::hashStr(S));
  C.transition();
  C.outcome(int(Got));
  if (Want != SpecialMemberFunctionType::None)
    C.nontrivial(mc::hashStr(S));
  if (C.wantSample())
    C.sample(S + " is " + str(Want));
  C.check(Got == Want, "special member", [&] { return S + " is classified as " + str(Got) + ", expected " + str(Want); });
  C.check(Cfg.isSpecialMemberFunction(F) == (Want != SpecialMemberFunctionType::None), "special member", S);
  C.check(Cfg.getFunctionName(F) == S, "name", S);
}

//---------------------------------------------------------------- IRDB
struct FnSpec {
  std::string Name;
  unsigned Args;
  int Body; // -1: declaration, else number of blocks * ...
};
static std::string fnText(const FnSpec &F) {
  std::string A;
  for (unsigned K = 0; K < F.Args; ++K)
    A += (K ? ", i32" : "i32") + (F.Body < 0 ? std::string() : " %a" + num(K));
  if (F.Body < 0)
    return "declare void @\"" + F.Name + "\"(" + A + ")\n";
  std::string S = "define void @\"" + F.Name + "\"(" + A + ") {\nb0:\n";
  for (int K = 0; K < F.Body; ++K) {
    S += "  %v" + num(K) + " = add i32 1, " + num(K) + "\n";
    if (K % 2)
      S += "  br label %c" + num(K) + "\nc" + num(K) + ":\n";
  }
  return S + "  ret void\n}\n";
}

static void irdb(mc::Ctx &C, unsigned NF) {
  static const std::vector<std::string> Names = {"f", "f.1", "f.1.0", "3", "g.cold"};
  unsigned NG = C.choose(3);
  std::vector<FnSpec> Fs;
  std::vector<bool> Used(Names.size());
  for (unsigned K = 0; K < NF; ++K) {
    unsigned X = C.choose(Names.size());
    if (Used[X])
      return;
    Used[X] = true;
    unsigned B = C.choose(C.thorough() ? 5 : 4);
    Fs.push_back({Names[X], C.choose(3), B == 0 ? -1 : int(B) - 1});
  }
  unsigned Inserted = C.choose(3); // functions added afterwards
  unsigned Mode = C.choose(5);     // how the IRDB is made
  if (!C.mine())
    return;
  std::string T;
  for (unsigned K = 0; K < NG; ++K)
    T += K ? "@h" + num(K) + " = external global i32\n" : "@h0 = global i32 0\n";
  for (auto &F : Fs)
    T += fnText(F);
  static const char *ModeN[] = {"module", "module without preprocessing", "owned module", "buffer", "module preprocessed before"};
  std::string W = std::string(ModeN[Mode]) + ", " + num(Inserted) + " functions inserted:\n" + T;
  auto &Ctx = ir::context();
  std::unique_ptr<llvm::Module> M;
  std::unique_ptr<llvm::MemoryBuffer> Buf;
  if (Mode == 3)
    Buf = llvm::MemoryBuffer::getMemBuffer(T, "m.ll");
  else
    M = ir::parse(T, Ctx);
  llvm::Module *Raw = M.get();
  {
    if (Mode == 4)
      LLVMProjectIRDB Before(Raw);
    std::unique_ptr<LLVMProjectIRDB> DB;
    switch (Mode) {
    case 0:
    case 4: DB = std::make_unique<LLVMProjectIRDB>(Raw); break;
    case 1: DB = std::make_unique<LLVMProjectIRDB>(Raw, false); break;
    case 2: DB = std::make_unique<LLVMProjectIRDB>(std::move(M), true); break;
    case 3:
      DB = std::make_unique<LLVMProjectIRDB>(Buf->getMemBufferRef());
      Raw = DB->getModule();
      break;
    }
    C.check(DB->isValid() && bool(*DB) && DB->getModule() == Raw, "valid", W);
    std::vector<const llvm::Value *> Order;
    for (auto &G : Raw->globals())
      Order.push_back(&G);
    auto addF = [&](llvm::Function &F) {
      for (auto &B : F)
        for (auto &X : B)
          Order.push_back(&X);
    };
    for (auto &F : *Raw)
      addF(F);
    auto verify = [&](const std::string &When) {
      auto What = [&] { return When + " " + W; };
      C.check(DB->getNumInstructions() == Order.size() - NG, "count", What);
      C.check(DB->getNumGlobals() == NG && DB->getNumFunctions() == Raw->size(), "count", What);
      std::vector<const llvm::Value *> Got;
      for (auto *X : DB->getAllInstructions())
        Got.push_back(X);
      C.check(Got == std::vector<const llvm::Value *>(Order.begin() + NG, Order.end()), "all instructions", What);
      for (size_t K = 0; K < Order.size() + 3; ++K) {
        auto *V = K < Order.size() ? Order[K] : nullptr;
        C.check(DB->getValueFromId(K) == V, "value of id", [&] { return num(K) + " " + What(); });
        C.check(DB->getInstruction(K) == (V ? llvm::dyn_cast<llvm::Instruction>(V) : nullptr), "instruction of id", [&] { return num(K) + " " + What(); });
        if (auto *X = llvm::dyn_cast_or_null<llvm::Instruction>(V))
          C.check(DB->getInstructionId(X) == K, "id of instruction", [&] { return num(K) + " " + What(); });
        if (V && Mode != 1) {
          C.check(getMetaDataID(V) == num(K), "metadata id", [&] { return num(K) + " is '" + getMetaDataID(V) + "' " + What(); });
          C.check(fromMetaDataId(*DB, getMetaDataID(V)) == V, "from metadata id", [&] { return num(K) + " " + What(); });
        }
        if (!V)
          C.check(fromMetaDataId(*DB, num(K)) == nullptr, "from metadata id", [&] { return num(K) + " " + What(); });
        C.transition();
      }
      C.check(!DB->getInstruction(size_t(-1)) && !DB->getValueFromId(size_t(-1)), "instruction of id", What);
      for (auto &F : *Raw) {
        for (auto &A : F.args())
          C.check(fromMetaDataId(*DB, getMetaDataID(&A)) == &A, "argument of id",
                  [&] { return "fromMetaDataId(" + getMetaDataID(&A) + ") is " + ir::str(fromMetaDataId(*DB, getMetaDataID(&A))) + " " + What(); });
        C.check(!fromMetaDataId(*DB, F.getName().str() + "." + num(F.arg_size())) || Raw->getFunction(F.getName().str().substr(0, F.getName().find('.'))) != &F, "argument out of range", What);
        C.check(DB->getFunction(F.getName()) == &F && DB->hasFunction(F.getName()), "function", What);
        C.check(DB->getFunctionDefinition(F.getName()) == (F.isDeclaration() ? nullptr : &F), "definition", What);
      }
      C.check(!DB->getFunction("nope") && !DB->hasFunction("nope") && !DB->getFunctionDefinition("nope"), "function", What);
      for (unsigned K = 0; K < 3; ++K) {
        auto *G = DB->getGlobalVariableDefinition("h" + num(K));
        C.check((G != nullptr) == (K == 0 && NG > 0), "global", What);
      }
      for (const char *Bad : {"", "-1", "x", "1x", "f.", "f.x", "nope.0", ".", "99999999999999999999", "1.5x", " 1"})
        C.check(!fromMetaDataId(*DB, Bad), "invalid id", [&] { return "fromMetaDataId('" + std::string(Bad) + "') is " + ir::str(fromMetaDataId(*DB, Bad)) + " " + What(); });
      std::set<const llvm::Function *> AF;
      for (auto *F : DB->getAllFunctions())
        AF.insert(F);
      C.check(AF.size() == Raw->size(), "all functions", What);
      C.state(mc::mix(mc::hashStr(W), mc::hashStr(When)));
    };
    verify("initially");
    for (unsigned K = 0; K < Inserted; ++K) {
      auto &Cx = Raw->getContext();
      auto *I32 = llvm::Type::getInt32Ty(Cx);
      auto *F = llvm::Function::Create(llvm::FunctionType::get(I32, {I32}, false), llvm::Function::InternalLinkage, "new." + num(K), Raw);
      auto *B0 = llvm::BasicBlock::Create(Cx, "", F);
      llvm::IRBuilder<> B(B0);
      auto *X = B.CreateAdd(F->getArg(0), F->getArg(0));
      if (K)
        B.CreateRet(X);
      else {
        auto *B1 = llvm::BasicBlock::Create(Cx, "", F);
        B.CreateBr(B1);
        B.SetInsertPoint(B1);
        B.CreateRet(X);
      }
      DB->insertFunction(F, Mode != 1);
      addF(*F);
      verify("after inserting " + num(K + 1));
    }
    // print with ids, read again: the ids of a fresh IRDB follow the order in the module
    std::string Out;
    llvm::raw_string_ostream OS(Out);
    DB->emitPreprocessedIR(OS);
    OS.flush();
    llvm::LLVMContext Ctx2;
    auto B2 = llvm::MemoryBuffer::getMemBuffer(Out, "m2.ll");
    LLVMProjectIRDB DB2(B2->getMemBufferRef());
    C.check(DB2.isValid(), "emitted", [&] { return "emitPreprocessedIR() does not parse: " + W + "\n" + Out; });
    C.check(DB2.getNumInstructions() == DB->getNumInstructions() && DB2.getNumFunctions() == DB->getNumFunctions(), "emitted", W);
    if (Inserted == 0)
      for (size_t K = NG; K < Order.size(); ++K)
        C.check(DB2.getInstruction(K)->getOpcode() == DB->getInstruction(K)->getOpcode() && getMetaDataID(DB2.getInstruction(K)) == num(K) &&
                    DB2.getInstruction(K)->getFunction()->getName() == DB->getInstruction(K)->getFunction()->getName(),
                "emitted ids", [&] { return num(K) + " " + W + "\n" + Out; });
    // every id is printed next to its instruction
    for (size_t K = 0; K < Order.size(); ++K)
      C.check(Out.find("; | ID: " + num(K)) != std::string::npos, "printed id", [&] { return num(K) + " " + W + "\n" + Out; });
  }
  C.trace();
  C.nontrivial(mc::hashStr(W));
  C.outcome(mc::mix(Mode, Inserted));
  if (C.wantSample())
    C.sample(W);
}
// invalid inputs never yield a usable database, and never crash
static void invalid(mc::Ctx &C) {
  static const std::vector<std::string> Texts = {"", "define", "define void @f() { ret i32 0 }", "@g = global i32 0", "define void @f() {\nb:\n  br label %x\n}\n",
                                                  "define i32 @f() {\n  %a = add i32 %b, 1\n  %b = add i32 %a, 1\n  ret i32 %a\n}\n"};
  static const bool Ok[] = {true, false, false, true, false, false};
  unsigned K = C.choose(Texts.size());
  unsigned Via = C.choose(2);
  if (!C.mine())
    return;
  bool Valid;
  if (Via) {
    auto B = llvm::MemoryBuffer::getMemBuffer(Texts[K], "m.ll");
    LLVMProjectIRDB DB(B->getMemBufferRef());
    Valid = DB.isValid();
    DB.dump();
  } else {
    std::string Dir = getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp";
    auto File = Dir + "/in" + num(K) + "_" + num(getpid()) + ".ll";
    std::ofstream(File) << Texts[K];
    LLVMProjectIRDB DB(File);
    Valid = DB.isValid();
    unlink(File.c_str());
    LLVMProjectIRDB DB2(Dir + "/does-not-exist.ll");
    C.check(!DB2.isValid(), "missing file", "");
  }
  C.check(Valid == Ok[K], "invalid input", "isValid() is " + num(Valid) + " for: " + Texts[K]);
  C.trace();
  C.state(mc::hashStr(Texts[K]));
  C.transition();
  C.nontrivial(K);
  C.outcome(Valid);
}

int main(int argc, char **argv) {
  std::vector<mc::Part> Parts;
  if (getenv("MC_CFG")) {
    static const std::vector<std::string> Few = {"", "d", "o"}, Many = {"", "d", "o", "do", "od", "dd", "dod", "cd", "dc"};
    Parts.push_back({"one_block", [](mc::Ctx &C) { cfgShapes(C, 1, Many, true); }});
    Parts.push_back({"two_blocks", [](mc::Ctx &C) { cfgShapes(C, 2, Many, true); }});
    Parts.push_back({"invoke", cfgInvoke});
    Parts.push_back({"fields", cfgFields});
    Parts.push_back({"lazy_static", cfgLazy});
    Parts.push_back({"special_members", special});
    Parts.push_back({"three_blocks", [](mc::Ctx &C) { cfgShapes(C, 3, C.thorough() ? Many : Few, C.thorough()); }});
  } else {
    Parts.push_back({"invalid", invalid});
    for (unsigned N : {0u, 1u, 2u, 3u})
      Parts.push_back({"irdb_" + num(N), [N](mc::Ctx &C) {
                         if (N == 3 && !C.thorough())
                           return;
                         irdb(C, N);
                       }});
  }
  return mc::run(argc, argv, Parts, {});
}
