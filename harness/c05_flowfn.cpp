// Flow-function templates against the relations their documentation states.
#include "ir.h"
#include "phasar/DataFlow/IfdsIde/FlowFunctions.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include <unordered_set>

using namespace psr;
static constexpr int NF = 4;
using Rel = std::array<unsigned, NF>; // fact -> mask of facts

// A fact that notices when it is used after having been moved from.
struct Fact {
  int X = -1;
  Fact() = default;
  Fact(int X) : X(X) {}
  Fact(const Fact &) = default;
  Fact &operator=(const Fact &) = default;
  Fact(Fact &&O) noexcept : X(O.X) { O.X = -2; }
  Fact &operator=(Fact &&O) noexcept {
    X = O.X;
    if (&O != this)
      O.X = -2;
    return *this;
  }
  friend bool operator==(const Fact &A, const Fact &B) { return A.X == B.X; }
  friend bool operator!=(const Fact &A, const Fact &B) { return A.X != B.X; }
  friend bool operator<(const Fact &A, const Fact &B) { return A.X < B.X; }
};
template <> struct std::hash<Fact> {
  size_t operator()(const Fact &F) const { return F.X; }
};

template <typename D> int num(const D &X);
template <> int num(const int &X) { return X; }
template <> int num(const Fact &X) { return X.X; }

template <typename Cont> std::string show(const Cont &C) {
  std::string S = "{";
  for (auto &X : C)
    S += (S.size() > 1 ? "," : "") + std::to_string(num(X));
  return S + "}";
}
static std::string showM(unsigned M) {
  std::string S = "{";
  for (int I = 0; I < NF; ++I)
    if (M >> I & 1)
      S += (S.size() > 1 ? "," : "") + std::to_string(I);
  return S + "}";
}

template <typename D, typename Cont> struct G {
  using FF = FlowFunctionPtrType<D, Cont>;
  using T = FlowFunctionTemplates<D, Cont>;
  mc::Ctx &C;
  std::string Desc;

  Cont mk(unsigned M) {
    Cont R;
    for (int I = 0; I < NF; ++I)
      if (M >> I & 1)
        R.insert(D(I));
    return R;
  }
  std::vector<D> mkVec(unsigned M) {
    std::vector<D> R;
    for (int I = NF; I-- > 0;)
      if (M >> I & 1)
        R.push_back(D(I));
    return R;
  }
  static Rel id() {
    Rel R;
    for (int I = 0; I < NF; ++I)
      R[I] = 1u << I;
    return R;
  }
  // a leaf: the real flow function and its documented relation
  std::pair<FF, Rel> leaf() {
    Rel R = id();
    auto K = C.choose(13);
    auto P = [&] { return int(C.choose(NF)); };
    auto M = [&] { return C.choose(1u << NF); };
    switch (K) {
    case 0:
      Desc += "identity";
      return {T::identityFlow(), R};
    case 1: {
      auto A = M(), B = M();
      Desc += "lambda(even " + showM(A) + " odd " + showM(B) + ")";
      for (int I = 0; I < NF; ++I)
        R[I] = I % 2 ? B : A;
      return {T::lambdaFlow([A, B, this](D S) { return mk(num(S) % 2 ? B : A); }), R};
    }
    case 2: {
      int V = P(), W = P();
      Desc += "generateFlow(" + std::to_string(V) + "," + std::to_string(W) + ")";
      R[W] |= 1u << V;
      return {T::generateFlow(D(V), D(W)), R};
    }
    case 3: {
      int V = P();
      unsigned A = M();
      Desc += "generateFlowIf(" + std::to_string(V) + "," + showM(A) + ")";
      for (int I = 0; I < NF; ++I)
        if (A >> I & 1)
          R[I] |= 1u << V;
      return {T::generateFlowIf(D(V), [A](const D &S) { return (A >> num(S) & 1) != 0; }), R};
    }
    case 4: {
      unsigned A = M();
      int W = P();
      bool Vec = C.flip();
      Desc += "generateManyFlows(" + showM(A) + "," + std::to_string(W) + ")";
      R[W] |= A;
      if (Vec)
        return {T::generateManyFlows(mkVec(A), D(W)), R};
      return {T::generateManyFlows(mk(A), D(W)), R};
    }
    case 5: {
      int V = P();
      Desc += "killFlow(" + std::to_string(V) + ")";
      R[V] = 0;
      return {T::killFlow(D(V)), R};
    }
    case 6: {
      unsigned A = M();
      Desc += "killFlowIf(" + showM(A) + ")";
      for (int I = 0; I < NF; ++I)
        if (A >> I & 1)
          R[I] = 0;
      return {T::killFlowIf([A](const D &S) { return (A >> num(S) & 1) != 0; }), R};
    }
    case 7: {
      unsigned A = M();
      bool Vec = C.flip();
      Desc += "killManyFlows(" + showM(A) + ")";
      for (int I = 0; I < NF; ++I)
        if (A >> I & 1)
          R[I] = 0;
      if (Vec)
        return {T::killManyFlows(mkVec(A)), R};
      return {T::killManyFlows(mk(A)), R};
    }
    case 8:
      Desc += "killAllFlows";
      return {T::killAllFlows(), Rel{}};
    case 9: {
      int V = P(), W = P();
      Desc += "generateFlowAndKillAllOthers(" + std::to_string(V) + "," + std::to_string(W) + ")";
      R = {};
      R[W] = 1u << V | 1u << W;
      return {T::generateFlowAndKillAllOthers(D(V), D(W)), R};
    }
    case 10: {
      unsigned A = M();
      int W = P();
      bool Vec = C.flip();
      Desc += "generateManyFlowsAndKillAllOthers(" + showM(A) + "," + std::to_string(W) + ")";
      R = {};
      R[W] = A | 1u << W;
      if (Vec)
        return {T::generateManyFlowsAndKillAllOthers(mkVec(A), D(W)), R};
      return {T::generateManyFlowsAndKillAllOthers(mk(A), D(W)), R};
    }
    case 11: {
      int V = P(), W = P();
      Desc += "transferFlow(" + std::to_string(V) + "," + std::to_string(W) + ")";
      R[V] = 0;
      R[W] = 1u << V | 1u << W;
      return {T::transferFlow(D(V), D(W)), R};
    }
    default: {
      int V = P(), W = P(), Z = P();
      Desc += "generateManyFlows({" + std::to_string(V) + "," + std::to_string(Z) + "}," + std::to_string(W) + ")";
      R[W] |= 1u << V | 1u << Z;
      return {T::generateManyFlows({D(V), D(Z)}, D(W)), R};
    }
    }
  }
  // fewer leaves for the nested terms
  std::pair<FF, Rel> small() {
    Rel R = id();
    switch (C.choose(8)) {
    case 0:
      Desc += "identity";
      return {T::identityFlow(), R};
    case 1: {
      int V = C.choose(NF), W = C.choose(NF);
      Desc += "generateFlow(" + std::to_string(V) + "," + std::to_string(W) + ")";
      R[W] |= 1u << V;
      return {T::generateFlow(D(V), D(W)), R};
    }
    case 2: {
      int V = C.choose(NF);
      Desc += "killFlow(" + std::to_string(V) + ")";
      R[V] = 0;
      return {T::killFlow(D(V)), R};
    }
    case 3:
      Desc += "killAllFlows";
      return {T::killAllFlows(), Rel{}};
    case 4: {
      int V = C.choose(NF), W = C.choose(NF);
      Desc += "transferFlow(" + std::to_string(V) + "," + std::to_string(W) + ")";
      R[V] = 0;
      R[W] = 1u << V | 1u << W;
      return {T::transferFlow(D(V), D(W)), R};
    }
    case 5: {
      unsigned A = C.choose(1u << NF);
      Desc += "killManyFlows(" + showM(A) + ")";
      for (int I = 0; I < NF; ++I)
        if (A >> I & 1)
          R[I] = 0;
      return {T::killManyFlows(mk(A)), R};
    }
    case 6: {
      unsigned A = C.choose(1u << NF);
      Desc += "generateManyFlowsAndKillAllOthers(" + showM(A) + ",0)";
      R = {};
      R[0] = A | 1;
      return {T::generateManyFlowsAndKillAllOthers(mk(A), D(0)), R};
    }
    default: {
      unsigned A = C.choose(1u << NF);
      Desc += "lambda(const " + showM(A) + ")";
      for (auto &X : R)
        X = A;
      return {T::lambdaFlow([A, this](D) { return mk(A); }), R};
    }
    }
  }
  // checks F against R on every history of three evaluations
  void compare(const FF &F, const Rel &R) {
    for (int A = 0; A < NF; ++A)
      for (int B = 0; B < NF; ++B)
        for (int S : {A, B, A}) {
          auto Got = F->computeTargets(D(S));
          unsigned M = 0;
          for (auto &X : Got) {
            int N = num(X);
            C.check(N >= 0 && N < NF, "targets:moved-from", [&] { return Desc + ": f(" + std::to_string(S) + ") = " + show(Got); });
            M |= 1u << N;
          }
          C.check(M == R[S], "targets", [&] { return Desc + ": f(" + std::to_string(S) + ") = " + show(Got) + ", documented " + showM(R[S]); });
          C.transition();
        }
    C.trace();
    uint64_t H = mc::hashStr(Desc);
    C.state(H);
    if (R != id())
      C.nontrivial(H);
    C.outcome(R[0] | R[1] << 4 | R[2] << 8 | R[3] << 12);
    if (C.wantSample())
      C.sample(Desc);
  }
};

template <typename D, typename Cont> void leaves(mc::Ctx &C) {
  G<D, Cont> X{C, {}};
  bool Zeroed = C.flip();
  auto L = X.leaf();
  if (!C.mine())
    return;
  if (Zeroed) {
    X.Desc = "zeroed " + X.Desc;
    L.first = std::make_shared<ZeroedFlowFunction<D, Cont>>(L.first, D(0));
    L.second[0] |= 1;
  }
  X.compare(L.first, L.second);
}
template <typename D, typename Cont> void unions(mc::Ctx &C) {
  using B = FlowFunction<D, Cont>;
  G<D, Cont> X{C, {}};
  X.Desc = "union(";
  auto L = X.small();
  X.Desc += ", ";
  auto R = X.small();
  bool Third = C.thorough() && C.flip();
  std::pair<typename G<D, Cont>::FF, Rel> Q;
  if (Third) {
    X.Desc += ", ";
    Q = X.small();
  }
  if (!C.mine())
    return;
  X.Desc += ")";
  FlowFunctionTemplates<D, Cont> T;
  typename G<D, Cont>::FF U = T.template unionFlows<B, B>(L.first, R.first);
  Rel Rl;
  for (int I = 0; I < NF; ++I)
    Rl[I] = L.second[I] | R.second[I];
  if (Third) {
    U = T.template unionFlows<B, B>(Q.first, U);
    for (int I = 0; I < NF; ++I)
      Rl[I] |= Q.second[I];
  }
  X.compare(U, Rl);
}

// The old class templates, still public.
template <typename D> void oldTemplates(mc::Ctx &C) {
  using Cont = std::set<D>;
  using FF = FlowFunctionPtrType<D, Cont>;
  G<D, Cont> X{C, {}};
  Rel R = X.id();
  FF F;
  auto P = [&] { return int(C.choose(NF)); };
  auto M = [&] { return C.choose(1u << NF); };
  switch (C.choose(15)) {
  case 0:
    X.Desc = "Identity";
    F = Identity<D>::getInstance();
    break;
  case 1: {
    auto A = M();
    X.Desc = "makeLambdaFlow " + showM(A);
    for (auto &Y : R)
      Y = A;
    F = makeLambdaFlow<D>([A, X](D) mutable { return X.mk(A); });
    break;
  }
  case 2: {
    int V = P(), W = P();
    X.Desc = "Gen";
    R[W] |= 1u << V;
    F = std::make_shared<Gen<D>>(D(V), D(W));
    break;
  }
  case 3: {
    int V = P();
    auto A = M();
    X.Desc = "GenIf";
    for (int I = 0; I < NF; ++I)
      if (A >> I & 1)
        R[I] |= 1u << V;
    F = std::make_shared<GenIf<D>>(D(V), [A](D S) { return (A >> num(S) & 1) != 0; });
    break;
  }
  case 4: {
    auto B = M(), A = M();
    X.Desc = "GenIf many";
    for (int I = 0; I < NF; ++I)
      if (A >> I & 1)
        R[I] |= B;
    F = std::make_shared<GenIf<D>>(X.mk(B), [A](D S) { return (A >> num(S) & 1) != 0; });
    break;
  }
  case 5: {
    auto A = M();
    int W = P();
    X.Desc = "GenAll";
    R[W] |= A;
    F = std::make_shared<GenAll<D>>(X.mk(A), D(W));
    break;
  }
  case 6: {
    int V = P();
    X.Desc = "Kill";
    R[V] = 0;
    F = std::make_shared<Kill<D>>(D(V));
    break;
  }
  case 7: {
    auto A = M();
    X.Desc = "KillIf";
    for (int I = 0; I < NF; ++I)
      if (A >> I & 1)
        R[I] = 0;
    F = std::make_shared<KillIf<D>>([A](D S) { return (A >> num(S) & 1) != 0; });
    break;
  }
  case 8: {
    auto A = M();
    X.Desc = "KillMultiple";
    for (int I = 0; I < NF; ++I)
      if (A >> I & 1)
        R[I] = 0;
    F = std::make_shared<KillMultiple<D>>(X.mk(A));
    break;
  }
  case 9:
    X.Desc = "KillAll";
    R = {};
    F = KillAll<D>::getInstance();
    break;
  case 10: {
    int V = P(), W = P();
    X.Desc = "GenAndKillAllOthers";
    R = {};
    R[W] = 1u << V | 1u << W;
    F = std::make_shared<GenAndKillAllOthers<D>>(D(V), D(W));
    break;
  }
  case 11: {
    auto A = M();
    int W = P();
    X.Desc = "GenAllAndKillAllOthers";
    R = {};
    R[W] = A | 1u << W;
    F = std::make_shared<GenAllAndKillAllOthers<D>>(X.mk(A), D(W));
    break;
  }
  case 12: {
    int V = P(), W = P();
    X.Desc = "Transfer";
    R[V] = 0;
    R[W] = 1u << V | 1u << W;
    F = std::make_shared<Transfer<D>>(D(V), D(W));
    break;
  }
  default: {
    bool Comp = C.flip();
    auto N = C.choose(C.thorough() ? 4 : 3);
    X.Desc = Comp ? "Compose(" : "Union(";
    std::vector<FF> Fs;
    std::vector<Rel> Rs;
    for (unsigned I = 0; I < N; ++I) {
      auto L = X.small();
      X.Desc += ";";
      Fs.push_back(L.first);
      Rs.push_back(L.second);
    }
    bool Factory = Comp && C.flip();
    if (Comp)
      F = Factory ? Compose<D>::compose(Fs) : std::make_shared<Compose<D>>(Fs);
    else
      F = std::make_shared<Union<D>>(Fs);
    for (int S = 0; S < NF; ++S) {
      unsigned Cur = Comp || !N ? 1u << S : 0;
      for (auto &Y : Rs)
        if (Comp) {
          unsigned Nx = 0;
          for (int I = 0; I < NF; ++I)
            if (Cur >> I & 1)
              Nx |= Y[I];
          Cur = Nx;
        } else
          Cur |= Y[S];
      R[S] = Cur;
    }
  }
  }
  if (C.mine())
    X.compare(F, R);
}

// ---------------------------------------------------------------- LLVM templates
using V = const llvm::Value *;
using VSet = std::set<V>;
static std::string showV(const VSet &S) {
  std::string R = "{";
  for (auto *X : S)
    R += (R.size() > 1 ? "; " : "") + (LLVMZeroValue::isLLVMZeroValue(X) ? "ZERO" : ir::str(X));
  return R + "}";
}

static void calls(mc::Ctx &C) {
  unsigned NP = C.choose(3);        // parameters of the callee
  unsigned Extra = C.choose(3);     // extra actuals (variadic callee) - 0: not variadic, 1: variadic, one extra, 2: two extra
  bool VaList = Extra && C.flip();  // does the callee use a va_list
  unsigned SRet = NP ? C.choose(1 + NP) : 0; // which parameter is sret: 1 the first, 2 the second
  bool Decl = C.flip();
  unsigned Act[4];
  unsigned NA = NP + Extra;
  for (unsigned I = 0; I < NA; ++I)
    Act[I] = C.choose(4);
  unsigned RV = Decl ? 0 : SRet ? 0 : C.choose(3 + NP); // 0 void, 1 local, 2 @g, 3.. parameter
  unsigned Which = C.choose(3);                         // alongside, callee, caller
  bool PG = C.flip(), PZ = C.flip();
  unsigned Pred = C.choose(4);
  if (Which == 2 && Decl)
    return;
  if (!C.mine())
    return;
  static const char *Actuals[] = {"%x", "%y", "@g", "null"};
  std::string Ty = RV ? "i8*" : "void";
  auto Params = [&](bool Names, bool Attrs = true) {
    std::string S;
    for (unsigned I = 0; I < NP; ++I)
      S += std::string(I ? ", " : "") + "i8* " + (I + 1 == SRet && Attrs ? "sret(i8) " : "") + (Names ? "%p" + std::to_string(I) : "");
    if (Extra)
      S += NP ? ", ..." : "...";
    return S;
  };
  std::string T = "%struct.__va_list_tag = type { i32, i32, i8*, i8* }\n@g = global i8 0\n";
  if (Decl)
    T += "declare " + Ty + " @f(" + Params(false) + ")\n";
  else {
    T += "define " + Ty + " @f(" + Params(true) + ") {\n  %l = alloca i8\n  %other = alloca [1 x i8]\n";
    if (VaList)
      T += "  %va = alloca [1 x %struct.__va_list_tag], align 16\n";
    T += RV == 0 ? "  ret void\n}\n"
                 : "  ret i8* " + std::string(RV == 1 ? "%l" : RV == 2 ? "@g" : RV == 3 ? "%p0" : "%p1") + "\n}\n";
  }
  T += "define void @caller(i8* %x, i8* %y) {\n  %u = alloca i8\n  " + std::string(RV ? "%r = " : "") + "call " + Ty + " (" +
       Params(false, false) + ") @f(";
  for (unsigned I = 0; I < NA; ++I)
    T += std::string(I ? ", " : "") + "i8* " + (I + 1 == SRet ? "sret(i8) " : "") + Actuals[Act[I]];
  T += ")\n  ret void\n}\n";
  auto M = ir::parse(T, ir::context(VaList)); // the type is recognized by its name
  auto *Callee = M->getFunction("f"), *Caller = M->getFunction("caller");
  const llvm::CallBase *CS = nullptr;
  for (auto &I : llvm::instructions(Caller))
    if (auto *X = llvm::dyn_cast<llvm::CallBase>(&I))
      CS = X;
  V Zero = LLVMZeroValue::getInstance();
  V X = ir::val(Caller, "x"), Y = ir::val(Caller, "y"), G = M->getGlobalVariable("g");
  V Null = llvm::ConstantPointerNull::get(llvm::Type::getInt8PtrTy(M->getContext()));
  std::vector<V> Facts{Zero, X, Y, G, Null, ir::val(Caller, "u"), CS};
  for (auto *N : {"p0", "p1", "l", "va", "other"})
    if (auto *W = ir::val(Callee, N))
      Facts.push_back(W);
  V Va = Decl ? nullptr : ir::val(Callee, "va");
  // predicate: does fact S flow through value A
  V P0 = Decl || !NP ? nullptr : Callee->getArg(0);
  auto Sel = [&](V A, V S) -> bool {
    switch (Pred) {
    case 0:
      return A == S;
    case 1:
      return false;
    case 2: // zero generates x / p0 at this call
      return A == S || (S == Zero && (A == X || (P0 && A == P0)));
    default: // y is a fact about everything
      return A == S || S == Y || (P0 && S == P0);
    }
  };
  FlowFunctionPtrType<V> F;
  const llvm::Instruction *Exit = Decl ? nullptr : Callee->getEntryBlock().getTerminator();
  auto KeepArg = [&](V A) { return Pred == 0 ? true : Pred == 1 ? false : A == (Pred == 2 ? X : Y); };
  if (Which == 0) {
    if (Pred == 0 && PG && !PZ)
      F = mapFactsAlongsideCallSite(CS);
    else
      F = mapFactsAlongsideCallSite(CS, KeepArg, PG);
  } else if (Which == 1) {
    if (Pred == 0 && PG && PZ)
      F = mapFactsToCallee(CS, Callee);
    else
      F = mapFactsToCallee(CS, Callee, Sel, DefaultConstruct<V>{}, PG, PZ);
  } else {
    if (Pred == 0 && PG && PZ)
      F = mapFactsToCaller(CS, Exit);
    else
      F = mapFactsToCaller(CS, Exit, Sel, Sel, DefaultConstruct<V>{}, PG, PZ);
  }
  auto IsConst = [](V A) { return llvm::isa<llvm::Constant>(A); };
  for (int Round = 0; Round < 2; ++Round)
    for (auto *S : Facts) {
      auto Got = F->computeTargets(S);
      VSet Want;
      if (Which == 0) {
        bool IsArg = false, Keep = true;
        for (unsigned I = 0; I < NA; ++I)
          if (CS->getArgOperand(I) == S) {
            IsArg = true;
            Keep = KeepArg(S);
          }
        if (S == Zero)
          Want = {Zero};
        else if (IsConst(S)) {
          if (IsArg && !Keep && PG)
            continue; // the two rules of the documentation disagree
          if (PG)
            Want = {S};
        } else if (!IsArg || Keep)
          Want = {S};
      } else if (Which == 1) {
        if (!Decl) {
          if (S == Zero ? PZ : PG && IsConst(S))
            Want.insert(S);
          for (unsigned I = SRet == 1; I < NP; ++I) // an sret parameter is write-only
            if (Sel(CS->getArgOperand(I), S))
              Want.insert(Callee->getArg(I));
          for (unsigned I = NP; I < NA; ++I)
            if (Va && Sel(CS->getArgOperand(I), S))
              Want.insert(Va);
          if (SRet == 2) // whether the fact of a second, write-only parameter is generated is not specified
            Got.erase(Callee->getArg(1)), Want.erase(Callee->getArg(1));
        }
      } else {
        if (S == Zero ? PZ : PG && IsConst(S))
          Want.insert(S);
        for (unsigned I = 0; I < NP; ++I)
          if (Sel(Callee->getArg(I), S))
            Want.insert(CS->getArgOperand(I));
        for (unsigned I = NP; I < NA; ++I)
          if (Va && Sel(Va, S))
            Want.insert(CS->getArgOperand(I));
        if (auto *R = llvm::cast<llvm::ReturnInst>(Exit)->getReturnValue(); R && Sel(R, S))
          Want.insert(CS);
      }
      C.check(Got == Want, Which == 0 ? "llvm:alongside" : Which == 1 ? "llvm:to-callee" : "llvm:to-caller", [&] {
        return T + "fact " + showV({S}) + " pred " + std::to_string(Pred) + " globals " + std::to_string(PG) + " zero " + std::to_string(PZ) +
               "\n  computed   " + showV(Got) + "\n  documented " + showV(Want);
      });
      C.transition();
      C.outcome(mc::mix(Got.size(), mc::hashStr(showV(Got))));
    }
  C.trace();
  uint64_t H = mc::mix(mc::hashStr(T), Which * 64 + PG * 2 + PZ + Pred * 8);
  C.state(H);
  if (NA)
    C.nontrivial(H);
  if (C.wantSample())
    C.sample(T);
}

static void stores(mc::Ctx &C) {
  unsigned Val = C.choose(4), Ptr = C.choose(5);
  unsigned Mask = C.choose(17); // 16: without predicate
  if (!C.mine())
    return;
  static const char *Vals[] = {"%x", "%y", "@g", "null"};
  static const char *Ptrs[] = {"%a", "%c", "%z", "@h", "%n"};
  std::string T = "@g = global i8 0\n@h = global i8* null\n"
                  "define void @f(i8* %x, i8* %y) {\n  %a = alloca i8*\n  %b = alloca i8**\n  %c = bitcast i8*** %b to i8**\n"
                  "  %s = alloca {i8*, i8*}\n  %z = getelementptr {i8*, i8*}, {i8*, i8*}* %s, i32 0, i32 0\n"
                  "  %n = getelementptr {i8*, i8*}, {i8*, i8*}* %s, i32 0, i32 1\n  store i8* " +
                  std::string(Vals[Val]) + ", i8** " + Ptrs[Ptr] + "\n  ret void\n}\n";
  auto M = ir::parse(T, ir::context());
  auto *Fn = M->getFunction("f");
  const llvm::StoreInst *St = nullptr;
  for (auto &I : llvm::instructions(Fn))
    if (auto *X = llvm::dyn_cast<llvm::StoreInst>(&I))
      St = X;
  V X = ir::val(Fn, "x"), Y = ir::val(Fn, "y"), Gl = M->getGlobalVariable("g"), H = M->getGlobalVariable("h"), Zero = LLVMZeroValue::getInstance();
  std::vector<V> Pr{X, Y, Gl, Zero};
  std::vector<V> Facts{X, Y, Gl, H, Zero, ir::val(Fn, "a"), ir::val(Fn, "b"), ir::val(Fn, "c"), ir::val(Fn, "s"), ir::val(Fn, "z"), ir::val(Fn, "n")};
  auto Pred = [&](V S) {
    for (unsigned I = 0; I < 4; ++I)
      if (Pr[I] == S)
        return (Mask >> I & 1) != 0;
    return false;
  };
  auto F = Mask == 16 ? strongUpdateStore(St) : strongUpdateStore(St, Pred);
  V P = St->getPointerOperand();
  V Base = Ptr == 1 ? ir::val(Fn, "b") : Ptr == 2 ? ir::val(Fn, "s") : P;
  for (int R = 0; R < 2; ++R)
    for (auto *S : Facts) {
      auto Got = F->computeTargets(S);
      VSet Want;
      if (S != P && S != Base) {
        Want.insert(S);
        if (Mask == 16 ? S == St->getValueOperand() : Pred(S)) {
          Want.insert(P);
          Want.insert(Base);
        }
      }
      C.check(Got == Want, "llvm:store", [&] { return T + "fact " + showV({S}) + "\n  computed   " + showV(Got) + "\n  documented " + showV(Want); });
      C.transition();
    }
  C.trace();
  C.state(mc::mix(mc::hashStr(T), Mask));
  C.nontrivial(mc::mix(mc::hashStr(T), Mask));
}

int main(int argc, char **argv) {
  std::vector<mc::Part> Parts{
      {"templates-set-int", leaves<int, std::set<int>>},
      {"templates-set-moving", leaves<Fact, std::set<Fact>>},
      {"templates-unordered-moving", leaves<Fact, std::unordered_set<Fact>>},
      {"union-set", unions<int, std::set<int>>},
      {"union-unordered-moving", unions<Fact, std::unordered_set<Fact>>},
      {"legacy-int", oldTemplates<int>},
      {"legacy-moving", oldTemplates<Fact>},
      {"llvm-calls", calls},
      {"llvm-stores", stores},
  };
  return mc::run(argc, argv, Parts);
}
