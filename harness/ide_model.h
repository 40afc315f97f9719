// Exploded-supergraph problems over synth::Prog, the real IDE/IFDS solver
// instantiated on them, and two independent reference models.
#pragma once
#include "mc.h"
#include "synth.h"

#include "phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"
#include "phasar/DataFlow/IfdsIde/IDETabulationProblem.h"
#include "phasar/DataFlow/IfdsIde/IFDSTabulationProblem.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionSingletonCache.h"
#include "phasar/DataFlow/IfdsIde/DefaultEdgeFunctionSingletonCache.h"
#include "phasar/Domain/AnalysisDomain.h"

#include <array>
#include <deque>

namespace ide {
using synth::Func;
using synth::Node;
using synth::Prog;

// ---- value lattice: Top(0) < {1,2,3} < Bottom(4)
struct V {
  uint8_t X = 0;
  friend bool operator==(V A, V B) { return A.X == B.X; }
  friend bool operator!=(V A, V B) { return A.X != B.X; }
  friend bool operator<(V A, V B) { return A.X < B.X; }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, V A) { return OS << "v" << int(A.X); }
};
static constexpr uint8_t TOP = 0, BOT = 4;
inline uint8_t joinV(uint8_t A, uint8_t B) {
  if (A == TOP)
    return B;
  if (B == TOP || A == B)
    return A;
  return BOT;
}
inline bool leqV(uint8_t A, uint8_t B) { return joinV(A, B) == B; }

// ---- value transformers as tables over the five values, strict in Top
struct Tab {
  std::array<uint8_t, 5> M{0, 1, 2, 3, 4};
  uint8_t operator()(uint8_t X) const { return M[X]; }
  friend bool operator==(const Tab &A, const Tab &B) { return A.M == B.M; }
};
inline Tab constTab(uint8_t C) { return {{0, C, C, C, C}}; }
inline Tab incTab() { return {{0, 2, 3, 1, 4}}; }
inline Tab then(const Tab &A, const Tab &B) {
  Tab R;
  for (int I = 0; I < 5; ++I)
    R.M[I] = B(A(I));
  return R;
}
inline Tab joinT(const Tab &A, const Tab &B) {
  Tab R;
  for (int I = 0; I < 5; ++I)
    R.M[I] = joinV(A(I), B(I));
  return R;
}
} // namespace ide

namespace psr {
template <> struct JoinLatticeTraits<ide::V> {
  static constexpr ide::V top() { return {ide::TOP}; }
  static constexpr ide::V bottom() { return {ide::BOT}; }
  static ide::V join(ide::V A, ide::V B) { return {ide::joinV(A.X, B.X)}; }
};
} // namespace psr

namespace ide {
template <int Kind> struct TabEF;
using EF = psr::EdgeFunction<V>;
inline int &efKind() {
  static int K = 0;
  return K;
}
inline psr::EdgeFunctionSingletonCache<TabEF<1>> &efCache();
inline EF makeEF(const Tab &T);
inline Tab tabOf(const EF &F) {
  Tab R;
  for (uint8_t I = 0; I < 5; ++I)
    R.M[I] = F.computeTarget(V{I}).X;
  return R;
}
/// Kind 0: fits the small-object storage, Kind 1: heap allocated
template <int Kind> struct TabEF {
  using l_t = V;
  Tab T;
  char Pad[Kind ? 32 : 1] = {};
  V computeTarget(V S) const { return {T(S.X)}; }
  static EF compose(psr::EdgeFunctionRef<TabEF> This, const EF &Second) {
    if (Second.isa<psr::AllTop<V>>())
      return Second;
    return makeEF(then(This->T, tabOf(Second)));
  }
  static EF join(psr::EdgeFunctionRef<TabEF> This, const EF &Other) {
    if (Other.isa<psr::AllTop<V>>())
      return This;
    return makeEF(joinT(This->T, tabOf(Other)));
  }
  friend bool operator==(const TabEF &A, const TabEF &B) { return A.T == B.T; }
  friend llvm::hash_code hash_value(const TabEF &A) { return llvm::hash_combine_range(A.T.M.begin(), A.T.M.end()); }
};
inline psr::EdgeFunctionSingletonCache<TabEF<1>> &efCache() {
  static psr::DefaultEdgeFunctionSingletonCache<TabEF<1>> C;
  return C;
}
inline EF makeEF(const Tab &T) {
  if (T == Tab{})
    return psr::EdgeIdentity<V>{};
  switch (efKind()) {
  case 0:
    return TabEF<0>{T};
  case 1:
    return TabEF<1>{T};
  default:
    return psr::CachedEdgeFunction<TabEF<1>>{TabEF<1>{T}, &efCache()};
  }
}

// ---- flow relations over the facts {0 (zero), 1, 2}
static constexpr int ND = 3;
struct Rel {
  uint8_t Out[ND] = {0, 2, 4}; // bit set of target facts; the zero->zero edge is implicit
  Tab Ef[ND][ND];
  uint8_t targets(int D) const { return Out[D] | (D == 0 ? 1 : 0); }
};
inline std::vector<Rel> alphabet() {
  std::vector<Rel> A;
  Rel Id;
  Id.Out[0] = 0;
  auto Add = [&](auto Fn) {
    Rel R = Id;
    Fn(R);
    A.push_back(R);
  };
  Add([](Rel &) {});                                                                    // 0 identity
  Add([](Rel &R) { R.Out[1] = 0; });                                                    // 1 kill 1
  Add([](Rel &R) { R.Out[0] = 2, R.Ef[0][1] = constTab(1), R.Out[1] = 0; });            // 2 d1 := 1
  Add([](Rel &R) { R.Out[1] = 2 | 4, R.Out[2] = 0; });                                  // 3 d2 := d1
  Add([](Rel &R) { R.Out[1] = 0, R.Out[2] = 2 | 4, R.Ef[2][1] = incTab(); });           // 4 d1 := d2 + 1
  Add([](Rel &R) { R.Ef[1][1] = incTab(); });                                           // 5 d1 := d1 + 1
  Add([](Rel &R) { R.Out[1] = 4, R.Out[2] = 2; });                                      // 6 swap
  Add([](Rel &R) { R.Out[1] = R.Out[2] = 0; });                                         // 7 kill all
  Add([](Rel &R) { R.Out[0] = 4, R.Ef[0][2] = constTab(2); });                          // 8 maybe d2 := 2
  Add([](Rel &R) { R.Out[0] = 2 | 4, R.Ef[0][1] = R.Ef[0][2] = constTab(3), R.Out[1] = R.Out[2] = 0; }); // 9
  Add([](Rel &R) { R.Ef[2][2] = constTab(1), R.Out[1] = 2 | 4, R.Ef[1][2] = incTab(); }); // 10 mixed
  Add([](Rel &R) { R.Out[1] = 2, R.Out[2] = 2, R.Ef[2][1] = incTab(); });               // 11 merge 1, 2 into 1
  return A;
}

struct Problem {
  Prog P;
  enum Kind { Normal, Call, Ret, Ctr, Sum };
  struct Slot {
    Kind K;
    uint32_t A, B, C, D; // Normal: n,succ; Call: cs,f; Ret: cs,f,exit,rs; Ctr: cs,rs; Sum: cs,f
    const Rel *R;
    int Idx;
  };
  std::vector<Slot> Slots;
  struct Seed {
    uint32_t N;
    uint8_t D;
    uint8_t Val;
  };
  std::vector<Seed> Seeds;
  std::set<std::pair<uint32_t, uint32_t>> Summaries; // (call site, callee) with a special summary
  Rel Identity, KillAll;
  Problem() {
    Identity.Out[0] = 0;
    KillAll.Out[0] = KillAll.Out[1] = KillAll.Out[2] = 0;
  }
  const Rel &rel(Kind K, uint32_t A, uint32_t B, uint32_t C = 0, uint32_t D = 0) const {
    for (auto &S : Slots)
      if (S.K == K && S.A == A && S.B == B && S.C == C && S.D == D)
        return *S.R;
    return Identity;
  }
  std::string str() const {
    static const char *KN[] = {"normal", "call", "ret", "ctr", "sum"};
    std::string S = P.str() + " flows:";
    for (auto &X : Slots)
      S += std::string(" ") + KN[X.K] + "(" + std::to_string(X.A) + "," + std::to_string(X.B) +
           (X.K == Ret ? "," + std::to_string(X.C) + "," + std::to_string(X.D) : "") + ")=" + std::to_string(X.Idx);
    S += " seeds:";
    for (auto &X : Seeds)
      S += " n" + std::to_string(X.N) + "/d" + std::to_string(X.D) + "=" + std::to_string(X.Val);
    return S;
  }
};

// ---------------------------------------------------------------- reference 1
/// Result[n][d]: -1: no valid path; else the join over all valid paths.
struct Results {
  std::vector<std::array<int8_t, ND>> R;
};

/// Least solution of the summary equations by naive iteration.
inline Results summaries(const Problem &Pr) {
  auto &P = Pr.P;
  size_t NN = P.Nodes.size();
  struct Cell {
    bool Has = false;
    Tab T;
  };
  std::vector<std::array<std::array<Cell, ND>, ND>> S(NN);
  bool Changed = true;
  auto Add = [&](Cell &C, const Tab &T) {
    if (!C.Has) {
      C.Has = true;
      C.T = T;
      Changed = true;
      return;
    }
    auto J = joinT(C.T, T);
    if (!(J == C.T)) {
      C.T = J;
      Changed = true;
    }
  };
  for (size_t F = 1; F < P.Funs.size(); ++F)
    if (P.Funs[F].Start)
      for (int D = 0; D < ND; ++D)
        Add(S[P.Funs[F].Start][D][D], Tab{});
  while (Changed) {
    Changed = false;
    for (uint32_t N = 1; N < NN; ++N) {
      auto &X = P.Nodes[N];
      for (int D1 = 0; D1 < ND; ++D1)
        for (int D2 = 0; D2 < ND; ++D2) {
          if (!S[N][D1][D2].Has)
            continue;
          auto T = S[N][D1][D2].T;
          auto Step = [&](const Rel &R, uint32_t M) {
            for (int D3 = 0; D3 < ND; ++D3)
              if (R.targets(D2) >> D3 & 1)
                Add(S[M][D1][D3], then(T, R.Ef[D2][D3]));
          };
          if (!X.Call) {
            for (auto M : X.Succs)
              Step(Pr.rel(Problem::Normal, N, M.Id), M.Id);
            continue;
          }
          for (auto M : X.Succs)
            Step(Pr.rel(Problem::Ctr, N, M.Id), M.Id);
          for (auto F : X.Callees) {
            if (Pr.Summaries.count({N, F.Id})) {
              auto &R = Pr.rel(Problem::Sum, N, F.Id);
              for (auto M : X.Succs)
                for (int D3 = 0; D3 < ND; ++D3)
                  if (R.Out[D2] >> D3 & 1)
                    Add(S[M.Id][D1][D3], then(T, R.Ef[D2][D3]));
              continue;
            }
            if (!P.Funs[F.Id].Start)
              continue;
            auto &CR = Pr.rel(Problem::Call, N, F.Id);
            for (uint32_t E = 1; E < NN; ++E) {
              if (P.Nodes[E].Fun != F.Id || !P.Nodes[E].Exit)
                continue;
              for (auto M : X.Succs) {
                auto &RR = Pr.rel(Problem::Ret, N, F.Id, E, M.Id);
                for (int D3 = 0; D3 < ND; ++D3)
                  if (CR.targets(D2) >> D3 & 1)
                    for (int D4 = 0; D4 < ND; ++D4)
                      if (S[E][D3][D4].Has)
                        for (int D5 = 0; D5 < ND; ++D5)
                          if (RR.targets(D4) >> D5 & 1)
                            Add(S[M.Id][D1][D5],
                                then(then(then(T, CR.Ef[D2][D3]), S[E][D3][D4].T), RR.Ef[D4][D5]));
              }
            }
          }
        }
    }
  }
  std::vector<std::array<int8_t, ND>> Val(P.Funs.size(), {-1, -1, -1});
  Changed = true;
  auto AddV = [&](int8_t &C, uint8_t X) {
    int8_t J = C < 0 ? X : joinV(C, X);
    if (J != C) {
      C = J;
      Changed = true;
    }
  };
  for (auto &Sd : Pr.Seeds)
    AddV(Val[P.Nodes[Sd.N].Fun][Sd.D], Sd.Val);
  for (auto &Sd : Pr.Seeds) { // the zero fact holds wherever something is seeded
    bool HasZero = false;
    for (auto &Z : Pr.Seeds)
      HasZero |= Z.N == Sd.N && Z.D == 0;
    if (!HasZero)
      AddV(Val[P.Nodes[Sd.N].Fun][0], BOT);
  }
  while (Changed) {
    Changed = false;
    for (uint32_t N = 1; N < NN; ++N) {
      auto &X = P.Nodes[N];
      if (!X.Call)
        continue;
      for (int D1 = 0; D1 < ND; ++D1) {
        if (Val[X.Fun][D1] < 0)
          continue;
        for (int D2 = 0; D2 < ND; ++D2)
          if (S[N][D1][D2].Has)
            for (auto F : X.Callees) {
              if (Pr.Summaries.count({N, F.Id}))
                continue;
              auto &CR = Pr.rel(Problem::Call, N, F.Id);
              for (int D3 = 0; D3 < ND; ++D3)
                if (CR.targets(D2) >> D3 & 1)
                  AddV(Val[F.Id][D3], CR.Ef[D2][D3](S[N][D1][D2].T(Val[X.Fun][D1])));
            }
      }
    }
  }
  Results Res;
  Res.R.assign(NN, {-1, -1, -1});
  for (uint32_t N = 1; N < NN; ++N)
    for (int D1 = 0; D1 < ND; ++D1) {
      if (Val[P.Nodes[N].Fun][D1] < 0)
        continue;
      for (int D = 0; D < ND; ++D)
        if (S[N][D1][D].Has) {
          uint8_t X = S[N][D1][D].T(Val[P.Nodes[N].Fun][D1]);
          auto &C = Res.R[N][D];
          C = C < 0 ? X : joinV(C, X);
        }
    }
  return Res;
}

// ---------------------------------------------------------------- reference 2
/// Explicit exploration of all configurations (call stack, node, fact, value)
/// reachable from the seeds with at most MaxDepth pending calls.
inline Results configurations(mc::Ctx &C, const Problem &Pr, size_t MaxDepth, bool &HitBound) {
  auto &P = Pr.P;
  struct Conf {
    std::vector<uint32_t> Stack; // pending call sites
    std::vector<uint32_t> Fun;   // and the callee entered there
    uint32_t N;
    uint8_t D, Val;
  };
  auto Key = [](const Conf &X) {
    std::vector<uint32_t> K(X.Stack);
    K.push_back(~0U);
    K.push_back(X.N << 8 | X.D << 4 | X.Val);
    return K;
  };
  std::set<std::vector<uint32_t>> Seen;
  std::deque<Conf> Q;
  Results Res;
  Res.R.assign(P.Nodes.size(), {-1, -1, -1});
  HitBound = false;
  auto Push = [&](Conf X) {
    C.transition();
    if (Seen.insert(Key(X)).second) {
      auto &R = Res.R[X.N][X.D];
      R = R < 0 ? X.Val : joinV(R, X.Val);
      Q.push_back(std::move(X));
    }
  };
  for (auto &S : Pr.Seeds) {
    Push({{}, {}, S.N, S.D, S.Val});
    bool HasZero = false;
    for (auto &Z : Pr.Seeds)
      HasZero |= Z.N == S.N && Z.D == 0;
    if (!HasZero)
      Push({{}, {}, S.N, 0, BOT});
  }
  while (!Q.empty()) {
    auto X = Q.front();
    Q.pop_front();
    auto &N = P.Nodes[X.N];
    auto Go = [&](const Rel &R, uint8_t Tgts, auto Mk) {
      for (uint8_t D = 0; D < ND; ++D)
        if (Tgts >> D & 1) {
          Conf Y = X;
          Mk(Y);
          Y.D = D;
          Y.Val = R.Ef[X.D][D](X.Val);
          Push(std::move(Y));
        }
    };
    if (N.Exit && !X.Stack.empty()) {
      uint32_t CS = X.Stack.back(), F = X.Fun.back();
      for (auto M : P.Nodes[CS].Succs) {
        auto &R = Pr.rel(Problem::Ret, CS, F, X.N, M.Id);
        Go(R, R.targets(X.D), [&](Conf &Y) {
          Y.Stack.pop_back();
          Y.Fun.pop_back();
          Y.N = M.Id;
        });
      }
    }
    if (!N.Call) {
      for (auto M : N.Succs) {
        auto &R = Pr.rel(Problem::Normal, X.N, M.Id);
        Go(R, R.targets(X.D), [&](Conf &Y) { Y.N = M.Id; });
      }
      continue;
    }
    for (auto M : N.Succs) {
      auto &R = Pr.rel(Problem::Ctr, X.N, M.Id);
      Go(R, R.targets(X.D), [&](Conf &Y) { Y.N = M.Id; });
    }
    for (auto F : N.Callees) {
      if (Pr.Summaries.count({X.N, F.Id})) {
        auto &R = Pr.rel(Problem::Sum, X.N, F.Id);
        for (auto M : N.Succs)
          Go(R, R.Out[X.D], [&](Conf &Y) { Y.N = M.Id; });
        continue;
      }
      if (!P.Funs[F.Id].Start)
        continue;
      if (X.Stack.size() >= MaxDepth) {
        HitBound = true;
        continue;
      }
      auto &R = Pr.rel(Problem::Call, X.N, F.Id);
      Go(R, R.targets(X.D), [&](Conf &Y) {
        Y.Stack.push_back(X.N);
        Y.Fun.push_back(F.Id);
        Y.N = P.Funs[F.Id].Start;
      });
    }
  }
  C.states(Seen.size());
  return Res;
}

// ---------------------------------------------------------------- the real solver
struct Domain : psr::AnalysisDomain {
  using d_t = uint32_t;
  using n_t = Node;
  using f_t = Func;
  using t_t = int;
  using v_t = int;
  using c_t = synth::ICFG;
  using i_t = synth::ICFG;
  using db_t = synth::DB;
  using l_t = V;
};

using Container = std::set<uint32_t>;
struct RelFlow : psr::FlowFunction<uint32_t> {
  const Rel &R;
  bool ExplicitZero, Sum;
  RelFlow(const Rel &R, bool Z, bool S) : R(R), ExplicitZero(Z), Sum(S) {}
  Container computeTargets(uint32_t D) override {
    Container C;
    if (D == 0 && ExplicitZero && !Sum)
      C.insert(0);
    for (uint32_t T = 0; T < ND; ++T)
      if (R.Out[D] >> T & 1)
        C.insert(T);
    return C;
  }
};

template <typename Base> struct FlowsMixin : Base {
  const Problem &Pr;
  bool ExplicitZero = false;
  template <typename... A> FlowsMixin(const Problem &Pr, A &&...Args) : Base(std::forward<A>(Args)...), Pr(Pr) {}
  using FF = typename Base::FlowFunctionPtrType;
  FF mk(const Rel &R, bool Sum = false) { return std::make_shared<RelFlow>(R, ExplicitZero, Sum); }
  FF getNormalFlowFunction(Node A, Node B) override { return mk(Pr.rel(Problem::Normal, A.Id, B.Id)); }
  FF getCallFlowFunction(Node A, Func F) override { return mk(Pr.rel(Problem::Call, A.Id, F.Id)); }
  FF getRetFlowFunction(Node CS, Func F, Node E, Node RS) override { return mk(Pr.rel(Problem::Ret, CS.Id, F.Id, E.Id, RS.Id)); }
  FF getCallToRetFlowFunction(Node CS, Node RS, llvm::ArrayRef<Func>) override { return mk(Pr.rel(Problem::Ctr, CS.Id, RS.Id)); }
  FF getSummaryFlowFunction(Node CS, Func F) override {
    if (Pr.Summaries.count({CS.Id, F.Id}))
      return mk(Pr.rel(Problem::Sum, CS.Id, F.Id), true);
    return nullptr;
  }
  bool isZeroValue(uint32_t D) const noexcept override { return D == 0; }
};
inline synth::DB &db() {
  static synth::DB D;
  return D;
}
struct IdeProblem : FlowsMixin<psr::IDETabulationProblem<Domain>> {
  IdeProblem(const Problem &Pr) : FlowsMixin(Pr, &db(), std::vector<std::string>{}, 0U) {}
  psr::InitialSeeds<Node, uint32_t, V> initialSeeds() override {
    psr::InitialSeeds<Node, uint32_t, V> S;
    for (auto &X : Pr.Seeds)
      S.addSeed(Node(X.N), X.D, V{X.Val});
    return S;
  }
  EF getNormalEdgeFunction(Node A, uint32_t D, Node B, uint32_t E) override { return makeEF(Pr.rel(Problem::Normal, A.Id, B.Id).Ef[D][E]); }
  EF getCallEdgeFunction(Node A, uint32_t D, Func F, uint32_t E) override { return makeEF(Pr.rel(Problem::Call, A.Id, F.Id).Ef[D][E]); }
  EF getReturnEdgeFunction(Node CS, Func F, Node X, uint32_t D, Node RS, uint32_t E) override {
    return makeEF(Pr.rel(Problem::Ret, CS.Id, F.Id, X.Id, RS.Id).Ef[D][E]);
  }
  EF getCallToRetEdgeFunction(Node CS, uint32_t D, Node RS, uint32_t E, llvm::ArrayRef<Func>) override {
    return makeEF(Pr.rel(Problem::Ctr, CS.Id, RS.Id).Ef[D][E]);
  }
  EF getSummaryEdgeFunction(Node CS, uint32_t D, Node, uint32_t E) override {
    for (auto &S : Pr.Summaries)
      if (S.first == CS.Id)
        return makeEF(Pr.rel(Problem::Sum, CS.Id, S.second).Ef[D][E]);
    return psr::EdgeIdentity<V>{};
  }
};
struct IfdsDomain : psr::AnalysisDomain {
  using d_t = uint32_t;
  using n_t = Node;
  using f_t = Func;
  using t_t = int;
  using v_t = int;
  using c_t = synth::ICFG;
  using i_t = synth::ICFG;
  using db_t = synth::DB;
};
struct IfdsProblem : FlowsMixin<psr::IFDSTabulationProblem<IfdsDomain>> {
  IfdsProblem(const Problem &Pr) : FlowsMixin(Pr, &db(), std::vector<std::string>{}, 0U) {}
  psr::InitialSeeds<Node, uint32_t, psr::BinaryDomain> initialSeeds() override {
    psr::InitialSeeds<Node, uint32_t, psr::BinaryDomain> S;
    for (auto &X : Pr.Seeds)
      S.addSeed(Node(X.N), X.D);
    return S;
  }
};

// ---------------------------------------------------------------- programs
/// Builds one of the program shapes; every slot gets a relation of its alphabet.
struct Builder {
  mc::Ctx &C;
  Problem &Pr;
  const std::vector<Rel> &A;
  size_t MaxAlpha = 99;
  unsigned MaxEdges = 0; // in the intra-procedural shape, 0: default
  void slot(Problem::Kind K, uint32_t X, uint32_t Y, uint32_t Z, uint32_t W, std::initializer_list<int> Alpha) {
    int I = *(Alpha.begin() + C.choose(std::min<size_t>(MaxAlpha, Alpha.size())));
    Pr.Slots.push_back({K, X, Y, Z, W, &A[I], I});
  }
  void normal(uint32_t X, uint32_t Y, std::initializer_list<int> Al) { slot(Problem::Normal, X, Y, 0, 0, Al); }
  void call(uint32_t X, uint32_t F, std::initializer_list<int> Al) { slot(Problem::Call, X, F, 0, 0, Al); }
  void ret(uint32_t X, uint32_t F, uint32_t E, uint32_t RS, std::initializer_list<int> Al) { slot(Problem::Ret, X, F, E, RS, Al); }
  void ctr(uint32_t X, uint32_t RS, std::initializer_list<int> Al) { slot(Problem::Ctr, X, RS, 0, 0, Al); }
  void sum(uint32_t X, uint32_t F, std::initializer_list<int> Al) {
    Pr.Summaries.insert({X, F});
    slot(Problem::Sum, X, F, 0, 0, Al);
  }
  void seed(uint32_t N, uint8_t D, uint8_t Val) { Pr.Seeds.push_back({N, D, Val}); }
  void seedsMain(uint32_t N, int Variants) {
    switch (C.choose(Variants)) {
    case 0:
      seed(N, 0, BOT);
      break;
    case 1:
      seed(N, 0, BOT), seed(N, 1, 2);
      break;
    case 2:
      seed(N, 2, 3); // zero is added automatically
      break;
    }
  }
};
static constexpr int NumShapes = 18;
inline const char *shapeName(int S) {
  static const char *N[] = {"intra",          "one-call",        "two-calls",      "recursion",     "call-at-start", "two-callees",
                            "two-return-sites", "special-summary", "mutual-recursion", "call-in-loop",  "two-seeds",     "two-exits",
                            "single-node-callee", "three-levels",    "no-return",      "diamond-calls", "self-rec-main", "merging-recursion"};
  return N[S];
}

/// Level 0: quick alphabets, 1: thorough
inline void build(Builder &B, int Shape, bool Th) {
  auto &P = B.Pr.P;
  auto &C = B.C;
  static const std::initializer_list<int> AllT = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, AllQ = {0, 1, 2, 3, 4, 5, 7, 8};
  static const std::initializer_list<int> MidT = {0, 2, 4, 5, 7, 8, 10}, MidQ = {0, 2, 4, 5, 7};
  const auto All = Th ? AllT : AllQ;
  const auto Mid = Th ? MidT : MidQ;
  static const std::initializer_list<int> Small = {0, 2, 4}, Two = {0, 5}, Gen = {0, 2, 9}, Kill = {0, 7}, Arg = {0, 3, 4, 6};
  auto M = P.addFun();
  switch (Shape) {
  case 0: { // every graph over a start node and three (thorough: same) further nodes
    uint32_t N[4];
    for (auto &X : N)
      X = P.addNode(M);
    unsigned Edges = 0, MaxE = B.MaxEdges ? B.MaxEdges : Th ? 6 : 5;
    for (int I = 0; I < 4; ++I) {
      uint32_t Mask = I == 0 ? 1 + C.choose(7) : C.choose(8);
      for (int J = 0; J < 3; ++J)
        if (Mask >> J & 1) {
          ++Edges;
          P.edge(N[I], N[J + 1]);
        }
    }
    if (Edges > MaxE) {
      Edges = ~0U;
      B.Pr.Seeds.clear();
      return; // outside of the bound
    }
    B.seedsMain(N[0], 2);
    for (int I = 0; I < 4; ++I)
      for (auto S : P.Nodes[N[I]].Succs)
        B.slot(Problem::Normal, N[I], S.Id, 0, 0, {0, 2, 4, 7});
    break;
  }
  case 1: {
    auto F = P.addFun();
    auto A = P.addNode(M), Cs = P.addNode(M), R = P.addNode(M), X = P.addNode(M);
    auto S = P.addNode(F), E = P.addNode(F);
    P.edge(A, Cs), P.edge(Cs, R), P.edge(R, X), P.edge(S, E);
    P.call(Cs, {F});
    B.seedsMain(A, 3);
    B.normal(A, Cs, Gen), B.call(Cs, F, All), B.normal(S, E, All), B.ret(Cs, F, E, R, All), B.ctr(Cs, R, All), B.normal(R, X, Two);
    break;
  }
  case 2: {
    auto F = P.addFun();
    auto A = P.addNode(M), C1 = P.addNode(M), C2 = P.addNode(M), X = P.addNode(M);
    auto S = P.addNode(F), E = P.addNode(F);
    P.edge(A, C1), P.edge(C1, C2), P.edge(C2, X), P.edge(S, E);
    P.call(C1, {F}), P.call(C2, {F});
    B.seedsMain(A, 2);
    B.normal(A, C1, Gen);
    B.call(C1, F, Mid), B.ret(C1, F, E, C2, Arg), B.ctr(C1, C2, Kill);
    B.call(C2, F, Mid), B.ret(C2, F, E, X, Arg), B.ctr(C2, X, Kill);
    B.normal(S, E, Mid);
    break;
  }
  case 3: {
    auto F = P.addFun();
    auto A = P.addNode(M), Cm = P.addNode(M), X = P.addNode(M);
    auto S = P.addNode(F), Bn = P.addNode(F), Cf = P.addNode(F), R = P.addNode(F), E = P.addNode(F);
    P.edge(A, Cm), P.edge(Cm, X);
    P.edge(S, Bn), P.edge(Bn, Cf), P.edge(Bn, E), P.edge(Cf, R), P.edge(R, E);
    P.call(Cm, {F}), P.call(Cf, {F});
    B.seedsMain(A, 2);
    B.normal(A, Cm, {2, 9});
    B.call(Cm, F, Small), B.ret(Cm, F, E, X, {0, 3, 4}), B.ctr(Cm, X, Kill);
    B.call(Cf, F, Mid), B.ret(Cf, F, E, R, Mid), B.ctr(Cf, R, Kill);
    B.normal(Bn, E, Two), B.normal(R, E, Small);
    break;
  }
  case 4: { // calls as first statements
    auto F = P.addFun(), G = P.addFun();
    auto Cm = P.addNode(M), X = P.addNode(M);
    auto Cf = P.addNode(F), E = P.addNode(F);
    auto S = P.addNode(G), Y = P.addNode(G);
    P.edge(Cm, X), P.edge(Cf, E), P.edge(S, Y);
    P.call(Cm, {F}), P.call(Cf, {G});
    B.seedsMain(Cm, 3);
    B.call(Cm, F, Mid), B.ret(Cm, F, E, X, {0, 4}), B.ctr(Cm, X, {0, 2, 7});
    B.call(Cf, G, Mid), B.ret(Cf, G, Y, E, Mid), B.ctr(Cf, E, {0, 5, 7});
    B.normal(S, Y, Mid);
    break;
  }
  case 5: { // two callees and a declaration
    auto F = P.addFun(), G = P.addFun(), H = P.addFun();
    auto A = P.addNode(M), Cs = P.addNode(M), X = P.addNode(M);
    auto S = P.addNode(F), E = P.addNode(F);
    auto T = P.addNode(G), Y = P.addNode(G);
    P.edge(A, Cs), P.edge(Cs, X), P.edge(S, E), P.edge(T, Y);
    switch (C.choose(4)) {
    case 0:
      P.call(Cs, {F, G});
      break;
    case 1:
      P.call(Cs, {H, F});
      break;
    case 2:
      P.call(Cs, {H});
      break;
    case 3:
      P.call(Cs, {});
      break;
    }
    B.seedsMain(A, 2);
    B.normal(A, Cs, Gen);
    B.call(Cs, F, Small), B.call(Cs, G, Small), B.ret(Cs, F, E, X, Small), B.ret(Cs, G, Y, X, Small), B.ctr(Cs, X, {0, 5, 7});
    B.normal(S, E, {0, 2, 5}), B.normal(T, Y, {0, 8});
    break;
  }
  case 6: { // two return sites
    auto F = P.addFun();
    auto A = P.addNode(M), Cs = P.addNode(M), R1 = P.addNode(M), R2 = P.addNode(M), X = P.addNode(M);
    auto S = P.addNode(F), E = P.addNode(F);
    P.edge(A, Cs), P.edge(Cs, R1), P.edge(Cs, R2), P.edge(R1, X), P.edge(R2, X), P.edge(S, E);
    P.call(Cs, {F});
    B.seedsMain(A, 2);
    B.normal(A, Cs, {2, 9});
    B.call(Cs, F, Small), B.ret(Cs, F, E, R1, Mid), B.ret(Cs, F, E, R2, Mid), B.ctr(Cs, R1, {0, 5, 7}), B.ctr(Cs, R2, {0, 7});
    B.normal(S, E, Small), B.normal(R1, X, Two), B.normal(R2, X, Two);
    break;
  }
  case 7: { // special summaries: for a declaration, for a definition, next to a normal callee
    auto F = P.addFun(), G = P.addFun();
    auto A = P.addNode(M), Cs = P.addNode(M), X = P.addNode(M), Y = P.addNode(M);
    auto S = P.addNode(G), E = P.addNode(G);
    P.edge(A, Cs), P.edge(Cs, X), P.edge(X, Y), P.edge(S, E);
    bool Both = C.flip();
    P.call(Cs, Both ? std::vector<uint32_t>{F, G} : std::vector<uint32_t>{F});
    B.seedsMain(A, 3);
    B.normal(A, Cs, Gen);
    B.sum(Cs, F, {0, 1, 2, 3, 4, 5, 7, 8, 9, 10});
    B.call(Cs, F, {0, 7}), B.call(Cs, G, Small), B.ret(Cs, G, E, X, Small), B.ctr(Cs, X, Mid), B.normal(X, Y, Small), B.normal(S, E, Two);
    break;
  }
  case 8: { // mutual recursion
    auto F = P.addFun(), G = P.addFun();
    auto Cm = P.addNode(M), X = P.addNode(M);
    auto S = P.addNode(F), Cf = P.addNode(F), E = P.addNode(F);
    auto T = P.addNode(G), Cg = P.addNode(G), Y = P.addNode(G);
    P.edge(Cm, X), P.edge(S, Cf), P.edge(S, E), P.edge(Cf, E), P.edge(T, Cg), P.edge(T, Y), P.edge(Cg, Y);
    P.call(Cm, {F}), P.call(Cf, {G}), P.call(Cg, {F});
    B.seedsMain(Cm, 2);
    B.call(Cm, F, {0, 2, 9}), B.ret(Cm, F, E, X, {0, 4}), B.ctr(Cm, X, {7});
    B.call(Cf, G, Small), B.ret(Cf, G, Y, E, {0, 4, 5}), B.ctr(Cf, E, Kill);
    B.call(Cg, F, Small), B.ret(Cg, F, E, Y, {0, 4, 5}), B.ctr(Cg, Y, Kill);
    B.normal(S, E, Small), B.normal(T, Y, Two);
    break;
  }
  case 9: { // call in a loop
    auto F = P.addFun();
    auto A = P.addNode(M), H = P.addNode(M), Cs = P.addNode(M), X = P.addNode(M);
    auto S = P.addNode(F), E = P.addNode(F);
    P.edge(A, H), P.edge(H, Cs), P.edge(H, X), P.edge(Cs, H), P.edge(S, E);
    P.call(Cs, {F});
    B.seedsMain(A, 3);
    B.normal(A, H, Gen), B.normal(H, Cs, Mid), B.normal(H, X, Two);
    B.call(Cs, F, Mid), B.ret(Cs, F, E, H, Mid), B.ctr(Cs, H, {0, 5, 7});
    B.normal(S, E, Small);
    break;
  }
  case 10: { // seeds in two functions, one calls the other
    auto F = P.addFun();
    auto A = P.addNode(M), Cs = P.addNode(M), X = P.addNode(M);
    auto S = P.addNode(F), E = P.addNode(F);
    P.edge(A, Cs), P.edge(Cs, X), P.edge(S, E);
    P.call(Cs, {F});
    B.seedsMain(A, 3);
    switch (C.choose(3)) {
    case 0:
      B.seed(S, 1, 1);
      break;
    case 1:
      B.seed(S, 0, BOT), B.seed(S, 2, 2);
      break;
    case 2:
      B.seed(S, 1, 2), B.seed(S, 2, 2);
      break;
    }
    B.normal(A, Cs, Gen), B.call(Cs, F, Mid), B.ret(Cs, F, E, X, Mid), B.ctr(Cs, X, Kill), B.normal(S, E, Mid);
    break;
  }
  case 11: { // branch and two exits in the callee
    auto F = P.addFun();
    auto A = P.addNode(M), Cs = P.addNode(M), X = P.addNode(M);
    auto S = P.addNode(F), E1 = P.addNode(F), E2 = P.addNode(F);
    P.edge(A, Cs), P.edge(Cs, X), P.edge(S, E1), P.edge(S, E2);
    P.call(Cs, {F});
    B.seedsMain(A, 2);
    B.normal(A, Cs, Gen), B.call(Cs, F, Small), B.ret(Cs, F, E1, X, Mid), B.ret(Cs, F, E2, X, Mid), B.ctr(Cs, X, Kill);
    B.normal(S, E1, Mid), B.normal(S, E2, Small);
    break;
  }
  case 12: { // callees of one statement
    auto F = P.addFun();
    auto A = P.addNode(M), C1 = P.addNode(M), C2 = P.addNode(M), X = P.addNode(M);
    auto S = P.addNode(F);
    P.edge(A, C1), P.edge(C1, C2), P.edge(C2, X);
    P.call(C1, {F}), P.call(C2, {F});
    (void)S;
    B.seedsMain(A, 3);
    B.normal(A, C1, Gen), B.call(C1, F, Mid), B.ret(C1, F, S, C2, Mid), B.ctr(C1, C2, Kill), B.call(C2, F, Mid), B.ret(C2, F, S, X, Mid),
        B.ctr(C2, X, {7});
    break;
  }
  case 13: { // main -> f (twice) -> g
    auto F = P.addFun(), G = P.addFun();
    auto A = P.addNode(M), C1 = P.addNode(M), C2 = P.addNode(M), X = P.addNode(M);
    auto S = P.addNode(F), Cf = P.addNode(F), E = P.addNode(F);
    auto T = P.addNode(G), Y = P.addNode(G);
    P.edge(A, C1), P.edge(C1, C2), P.edge(C2, X), P.edge(S, Cf), P.edge(Cf, E), P.edge(T, Y);
    P.call(C1, {F}), P.call(C2, {F}), P.call(Cf, {G});
    B.seedsMain(A, 2);
    B.normal(A, C1, {2, 9});
    B.call(C1, F, Small), B.ret(C1, F, E, C2, {0, 4}), B.ctr(C1, C2, Kill);
    B.call(C2, F, {0, 2, 5}), B.ret(C2, F, E, X, {0, 3}), B.ctr(C2, X, {7});
    B.normal(S, Cf, {0, 5});
    B.call(Cf, G, Small), B.ret(Cf, G, Y, E, {0, 4, 6}), B.ctr(Cf, E, Kill), B.normal(T, Y, {0, 5, 4});
    break;
  }
  case 14: { // calls that do not return, callees without exit, call sites without return site
    auto F = P.addFun(), G = P.addFun();
    auto A = P.addNode(M), Cs = P.addNode(M), X = P.addNode(M), Last = P.addNode(M);
    auto S = P.addNode(F), L = P.addNode(F);
    auto T = P.addNode(G), Y = P.addNode(G);
    P.edge(A, Cs), P.edge(Cs, X), P.edge(X, Last), P.edge(S, L), P.edge(L, L), P.edge(T, Y);
    P.call(Cs, {F}), P.call(Last, {G});
    B.seedsMain(A, 3);
    B.normal(A, Cs, Gen), B.call(Cs, F, Mid), B.ctr(Cs, X, Mid), B.normal(S, L, Small), B.normal(L, L, Mid), B.normal(X, Last, Two),
        B.call(Last, G, Mid), B.normal(T, Y, Small);
    break;
  }
  case 15: { // branch with a call on each arm, same callee
    auto F = P.addFun();
    auto A = P.addNode(M), C1 = P.addNode(M), C2 = P.addNode(M), J = P.addNode(M), X = P.addNode(M);
    auto S = P.addNode(F), E = P.addNode(F);
    P.edge(A, C1), P.edge(A, C2), P.edge(C1, J), P.edge(C2, J), P.edge(J, X), P.edge(S, E);
    P.call(C1, {F}), P.call(C2, {F});
    B.seedsMain(A, 2);
    B.normal(A, C1, Gen), B.normal(A, C2, Gen);
    B.call(C1, F, Small), B.ret(C1, F, E, J, Small), B.ctr(C1, J, Kill);
    B.call(C2, F, Small), B.ret(C2, F, E, J, {0, 5, 3}), B.ctr(C2, J, Kill);
    B.normal(S, E, {0, 4, 5, 7}), B.normal(J, X, Two);
    break;
  }
  case 16: { // main calls itself
    auto A = P.addNode(M), Bn = P.addNode(M), Cs = P.addNode(M), X = P.addNode(M);
    P.edge(A, Bn), P.edge(Bn, Cs), P.edge(Bn, X), P.edge(Cs, X);
    P.call(Cs, {M});
    B.seedsMain(A, 3);
    B.normal(A, Bn, Gen), B.normal(Bn, Cs, Mid), B.normal(Bn, X, Two), B.call(Cs, M, All), B.ret(Cs, M, X, X, All), B.ctr(Cs, X, Kill);
    break;
  }
  case 17: { // main -> h (twice), h -> k, k -> h: calls that merge facts are found while their callee is being processed
    auto H = P.addFun(), K = P.addFun();
    auto A = P.addNode(M), C1 = P.addNode(M), C2 = P.addNode(M), X = P.addNode(M);
    auto Ch = P.addNode(H), Eh = P.addNode(H);
    auto S = P.addNode(K), E1 = P.addNode(K), Ck = P.addNode(K), E2 = P.addNode(K);
    P.edge(A, C1), P.edge(C1, C2), P.edge(C2, X), P.edge(Ch, Eh);
    if (C.flip())
      P.edge(S, E1), P.edge(S, Ck);
    else
      P.edge(S, Ck), P.edge(S, E1);
    P.edge(Ck, E2);
    P.call(C1, {H}), P.call(C2, {H}), P.call(Ch, {K}), P.call(Ck, {H});
    B.seed(A, 0, BOT), B.seed(A, 1, 2);
    B.call(C1, H, {0, 3}), B.ret(C1, H, Eh, C2, {0, 7}), B.ctr(C1, C2, Kill);
    B.call(C2, H, {0, 6}), B.ret(C2, H, Eh, X, {0}), B.ctr(C2, X, {7});
    B.call(Ch, K, {0, 11, 5, 6}), B.ret(Ch, K, E1, Eh, {0, 3}), B.ret(Ch, K, E2, Eh, Th ? std::initializer_list<int>{0, 7, 4} : std::initializer_list<int>{0, 7}), B.ctr(Ch, Eh, {7});
    B.call(Ck, H, {0, 6, 3, 4}), B.ret(Ck, H, Eh, E2, {0, 6, 5}), B.ctr(Ck, E2, {7});
    B.normal(S, E1, {0, 5, 7}), B.normal(S, Ck, {0});
    break;
  }
  }
  P.exits();
}

inline bool isRecursive(int Shape) { return Shape == 3 || Shape == 8 || Shape == 16 || Shape == 17; }
} // namespace ide
