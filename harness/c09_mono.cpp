// IntraMonoSolver: maximal fixed point on every small control-flow graph, and
// CallStringCTX: every history of operations.
#include "mc.h"
#include "synth.h"
#include "phasar/ControlFlow/CFGBase.h"
#include "phasar/DataFlow/Mono/IntraMonoProblem.h"
#include "phasar/DataFlow/Mono/Solver/IntraMonoSolver.h"
#include "phasar/DataFlow/Mono/Contexts/CallStringCTX.h"
#include "phasar/Domain/AnalysisDomain.h"
#include <array>
#include <deque>
#include <map>
#include <set>

namespace syn2 {
struct MCFG;
struct MDB;
struct G {
  unsigned N = 0;
  unsigned Funs = 1;
  std::vector<unsigned> FunOf;
  std::vector<std::vector<synth::Node>> Succs, Preds; // by id (1-based)
  std::string str() const {
    std::string S;
    for (unsigned I = 1; I <= N; ++I) {
      S += "n" + std::to_string(I) + "->";
      for (auto T : Succs[I])
        S += "n" + std::to_string(T.Id) + ",";
      S += " ";
    }
    return S;
  }
};
} // namespace syn2
namespace psr {
template <> struct CFGTraits<syn2::MCFG> {
  using n_t = synth::Node;
  using f_t = synth::Func;
};
template <> struct ProjectIRDBTraits<syn2::MDB> {
  using n_t = synth::Node;
  using f_t = synth::Func;
  using m_t = const syn2::G *;
  using g_t = synth::Node;
};
} // namespace psr
namespace syn2 {
struct MCFG : psr::CFGBase<MCFG> {
  const G *P = nullptr;
  using n_t = synth::Node;
  using f_t = synth::Func;
  const std::vector<n_t> &getPredsOfImpl(n_t N) const { return P->Preds[N.Id]; }
  const std::vector<n_t> &getSuccsOfImpl(n_t N) const { return P->Succs[N.Id]; }
  std::vector<std::pair<n_t, n_t>> getAllControlFlowEdgesImpl(f_t F) const {
    std::vector<std::pair<n_t, n_t>> R;
    for (unsigned I = 1; I <= P->N; ++I)
      if (P->FunOf[I] == F.Id)
        for (auto S : P->Succs[I])
          R.emplace_back(n_t(I), S);
    return R;
  }
  std::vector<n_t> getAllInstructionsOfImpl(f_t F) const {
    std::vector<n_t> R;
    for (unsigned I = 1; I <= P->N; ++I)
      if (P->FunOf[I] == F.Id)
        R.push_back(n_t(I));
    return R;
  }
  std::vector<n_t> getStartPointsOfImpl(f_t F) const { return {n_t(1)}; }
  // as for instructions: the targets of a node with several successors or predecessors
  bool isBranchTargetImpl(n_t A, n_t B) const noexcept {
    if (P->Succs[A.Id].size() < 2 && P->Preds[B.Id].size() < 2)
      return false;
    for (auto S : P->Succs[A.Id])
      if (S.Id == B.Id)
        return true;
    return false;
  }
};
struct MDB : psr::ProjectIRDBBase<MDB> {
  friend psr::ProjectIRDBBase<MDB>;
  using f_t = synth::Func;

private:
  f_t getFunctionDefinitionImpl(llvm::StringRef Name) const { return f_t(Name.back() - '0'); }
  void dumpImpl() const {}
  [[nodiscard]] bool isValidImpl() const noexcept { return true; }
};

struct Domain : psr::AnalysisDomain {
  using n_t = synth::Node;
  using d_t = int;
  using f_t = synth::Func;
  using t_t = const void *;
  using v_t = const void *;
  using i_t = MCFG;
  using c_t = MCFG;
  using db_t = MDB;
  using mono_container_t = std::set<int>;
};

// Transfer functions on sets over {0,1}, as a table from the 4 sets to sets (bit masks).
struct TF {
  const char *Name;
  std::array<uint8_t, 4> T;
  bool Distributive(bool Union) const {
    for (int A = 0; A < 4; ++A)
      for (int B = 0; B < 4; ++B)
        if (Union ? T[A | B] != (T[A] | T[B]) : T[A & B] != (T[A] & T[B]))
          return false;
    return true;
  }
};
// every monotone function on the powerset of {0,1}
inline const std::vector<TF> &allTFs() {
  static std::vector<TF> R = [] {
    std::vector<TF> V;
    for (int X = 0; X < 256; ++X) {
      TF F{"", {uint8_t(X & 3), uint8_t(X >> 2 & 3), uint8_t(X >> 4 & 3), uint8_t(X >> 6 & 3)}};
      bool Mono = true;
      for (int A = 0; A < 4; ++A)
        for (int B = 0; B < 4; ++B)
          if ((A & B) == A && (F.T[A] & F.T[B]) != F.T[A])
            Mono = false;
      if (Mono)
        V.push_back(F);
    }
    return V;
  }();
  return R;
}
inline int toMask(const std::set<int> &S) {
  int M = 0;
  for (int X : S)
    M |= 1 << X;
  return M;
}
inline std::set<int> toSet(int M) {
  std::set<int> S;
  for (int I = 0; I < 2; ++I)
    if (M >> I & 1)
      S.insert(I);
  return S;
}
struct Problem : psr::IntraMonoProblem<Domain> {
  const std::vector<const TF *> &F;
  bool Union;
  std::unordered_map<synth::Node, std::set<int>> Seeds;
  Problem(const MDB *DB, const MCFG *C, const std::vector<const TF *> &F, bool Union, std::vector<std::string> EP)
      : IntraMonoProblem(DB, nullptr, C, {}, std::move(EP)), F(F), Union(Union) {}
  mono_container_t normalFlow(n_t I, const mono_container_t &In) override { return toSet(F[I.Id]->T[toMask(In)]); }
  mono_container_t merge(const mono_container_t &A, const mono_container_t &B) override {
    return toSet(Union ? toMask(A) | toMask(B) : toMask(A) & toMask(B));
  }
  bool equal_to(const mono_container_t &A, const mono_container_t &B) override { return A == B; }
  mono_container_t allTop() override { return toSet(Union ? 0 : 3); }
  std::unordered_map<n_t, mono_container_t> initialSeeds() override { return Seeds; }
};
} // namespace syn2
using namespace syn2;

// Succs choices of a node among the non-entry nodes of its function, at most 2, ordered; duplicates allowed.
static void chooseGraph(mc::Ctx &C, G &Gr, unsigned N, unsigned First, unsigned Fun, bool Dup) {
  for (unsigned I = 0; I < N; ++I) {
    unsigned Me = First + I;
    Gr.FunOf[Me] = Fun;
    unsigned K = N - 1;
    unsigned Opt = C.choose(1 + K + K * K);
    auto Add = [&](unsigned T) {
      Gr.Succs[Me].push_back(synth::Node(First + 1 + T));
      Gr.Preds[First + 1 + T].push_back(synth::Node(Me));
    };
    if (Opt == 0)
      continue;
    if (Opt <= K) {
      Add(Opt - 1);
      continue;
    }
    Opt -= K + 1;
    if (!Dup && Opt / K == Opt % K) { // a switch/branch with two equal targets: counted in Dup mode only
      Gr.N = 0;
      return;
    }
    Add(Opt / K);
    Add(Opt % K);
  }
}
static bool allReachable(const G &Gr, unsigned First, unsigned N) {
  std::vector<bool> R(Gr.N + 2);
  std::vector<unsigned> W{First};
  R[First] = true;
  unsigned C = 1;
  while (!W.empty()) {
    auto X = W.back();
    W.pop_back();
    for (auto S : Gr.Succs[X])
      if (!R[S.Id]) {
        R[S.Id] = true;
        ++C;
        W.push_back(S.Id);
      }
  }
  return C == N;
}

static void runSolver(mc::Ctx &C, const G &Gr, const std::vector<const TF *> &F, bool Union, int SeedMask, std::vector<std::string> EP, const std::vector<unsigned> &Entries,
                      const std::string &What) {
  MDB DB;
  MCFG Cfg;
  Cfg.P = &Gr;
  Problem P(&DB, &Cfg, F, Union, EP);
  for (auto E : Entries)
    P.Seeds[synth::Node(E)] = toSet(SeedMask);
  // reference 1: the fixed point by round robin iteration
  const int Top = Union ? 0 : 3;
  std::vector<int> In(Gr.N + 1, Top);
  auto isEntry = [&](unsigned I) { return std::find(Entries.begin(), Entries.end(), I) != Entries.end(); };
  for (unsigned I = 1; I <= Gr.N; ++I)
    if (isEntry(I))
      In[I] = Top | SeedMask;
  bool Ch = true;
  while (Ch) {
    Ch = false;
    for (unsigned I = 1; I <= Gr.N; ++I) {
      if (Gr.Preds[I].empty())
        continue;
      int V = Top;
      for (auto Q : Gr.Preds[I])
        V = Union ? V | F[Q.Id]->T[In[Q.Id]] : V & F[Q.Id]->T[In[Q.Id]];
      C.transition();
      if (V != In[I]) {
        In[I] = V;
        Ch = true;
      }
    }
  }
  // reference 2: explicit exploration of the configurations (node, set along one path); meets the fixed point
  // exactly when the functions are distributive, and is below/above it otherwise
  std::set<std::pair<unsigned, int>> Seen;
  std::vector<std::pair<unsigned, int>> W;
  for (auto E : Entries) {
    W.emplace_back(E, Top | SeedMask);
    Seen.insert(W.back());
  }
  // unreachable nodes have no paths; they are excluded by the generator
  std::vector<int> MOP(Gr.N + 1, Top);
  while (!W.empty()) {
    auto [X, S] = W.back();
    W.pop_back();
    MOP[X] = Union ? MOP[X] | S : MOP[X] & S;
    for (auto T : Gr.Succs[X]) {
      C.transition();
      auto Nx = std::make_pair(T.Id, int(F[X]->T[S]));
      if (Seen.insert(Nx).second)
        W.push_back(Nx);
    }
  }
  C.states(Seen.size());
  bool Distr = true;
  for (unsigned I = 1; I <= Gr.N; ++I)
    Distr &= F[I]->Distributive(Union);
  for (unsigned I = 1; I <= Gr.N; ++I) {
    bool Ok = Distr ? MOP[I] == In[I] : Union ? (MOP[I] | In[I]) == In[I] : (MOP[I] & In[I]) == In[I];
    if (!Ok) {
      fprintf(stderr, "harness error: reference models disagree\n");
      _exit(3);
    }
  }
  psr::IntraMonoSolver<Domain> S(P);
  S.solve();
  C.trace();
  for (unsigned I = 1; I <= Gr.N; ++I) {
    int Got = toMask(S.getResultsAt(synth::Node(I)));
    int Want = F[I]->T[In[I]];
    if (Got != Want) {
      std::string D = Gr.str() + (Union ? "union" : "intersection") + " seed " + std::to_string(SeedMask) + " transfer:";
      for (unsigned J = 1; J <= Gr.N; ++J)
        D += " n" + std::to_string(J) + ":{" + std::to_string(F[J]->T[0]) + std::to_string(F[J]->T[1]) + std::to_string(F[J]->T[2]) + std::to_string(F[J]->T[3]) + "}";
      C.fail("mfp", "result at n" + std::to_string(I) + " is " + std::to_string(Got) + ", expected " + std::to_string(Want) + " in " + D);
    }
    C.outcome(mc::mix(Got, I));
  }
}

static void intra(mc::Ctx &C, unsigned N, bool Few, bool Dup) {
  G Gr;
  Gr.N = N;
  Gr.FunOf.assign(N + 1, 1);
  Gr.Succs.resize(N + 1);
  Gr.Preds.resize(N + 1);
  chooseGraph(C, Gr, N, 1, 1, Dup);
  if (Gr.N == 0 || !allReachable(Gr, 1, N))
    return;
  auto &All = allTFs();
  // Few: id, gen 0, kill 0, b:=a (with a kept), swap, "0 if both"
  static const std::vector<TF> FewT = {{"id", {0, 1, 2, 3}}, {"gen0", {1, 1, 3, 3}}, {"kill0", {0, 0, 2, 2}}, {"copy", {0, 3, 0, 3}}, {"swap", {0, 2, 1, 3}}, {"both", {0, 0, 0, 3}}};
  if (!C.mine())
    return;
  const unsigned K = Few ? FewT.size() : All.size();
  // the functions are enumerated inside one case: odometer
  std::vector<unsigned> Idx(N + 1, 0);
  std::vector<const TF *> F(N + 1);
  if (C.wantSample())
    C.sample(Gr.str() + "x " + std::to_string(K) + "^" + std::to_string(N) + " transfer functions x {union,intersection} x 2 seeds");
  uint64_t Cnt = 0;
  for (;;) {
    for (unsigned I = 1; I <= N; ++I)
      F[I] = Few ? &FewT[Idx[I]] : &All[Idx[I]];
    for (bool Union : {true, false})
      for (int Seed : {0, 1, 2})
        if (Union || Seed == 0) // with intersection, the entry already starts with the full set
          runSolver(C, Gr, F, Union, Seed, {"f1"}, {1}, ""), ++Cnt;
    if ((Cnt & 0xff) == 0)
      C.beat();
    unsigned I = 1;
    while (I <= N && ++Idx[I] == K)
      Idx[I++] = 0;
    if (I > N)
      break;
  }
  C.count("problems", Cnt);
  C.nontrivial(mc::hashStr(Gr.str()));
}

// two entry functions analysed in one run
static void twoFuns(mc::Ctx &C) {
  const unsigned N = 3;
  G Gr;
  Gr.N = 2 * N;
  Gr.FunOf.assign(2 * N + 1, 1);
  Gr.Succs.resize(2 * N + 1);
  Gr.Preds.resize(2 * N + 1);
  chooseGraph(C, Gr, N, 1, 1, false);
  if (Gr.N == 0 || !allReachable(Gr, 1, N))
    return;
  chooseGraph(C, Gr, N, 1 + N, 2, false);
  if (Gr.N == 0 || !allReachable(Gr, 1 + N, N))
    return;
  if (!C.mine())
    return;
  static const std::vector<TF> FewT = {{"gen0", {1, 1, 3, 3}}, {"kill0", {0, 0, 2, 2}}, {"copy", {0, 3, 0, 3}}};
  std::vector<unsigned> Idx(N + 1, 0);
  std::vector<const TF *> F(2 * N + 1);
  for (;;) {
    for (unsigned I = 1; I <= N; ++I) {
      F[I] = &FewT[Idx[I]];
      F[I + N] = &FewT[(Idx[I] + I) % 3];
    }
    for (bool Union : {true, false}) {
      runSolver(C, Gr, F, Union, Union ? 1 : 0, {"f1", "f2"}, {1, 1 + N}, "");
      C.count("problems");
    }
    unsigned I = 1;
    while (I <= N && ++Idx[I] == 3)
      Idx[I++] = 0;
    if (I > N)
      break;
  }
}

//---- CallStringCTX
template <unsigned K> static void callStrings(mc::Ctx &C) {
  using CS = psr::CallStringCTX<unsigned, K>;
  const unsigned Len = C.thorough() ? 7 : 6;
  CS A, B;
  std::deque<unsigned> MA, MB;
  std::string H;
  std::vector<unsigned> Ops;
  unsigned Init = C.choose(4);
  for (unsigned I = 0; I < Len; ++I) {
    unsigned O = C.choose(7);
    Ops.push_back(O);
    if (O == 6)
      break; // end
  }
  if (!C.mine())
    return;
  // constructors from lists: accepted iff not longer than K
  std::vector<std::vector<unsigned>> Inits = {{}, {1}, {2, 1}, {1, 2, 1}};
  bool Threw = false;
  try {
    switch (Init) {
    case 0: A = CS{}; break;
    case 1: A = CS({1}); break;
    case 2: A = CS({2, 1}); break;
    case 3: A = CS({1, 2, 1}); break;
    }
  } catch (std::runtime_error &) {
    Threw = true;
  }
  C.check(Threw == (Inits[Init].size() > K), "init", "constructor from a list of " + std::to_string(Inits[Init].size()));
  if (Threw)
    return;
  MA.assign(Inits[Init].begin(), Inits[Init].end());
  auto str = [](const std::deque<unsigned> &D) {
    std::string S = "Call string: [ ";
    for (size_t I = 0; I < D.size(); ++I)
      S += (I ? " * " : "") + std::to_string(D[I]);
    return S + " ]";
  };
  auto less = [](auto &X, auto &Y) -> int { return X < Y; };
  auto Cmp = [&] {
    for (int S = 0; S < 2; ++S) {
      auto &X = S ? B : A;
      auto &M = S ? MB : MA;
      C.check(X.size() == M.size() && X.empty() == M.empty(), "size", [&] { return "after " + H + ": size " + std::to_string(X.size()) + ", expected " + std::to_string(M.size()); });
      C.check(X.size() <= K, "limit", [&] { return "after " + H; });
      std::string P;
      llvm::raw_string_ostream OS(P);
      X.print(OS);
      C.check(OS.str() == str(M), "print", [&] { return "after " + H + ": printed '" + P + "', expected '" + str(M) + "'"; });
    }
    C.check((A == B) == (MA == MB), "equal", [&] { return "after " + H; });
    C.check((A != B) == (MA != MB), "unequal", [&] { return "after " + H; });
    C.check(A.isEqual(B) == (MA == MB) && A.isDifferent(B) == (MA != MB), "isEqual", [&] { return "after " + H; });
    if (MA == MB)
      C.check(std::hash<CS>()(A) == std::hash<CS>()(B), "hash", [&] { return "after " + H; });
    C.check(less(A, B) == (MA < MB) && less(B, A) == (MB < MA), "less", [&] { return "after " + H; });
    uint64_t St = 7;
    for (auto X : MA)
      St = mc::mix(St, X);
    St = mc::mix(St, 99);
    for (auto X : MB)
      St = mc::mix(St, X);
    C.state(St);
  };
  H = "{" + str(MA) + "}";
  Cmp();
  for (auto O : Ops) {
    C.transition();
    switch (O) {
    case 0:
    case 1:
    case 2: {
      H += "; A.push_back(" + std::to_string(O + 1) + ")";
      A.push_back(O + 1);
      MA.push_back(O + 1);
      while (MA.size() > K)
        MA.pop_front();
      break;
    }
    case 3: {
      H += "; A.pop_back()";
      unsigned Got = A.pop_back();
      unsigned Want = MA.empty() ? 0 : MA.back();
      if (!MA.empty())
        MA.pop_back();
      C.check(Got == Want, "pop", [&] { return H + " = " + std::to_string(Got); });
      break;
    }
    case 4:
      H += "; B = A";
      B = A;
      MB = MA;
      break;
    case 5:
      H += "; swap(A, B)";
      std::swap(A, B);
      std::swap(MA, MB);
      break;
    case 6:
      continue;
    }
    Cmp();
  }
  C.trace();
  C.nontrivial(mc::hashStr(H));
  if (C.wantSample())
    C.sample("K=" + std::to_string(K) + " " + H);
}

int main(int argc, char **argv) {
  std::vector<mc::Part> Parts;
  Parts.push_back({"intra_1", [](mc::Ctx &C) { intra(C, 1, false, true); }});
  Parts.push_back({"intra_2", [](mc::Ctx &C) { intra(C, 2, false, true); }});
  Parts.push_back({"intra_3", [](mc::Ctx &C) { intra(C, 3, false, C.thorough()); }});
  Parts.push_back({"intra_3dup", [](mc::Ctx &C) { intra(C, 3, true, true); }});
  Parts.push_back({"intra_two_functions", twoFuns});
  Parts.push_back({"callstring_1", callStrings<1>});
  Parts.push_back({"callstring_2", callStrings<2>});
  Parts.push_back({"callstring_3", callStrings<3>});
  Parts.push_back({"callstring_0", callStrings<0>});
  Parts.push_back({"intra_4", [](mc::Ctx &C) { intra(C, 4, true, C.thorough()); }});
  return mc::run(argc, argv, Parts, {});
}
