// Algebra and storage of edge functions, against tables over a five-valued lattice.
#include "mc.h"
#include <sstream>
#include "phasar/DataFlow/IfdsIde/DefaultEdgeFunctionSingletonCache.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionSingletonCache.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"
#include "phasar/Domain/LatticeDomain.h"
#include "phasar/Domain/BinaryDomain.h"
#include "llvm/ADT/DenseSet.h"
#include <array>
#include <optional>

using namespace psr;
using Tab = std::array<uint8_t, 5>;
static constexpr uint8_t TOP = 0, BOT = 4;
static uint8_t joinV(uint8_t A, uint8_t B) { return A == TOP || A == B ? B : B == TOP ? A : BOT; }
/// A taller lattice: top < 1, 2 < 3 < bottom
static uint8_t joinTall(uint8_t A, uint8_t B) { return A == B || B == TOP ? A : A == TOP ? B : A == BOT || B == BOT ? BOT : 3; }
template <typename L> static uint8_t joinOf(uint8_t A, uint8_t B);
template <typename L> static bool leq(uint8_t A, uint8_t B) { return joinOf<L>(A, B) == B; }

// lattice 1: a plain type with lattice traits
struct V {
  uint8_t X = 0;
  friend bool operator==(V A, V B) { return A.X == B.X; }
  friend bool operator!=(V A, V B) { return A.X != B.X; }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, V A) { return OS << "v" << int(A.X); }
  friend llvm::hash_code hash_value(V A) { return llvm::hash_value(A.X); }
};
// a value too large to be stored inline
struct Big {
  int X = 0;
  int64_t Pad[3] = {1, 2, 3};
  friend bool operator==(const Big &A, const Big &B) { return A.X == B.X; }
  friend bool operator!=(const Big &A, const Big &B) { return A.X != B.X; }
  friend bool operator<(const Big &A, const Big &B) { return A.X < B.X; }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const Big &A) { return OS << "b" << A.X; }
  friend llvm::hash_code hash_value(const Big &A) { return llvm::hash_value(A.X); }
};
// values of the taller lattice, small and large
template <int Words> struct Tall {
  std::array<int64_t, Words> X{};
  friend bool operator==(const Tall &A, const Tall &B) { return A.X == B.X; }
  friend bool operator!=(const Tall &A, const Tall &B) { return A.X != B.X; }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const Tall &A) { return OS << "t" << A.X[0]; }
  friend llvm::hash_code hash_value(const Tall &A) { return llvm::hash_value(A.X[0]); }
};
namespace psr {
template <int W> struct JoinLatticeTraits<Tall<W>> {
  static Tall<W> top() { return {}; }
  static Tall<W> bottom() { return {{BOT}}; }
  static Tall<W> join(const Tall<W> &A, const Tall<W> &B) { return {{joinTall(A.X[0], B.X[0])}}; }
};
template <> struct JoinLatticeTraits<V> {
  static constexpr V top() { return {TOP}; }
  static constexpr V bottom() { return {BOT}; }
  static V join(V A, V B) { return {joinV(A.X, B.X)}; }
};
} // namespace psr
template <typename L> struct Ad;
template <> struct Ad<V> {
  static uint8_t idx(V A) { return A.X; }
  static V val(uint8_t I) { return {I}; }
  static V cval(uint8_t I) { return {I}; }
};
template <> struct Ad<LatticeDomain<int>> {
  using L = LatticeDomain<int>;
  static uint8_t idx(const L &A) { return A.isTop() ? TOP : A.isBottom() ? BOT : *A.getValueOrNull(); }
  static L val(uint8_t I) { return I == TOP ? L(Top{}) : I == BOT ? L(Bottom{}) : L(int(I)); }
  static int cval(uint8_t I) { return I; }
};
template <> struct Ad<LatticeDomain<Big>> {
  using L = LatticeDomain<Big>;
  static uint8_t idx(const L &A) { return A.isTop() ? TOP : A.isBottom() ? BOT : A.getValueOrNull()->X; }
  static L val(uint8_t I) { return I == TOP ? L(Top{}) : I == BOT ? L(Bottom{}) : L(Big{int(I)}); }
  static Big cval(uint8_t I) { return Big{int(I)}; }
};

template <int W> struct Ad<Tall<W>> {
  static uint8_t idx(const Tall<W> &A) { return A.X[0]; }
  static Tall<W> val(uint8_t I) { return {{I}}; }
  static Tall<W> cval(uint8_t I) { return {{I}}; }
};
template <typename T> struct IsTall : std::false_type {};
template <int W> struct IsTall<Tall<W>> : std::true_type {};
template <typename L> static uint8_t joinOf(uint8_t A, uint8_t B) { return IsTall<L>::value ? joinTall(A, B) : joinV(A, B); }

static int64_t Live = 0;
template <typename L> static Tab tabOf(const EdgeFunction<L> &F) {
  Tab R;
  for (uint8_t I = 0; I < 5; ++I)
    R[I] = Ad<L>::idx(F.computeTarget(Ad<L>::val(I)));
  return R;
}

/// A user-defined edge function built from the framework's helpers.
/// Kind 0: inline, 1: heap. N: join with up to N functions kept apart.
template <typename L, int Kind, uint8_t N> struct User;
template <typename L, uint8_t N> struct UserComposer : EdgeFunctionComposer<L> {
  static EdgeFunction<L> join(EdgeFunctionRef<UserComposer> This, const EdgeFunction<L> &O) {
    if (auto D = defaultJoinOrNull<L, N>(This, O))
      return D;
    if constexpr (N > 0)
      return JoinEdgeFunction<L, N>::create(This, O);
    return AllBottom<L>{};
  }
};
template <typename L, uint8_t N> struct User<L, 0, N> {
  using l_t = L;
  std::array<uint8_t, 5> T;
  L computeTarget(ByConstRef<L> S) const { return Ad<L>::val(T[Ad<L>::idx(S)]); }
  static EdgeFunction<L> compose(EdgeFunctionRef<User> This, const EdgeFunction<L> &S) {
    if (auto D = defaultComposeOrNull(This, S))
      return D;
    return UserComposer<L, N>{This, S};
  }
  static EdgeFunction<L> join(EdgeFunctionRef<User> This, const EdgeFunction<L> &O) {
    if (auto D = defaultJoinOrNull<L, N>(This, O))
      return D;
    if constexpr (N > 0)
      return JoinEdgeFunction<L, N>::create(This, O);
    return AllBottom<L>{};
  }
  friend bool operator==(const User &A, const User &B) noexcept { return A.T == B.T; }
  friend llvm::hash_code hash_value(const User &A) noexcept { return llvm::hash_combine_range(A.T.begin(), A.T.end()); }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const User &U) {
    OS << "soo";
    for (auto X : U.T)
      OS << int(X);
    return OS;
  }
};
template <typename L, uint8_t N> struct User<L, 1, N> {
  using l_t = L;
  std::array<uint8_t, 5> T;
  std::array<char, 40> Pad{};
  User(const Tab &T = {}) : T(T) { ++Live; }
  User(const User &O) : T(O.T) { ++Live; }
  User(User &&O) : T(O.T) { ++Live; }
  ~User() { --Live; }
  L computeTarget(ByConstRef<L> S) const { return Ad<L>::val(T[Ad<L>::idx(S)]); }
  static EdgeFunction<L> compose(EdgeFunctionRef<User> This, const EdgeFunction<L> &S) {
    if (auto D = defaultComposeOrNull(This, S))
      return D;
    if (const auto *U = llvm::dyn_cast<User>(S)) {
      Tab R;
      for (int I = 0; I < 5; ++I)
        R[I] = U->T[This->T[I]];
      if (This.isCached())
        return CachedEdgeFunction<User>{User{R}, This.getCacheOrNull()};
      return User{R};
    }
    return UserComposer<L, N>{This, S};
  }
  static EdgeFunction<L> join(EdgeFunctionRef<User> This, const EdgeFunction<L> &O) {
    if (auto D = defaultJoinOrNull<L, N>(This, O))
      return D;
    if constexpr (N > 0)
      return JoinEdgeFunction<L, N>::create(This, O);
    return AllBottom<L>{};
  }
  friend bool operator==(const User &A, const User &B) noexcept { return A.T == B.T; }
  friend llvm::hash_code hash_value(const User &A) noexcept { return llvm::hash_combine_range(A.T.begin(), A.T.end()); }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const User &U) {
    OS << "heap";
    for (auto X : U.T)
      OS << int(X);
    return OS;
  }
};

static std::string tabStr(const Tab &T) {
  std::string S;
  for (auto X : T)
    S += char('0' + X);
  return S;
}
template <typename L> static std::string str(const EdgeFunction<L> &F) { return to_string(F) + "<" + tabStr(tabOf(F)) + ">"; }

template <typename L, uint8_t N> struct Universe {
  using EF = EdgeFunction<L>;
  DefaultEdgeFunctionSingletonCache<User<L, 1, N>> Cache;
  std::vector<EF> Fs;
  size_t Atoms = 0;
  static bool isId(const EF &F) { return llvm::isa<EdgeIdentity<L>>(F); }
  static bool isTop(const EF &F) { return llvm::isa<AllTop<L>>(F); }
  static bool isBot(const EF &F) { return llvm::isa<AllBottom<L>>(F); }
  static bool isConst(const EF &F) { return isTop(F) || isBot(F) || llvm::isa<ConstantEdgeFunction<L>>(F); }

  void init(size_t Level1) {
    Tab Inc{0, 2, 3, 1, 4}, Sw{0, 2, 1, 3, 4}, Col{0, 1, 1, 4, 4}, NonStrict{1, 1, 2, 3, 4}, Clamp{0, 1, 2, 3, 3};
    Fs = {EdgeIdentity<L>{}, AllTop<L>{}, AllBottom<L>{}, ConstantEdgeFunction<L>{Ad<L>::cval(1)}, ConstantEdgeFunction<L>{Ad<L>::cval(2)}, ConstantEdgeFunction<L>{Ad<L>::cval(3)},
          User<L, 0, N>{Inc}, User<L, 0, N>{Sw}, User<L, 1, N>{Inc}, User<L, 1, N>{Inc}, User<L, 1, N>{Col},
          CachedEdgeFunction<User<L, 1, N>>{User<L, 1, N>{Sw}, &Cache}, CachedEdgeFunction<User<L, 1, N>>{User<L, 1, N>{Col}, &Cache},
          User<L, 0, N>{NonStrict}, User<L, 1, N>{Clamp}};
    Atoms = Fs.size();
    std::set<std::string> Seen;
    for (auto &F : Fs)
      Seen.insert(str(F));
    auto Round = [&](size_t From, size_t To, size_t Max) {
      for (size_t I = 0; I < To; ++I)
        for (size_t J = (I < From ? From : 0); J < To; ++J)
          for (int Op = 0; Op < 2; ++Op) {
            EF R = Op ? Fs[I].joinWith(Fs[J]) : Fs[I].composeWith(Fs[J]);
            if (Fs.size() < Max && Seen.insert(str(R)).second)
              Fs.push_back(R);
          }
    };
    Round(0, Atoms, Level1);
    size_t L1 = Fs.size();
    Round(Atoms, L1, Level1);
  }
};

template <typename L, uint8_t N> static void laws(mc::Ctx &C, const EdgeFunction<L> &F, const EdgeFunction<L> &G) {
  using U = Universe<L, N>;
  using EF = EdgeFunction<L>;
  Tab TF = tabOf(F), TG = tabOf(G);
  auto Pair = [&](const char *What, const EF &R) { return std::string(What) + ": " + str(F) + " with " + str(G) + " gave " + str(R); };
  // -- composition
  EF Co = F.composeWith(G);
  C.check(Co.isValid(), "compose:null", str(F) + " with " + str(G));
  Tab TC = tabOf(Co);
  C.trace();
  if (U::isTop(F))
    C.check(Co == (U::isId(G) ? F : G), "compose:top", [&] { return Pair("top-first", Co); });
  else {
    bool Exact = true, Sound = true;
    for (int I = 0; I < 5; ++I) {
      Exact &= TC[I] == TG[TF[I]];
      Sound &= leq<L>(TG[TF[I]], TC[I]);
    }
    C.check(Sound, "compose:unsound", [&] { return Pair("compose", Co); });
    // bottom-first with a function that does not preserve bottom may stay at bottom
    bool MayLose = U::isBot(F) && TG[BOT] != BOT;
    C.check(Exact || (MayLose && U::isBot(Co)), "compose:inexact", [&] { return Pair("compose", Co); });
  }
  // -- join
  EF Jo = F.joinWith(G);
  C.check(Jo.isValid(), "join:null", str(F) + " with " + str(G));
  Tab TJ = tabOf(Jo);
  bool Exact = true, Sound = true;
  for (int I = 0; I < 5; ++I) {
    Exact &= TJ[I] == joinOf<L>(TF[I], TG[I]);
    Sound &= leq<L>(joinOf<L>(TF[I], TG[I]), TJ[I]);
  }
  if (U::isTop(F) || U::isTop(G)) {
    C.check(Jo == (U::isTop(F) ? G : F), "join:top", [&] { return Pair("join", Jo); });
  } else {
    C.check(Sound, "join:unsound", [&] { return Pair("join", Jo); });
    C.check(Exact || U::isBot(Jo), "join:neither-exact-nor-bottom", [&] { return Pair("join", Jo); });
  }
  if (F == G)
    C.check(Jo == F, "join:not-idempotent", [&] { return Pair("join", Jo); });
  if (U::isBot(F) || U::isBot(G))
    C.check(U::isBot(Jo), "join:bottom-not-absorbing", [&] { return Pair("join", Jo); });
  if (U::isConst(F) && U::isConst(G) && !U::isTop(F) && !U::isTop(G))
    C.check(Exact, "join:constants-inexact", [&] { return Pair("join", Jo); });
  // joining the same again changes nothing: the solver's fixpoint depends on it
  C.check(Jo.joinWith(G) == Jo && Jo.joinWith(F) == Jo, "join:not-stable",
          [&] { return Pair("join", Jo) + ", again: " + str(Jo.joinWith(G)) + " / " + str(Jo.joinWith(F)); });
  // up to N functions are kept apart
  if (N > 0) {
    auto Members = [](const EF &X, std::vector<EF> &Out) {
      if (const auto *J = llvm::dyn_cast<JoinEdgeFunction<L, N>>(X)) {
        Out.insert(Out.end(), J->OtherEF.begin(), J->OtherEF.end());
        return;
      }
      Out.push_back(X);
    };
    bool Plain = [](const EF &X) { return !U::isConst(X); }(F) && !U::isConst(G);
    std::vector<EF> M, D;
    Members(F, M), Members(G, M);
    for (auto &X : M) {
      bool Dup = false;
      for (auto &Y : D)
        Dup |= X == Y;
      if (!Dup)
        D.push_back(X);
    }
    if (Plain && D.size() <= N)
      C.check(Exact, "join:loses-precision", [&] { return Pair("join", Jo); });
  }
  // -- equality, hashing, ordering, constancy
  C.check((F == G) == (G == F) && (F != G) == !(F == G), "eq:not-symmetric", str(F) + " " + str(G));
  C.check(F == F && !(F != F), "eq:not-reflexive", str(F));
  if (F == G) {
    C.check(TF == TG, "eq:different-functions", [&] { return str(F) + " " + str(G); });
    C.check(!(F < G) && !(G < F), "order:equal", [&] { return str(F) + " " + str(G); });
    if (!llvm::isa<JoinEdgeFunction<L, N ? N : 1>>(F) && !llvm::isa<UserComposer<L, N>>(F) && !llvm::isa<ConstantEdgeFunction<L>>(F))
      C.check(F.getHashCode() == G.getHashCode() && hash_value(F) == hash_value(G), "hash:equal-but-different-hash", [&] { return str(F); });
  } else
    C.check((F < G) != (G < F), "order:not-total", [&] { return str(F) + " " + str(G); });
  for (const EF *X : std::initializer_list<const EF *>{&Co, &Jo, &F, &G}) {
    if (X->isConstant()) {
      auto T = tabOf(*X);
      for (int I = 1; I < 5; ++I)
        C.check(T[I] == T[0], "constant:not-constant", [&] { return str(*X); });
    }
    C.check(X->depth() >= 1, "depth", [&] { return str(*X); });
  }
  C.transition(2);
  C.outcome(mc::mix(mc::hashStr(tabStr(TC)), mc::hashStr(tabStr(TJ))));
}

template <typename L, uint8_t N> static void algebra(mc::Ctx &C) {
  static Universe<L, N> *U = nullptr;
  if (!U) {
    U = new Universe<L, N>();
    U->init(C.thorough() ? 2000 : 500);
  }
  auto I = C.choose(U->Fs.size());
  if (!C.mine())
    return;
  auto &F = U->Fs[I];
  C.state(mc::hashStr(str(F)));
  C.nontrivial(mc::hashStr(str(F)));
  if (C.wantSample())
    C.sample(str(F));
  for (size_t J = 0; J < U->Fs.size(); ++J)
    laws<L, N>(C, F, U->Fs[J]);
  // a join of three in every order; (f.g).h = f.(g.h) unless a function was given up
  size_t A = U->Atoms;
  for (size_t J = 0; J < A; ++J)
    for (size_t K = 0; K < A; ++K) {
      auto &G = U->Fs[J];
      auto &H = U->Fs[K];
      laws<L, N>(C, F.joinWith(G), H);
      laws<L, N>(C, F.composeWith(G), H);
      laws<L, N>(C, H, F.composeWith(G));
    }
}

// ---- value lattices themselves
template <typename L> static void lattice(mc::Ctx &C) {
  using T = JoinLatticeTraits<L>;
  auto I = C.choose(5), J = C.choose(5);
  if (!C.mine())
    return;
  L A = Ad<L>::val(I), B = Ad<L>::val(J);
  auto S = std::to_string(I) + " " + std::to_string(J);
  C.state(I * 5 + J);
  C.trace();
  C.transition();
  C.nontrivial(I * 5 + J);
  if (C.wantSample())
    C.sample("lattice values " + S);
  C.check(Ad<L>::idx(T::join(A, B)) == joinOf<L>(I, J), "lattice:join", S);
  C.check((A == B) == (I == J) && (A != B) == (I != J), "lattice:eq", S);
  C.check(L(T::top()) == Ad<L>::val(TOP) && L(T::bottom()) == Ad<L>::val(BOT), "lattice:bounds", S);
  if constexpr (!std::is_same_v<L, V> && !IsTall<L>::value) {
    C.check((A < B) == (I < J), "lattice:less", S); // Top < values < Bottom
    C.check((A == Top{}) == (I == TOP) && (Top{} == A) == (I == TOP) && (A == Bottom{}) == (I == BOT) && (Bottom{} == A) == (I == BOT) &&
                (A != Top{}) == (I != TOP) && (A != Bottom{}) == (I != BOT) && (Top{} != A) == (I != TOP) && (Bottom{} != A) == (I != BOT) && A.isTop() == (I == TOP) && A.isBottom() == (I == BOT),
            "lattice:top-bottom", S);
    if (J != TOP && J != BOT) { // plain values
      auto &X = *B.getValueOrNull();
      C.check((A == X) == (I == J) && (X == A) == (I == J) && (A != X) == (I != J) && (X != A) == (I != J) && &B.assertGetValue() == &X, "lattice:value", S);
    }
    C.check((A.getValueOrNull() == nullptr) == (I == TOP || I == BOT), "lattice:value", S);
    std::string P, Want = I == TOP ? "Top" : I == BOT ? "Bottom" : std::is_same_v<L, LatticeDomain<Big>> ? "b" + std::to_string(I) : std::to_string(I);
    llvm::raw_string_ostream OS(P);
    OS << A;
    std::ostringstream SS;
    SS << A;
    C.check(OS.str() == Want && SS.str() == Want, "lattice:print", [&] { return "value " + Want + " is printed as " + P + " and " + SS.str(); });
    if constexpr (std::is_same_v<L, LatticeDomain<Big>>)
      if (I == J)
        C.check(hash_value(A) == hash_value(B), "lattice:hash", S);
  }
}
static void binary(mc::Ctx &C) {
  auto I = C.choose(2), J = C.choose(2);
  if (!C.mine())
    return;
  C.state(I * 2 + J);
  C.trace();
  auto D = [](int X) { return X ? BinaryDomain::BOTTOM : BinaryDomain::TOP; };
  using T = JoinLatticeTraits<BinaryDomain>;
  C.check(T::top() == D(0) && T::bottom() == D(1) && T::join(D(I), D(J)) == D(I | J), "lattice:binary");
}

// ---- storage: histories of copies, moves, assignments and destructions
static void storage(mc::Ctx &C) {
  using L = V;
  using U1 = User<L, 1, 2>;
  using EF = EdgeFunction<L>;
  const unsigned Depth = C.thorough() ? 5 : 4, NV = 3;
  struct Op {
    uint8_t K, I, J;
  };
  static std::vector<Op> Ops;
  if (Ops.empty()) {
    for (uint8_t I = 0; I < NV; ++I) {
      for (uint8_t K = 0; K < 7; ++K)
        Ops.push_back({K, I, 0}); // construct
      for (uint8_t J = 0; J < NV; ++J) {
        Ops.push_back({7, I, J}); // copy (also to itself)
        if (I != J)
          Ops.push_back({8, I, J}); // move
        if (I < J)
          Ops.push_back({9, I, J}); // swap
        if (I != J) {
          Ops.push_back({10, I, J}); // compose
          Ops.push_back({11, I, J}); // join
        }
      }
    }
  }
  std::vector<Op> H;
  for (unsigned D = 0; D < Depth; ++D)
    H.push_back(Ops[C.choose(Ops.size())]);
  // the first operation is on the first variable, without loss of generality
  if (H[0].I != 0 || H[0].K > 6)
    return;
  if (!C.mine())
    return;
  auto Str = [&] {
    std::string S;
    for (auto &O : H)
      S += " " + std::to_string(O.K) + "(" + std::to_string(O.I) + "," + std::to_string(O.J) + ")";
    return "history" + S;
  };
  if (C.wantSample())
    C.sample(Str());
  Tab Inc{0, 2, 3, 1, 4}, Sw{0, 2, 1, 3, 4};
  Live = 0;
  {
    DefaultEdgeFunctionSingletonCache<U1> Cache;
    auto Mk = [&](unsigned K) -> EF {
      switch (K) {
      case 0:
        return EdgeIdentity<L>{};
      case 1:
        return User<L, 0, 2>{Inc};
      case 2:
        return U1{Inc};
      case 3:
        return EF(std::in_place_type<U1>, Sw);
      case 4:
        return CachedEdgeFunction<U1>{U1{Inc}, &Cache};
      case 5:
        return Cache.createEdgeFunction(Sw);
      default:
        return nullptr;
      }
    };
    std::optional<EF> Var[NV];
    std::optional<Tab> M[NV];
    static const std::optional<Tab> Tabs[] = {Tab{0, 1, 2, 3, 4}, Inc, Inc, Sw, Inc, Sw, std::nullopt};
    for (unsigned I = 0; I < NV; ++I)
      Var[I].emplace();
    uint64_t HH = 3;
    for (auto &O : H) {
      auto &X = *Var[O.I];
      auto &Y = *Var[O.J];
      switch (O.K) {
      case 7:
        X = Y;
        M[O.I] = M[O.J];
        break;
      case 8:
        X = std::move(Y);
        C.check(!Y, "storage:moved-from-not-null", Str);
        M[O.I] = M[O.J];
        M[O.J] = std::nullopt;
        break;
      case 9:
        swap(X, Y);
        std::swap(M[O.I], M[O.J]);
        break;
      case 10:
      case 11: {
        if (!X || !Y)
          return;
        EF R = O.K == 10 ? X.composeWith(Y) : X.joinWith(Y);
        Tab T;
        for (int K = 0; K < 5; ++K)
          T[K] = O.K == 10 ? (*M[O.J])[(*M[O.I])[K]] : joinV((*M[O.I])[K], (*M[O.J])[K]);
        if (O.K == 11 && llvm::isa<AllBottom<L>>(R))
          T = {4, 4, 4, 4, 4};
        if (O.K == 10 && llvm::isa<AllBottom<L>>(X))
          T = tabOf(R);
        X = R;
        M[O.I] = T;
        break;
      }
      case 6:
        X = nullptr;
        M[O.I] = std::nullopt;
        break;
      default:
        X = Mk(O.K);
        M[O.I] = Tabs[O.K];
      }
      // every variable denotes what it should
      for (unsigned I = 0; I < NV; ++I) {
        C.check(Var[I]->isValid() == M[I].has_value() && bool(*Var[I]) == M[I].has_value() && (*Var[I] == nullptr) == !M[I].has_value(),
                "storage:null", Str);
        if (M[I])
          C.check(tabOf(*Var[I]) == *M[I], "storage:wrong-function", Str);
        HH = mc::mix(HH, M[I] ? mc::hashStr(tabStr(*M[I])) + unsigned(Var[I]->getAllocationPolicy()) : 1);
        for (unsigned J = 0; J < NV; ++J)
          if (M[I] && M[J] && I != J) {
            if (Var[I]->referenceEquals(*Var[J]))
              C.check(*Var[I] == *Var[J], "storage:reference-equal-but-different", Str);
            if (Var[I]->isCached() && Var[J]->isCached())
              C.check((*Var[I] == *Var[J]) == Var[I]->referenceEquals(*Var[J]), "storage:cache-not-shared", Str);
          }
        if (M[I] && Var[I]->isCached())
          C.check(Var[I]->getCacheOrNull<U1>() == &Cache && Cache.lookup(*Var[I]->cast<U1>()) != nullptr, "storage:not-in-cache", Str);
      }
      // nothing leaks, nothing is freed early: count the managed objects that are reachable
      std::set<const void *> Objs;
      std::function<void(const EF &)> Walk = [&](const EF &F) {
        if (!F)
          return;
        if (const auto *P = F.dyn_cast<U1>())
          Objs.insert(P);
        else if (const auto *P = F.dyn_cast<JoinEdgeFunction<L, 2>>())
          for (auto &G : P->OtherEF)
            Walk(G);
        else if (const auto *P = F.dyn_cast<UserComposer<L, 2>>())
          Walk(P->First), Walk(P->Second);
      };
      bool Opaque = false;
      for (unsigned I = 0; I < NV; ++I) {
        Walk(*Var[I]);
        std::function<bool(const EF &)> Known = [&](const EF &F) -> bool {
          if (!F || !F.isRefCounted() || F.isa<U1>())
            return true;
          if (const auto *P = F.dyn_cast<JoinEdgeFunction<L, 2>>())
            return llvm::all_of(P->OtherEF, Known);
          if (const auto *P = F.dyn_cast<UserComposer<L, 2>>())
            return Known(P->First) && Known(P->Second);
          return false;
        };
        Opaque |= !Known(*Var[I]);
      }
      C.check(Opaque ? Live >= int64_t(Objs.size()) : Live == int64_t(Objs.size()), "storage:leak",
              [&] { return Str() + ": " + std::to_string(Live) + " objects alive, " + std::to_string(Objs.size()) + " reachable"; });
      C.transition();
      C.state(HH);
    }
    C.trace();
    C.nontrivial(mc::hashStr(Str()));
    for (unsigned I = 0; I < NV; ++I)
      Var[I].reset();
    C.check(Live == 0, "storage:leak-at-end", Str);
    U1 A{Inc}, B{Sw};
    C.check(!Cache.lookup(A) && !Cache.lookup(B), "storage:stale-cache-entry", Str);
  }
  C.check(Live == 0, "storage:leak-at-end", Str);
}

// ---- edge functions as keys
static void keys(mc::Ctx &C) {
  using EF = EdgeFunction<V>;
  static Universe<V, 2> *U = nullptr;
  if (!U) {
    U = new Universe<V, 2>();
    U->init(0);
  }
  auto I = C.choose(U->Atoms), J = C.choose(U->Atoms), K = C.choose(U->Atoms), E = C.choose(U->Atoms);
  if (!C.mine())
    return;
  llvm::DenseSet<EF> S;
  std::vector<EF> M;
  auto Has = [&](const EF &X) { return llvm::is_contained(M, X); };
  for (auto X : {I, J, K}) {
    bool New = !Has(U->Fs[X]);
    C.check(S.insert(U->Fs[X]).second == New, "keys:insert", str(U->Fs[X]));
    if (New)
      M.push_back(U->Fs[X]);
  }
  C.check(S.erase(U->Fs[E]) == Has(U->Fs[E]), "keys:erase", str(U->Fs[E]));
  llvm::erase_value(M, U->Fs[E]);
  for (size_t X = 0; X < U->Atoms; ++X)
    C.check(S.count(U->Fs[X]) == Has(U->Fs[X]), "keys:count", str(U->Fs[X]));
  C.check(S.size() == M.size(), "keys:size");
  C.trace();
  C.transition(4);
  C.state(mc::mix(mc::mix(I, J), mc::mix(K, E)));
}

int main(int argc, char **argv) {
  std::vector<mc::Part> Parts{
      {"lattice-plain", lattice<V>},
      {"lattice-int", lattice<LatticeDomain<int>>},
      {"lattice-big", lattice<LatticeDomain<Big>>},
      {"lattice-binary", binary},
      {"algebra-plain-0", algebra<V, 0>},
      {"algebra-plain-2", algebra<V, 2>},
      {"algebra-int-0", algebra<LatticeDomain<int>, 0>},
      {"algebra-int-1", algebra<LatticeDomain<int>, 1>},
      {"algebra-int-3", algebra<LatticeDomain<int>, 3>},
      {"algebra-big-2", algebra<LatticeDomain<Big>, 2>},
      {"lattice-tall", lattice<Tall<1>>},
      {"algebra-tall-0", algebra<Tall<1>, 0>},
      {"algebra-tall-2", algebra<Tall<1>, 2>},
      {"algebra-tall-large-0", algebra<Tall<5>, 0>},
      {"algebra-tall-large-2", algebra<Tall<5>, 2>},
      {"keys", keys},
      {"storage", storage},
  };
  mc::Options O;
  O.MemLimitMB = 0;
  return mc::run(argc, argv, Parts, O);
}
