// Containers and graph structures against simple reference models: all
// histories of operations up to a length, under AddressSanitizer.
#include "mc.h"
#include "phasar/Utils/AdjacencyList.h"
#include "phasar/Utils/DFAMinimizer.h"
#include "phasar/Utils/EquivalenceClassMap.h"
#include "phasar/Utils/GraphTraits.h"
#include "phasar/Utils/MaybeUniquePtr.h"
#include "phasar/Utils/StableVector.h"
#include "phasar/Utils/Table.h"
#include "llvm/Support/raw_ostream.h"

using namespace psr;

// ------------------------------------------------------------ StableVector
struct Elem { // counts instances, notices being moved in memory
  static inline long Live = 0;
  int X;
  Elem *Self;
  std::unique_ptr<int> Heap;
  explicit Elem(int X) : X(X), Self(this), Heap(new int(X)) { ++Live; }
  Elem(const Elem &O) : X(O.X), Self(this), Heap(O.Heap ? new int(*O.Heap) : nullptr) { ++Live; }
  Elem(Elem &&O) noexcept : X(O.X), Self(this), Heap(std::move(O.Heap)) { ++Live; }
  ~Elem() {
    if (Self != this)
      abort();
    Self = nullptr;
    --Live;
  }
  bool ok(int V) const { return Self == this && X == V && Heap && *Heap == V; }
  friend bool operator==(const Elem &A, const Elem &B) { return A.X == B.X; }
};

static void stableVector(mc::Ctx &C) {
  using SV = StableVector<Elem>;
  static const unsigned Grow[] = {1, 31, 32, 33, 64};
  static const unsigned Pop[] = {1, 31, 32, 33, 65};
  constexpr unsigned NOps = 24;
  unsigned Len = C.thorough() ? 5 : 4;
  std::vector<unsigned> Ops(Len);
  for (auto &O : Ops)
    O = C.choose(NOps);
  if (!C.mine())
    return;
  std::string Hist;
  std::vector<std::pair<int, const Elem *>> RA, RB; // value and address
  long Before = Elem::Live;
  {
    SV A, B;
    int Next = 0;
    auto Append = [&](unsigned N, unsigned How) {
      for (unsigned I = 0; I < N; ++I) {
        const Elem *P;
        if (How == 0)
          P = &A.emplace_back(Next);
        else if (How == 1) {
          Elem E(Next);
          A.push_back(E);
          P = &A.back();
        } else {
          A.push_back(Elem(Next));
          P = &A.back();
        }
        RA.push_back({Next++, P});
      }
    };
    auto Check = [&](SV &V, decltype(RA) &R, const char *N) {
      auto D = [&] { return std::string(N) + " after " + Hist; };
      const SV &CV = V;
      C.check(V.size() == R.size() && V.empty() == R.empty(), "stablevector:size", D);
      for (size_t I = 0; I < R.size(); ++I) {
        C.check(&V[I] == R[I].second && &CV[I] == R[I].second, "stablevector:address", [&] { return "element " + std::to_string(I) + " moved; " + D(); });
        C.check(V[I].ok(R[I].first), "stablevector:element", [&] { return "element " + std::to_string(I) + "; " + D(); });
      }
      size_t I = 0;
      for (auto &E : V) {
        C.check(I < R.size() && &E == R[I].second, "stablevector:iteration", D);
        ++I;
      }
      C.check(I == R.size(), "stablevector:iteration", D);
      I = 0;
      for (auto It = CV.begin(); It != CV.end(); It++) {
        C.check(I < R.size() && &*It == R[I].second, "stablevector:iteration", D);
        ++I;
      }
      C.check(I == R.size(), "stablevector:iteration", D);
      if (!R.empty())
        C.check(&V.front() == R[0].second && &V.back() == R.back().second && &CV.back() == R.back().second, "stablevector:ends", D);
    };
    auto Readdress = [](SV &V, decltype(RA) &R) {
      for (size_t I = 0; I < R.size(); ++I)
        R[I].second = &V[I];
    };
    for (unsigned O : Ops) {
      C.transition();
      if (O < 5) {
        Hist += "append " + std::to_string(Grow[O]) + "; ";
        Append(Grow[O], O % 3);
      } else if (O < 10) {
        unsigned N = std::min<size_t>(Pop[O - 5], RA.size());
        Hist += "pop_back_n(" + std::to_string(N) + "); ";
        A.pop_back_n(N);
        RA.resize(RA.size() - N);
      } else if (O < 15) {
        unsigned N = std::min<size_t>(Pop[O - 10], RA.size());
        Hist += std::to_string(N) + "*pop_back(); ";
        for (unsigned I = 0; I < N; ++I) {
          A.pop_back();
          RA.pop_back();
        }
      } else
        switch (O) {
        case 15:
          Hist += "clear(); ";
          A.clear();
          RA.clear();
          break;
        case 16:
          Hist += "shrink_to_fit(); ";
          A.shrink_to_fit();
          break;
        case 17:
          Hist += "B = clone; ";
          B = A.clone();
          RB = RA;
          for (size_t I = 0; I < RA.size(); ++I)
            C.check(&B[I] != &A[I], "stablevector:clone-shares", Hist);
          Readdress(B, RB);
          C.check(A == B && !(A != B), "stablevector:equal", Hist);
          break;
        case 18:
          Hist += "B = move(A); ";
          {
            SV T(std::move(A));
            C.check(A.empty() && A.size() == 0, "stablevector:moved-from", Hist);
            B = std::move(T);
          }
          RB = std::move(RA);
          RA.clear();
          break;
        case 19:
          Hist += "swap; ";
          swap(A, B);
          std::swap(RA, RB);
          break;
        case 20:
          Hist += "pop_back_val(); ";
          if (!RA.empty()) {
            auto E = A.pop_back_val();
            C.check(E.X == RA.back().first && E.Heap && *E.Heap == E.X, "stablevector:pop_back_val", Hist);
            RA.pop_back();
          }
          break;
        case 21:
          Hist += "A = copy of B; ";
          {
            SV T(B);
            A = std::move(T);
          }
          RA = RB;
          Readdress(A, RA);
          break;
        case 22:
          Hist += "modify; ";
          for (size_t I = 0; I < RA.size(); ++I) {
            A[I].X = Next;
            *A[I].Heap = Next;
            RA[I].first = Next++;
          }
          break;
        case 23:
          Hist += "B.append 40; ";
          for (int I = 0; I < 40; ++I) {
            auto *P = &B.emplace_back(Next);
            RB.push_back({Next++, P});
          }
          break;
        }
      Check(A, RA, "A");
      Check(B, RB, "B");
      bool Eq = RA.size() == RB.size();
      for (size_t I = 0; Eq && I < RA.size(); ++I)
        Eq = RA[I].first == RB[I].first;
      C.check((A == B) == Eq && (A != B) == !Eq, "stablevector:equal", [&] { return Hist; });
      C.check(Elem::Live - Before == long(RA.size() + RB.size()), "stablevector:lifetime",
              [&] { return std::to_string(Elem::Live - Before) + " elements alive, " + std::to_string(RA.size() + RB.size()) + " stored after " + Hist; });
    }
    C.state(mc::hashStr(Hist));
    C.trace();
    if (Next > 32)
      C.nontrivial(mc::hashStr(Hist));
    C.outcome(RA.size() * 1000 + RB.size());
    if (C.wantSample())
      C.sample(Hist);
  }
  C.check(Elem::Live == Before, "stablevector:leak", [&] { return std::to_string(Elem::Live - Before) + " elements leaked after " + Hist; });
}

// ------------------------------------------------------------ Table
static void table(mc::Ctx &C) {
  using T = Table<int, int, int>;
  constexpr unsigned NOps = 8 + 4 + 2 + 6;
  unsigned Len = C.thorough() ? 6 : 4;
  std::vector<unsigned> Ops(Len);
  for (auto &O : Ops)
    O = C.choose(NOps);
  if (!C.mine())
    return;
  std::string Hist;
  T A;
  std::map<std::pair<int, int>, int> R, Saved;
  std::unique_ptr<T> Copy;
  for (unsigned O : Ops) {
    C.transition();
    if (O < 8) {
      int Row = O & 1, Col = O >> 1 & 1, V = 1 + (O >> 2);
      Hist += "insert(" + std::to_string(Row) + "," + std::to_string(Col) + "," + std::to_string(V) + "); ";
      A.insert(Row, Col, V);
      R[{Row, Col}] = V;
    } else if (O < 12) {
      int Row = O & 1, Col = O >> 1 & 1;
      Hist += "remove(" + std::to_string(Row) + "," + std::to_string(Col) + "); ";
      int Want = R.count({Row, Col}) ? R[{Row, Col}] : 0;
      C.check(A.remove(Row, Col) == Want, "table:remove", Hist);
      R.erase({Row, Col});
    } else if (O < 14) {
      int Row = O & 1;
      Hist += "remove row " + std::to_string(Row) + "; ";
      A.remove(Row);
      R.erase({Row, 0});
      R.erase({Row, 1});
    } else
      switch (O) {
      case 14:
        Hist += "clear(); ";
        A.clear();
        R.clear();
        break;
      case 15:
        Hist += "copy; ";
        Copy = std::make_unique<T>(A);
        Saved = R;
        break;
      case 16:
        Hist += "swap with the copy; ";
        if (Copy) {
          T Tmp = std::move(A);
          A = std::move(*Copy);
          *Copy = std::move(Tmp);
          std::swap(R, Saved);
        }
        break;
      case 17:
        Hist += "get(0,0) = 7; ";
        A.get(0, 0) = 7;
        R[{0, 0}] = 7;
        break;
      case 18:
        Hist += "foreachCell ++; ";
        A.foreachCell([](int, int, int &V) { ++V; });
        for (auto &[K, V] : R)
          ++V;
        break;
      case 19:
        Hist += "row(1)[1] = 5; ";
        A.row(1)[1] = 5;
        R[{1, 1}] = 5;
        break;
      }
    const T &CA = A;
    std::set<int> Rows;
    for (auto &[K, V] : R)
      Rows.insert(K.first);
    C.check(CA.empty() == R.empty() && CA.size() == Rows.size(), "table:size", [&] { return Hist; });
    auto CS = CA.cellSet();
    std::map<std::pair<int, int>, int> G;
    for (auto &X : CS)
      C.check(G.insert({{X.getRowKey(), X.getColumnKey()}, X.getValue()}).second, "table:cellSet", [&] { return Hist; });
    C.check(G == R, "table:cellSet", [&] { return Hist; });
    G.clear();
    for (auto &X : CA.cellVec())
      C.check(G.insert({{X.getRowKey(), X.getColumnKey()}, X.getValue()}).second, "table:cellVec", [&] { return Hist; });
    C.check(G == R, "table:cellVec", [&] { return Hist; });
    G.clear();
    CA.foreachCell([&](int Ro, int Co, int V) { C.check(G.insert({{Ro, Co}, V}).second, "table:foreachCell", [&] { return Hist; }); });
    C.check(G == R, "table:foreachCell", [&] { return Hist; });
    for (int I = 0; I < 3; ++I) {
      bool AnyR = R.count({I, 0}) || R.count({I, 1}), AnyC = R.count({0, I}) || R.count({1, I});
      C.check(CA.containsRow(I) == AnyR, "table:containsRow", [&] { return Hist; });
      C.check(CA.containsColumn(I) == AnyC, "table:containsColumn", [&] { return Hist; });
      std::map<int, int> RowR, ColR;
      for (auto &[K, V] : R) {
        if (K.first == I)
          RowR[K.second] = V;
        if (K.second == I)
          ColR[K.first] = V;
      }
      auto Row = CA.row(I);
      auto Col = CA.column(I);
      C.check(std::map<int, int>(Row.begin(), Row.end()) == RowR, "table:row", [&] { return Hist; });
      C.check(std::map<int, int>(Col.begin(), Col.end()) == ColR, "table:column", [&] { return Hist; });
      for (int J = 0; J < 3; ++J) {
        C.check(CA.contains(I, J) == (R.count({I, J}) != 0), "table:contains", [&] { return Hist; });
        C.check(CA.get(I, J) == (R.count({I, J}) ? R[{I, J}] : 0), "table:get", [&] { return Hist; });
      }
    }
    if (Copy)
      C.check((A == *Copy) == (R == Saved), "table:equal", [&] { return Hist; });
    uint64_t H = 5;
    for (auto &[K, V] : R)
      H = mc::mix(H, K.first * 100 + K.second * 10 + V);
    C.state(H);
    if (!R.empty())
      C.nontrivial(H);
  }
  C.trace();
  if (C.wantSample())
    C.sample(Hist);
}

// ------------------------------------------------------------ EquivalenceClassMap
static void eqClasses(mc::Ctx &C) {
  using M = EquivalenceClassMap<int, std::string>;
  unsigned Len = C.thorough() ? 7 : 5;
  // every key keeps one value; keys are inserted in any order, repeatedly, in four ways
  static const char *Vals[] = {"a", "b", "c"};
  unsigned ValOf[4];
  for (auto &V : ValOf)
    V = C.choose(3);
  std::vector<std::pair<unsigned, unsigned>> Ops(Len);
  for (auto &O : Ops) {
    O.first = C.choose(5); // key, or clear
    if (O.first < 4)
      O.second = C.thorough() ? C.choose(4) : (O.first + &O - &Ops[0]) % 4;
  }
  if (!C.mine())
    return;
  M A;
  std::map<int, std::string> R;
  std::string Hist;
  for (auto [K, How] : Ops) {
    C.transition();
    if (K == 4) {
      Hist += "clear; ";
      A.clear();
      R.clear();
    } else {
      std::string V = Vals[ValOf[K]];
      Hist += std::to_string(K) + "->" + V + "; ";
      int Key = K;
      bool New = !R.count(K);
      R[K] = V;
      if (How == 3) {
        std::vector<std::pair<int, std::string>> Vec{{Key, V}};
        A.insert(Vec.begin(), Vec.end());
      } else {
        auto [It, Ins] = How == 0 ? A.insert(Key, V) : How == 1 ? A.insert(std::make_pair(Key, V)) : A.try_emplace(int(K), V);
        C.check(Ins == New && *It == Key, "eqmap:insert-result", [&] { return Hist; });
      }
    }
    std::set<std::string> Classes;
    for (auto &[X, V] : R)
      Classes.insert(V);
    C.check(A.size() == Classes.size() && A.numEquivalenceClasses() == Classes.size(), "eqmap:size", [&] { return Hist; });
    std::map<int, std::string> G;
    for (auto &[Keys, V] : A.equivalenceClasses())
      for (int X : Keys)
        C.check(G.insert({X, V}).second, "eqmap:classes", [&] { return Hist; });
    C.check(G == R, "eqmap:classes", [&] { return Hist; });
    for (int X = 0; X < 5; ++X) {
      C.check(A.count(X) == R.count(X), "eqmap:count", [&] { return Hist; });
      auto V = A.findValue(X);
      C.check(V.has_value() == (R.count(X) != 0) && (!V || *V == R[X]), "eqmap:findValue", [&] { return Hist; });
      auto It = A.find(X);
      C.check((It != A.end()) == (R.count(X) != 0), "eqmap:find", [&] { return Hist; });
      if (It != A.end())
        for (int Y = 0; Y < 4; ++Y)
          C.check(It->first.count(Y) == (R.count(Y) && R[Y] == R[X]), "eqmap:class-of", [&] { return Hist; });
    }
    C.state(mc::mix(mc::hashStr(Hist), 3));
  }
  C.trace();
  C.nontrivial(mc::mix(mc::hashStr(Hist), 4));
  if (C.wantSample())
    C.sample(Hist);
}

// ------------------------------------------------------------ MaybeUniquePtr
struct Base {
  static inline long Live = 0;
  int X;
  explicit Base(int X) : X(X) { ++Live; }
  virtual ~Base() { --Live; }
};
struct Derived : Base {
  using Base::Base;
};
struct Tiny { // alignment 1: the fallback representation
  static inline long Live = 0;
  char X;
  explicit Tiny(int X) : X(X) { ++Live; }
  ~Tiny() { --Live; }
};
template <typename T, typename D, bool Req> static void maybeUnique(mc::Ctx &C) {
  using P = MaybeUniquePtr<T, Req>;
  unsigned Len = C.thorough() ? 5 : 4;
  constexpr unsigned NOps = 13;
  std::vector<unsigned> Ops(Len);
  for (auto &O : Ops)
    O = C.choose(NOps);
  if (!C.mine())
    return;
  long Before = T::Live;
  std::string Hist;
  std::vector<std::unique_ptr<T>> Released;
  T Outer(50);
  {
    struct R {
      T *Ptr = nullptr;
      bool Owns = false;
    };
    P A, B;
    R RA, RB;
    long Owned = 0;
    int Next = 1;
    auto Drop = [&](R &X) {
      if (X.Owns)
        --Owned;
      X = {};
    };
    for (unsigned O : Ops) {
      C.transition();
      switch (O) {
      case 0: {
        Hist += "A = unique_ptr; ";
        auto U = std::make_unique<T>(Next++);
        T *X = U.get();
        A = std::move(U);
        Drop(RA);
        ++Owned;
        RA = {X, true};
        break;
      }
      case 1: {
        Hist += "A = unique_ptr<derived>; ";
        auto U = std::make_unique<D>(Next++);
        T *X = U.get();
        A = std::move(U);
        Drop(RA);
        ++Owned;
        RA = {X, true};
        break;
      }
      case 2: {
        Hist += "A = P(non-owning); ";
        P Q(&Outer);
        C.check(!Q.owns() && Q.get() == &Outer, "maybeunique:non-owning", Hist);
        {
          P Tmp(std::move(A));
          C.check(!A && !A.owns() && Tmp.get() == RA.Ptr && Tmp.owns() == RA.Owns, "maybeunique:move", Hist);
        } // drops the old one
        Drop(RA);
        A = std::move(Q);
        RA = {&Outer, false};
        break;
      }
      case 3:
        Hist += "B.reset(); B = move(A); ";
        B.reset();
        Drop(RB);
        B = std::move(A);
        RB = RA;
        RA = {};
        break;
      case 4:
        Hist += "swap; ";
        swap(A, B);
        std::swap(RA, RB);
        break;
      case 5:
        Hist += "A.reset(); ";
        A.reset();
        Drop(RA);
        break;
      case 6: {
        Hist += "A.release(); ";
        T *X = A.release();
        C.check(X == RA.Ptr, "maybeunique:release", Hist);
        if (RA.Owns) {
          Released.emplace_back(X);
          --Owned;
        }
        RA.Owns = false; // keeps pointing there, not owning
        break;
      }
      case 7: {
        Hist += "A = P(new, true); ";
        auto *X = new T(Next++);
        {
          P Q(X, true);
          P Old(std::move(A));
          A = std::move(Q);
        }
        Drop(RA);
        ++Owned;
        RA = {X, true};
        break;
      }
      case 8: {
        Hist += "A = P(nullptr, true); ";
        {
          P Q(nullptr, true);
          C.check(!Q.owns() && !Q, "maybeunique:null", Hist);
          P Old(std::move(A));
          A = std::move(Q);
        }
        Drop(RA);
        break;
      }
      case 9: {
        Hist += "A = empty unique_ptr; ";
        A = std::unique_ptr<T>();
        Drop(RA);
        break;
      }
      case 10: {
        Hist += "A = A; ";
        P &X = A;
        A = std::move(X);
        break;
      }
      case 11: {
        Hist += "P(move(A)) into a vector and back; ";
        std::vector<P> V;
        V.push_back(std::move(A));
        V.push_back(P(&Outer));
        V.push_back(P());
        A = std::move(V[0]);
        break;
      }
      case 12: {
        Hist += "A.reset(unique_ptr); ";
        auto U = std::make_unique<T>(Next++);
        T *X = U.get();
        A.reset(std::move(U));
        Drop(RA);
        ++Owned;
        RA = {X, true};
        break;
      }
      }
      for (auto [X, R] : {std::make_pair(&A, &RA), std::make_pair(&B, &RB)}) {
        C.check(X->get() == R->Ptr && X->owns() == R->Owns && bool(*X) == (R->Ptr != nullptr), "maybeunique:state", [&] { return Hist; });
        C.check((*X == R->Ptr) && !(*X != R->Ptr) && (R->Ptr == *X), "maybeunique:compare", [&] { return Hist; });
      }
      C.check((A == B) == (RA.Ptr == RB.Ptr), "maybeunique:compare", [&] { return Hist; });
      C.check(T::Live - Before == Owned + long(Released.size()) + 1, "maybeunique:lifetime",
              [&] { return std::to_string(T::Live - Before - 1 - long(Released.size())) + " owned objects alive, expected " + std::to_string(Owned) + " after " + Hist; });
      C.state(mc::mix(mc::hashStr(Hist), Req));
    }
  }
  C.check(T::Live - Before == long(Released.size()) + 1, "maybeunique:leak", [&] { return Hist; });
  Released.clear();
  C.trace();
  C.nontrivial(mc::mix(mc::hashStr(Hist), 9 + Req));
  if (C.wantSample())
    C.sample(Hist);
}

// ------------------------------------------------------------ adjacency lists
template <typename Tag> static void adjacency(mc::Ctx &C) {
  using G = AdjacencyList<Tag>;
  using Tr = GraphTraits<G>;
  constexpr bool Tagged = !std::is_same_v<Tag, llvm::NoneType>;
  unsigned Len = C.thorough() ? 6 : 5;
  std::string Hist;
  struct Op {
    unsigned K, A, B;
  };
  std::vector<Op> Ops(Len);
  unsigned N = 0; // nodes so far, to choose only valid operations
  for (auto &O : Ops) {
    O.K = N ? C.choose(7) : 0;
    O.A = O.B = 0;
    switch (O.K) {
    case 0:
      if (N < 4)
        ++N;
      break;
    case 1: // edge
      O.A = C.choose(N);
      O.B = C.choose(N);
      break;
    case 2: // remove an edge: first or last
      O.A = C.choose(N);
      O.B = C.choose(2);
      break;
    case 3: // dedup
    case 4: // root
      O.A = C.choose(N);
      break;
    case 5: // remove root
      O.B = C.choose(2);
      break;
    case 6: // pop, valid only for the newest node when nothing refers to it
      O.A = C.choose(N);
      if (O.A == N - 1)
        --N;
      break;
    }
  }
  if (!C.mine())
    return;
  G Gr;
  std::vector<int> Tags;
  std::vector<std::multiset<unsigned>> Adj;
  std::multiset<unsigned> Roots;
  for (auto &O : Ops) {
    C.transition();
    switch (O.K) {
    case 0: {
      if (Adj.size() == 4)
        break;
      Hist += "addNode; ";
      unsigned V;
      if constexpr (Tagged)
        V = Tr::addNode(Gr, int(10 + Adj.size()));
      else
        V = Tr::addNode(Gr);
      C.check(V == Adj.size(), "graph:addNode", Hist);
      Tags.push_back(10 + Adj.size());
      Adj.emplace_back();
      break;
    }
    case 1:
      Hist += "addEdge(" + std::to_string(O.A) + "," + std::to_string(O.B) + "); ";
      Tr::addEdge(Gr, O.A, O.B);
      Adj[O.A].insert(O.B);
      break;
    case 2: {
      if (Adj[O.A].empty())
        break;
      Hist += "removeEdge of " + std::to_string(O.A) + "; ";
      auto Es = Tr::outEdges(Gr, O.A);
      auto It = O.B ? std::prev(Es.end()) : Es.begin();
      auto Old = std::vector<unsigned>(Es.begin(), Es.end());
      unsigned T = Tr::target(*It);
      auto D = It - Es.begin();
      auto Nx = Tr::removeEdge(Gr, O.A, It);
      Adj[O.A].erase(Adj[O.A].find(T));
      C.check(Nx - Tr::outEdges(Gr, O.A).begin() == D, "graph:removeEdge-next", Hist);
      break;
    }
    case 3: {
      Hist += "dedupOutEdges(" + std::to_string(O.A) + "); ";
      Tr::dedupOutEdges(Gr, O.A);
      std::set<unsigned> S(Adj[O.A].begin(), Adj[O.A].end());
      Adj[O.A] = {S.begin(), S.end()};
      break;
    }
    case 4:
      if (Roots.count(O.A))
        break;
      Hist += "addRoot(" + std::to_string(O.A) + "); ";
      Tr::addRoot(Gr, O.A);
      Roots.insert(O.A);
      break;
    case 5: {
      if (Roots.empty())
        break;
      Hist += "removeRoot; ";
      auto Rs = Tr::roots(Gr);
      auto It = O.B ? std::prev(Rs.end()) : Rs.begin();
      unsigned V = *It;
      Tr::removeRoot(Gr, It);
      Roots.erase(V);
      break;
    }
    case 6: {
      bool Last = O.A + 1 == Adj.size();
      if (Last) { // only unreferenced nodes are popped
        bool Ref = Roots.count(O.A);
        for (auto &E : Adj)
          Ref |= E.count(O.A);
        if (Ref)
          return;
      }
      Hist += "pop(" + std::to_string(O.A) + "); ";
      C.check(Tr::pop(Gr, O.A) == Last, "graph:pop", Hist);
      if (Last) {
        Adj.pop_back();
        Tags.pop_back();
      }
      break;
    }
    }
    auto Same = [&](const G &X, const std::vector<std::multiset<unsigned>> &A, const std::multiset<unsigned> &R, const char *Sig) {
      C.check(Tr::size(X) == A.size() && Tr::roots_size(X) == R.size(), Sig, [&] { return Hist; });
      auto Rs = Tr::roots(X);
      C.check(std::multiset<unsigned>(Rs.begin(), Rs.end()) == R, Sig, [&] { return "roots " + Hist; });
      size_t Cnt = 0;
      for (auto V : Tr::vertices(X)) {
        C.check(V == Cnt, Sig, [&] { return "vertices " + Hist; });
        ++Cnt;
        auto Es = Tr::outEdges(X, V);
        C.check(std::multiset<unsigned>(Es.begin(), Es.end()) == A[V] && Tr::outDegree(X, V) == A[V].size(), Sig, [&] { return "edges " + Hist; });
        if constexpr (Tagged)
          C.check(Tr::node(X, V) == Tags[V], Sig, [&] { return "tags " + Hist; });
      }
      C.check(Cnt == A.size(), Sig, [&] { return "vertices " + Hist; });
      Cnt = 0;
      for ([[maybe_unused]] auto &&Nd : Tr::nodes(X))
        ++Cnt;
      C.check(Cnt == A.size(), Sig, [&] { return "nodes() " + Hist; });
    };
    Same(Gr, Adj, Roots, "graph:content");
    std::vector<std::multiset<unsigned>> Rev(Adj.size());
    std::multiset<unsigned> RR;
    for (unsigned I = 0; I < Adj.size(); ++I) {
      for (unsigned T : Adj[I])
        Rev[T].insert(I);
      if (Adj[I].empty())
        RR.insert(I);
    }
    Same(reverseGraph(G(Gr)), Rev, RR, "graph:reverse");
    C.state(mc::mix(mc::hashStr(Hist), Tagged));
  }
  C.trace();
  C.nontrivial(mc::mix(mc::hashStr(Hist), 20 + Tagged));
  if (C.wantSample())
    C.sample(Hist);
}

// ------------------------------------------------------------ DFA minimisation
static void minimize(mc::Ctx &C, unsigned NV, unsigned MaxOut, bool Dag) {
  using G = AdjacencyList<int>;
  using Tr = GraphTraits<G>;
  std::vector<int> Lab(NV);
  std::vector<std::vector<unsigned>> Out(NV);
  for (unsigned I = 0; I < NV; ++I) {
    Lab[I] = C.choose(2);
    unsigned Lo = Dag ? I + 1 : 0, N = NV - Lo;
    unsigned D = N ? C.choose(MaxOut + 1) : 0;
    for (unsigned K = 0; K < D; ++K)
      Out[I].push_back(Lo + C.choose(N));
  }
  unsigned RootMask = 1 + (C.thorough() ? C.choose((1u << NV) - 1) : (C.choose(2) ? (1u << NV) - 2 : 0));
  if (!C.mine())
    return;
  auto Desc = [&] {
    std::string S = "roots " + std::to_string(RootMask) + ":";
    for (unsigned I = 0; I < NV; ++I) {
      S += " " + std::to_string(I) + "[" + std::to_string(Lab[I]) + "]->{";
      for (auto T : Out[I])
        S += std::to_string(T) + " ";
      S += "}";
    }
    return S;
  };
  G Gr;
  for (unsigned I = 0; I < NV; ++I)
    Tr::addNode(Gr, int(Lab[I]));
  for (unsigned I = 0; I < NV; ++I) {
    for (auto T : Out[I])
      Tr::addEdge(Gr, I, T);
    if (RootMask >> I & 1)
      Tr::addRoot(Gr, I);
  }
  auto Eq = minimizeGraph(Gr);
  // reference: the coarsest bisimulation on (label, multiset of successor classes), by partition refinement
  std::vector<int> Cls(Lab.begin(), Lab.end());
  for (unsigned R = 0; R < NV + 1; ++R) {
    std::map<std::pair<int, std::multiset<int>>, int> Key;
    std::vector<int> Nx(NV);
    for (unsigned I = 0; I < NV; ++I) {
      std::multiset<int> S;
      for (auto T : Out[I])
        S.insert(Cls[T]);
      auto It = Key.insert({{Cls[I], S}, int(Key.size())}).first;
      Nx[I] = It->second;
    }
    Cls = Nx;
  }
  unsigned NC = std::set<int>(Cls.begin(), Cls.end()).size();
  for (unsigned I = 0; I < NV; ++I)
    for (unsigned J = 0; J < I; ++J)
      if (Eq[I] == Eq[J])
        C.check(Cls[I] == Cls[J], "minimize:merges-different", [&] { return Desc() + ": " + std::to_string(I) + " and " + std::to_string(J) + " are merged but not equivalent"; });
      else if (Dag && MaxOut <= 2)
        C.check(Cls[I] != Cls[J], "minimize:not-minimal", [&] { return Desc() + ": " + std::to_string(I) + " and " + std::to_string(J) + " are equivalent but not merged"; });
  if (Dag && MaxOut <= 2)
    C.check(Eq.getNumClasses() == NC, "minimize:classes", Desc);
  // the quotient graph
  auto Q = createEquivalentGraphFrom(G(Gr), Eq);
  // reachable classes
  std::set<unsigned> Reach, RC;
  std::vector<unsigned> WL;
  for (unsigned I = 0; I < NV; ++I)
    if (RootMask >> I & 1)
      WL.push_back(I);
  while (!WL.empty()) {
    auto V = WL.back();
    WL.pop_back();
    if (!Reach.insert(V).second)
      continue;
    RC.insert(Eq[V]);
    for (auto T : Out[V])
      WL.push_back(T);
  }
  C.check(Tr::size(Q) == RC.size(), "quotient:size", Desc);
  // match: follow both graphs from the roots; each class corresponds to one node
  std::set<unsigned> RootCls;
  for (unsigned I = 0; I < NV; ++I)
    if (RootMask >> I & 1)
      RootCls.insert(Eq[I]);
  C.check(Tr::roots_size(Q) == RootCls.size(), "quotient:roots", Desc);
  // the quotient is unlabelled by class: find an isomorphism (at most 5 nodes)
  std::vector<unsigned> Cl(RC.begin(), RC.end()), Perm(Cl.size());
  for (unsigned I = 0; I < Perm.size(); ++I)
    Perm[I] = I;
  auto QR = Tr::roots(Q);
  std::set<unsigned> QRoots(QR.begin(), QR.end());
  bool Iso = false;
  do {
    bool Ok = true;
    for (unsigned I = 0; I < Cl.size() && Ok; ++I) {
      std::set<unsigned> Want, Got;
      int L = -1;
      for (unsigned V : Reach)
        if (Eq[V] == Cl[I]) {
          L = Lab[V];
          for (auto T : Out[V])
            for (unsigned K = 0; K < Cl.size(); ++K)
              if (Cl[K] == Eq[T])
                Want.insert(Perm[K]);
        }
      auto Es = Tr::outEdges(Q, Perm[I]);
      Got.insert(Es.begin(), Es.end());
      Ok = L == Tr::node(Q, Perm[I]) && Want == Got && Got.size() == Es.size() && RootCls.count(Cl[I]) == QRoots.count(Perm[I]);
    }
    Iso |= Ok;
  } while (!Iso && std::next_permutation(Perm.begin(), Perm.end()));
  C.check(Iso, "quotient:graph", Desc);
  C.trace();
  C.transition(NV);
  uint64_t H = mc::hashStr(Desc());
  C.state(H);
  if (NC < NV)
    C.nontrivial(H);
  C.outcome(NC * 10 + Eq.getNumClasses());
  if (C.wantSample())
    C.sample(Desc());
}

int main(int argc, char **argv) {
  std::vector<mc::Part> Parts{
      {"stablevector", stableVector},
      {"table", table},
      {"equivalence-classes", eqClasses},
      {"maybe-unique", maybeUnique<Base, Derived, false>},
      {"maybe-unique-aligned", maybeUnique<Base, Derived, true>},
      {"maybe-unique-bytes", maybeUnique<Tiny, Tiny, false>},
  };
  if (getenv("MC_GRAPH"))
    Parts = {
      {"graph-tagged", adjacency<int>},
      {"graph-untagged", adjacency<llvm::NoneType>},
      {"minimize-dag", [](mc::Ctx &C) { minimize(C, C.thorough() ? 5 : 4, 2, true); }},
      {"minimize-dag-wide", [](mc::Ctx &C) { minimize(C, 4, 3, true); }},
      {"minimize-cyclic", [](mc::Ctx &C) { minimize(C, C.thorough() ? 4 : 3, 2, false); }},
  };
  mc::Options O;
  O.MemLimitMB = 0;
  return mc::run(argc, argv, Parts, O);
}
