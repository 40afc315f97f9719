// BitVectorSet against std::set: every history of operations on two sets that
// share the registry of elements. Registering an element cannot be undone, so
// the exploration forks there.
#include "mc.h"
#include "phasar/Utils/BitVectorSet.h"
#include "phasar/Utils/Utilities.h"
#include "llvm/Support/raw_ostream.h"
#include <sys/mman.h>
#include <unordered_set>

using namespace psr;
using Set = BitVectorSet<int>;
using Ref = std::set<int>;

struct Out { // shared with the forked explorers
  uint64_t Trans, Comps, States, Forks;
  int Failed;
  char Sig[64], Msg[4000];
};
static constexpr int NE = 3; // elements registered during the history
static std::vector<int> Universe;
static int Filler0, FillerL; // first and last filler

struct St {
  Set A, B;
  Ref RA, RB;
  unsigned Reg = 0; // which of the NE elements are registered
};

static Out *O;
static std::vector<std::string> Hist;
static std::unordered_set<uint64_t> Seen;
static mc::Ctx *Ctx;

static std::string show(const Ref &R) {
  std::string S = "{";
  for (int X : R)
    S += (S.size() > 1 ? "," : "") + std::to_string(X);
  return S + "}";
}
static void bad(const char *Sig, std::string Msg) {
  O->Failed = 1;
  std::string H;
  for (auto &X : Hist)
    H += X + "; ";
  snprintf(O->Sig, sizeof O->Sig, "%s", Sig);
  snprintf(O->Msg, sizeof O->Msg, "after %s%s", H.c_str(), Msg.c_str());
  _exit(0);
}
#define REQ(Cond, Sig, Msg)                                                                                                                \
  do {                                                                                                                                     \
    ++O->Comps;                                                                                                                            \
    if (!(Cond))                                                                                                                           \
      bad(Sig, Msg);                                                                                                                       \
  } while (0)

template <typename S> static Ref iterate(S &X, const Ref &R, const char *Sig) {
  Ref G;
  size_t N = 0;
  for (auto It = X.begin(), E = X.end(); It != E; ++It) {
    REQ(++N <= R.size(), Sig, "iteration yields more elements than the set " + show(R) + " has");
    G.insert(*It);
  }
  REQ(G == R, Sig, "iteration yields " + show(G) + ", the set is " + show(R));
  return G;
}

static void observe(Set &X, const Ref &R, const char *Name) {
  std::string N = std::string(" of ") + Name + " = " + show(R);
  REQ(X.size() == R.size(), "size", "size()" + N + " is " + std::to_string(X.size()));
  REQ(X.empty() == R.empty(), "empty", "empty()" + N);
  for (int E : Universe) {
    REQ(X.count(E) == R.count(E), "count", "count(" + std::to_string(E) + ")" + N);
    REQ(X.find(E) == (R.count(E) != 0), "find", "find(" + std::to_string(E) + ")" + N);
  }
  iterate(X, R, "iteration");
  const Set &CX = X;
  iterate(CX, R, "iteration-const");
  // moving iterators
  std::vector<int> V;
  for (int E : CX)
    V.push_back(E);
  auto It = X.begin();
  for (size_t I = 0; I < V.size(); ++I) {
    REQ(*(X.begin() + I) == V[I], "iterator-plus", "begin()+" + std::to_string(I) + N);
    auto J = X.begin();
    J += I;
    REQ(*J == V[I] && J == It, "iterator-plus-assign", "begin()+=" + std::to_string(I) + N);
    REQ(J - X.begin() == long(I), "iterator-minus", "distance" + N);
    auto K = It++;
    REQ(*K == V[I], "iterator-postfix", "it++" + N);
  }
  REQ(It == X.end(), "iterator-end", "end" + N);
  // a copy built from scratch is indistinguishable
  Set F(R.begin(), R.end());
  REQ(F == X && X == F && !(F != X), "equal", "equality with a fresh copy" + N);
  REQ(!(F < X) && !(X < F), "less-equal", "operator< with a fresh copy" + N);
  REQ(size_t(hash_value(F)) == size_t(hash_value(X)), "hash", "hash differs from that of a fresh copy" + N);
  std::vector<int> E(R.begin(), R.end());
  Set L = E.size() > 3 ? F : E.empty() ? Set{} : E.size() == 1 ? Set{E[0]} : E.size() == 2 ? Set{E[1], E[0]} : Set{E[2], E[0], E[1]};
  REQ(L == X && L.size() == R.size(), "initializer-list", "equality with a set made from a list" + N);
  Set Z(size_t(5));
  REQ(Z.empty() && Z.size() == 0 && (Z == X) == R.empty(), "sized", "a set made with a size is not empty" + N);
  Z.reserve(3);
  Z.insert(X);
  REQ(Z == X && hash_value(Z) == hash_value(X) && !(Z < X) && !(X < Z), "sized", "a set made with a size and filled differs" + N);
  std::string P;
  llvm::raw_string_ostream OS(P);
  OS << X;
  OS.flush();
  Ref Q;
  REQ(P.size() >= 2 && P.front() == '<' && P.back() == '>', "print", "prints " + P + N);
  std::stringstream SS(P.substr(1, P.size() - 2));
  std::string T;
  size_t Cnt = 0;
  while (std::getline(SS, T, ','))
    Q.insert(atoi(T.c_str())), ++Cnt;
  REQ(Q == R && Cnt == R.size(), "print", "prints " + P + N);
}
static void relations(St &S) {
  auto N = " for A = " + show(S.RA) + ", B = " + show(S.RB);
  REQ((S.A == S.B) == (S.RA == S.RB) && (S.A != S.B) == (S.RA != S.RB), "equal", "==" + N);
  REQ(S.RA != S.RB || hash_value(S.A) == hash_value(S.B), "hash", "hash" + N);
  REQ(int(S.A < S.B) + int(S.B < S.A) == int(S.RA != S.RB), "less", "operator< is no strict total order" + N);
  bool Inc = std::includes(S.RA.begin(), S.RA.end(), S.RB.begin(), S.RB.end());
  REQ(S.A.includes(S.B) == Inc, "includes", "A.includes(B)" + N);
  Inc = std::includes(S.RB.begin(), S.RB.end(), S.RA.begin(), S.RA.end());
  REQ(S.B.includes(S.A) == Inc, "includes", "B.includes(A)" + N);
  Ref U = S.RA, I;
  U.insert(S.RB.begin(), S.RB.end());
  for (int X : S.RA)
    if (S.RB.count(X))
      I.insert(X);
  auto X = S.A.setUnion(S.B);
  observe(X, U, "A.setUnion(B)");
  auto Y = S.A.setIntersect(S.B);
  observe(Y, I, "A.setIntersect(B)");
  intersectWith(X, S.B);
  observe(X, S.RB, "intersectWith(A.setUnion(B), B)");
}

static constexpr unsigned PerSet = 16, NumOps = PerSet * 2;
// Applies an operation; returns false when it does not apply.
static bool apply(St &S, unsigned Op, std::string &Name) {
  bool Sw = Op >= PerSet;
  Op %= PerSet;
  Set &A = Sw ? S.B : S.A, &B = Sw ? S.A : S.B;
  Ref &RA = Sw ? S.RB : S.RA, &RB = Sw ? S.RA : S.RB;
  std::string X = Sw ? "B" : "A", Y = Sw ? "A" : "B";
  if (Op < 3) {
    for (unsigned I = 0; I < Op; ++I) // elements are interchangeable until registered: register in order
      if (!(S.Reg >> I & 1))
        return false;
    S.Reg |= 1u << Op;
    Name = X + ".insert(" + std::to_string(Op) + ")";
    A.insert(int(Op));
    RA.insert(Op);
    return true;
  }
  if (Op < 6) {
    Name = X + ".erase(" + std::to_string(Op - 3) + ")";
    A.erase(int(Op - 3));
    RA.erase(Op - 3);
    return true;
  }
  switch (Op) {
  case 6:
    Name = X + ".clear()";
    A.clear();
    RA.clear();
    return true;
  case 7:
    Name = X + ".setUnionWith(" + Y + ")";
    A.setUnionWith(B);
    RA.insert(RB.begin(), RB.end());
    return true;
  case 8:
    Name = X + ".setIntersectWith(" + Y + ")";
    A.setIntersectWith(B);
    for (auto It = RA.begin(); It != RA.end();)
      It = RB.count(*It) ? std::next(It) : RA.erase(It);
    return true;
  case 9:
    Name = X + ".insert(" + Y + ")";
    A.insert(B);
    RA.insert(RB.begin(), RB.end());
    return true;
  case 10:
    Name = X + ".erase(" + Y + ")";
    A.erase(B);
    for (int E : RB)
      RA.erase(E);
    return true;
  case 11:
    Name = X + " = " + Y;
    A = B;
    RA = RB;
    return true;
  case 12:
    Name = X + ".insert(range of " + Y + ")";
    A.insert(B.begin(), B.end());
    RA.insert(RB.begin(), RB.end());
    return true;
  case 13:
    Name = X + ".erase(" + X + ")";
    A.erase(A);
    RA.clear();
    return true;
  case 14: { // fill another set while iterating; registers new elements
    Name = "for (x : " + X + ") " + Y + ".insert(x, 0, 1, 2)";
    size_t N = 0, Lim = RA.size();
    Ref Seen2, Was = RA;
    for (auto It = A.begin(), E = A.end(); It != E; ++It) {
      REQ(++N <= Lim, "iterate-while-inserting", Name + ": more elements than " + show(RA));
      Seen2.insert(*It);
      B.insert(*It);
      RB.insert(*It);
      for (int I = 0; I < NE; ++I) {
        B.insert(I);
        RB.insert(I);
      }
    }
    if (Lim)
      S.Reg = (1u << NE) - 1;
    REQ(Seen2 == Was, "iterate-while-inserting", Name + ": visits " + show(Seen2) + " of " + show(Was));
    return true;
  }
  case 15:
    Name = X + " = move(" + Y + "), " + Y + ".clear()";
    A = std::move(B);
    B.clear();
    RA = RB;
    RB.clear();
    return true;
  }
  return false;
}

static void explore(const St &S, unsigned Depth) {
  if (!Depth)
    return;
  for (unsigned Op = 0; Op < NumOps; ++Op) {
    St T = S;
    unsigned NewReg = S.Reg;
    if (Op % PerSet < 3)
      NewReg |= 1u << Op % PerSet;
    else if (Op % PerSet == 14 && !(Op >= PerSet ? S.RB : S.RA).empty())
      NewReg = (1u << NE) - 1;
    pid_t Pid = 0;
    bool Fork = NewReg != S.Reg;
    if (Fork) {
      ++O->Forks;
      fflush(nullptr);
      Pid = fork();
      if (Pid) {
        int W;
        waitpid(Pid, &W, 0);
        if (O->Failed)
          return;
        if (!WIFEXITED(W) || WEXITSTATUS(W)) {
          std::string N;
          Hist.push_back("operation " + std::to_string(Op));
          O->Failed = 1;
          std::string H;
          for (auto &X : Hist)
            H += X + "; ";
          snprintf(O->Sig, sizeof O->Sig, "crash");
          snprintf(O->Msg, sizeof O->Msg, "after %s the process ended abnormally (%d)", H.c_str(), W);
          return;
        }
        Ctx->beat();
        continue;
      }
      Seen.clear();
    }
    std::string Name;
    Hist.push_back("");
    if (apply(T, Op, Name)) {
      Hist.back() = Name;
      ++O->Trans;
      observe(T.A, T.RA, "A");
      observe(T.B, T.RB, "B");
      relations(T);
      // The same contents can have different representations: only skip what is equal in both.
      uint64_t H = mc::mix(T.Reg, Depth);
      for (auto *X : {&T.RA, &T.RB}) {
        H = mc::mix(H, 77);
        for (int E : *X)
          H = mc::mix(H, E);
      }
      H = mc::mix(H, Op); // the last operation determines the representation to a large extent
      if (Seen.insert(H).second) {
        ++O->States;
        explore(T, Depth - 1);
      }
    }
    Hist.pop_back();
    if (Fork)
      _exit(0);
    if (O->Failed)
      return;
  }
}

static void body(mc::Ctx &C) {
  static const unsigned Pre[] = {0, 1, 3, 62, 63, 64, 127, 128};
  unsigned P = Pre[C.choose(8)];
  unsigned Init = P ? C.choose(9) : 0; // what A and B hold at first
  if (!C.mine())
    return;
  O = (Out *)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(O, 0, sizeof *O);
  Ctx = &C;
  pid_t Pid = fork();
  if (!Pid) {
    Hist.clear();
    Universe = {0, 1, 2};
    St S;
    for (unsigned I = 0; I < P; ++I) {
      Set Tmp;
      Tmp.insert(100 + I);
    }
    if (P) {
      Filler0 = 100;
      FillerL = 100 + P - 1;
      Universe.push_back(Filler0);
      Universe.push_back(FillerL);
      for (unsigned W = 0; W < 2; ++W) {
        unsigned K = W ? Init / 3 : Init % 3;
        if (K)
          (W ? S.B : S.A).insert(K == 1 ? Filler0 : FillerL), (W ? S.RB : S.RA).insert(K == 1 ? Filler0 : FillerL);
      }
    }
    Hist.push_back(std::to_string(P) + " other elements registered, A = " + show(S.RA) + ", B = " + show(S.RB));
    observe(S.A, S.RA, "A");
    relations(S);
    explore(S, C.thorough() ? 5 : 3);
    _exit(0);
  }
  int W;
  waitpid(Pid, &W, 0);
  Out R = *O;
  munmap(O, sizeof(Out));
  C.transition(R.Trans);
  C.trace(R.Trans);
  C.states(R.States);
  C.count("comparisons", R.Comps);
  C.count("forks", R.Forks);
  C.nontrivial(P * 16 + Init);
  C.sample(std::to_string(P) + " registered elements, start " + std::to_string(Init) + ": " + std::to_string(R.Trans) + " operations");
  if (R.Failed)
    C.fail(R.Sig, R.Msg);
  if (!WIFEXITED(W) || WEXITSTATUS(W))
    C.fail("crash", "the exploration ended abnormally: " + std::to_string(W));
}

int main(int argc, char **argv) {
  mc::Options Op;
  Op.CaseTimeoutMs = 120000;
  return mc::run(argc, argv, {{"histories", body}}, Op);
}
