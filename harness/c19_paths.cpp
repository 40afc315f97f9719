// C19: path tracing and path sensitivity. Every bounded program is explored for all realizable paths through its exploded supergraph by a direct search; their
// branch conditions are decided by trying all values of the variables. The real solver, supergraph, path DAG and path enumeration have to report the same paths.
#include "ir.h"

#include "phasar/DataFlow/IfdsIde/IFDSTabulationProblem.h"
#include "phasar/DataFlow/IfdsIde/Solver/PathAwareIDESolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.h"
#include "phasar/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitvityManager.h"
#include "phasar/PhasarLLVM/Domain/LLVMAnalysisDomain.h"

#include <algorithm>

using namespace psr;
using I = const llvm::Instruction *;
using V = const llvm::Value *;
using Facts = std::set<V>;

// ---------------------------------------------------------------- the data-flow problem, given by the names of the instructions
struct World {
  V Zero, A, B;
  llvm::StringRef kind(I X) const { return X->getName().take_until([](char C) { return C == '.'; }); }
  Facts normal(I X, V D) const {
    auto K = kind(X);
    if (D == Zero) {
      if (K == "gena")
        return {Zero, A};
      if (K == "genb")
        return {Zero, B};
      return {Zero};
    }
    if ((K == "killa" && D == A) || (K == "moveab" && D == B))
      return {};
    if (D == A && K == "copyab")
      return {A, B};
    if (D == A && K == "moveab")
      return {B};
    if (D == B && K == "copyab")
      return {};
    return {D};
  }
  // functions named g... work on the facts, functions named l... do not see them
  bool global(const llvm::Function *F) const { return F->getName().startswith("g"); }
  Facts call(const llvm::Function *F, V D) const {
    if (D == Zero || global(F))
      return {D};
    return {};
  }
  Facts ctr(const llvm::Function *F, V D) const {
    if (D != Zero && global(F) && !F->isDeclaration())
      return {};
    return {D};
  }
};

struct Domain : LLVMIFDSAnalysisDomainDefault {};
struct Problem : IFDSTabulationProblem<Domain> {
  const World &W;
  Problem(const LLVMProjectIRDB *DB, const World &W) : IFDSTabulationProblem(DB, {"main"}, W.Zero), W(W) { getIFDSIDESolverConfig().setAutoAddZero(false); }
  struct FF : FlowFunction<V> {
    std::function<Facts(V)> F;
    FF(std::function<Facts(V)> F) : F(std::move(F)) {}
    Facts computeTargets(V D) override { return F(D); }
  };
  template <typename Fn> FlowFunctionPtrType mk(Fn F) { return std::make_shared<FF>(std::function<Facts(V)>(F)); }
  FlowFunctionPtrType getNormalFlowFunction(I X, I) override {
    return mk([this, X](V D) { return W.normal(X, D); });
  }
  FlowFunctionPtrType getCallFlowFunction(I, const llvm::Function *F) override {
    return mk([this, F](V D) { return W.call(F, D); });
  }
  FlowFunctionPtrType getRetFlowFunction(I, const llvm::Function *F, I, I) override {
    return mk([](V D) { return Facts{D}; });
  }
  FlowFunctionPtrType getCallToRetFlowFunction(I X, I, llvm::ArrayRef<const llvm::Function *>) override {
    auto *F = llvm::cast<llvm::CallBase>(X)->getCalledFunction();
    return mk([this, F](V D) { return W.ctr(F, D); });
  }
  InitialSeeds<I, V, BinaryDomain> initialSeeds() override {
    InitialSeeds<I, V, BinaryDomain> S;
    S.addSeed(&IRDB->getFunctionDefinition("main")->front().front(), W.Zero);
    return S;
  }
  bool isZeroValue(V D) const noexcept override { return D == W.Zero; }
};

// ---------------------------------------------------------------- conditions
struct PCond {
  const char *Name, *Text; // defines %c$
  bool (*Val)(int, int, int); // null: may be anything
  bool Loose = false;         // the constraint may hold for more values
};
static const PCond Conds[] = {
    {"p==0", "%l$ = load i32, i32* %P\n%c$ = icmp eq i32 %l$, 0", [](int P, int, int) { return P == 0; }},
    {"p<1", "%l$ = load i32, i32* %P\n%c$ = icmp slt i32 %l$, 1", [](int P, int, int) { return P < 1; }},
    {"q==0", "%l$ = load i32, i32* %Q\n%c$ = icmp eq i32 %l$, 0", [](int, int Q, int) { return Q == 0; }},
    {"p==q", "%l$ = load i32, i32* %P\n%m$ = load i32, i32* %Q\n%c$ = icmp eq i32 %l$, %m$", [](int P, int Q, int) { return P == Q; }},
    {"p!=0", "%l$ = load i32, i32* %P\n%c$ = icmp ne i32 %l$, 0", [](int P, int, int) { return P != 0; }},
    {"1>p", "%l$ = load i32, i32* %P\n%c$ = icmp sgt i32 1, %l$", [](int P, int, int) { return 1 > P; }},
    {"p>=1", "%l$ = load i32, i32* %P\n%c$ = icmp sge i32 %l$, 1", [](int P, int, int) { return P >= 1; }},
    {"p<=q", "%l$ = load i32, i32* %P\n%m$ = load i32, i32* %Q\n%c$ = icmp sle i32 %l$, %m$", [](int P, int Q, int) { return P <= Q; }},
    {"p>q", "%l$ = load i32, i32* %P\n%m$ = load i32, i32* %Q\n%c$ = icmp sgt i32 %l$, %m$", [](int P, int Q, int) { return P > Q; }},
    {"p+1<2", "%l$ = load i32, i32* %P\n%m$ = add i32 %l$, 1\n%c$ = icmp slt i32 %m$, 2", [](int P, int, int) { return P + 1 < 2; }},
    {"2-p==1", "%l$ = load i32, i32* %P\n%m$ = sub i32 2, %l$\n%c$ = icmp eq i32 %m$, 1", [](int P, int, int) { return 2 - P == 1; }},
    {"p*2==q", "%l$ = load i32, i32* %P\n%n$ = load i32, i32* %Q\n%m$ = mul i32 %l$, 2\n%c$ = icmp eq i32 %m$, %n$", [](int P, int Q, int) { return P * 2 == Q; }},
    {"p/2==0", "%l$ = load i32, i32* %P\n%m$ = sdiv i32 %l$, 2\n%c$ = icmp eq i32 %m$, 0", [](int P, int, int) { return P / 2 == 0; }},
    {"q/-2<1", "%l$ = load i32, i32* %Q\n%m$ = sdiv i32 %l$, -2\n%c$ = icmp slt i32 %m$, 1", [](int, int Q, int) { return Q / -2 < 1; }},
    {"p%2==1", "%l$ = load i32, i32* %P\n%m$ = srem i32 %l$, 2\n%c$ = icmp eq i32 %m$, 1", [](int P, int, int) { return P % 2 == 1; }},
    {"p%-2==-1", "%l$ = load i32, i32* %P\n%m$ = srem i32 %l$, -2\n%c$ = icmp eq i32 %m$, -1", [](int P, int, int) { return P % -2 == -1; }},
    {"p&1==1", "%l$ = load i32, i32* %P\n%m$ = and i32 %l$, 1\n%c$ = icmp eq i32 %m$, 1", [](int P, int, int) { return (P & 1) == 1; }, true},
    {"p|1==1", "%l$ = load i32, i32* %P\n%m$ = or i32 %l$, 1\n%c$ = icmp eq i32 %m$, 1", [](int P, int, int) { return (P | 1) == 1; }, true},
    {"p^1==0", "%l$ = load i32, i32* %P\n%m$ = xor i32 %l$, 1\n%c$ = icmp eq i32 %m$, 0", [](int P, int, int) { return (P ^ 1) == 0; }, true},
    {"p<<1==2", "%l$ = load i32, i32* %P\n%m$ = shl i32 %l$, 1\n%c$ = icmp eq i32 %m$, 2", [](int P, int, int) { return P * 2 == 2; }, true},
    {"p>>1==0", "%l$ = load i32, i32* %P\n%m$ = ashr i32 %l$, 1\n%c$ = icmp eq i32 %m$, 0", [](int P, int, int) { return (P >> 1) == 0; }, true},
    {"p>>>1==0", "%l$ = load i32, i32* %P\n%m$ = lshr i32 %l$, 1\n%c$ = icmp eq i32 %m$, 0", [](int P, int, int) { return (unsigned(P) >> 1) == 0; }, true},
    {"p<u1", "%l$ = load i32, i32* %P\n%c$ = icmp ult i32 %l$, 1", [](int P, int, int) { return unsigned(P) < 1u; }, true},
    {"p>=u1", "%l$ = load i32, i32* %P\n%c$ = icmp uge i32 %l$, 1", [](int P, int, int) { return unsigned(P) >= 1u; }, true},
    {"p>u-2", "%l$ = load i32, i32* %P\n%c$ = icmp ugt i32 %l$, -2", [](int P, int, int) { return unsigned(P) > unsigned(-2); }, true},
    {"p<=uq", "%l$ = load i32, i32* %P\n%m$ = load i32, i32* %Q\n%c$ = icmp ule i32 %l$, %m$", [](int P, int Q, int) { return unsigned(P) <= unsigned(Q); }, true},
    {"b", "%l$ = load i8, i8* %F\n%c$ = trunc i8 %l$ to i1", [](int, int, int F) { return (F & 1) != 0; }},
    {"b==0", "%l$ = load i8, i8* %F\n%m$ = zext i8 %l$ to i32\n%c$ = icmp eq i32 %m$, 0", [](int, int, int F) { return F == 0; }},
    {"nd()==0", "%l$ = call i32 @nd()\n%c$ = icmp eq i32 %l$, 0", nullptr},
    {"nd()!=0", "%l$ = call i32 @nd()\n%c$ = icmp ne i32 %l$, 0", nullptr},
    {"nd1()", "%c$ = call i1 @nd1()", nullptr},
    {"field<0", "%g$ = getelementptr %S, %S* %R, i32 0, i32 1\n%l$ = load i32, i32* %g$\n%c$ = icmp slt i32 %l$, 0", nullptr},
};
static constexpr unsigned NC = sizeof(Conds) / sizeof(*Conds);
static bool arith(int K) { return strpbrk(Conds[K].Name, "/%&|^") || strstr(Conds[K].Name, "<<") || strstr(Conds[K].Name, ">>"); }

struct ProgGen {
  mc::Ctx &C;
  std::vector<int> Cs;
  std::vector<const char *> L;
  unsigned N = 0;
  std::string Name;
  std::map<std::string, const PCond *> Of; // condition register -> condition
  static std::string num(const char *T, unsigned K) {
    std::string R;
    for (; *T; ++T)
      if (*T == '$')
        R += std::to_string(K);
      else
        R += *T;
    return R + "\n";
  }
  std::string leaf() {
    std::string S = L[C.choose(L.size())];
    Name += S;
    auto K = std::to_string(N++);
    if (S.substr(0, 4) == "call")
      return "call void " + S.substr(5) + "()\n";
    return "%" + S + "." + K + " = add i32 0, 0\n";
  }
  std::string cond(std::string &Reg) {
    auto &D = Conds[Cs[C.choose(Cs.size())]];
    Name += D.Name;
    Reg = "c" + std::to_string(N);
    Of[Reg] = &D;
    return num(D.Text, N++);
  }
  template <typename T, typename E> std::string branch(T Then, E Else) {
    std::string Reg;
    Name += "if(";
    auto R = cond(Reg);
    Name += "){";
    auto K = std::to_string(N++);
    R += "br i1 %" + Reg + ", label %t" + K + ", label %e" + K + "\nt" + K + ":\n" + Then() + "br label %j" + K + "\ne" + K + ":\n";
    Name += "}else{";
    R += Else() + "br label %j" + K + "\nj" + K + ":\n";
    Name += "}";
    return R;
  }
  std::string half() { // a branch without an else block
    std::string Reg;
    Name += "if(";
    auto R = cond(Reg);
    Name += "){";
    auto K = std::to_string(N++);
    R += "br i1 %" + Reg + ", label %t" + K + ", label %j" + K + "\nt" + K + ":\n" + leaf() + "br label %j" + K + "\nj" + K + ":\n";
    Name += "}";
    return R;
  }
  std::string same() { // a branch to one block
    std::string Reg;
    Name += "if(";
    auto R = cond(Reg);
    Name += "){}";
    auto K = std::to_string(N++);
    return R + "br i1 %" + Reg + ", label %j" + K + ", label %j" + K + "\nj" + K + ":\n";
  }
  std::string loop() {
    std::string Reg, K = std::to_string(N++);
    Name += "while(";
    auto R = "br label %h" + K + "\nh" + K + ":\n" + cond(Reg);
    Name += "){";
    R += "br i1 %" + Reg + ", label %t" + K + ", label %j" + K + "\nt" + K + ":\n" + leaf() + "br label %h" + K + "\nj" + K + ":\n";
    Name += "}";
    return R;
  }
  /// One of the first Kinds kinds of items, or (negative) the given one.
  std::string item(int Kinds) {
    if (!Name.empty())
      Name += ";";
    switch (Kinds < 0 ? -Kinds : C.choose(Kinds)) {
    case 0:
      return leaf();
    case 1:
      return half();
    case 2:
      return branch([&] { return leaf(); }, [&] { return leaf(); });
    case 3:
      return branch([&] { return half(); }, [&] { return leaf(); });
    case 4:
      return loop();
    default:
      return same();
    }
  }
};

static const char *vars() {
  return "%P = alloca i32\n%Q = alloca i32\n%F = alloca i8\n%R = alloca %S\n%vp = call i32 @nd()\nstore i32 %vp, i32* %P\n%vq = call i32 @nd()\nstore i32 %vq, i32* %Q\n"
         "%vf = call i8 @ndb()\nstore i8 %vf, i8* %F\n";
}

// ---------------------------------------------------------------- the oracle
using Path = std::vector<I>;
/// The blocks a path runs through; a block that is entered again after a call counts again.
static std::vector<const llvm::BasicBlock *> blocks(const Path &P) {
  std::vector<const llvm::BasicBlock *> R;
  for (auto *X : P)
    if (R.empty() || R.back() != X->getParent())
      R.push_back(X->getParent());
  return R;
}
static std::string str(const Path &P) {
  std::string S;
  const llvm::BasicBlock *Last = nullptr;
  for (auto *X : P) {
    auto *B = X->getParent();
    if (B != Last)
      S += (S.empty() ? "" : " > ") + B->getParent()->getName().str() + "." + B->getName().str() + ":";
    Last = B;
    S += " " + (X->hasName() ? X->getName().str() : std::string(X->getOpcodeName()));
  }
  return S;
}
struct Found {
  struct Choice {
    const PCond *C;
    bool To;
    int Fun, Call; // the function, and which of the calls
  };
  std::vector<Choice> Taken;
  Path P;
  std::set<size_t> Change; // the steps of P that lead to another fact
  bool Ok = false; // some values of the variables lead along the path
  bool Again = false; // an instruction is reached twice with the same fact
};
/// A reported path may leave out instructions within a block at which nothing changes.
static bool matches(const Path &G, const Found &F) {
  if (G.empty() || G.front() != F.P.front() && G.front()->getParent() != F.P.front()->getParent() || G.back() != F.P.back() || blocks(G) != blocks(F.P))
    return false;
  size_t J = 0;
  for (size_t K = 0; K < F.P.size(); ++K)
    if (J < G.size() && G[J] == F.P[K])
      ++J;
    else if (F.Change.count(K))
      return false;
  return J == G.size();
}
/// A reported path of a query of limited depth is the end of a real path.
static bool isEnd(const Path &G, const Found &F) {
  if (G.empty())
    return false;
  for (size_t K = 0; K < F.P.size(); ++K)
    if (F.P[K] == G.front()) {
      Found S;
      S.P.assign(F.P.begin() + K, F.P.end());
      for (auto X : F.Change)
        if (X >= K)
          S.Change.insert(X - K);
      if (matches(G, S))
        return true;
    }
  return false;
}
struct Oracle {
  const World &W;
  const std::map<std::string, std::map<std::string, const PCond *>> &Of; // function -> register -> condition
  mc::Ctx &C;
  I Query;
  std::map<V, std::vector<Found>> Res;
  std::vector<I> Stack;
  std::vector<int> CallNo;
  int Calls = 0;
  Found Cur;
  std::set<std::pair<I, V>> On;
  std::set<std::tuple<I, V, std::vector<I>>> Seen; // on the current path
  void go(I X, V D, V From = nullptr) {
    if (!Seen.insert({X, D, Stack}).second)
      return; // a loop
    C.transition();
    if (From && From != D)
      Cur.Change.insert(Cur.P.size() - 1);
    Cur.P.push_back(X);
    bool New = On.insert({X, D}).second, Old = Cur.Again;
    Cur.Again |= !New;
    if (X == Query && Stack.empty())
      Res[D].push_back(Cur);
    step(X, D);
    Cur.P.pop_back();
    if (From && From != D)
      Cur.Change.erase(Cur.P.size() - 1);
    Cur.Again = Old;
    if (New)
      On.erase({X, D});
    Seen.erase({X, D, Stack});
  }
  void step(I X, V D) {
    if (llvm::isa<llvm::ReturnInst>(X)) {
      if (Stack.empty())
        return;
      I CS = Stack.back();
      int No = CallNo.back();
      Stack.pop_back();
      CallNo.pop_back();
      go(CS->getNextNode(), D, D);
      Stack.push_back(CS);
      CallNo.push_back(No);
      return;
    }
    if (auto *CB = llvm::dyn_cast<llvm::CallBase>(X)) {
      auto *F = CB->getCalledFunction();
      if (!F->isDeclaration())
        for (V E : W.call(F, D)) {
          Stack.push_back(X);
          CallNo.push_back(++Calls);
          go(&F->front().front(), E, D);
          Stack.pop_back();
          CallNo.pop_back();
        }
      for (V E : W.ctr(F, D))
        if (F->isDeclaration() || D != W.Zero || E != W.Zero) // by design the zero fact takes the way through the callee
          go(X->getNextNode(), E, D);
      return;
    }
    auto Br = llvm::dyn_cast<llvm::BranchInst>(X);
    for (V E : W.normal(X, D)) {
      if (!Br) {
        go(X->getNextNode(), E, D);
        continue;
      }
      for (unsigned S = 0; S < Br->getNumSuccessors(); ++S) {
        if (Br->isConditional())
          Cur.Taken.push_back({Of.at(X->getFunction()->getName().str()).at(Br->getCondition()->getName().str()), S == 0, int(X->getFunction()->getName()[0]), Stack.empty() ? 0 : CallNo.back()});
        go(&Br->getSuccessor(S)->front(), E, D);
        if (Br->isConditional())
          Cur.Taken.pop_back();
      }
    }
  }
  /// Whether the exploded supergraph has a cycle: returns are not matched with calls.
  bool cyclic(const llvm::Module &M) const {
    std::map<std::pair<I, V>, int> St;
    std::function<bool(I, V)> Go = [&](I X, V D) {
      int &S = St[{X, D}];
      if (S)
        return S == 1;
      S = 1;
      bool R = false;
      auto To = [&](I Y, V E) { R = R || Go(Y, E); };
      if (llvm::isa<llvm::ReturnInst>(X)) {
        for (auto *U : X->getFunction()->users())
          To(llvm::cast<llvm::CallBase>(U)->getNextNode(), D);
      } else if (auto *CB = llvm::dyn_cast<llvm::CallBase>(X)) {
        auto *F = CB->getCalledFunction();
        if (!F->isDeclaration())
          for (V E : W.call(F, D))
            To(&F->front().front(), E);
        for (V E : W.ctr(F, D))
          if (F->isDeclaration() || D != W.Zero || E != W.Zero)
            To(X->getNextNode(), E);
      } else
        for (V E : W.normal(X, D))
          if (X->isTerminator())
            for (auto *B : llvm::successors(X))
              To(&B->front(), E);
          else
            To(X->getNextNode(), E);
      St[{X, D}] = 2;
      return R;
    };
    return Go(&M.getFunction("main")->front().front(), W.Zero);
  }
  /// Variables of different functions are different variables; those of different calls of a function as well.
  static bool feasible(const Found &F, bool OnlyP0 = false) {
    std::map<std::pair<int, int>, std::vector<const Found::Choice *>> Groups;
    for (auto &T : F.Taken)
      if (T.C->Val)
        Groups[{T.Fun, T.Call}].push_back(&T);
    for (auto &G : Groups) {
      bool Sat = false;
      for (int P = -4; P <= 4 && !Sat; ++P)
        for (int Q = -4; Q <= 4 && !Sat; ++Q)
          for (int B = 0; B < 4 && !Sat; ++B) {
            Sat = true;
            if (OnlyP0 && G.first.second == 0 && P != 0)
              Sat = false;
            for (auto *T : G.second)
              Sat &= T->C->Val(P, Q, B) == T->To;
          }
      if (!Sat)
        return false;
    }
    return true;
  }
};

static void program(mc::Ctx &C, const std::string &Name, const std::string &Body, std::map<std::string, const PCond *> Of, int Callee, int Names, bool Limits = true) {
  C.nontrivial(mc::hashStr(Name));
  C.trace();
  static const PCond CalleeConds[] = {{"callee p<0", "", [](int P, int, int) { return P < 0; }}};
  std::string Text = "%S = type {i32, i32}\n@a = global i32 0\n@b = global i32 0\ndeclare i32 @nd()\ndeclare i8 @ndb()\ndeclare i1 @nd1()\ndeclare void @ext()\n";
  static const char *const Bodies[] = {
      "define void @NAME() {\ns:\n%gena.0 = add i32 0, 0\nret void\n}\n", "define void @NAME() {\ns:\n%killa.0 = add i32 0, 0\nret void\n}\n",
      "define void @NAME() {\ns:\n%copyab.0 = add i32 0, 0\nret void\n}\n",
      "define void @NAME() {\ns:\n%NAMEv = alloca i32\n%v = call i32 @nd()\nstore i32 %v, i32* %NAMEv\n%l = load i32, i32* %NAMEv\n%c = icmp slt i32 %l, 0\nbr i1 %c, label %t, label %e\n"
      "t:\n%gena.0 = add i32 0, 0\nbr label %e\ne:\nret void\n}\n",
      "define void @NAME() {\ns:\n%NAMEr = alloca %S\n%g0 = getelementptr %S, %S* %NAMEr, i32 0, i32 1\n%l = load i32, i32* %g0\n%c = icmp sge i32 %l, 0\nbr i1 %c, label %t, label %e\n"
      "t:\n%gena.0 = add i32 0, 0\nbr label %e\ne:\nret void\n}\n",
      "define void @NAME() {\ns:\n%moveab.0 = add i32 0, 0\n%gena.1 = add i32 0, 0\nret void\n}\n"};
  auto Put = [&](const char *Fn, int K) {
    std::string S = Bodies[K];
    for (size_t At; (At = S.find("NAME")) != S.npos;)
      S.replace(At, 4, Fn);
    Text += S;
  };
  Put("g1", Callee);
  Put("l1", Callee);
  Text += "define void @g2() {\ns:\ncall void @g1()\n%nop.0 = add i32 0, 0\ncall void @g1()\nret void\n}\n";
  Text += "define i32 @main() {\nentry:\n" + std::string(vars()) + Body + "ret i32 0\n}\n";
  if (Names == 1) // variables without names
    for (size_t K = 0; K < 4; ++K)
      for (size_t At; (At = Text.find(std::string("%") + "PQFR"[K])) != Text.npos;)
        Text.replace(At, 2, "%" + std::to_string(K));
  if (Names == 2) // variables of two functions with one name
    for (auto *V : {"%g1v", "%l1v"})
      for (size_t At; (At = Text.find(V)) != Text.npos;)
        Text.replace(At, 4, "%P");
  auto &LC = ir::context();
  auto M = ir::parse(Text, LC);
  LLVMProjectIRDB DB(M.get());
  World W{LLVMZeroValue::getInstance(), M->getNamedGlobal("a"), M->getNamedGlobal("b")};
  I Query = M->getFunction("main")->back().getTerminator();
  std::map<std::string, std::map<std::string, const PCond *>> Reg;
  Reg["main"] = Of;
  Reg["g1"]["c"] = Reg["l1"]["c"] = &CalleeConds[0];
  Oracle O{W, Reg, C, Query};
  O.go(&M->getFunction("main")->front().front(), W.Zero);

  bool Loose = false;
  for (auto &R : Of)
    Loose |= R.second->Loose;
  bool Cyclic = O.cyclic(*M);
  C.count(Cyclic ? "cyclic" : "acyclic");
  // one way through the program: the path has to be found, even if functions are called several times
  const bool Straight = Body.find("br ") == Body.npos && Body.find("@l1") == Body.npos && Callee != 3 && Callee != 4;

  LLVMBasedICFG ICF(&DB, CallGraphAnalysisType::NORESOLVE, {"main"}, nullptr, LLVMAliasInfoRef{}, Soundness::Soundy, false);
  Problem P(&DB, W);
  PathAwareIDESolver<Domain> Solver(P, &ICF);
  Solver.solve();
  LLVMPathConstraints LPC;
  for (V D : {W.Zero, W.A, W.B}) {
    auto DName = D == W.Zero ? "0" : D == W.A ? "a" : "b";
    bool Any = false;
    for (auto &F : O.Res[D]) {
      F.Ok = Oracle::feasible(F);
      Any = true;
      C.count(!F.Ok ? "infeasible" : F.Again ? "repetition" : "feasible");
    }
    bool Reached = Solver.resultsAt(Query).count(D) != 0;
    C.check(Reached == Any, "reached", [&] { return Name + ": " + DName; });
    if (!Reached)
      continue;
    enum { Plain, NotMinimized, OnlyP0, Deep, Depth1, Depth2, Num1, Num2, NModes };
    std::set<Path> All;
    for (int Mode = 0; Mode < NModes; ++Mode) {
      if (Mode > OnlyP0 && (Names || !Limits || Mode == Deep || Mode == Depth2 || Mode == Num2 ? D != W.A : D != W.Zero))
        continue;
      if ((Mode == NotMinimized && D != W.A) || (Mode == OnlyP0 && (D != W.Zero || Names)))
        continue;
      Z3BasedPathSensitivityConfig Cfg;
      if (Mode == NotMinimized)
        Cfg = Cfg.withMinimizeDAG(false);
      if (Mode == OnlyP0)
        Cfg = Cfg.withAdditionalConstraint(LPC.getContext().int_const("P") == 0);
      const bool Cut = Mode == Depth1 || Mode == Depth2;
      const size_t Depth = Mode == Depth1 ? 1 : 2, Num = Mode == Num1 ? 1 : 2;
      if (Cut || Mode == Deep)
        Cfg = Cfg.withDAGDepthThreshold(Cut ? Depth : 1000);
      if (Mode == Num1 || Mode == Num2)
        Cfg = Cfg.withNumPathsThreshold(Num);
      for (auto &F : O.Res[D])
        F.Ok = Oracle::feasible(F, Mode == OnlyP0);
      Z3BasedPathSensitivityManager<Domain> PSM(&Solver.getExplicitESG(), Cfg, &LPC);
      auto Paths = PSM.pathsTo(Query, D);
      C.state(mc::hashStr(Name + DName));
      auto Show = [&] {
        std::string R = Name + ": to " + DName + (Mode == NotMinimized ? std::string(" (not minimized)") : Mode == OnlyP0 ? " (with p == 0)" : Cut ? " (depth " + std::to_string(Depth) + ")" : Mode == Deep ? " (depth 1000)" : Mode > OnlyP0 ? " (at most " + std::to_string(Num) + ")" : "") + ": reported";
        for (auto &G : Paths)
          R += " [" + str(Path(G.begin(), G.end())) + "]";
        R += "; real";
        for (auto &F : O.Res[D])
          R += (F.Ok ? " [" : " infeasible [") + str(F.P) + "]";
        return R;
      };
      std::vector<Path> Got;
      for (auto &FP : Paths) {
        Path G(FP.begin(), FP.end());
        C.check(std::find(Got.begin(), Got.end(), G) == Got.end(), "twice", [&] { return str(G) + "; " + Show(); });
        bool Real = false, Ok = false;
        for (auto &F : O.Res[D])
          if (Cut ? isEnd(G, F) : matches(G, F))
            Real = true, Ok |= F.Ok || Cut;
        if (Cut && G.size() <= Depth) { // too short: it has to be a whole path
          bool Whole = false;
          for (auto &F : O.Res[D])
            Whole |= matches(G, F);
          C.check(Whole, "too short", [&] { return str(G) + "; " + Show(); });
        }
        C.check(Real, "no path", [&] { return str(G) + "; " + Show(); });
        if (!Loose)
          C.check(Ok, "infeasible", [&] { return str(G) + "; " + Show(); });
        Got.push_back(G);
        // the values reported for a path lead along it
        auto Int = [&](const char *N) {
          auto E = FP.Model.eval(LPC.getContext().int_const(N), true);
          int64_t R = 0;
          return E.is_numeral_i64(R) ? int(R) : 99;
        };
        C.check(FP.Model.eval(FP.Constraint, true).is_true(), "model", [&] { return str(G) + "; " + FP.Constraint.to_string() + "; " + Show(); });
        if (!Loose && !Names && !Cut) {
          int P = Int("P"), Q = Int("Q"), B = Int("F");
          bool Leads = false;
          for (auto &F : O.Res[D])
            if (matches(G, F)) {
              bool All = true;
              for (auto &T : F.Taken)
                All &= T.Call || !T.C->Val || T.C->Val(P, Q, B) == T.To;
              Leads |= All;
            }
          C.check(Leads, "values", [&] { return str(G) + ": " + std::to_string(P) + "," + std::to_string(Q) + "," + std::to_string(B) + "; " + Show(); });
        }
      }
      if (Mode == Plain)
        All = std::set<Path>(Got.begin(), Got.end());
      if (Mode == Deep && !Cyclic)
        C.check(std::set<Path>(Got.begin(), Got.end()) == All, "depth", Show);
      if (Mode == Num1 || Mode == Num2) { // some of the paths
        C.check(Got.size() <= Num, "too many", Show);
        C.check(Got.size() >= std::min<size_t>(Num, All.size()) || Cyclic, "too few", Show);
        for (auto &G : Got)
          C.check(All.count(G), "another path", Show);
        continue;
      }
      for (auto &F : O.Res[D])
        if (F.Ok && !(Cyclic && (F.Again || !Straight))) {
          bool Has = false;
          for (auto &G : Got)
            Has |= Cut ? isEnd(G, F) : matches(G, F);
          C.check(Has, Names == 2 ? "missed-same-name" : Cyclic ? "missed-cyclic" : "missed", [&] { return str(F.P) + "; " + Show(); });
        }
      if (!Mode && C.wantSample())
        C.sample(Show());
    }
  }
  if (Names)
    return;
  // the paths of all facts together
  using PSM_t = Z3BasedPathSensitivityManager<Domain>;
  PSM_t PSM(&Solver.getExplicitESG(), {}, &LPC);
  for (bool Min : {true, false}) {
    auto Dag = PSM.pathsDagTo(Query, Solver.getSolverResults(), PathSensitivityConfig().withMinimizeDAG(Min));
    using Tr = GraphTraits<decltype(Dag)>;
    std::set<Path> Got;
    std::function<void(typename Tr::vertex_t, Path)> Walk = [&](typename Tr::vertex_t Vtx, Path G) {
      auto &N = Tr::node(Dag, Vtx);
      G.insert(G.end(), N.rbegin(), N.rend());
      if (Tr::outDegree(Dag, Vtx) == 0)
        Got.insert(std::move(G));
      else
        for (auto &E : Tr::outEdges(Dag, Vtx))
          Walk(Tr::target(E), G);
    };
    for (auto R : Tr::roots(Dag))
      Walk(R, {});
    auto Show = [&] {
      std::string R = Name + ": to all facts" + (Min ? "" : " (not minimized)") + ": reported";
      for (auto &G : Got)
        R += " [" + str(G) + "]";
      return R;
    };
    bool Calls = Name.find("call @g") != Name.npos || Name.find("call @l") != Name.npos;
    for (auto &G : Got) {
      bool Real = Calls || Cyclic; // invalid returns are only filtered later
      for (auto &R : O.Res)
        for (auto &F : R.second)
          Real = Real || matches(G, F);
      C.check(Real, "no path", [&] { return str(G) + "; " + Show(); });
    }
    for (auto &R : O.Res)
      for (auto &F : R.second)
        if (!Cyclic || (Straight && !F.Again)) {
          bool Has = false;
          for (auto &G : Got)
            Has = Has || matches(G, F);
          C.check(Has, Cyclic ? "missed by all facts, cyclic" : "missed by all facts", [&] { return str(F.P) + "; " + Show(); });
        }
  }
}

int main(int Argc, char **Argv) {
  if (const char *D = getenv("MC_SCRATCH"))
    if (chdir(D)) // the code under test writes files to the current directory
      return 3;
  std::vector<mc::Part> Ps;
  using L = std::vector<const char *>;
  using N = std::vector<int>;
  static const L Leaves = {"gena", "killa", "copyab", "moveab", "genb", "nop", "call @ext"}, All = {"gena", "killa", "copyab", "moveab", "call @g1", "call @l1", "call @g2", "call @ext"};
  static N AllConds;
  for (int K = 0; K < int(NC); ++K)
    if (!arith(K))
      AllConds.push_back(K);
  auto Id = [](const char *Name) {
    for (int K = 0; K < int(NC); ++K)
      if (!strcmp(Conds[K].Name, Name))
        return K;
    abort();
  };
  static const int P0 = 0, Field = NC - 1, B = Id("b"), U = Id("p<u1");
  auto Add = [&](const char *Name, N Cs, L Ls, std::vector<int> Items, int FirstCallee, int Callees, int Names = 0) {
    Ps.push_back({Name, [=](mc::Ctx &C) {
                    ProgGen G{C, Cs, Ls};
                    int K = FirstCallee + C.choose(Callees);
                    std::string B;
                    for (auto X : Items)
                      B += G.item(X);
                    bool Calls = B.find("@g") != B.npos || B.find("@l") != B.npos;
                    if ((Calls || K == FirstCallee) && C.mine())
                      program(C, G.Name, B, G.Of, K, Names, C.thorough() || Cs.size() <= 6);
                  }});
  };
  Add("flows_1", {P0}, Leaves, {4}, 0, 1);
  Add("flows_2", {P0}, Leaves, {3, 2}, 0, 1);
  Add("flows_2r", {P0}, Leaves, {2, 3}, 0, 1);
  Add("calls_1", {P0, Field}, All, {4}, 0, 5);
  Add("calls_2", {P0}, All, {2, 2}, 0, 5);
  Add("calls_3", {P0}, {"call @g1", "gena", "nop", "moveab", "call @g2"}, {1, 1, 1}, 0, 6);
  Add("conditions", AllConds, {"gena"}, {3, 2}, 0, 1);
  Add("nested", AllConds, {"nop"}, {4}, 0, 1);
  Add("loops", {0, NC - 3}, {"gena", "killa", "moveab", "nop", "call @g1", "call @ext"}, {2, -4}, 3, 1);
  Add("loops_after", {NC - 3}, {"gena", "killa", "moveab", "nop", "call @g1"}, {-4, 2}, 3, 1);
  Add("one_target", {0, 2, 4, U, B}, {"gena"}, {-5, 2}, 0, 1);
  Add("one_target_after", {0, 4}, {"gena"}, {2, -5}, 0, 1);
  Add("unnamed", {0, 1, 2, 3, B}, {"gena"}, {2, 2}, 0, 1, 1);
  Add("same_name", {0}, {"call @g1", "call @l1"}, {3}, 3, 1, 2);
  // every acyclic control-flow graph over up to five blocks; a block may generate or move facts
  for (int Blocks = 3; Blocks <= 5; ++Blocks)
    Ps.push_back({"graphs_" + std::to_string(Blocks), [=](mc::Ctx &C) {
                    static const int Of[] = {Id("p==0"), Id("q==0"), Id("p<1"), Id("p==q")};
                    ProgGen G{C, {}, {}};
                    std::string Body, Name;
                    for (int K = 0; K + 1 < Blocks; ++K) {
                      auto N = std::to_string(K);
                      if (K) {
                        static const char *const Eff[] = {"nop", "killa", "moveab", "gena"};
                        auto E = Eff[Blocks < 5 || C.thorough() ? C.choose(4) : 0];
                        Body += "b" + N + ":\n%" + E + "." + N + " = add i32 0, 0\n", Name += std::string("; ") + E;
                      } else
                        Body += "%gena." + N + " = add i32 0, 0\n";
                      int T = K + 1 + C.choose(Blocks - 1 - K), F = K + 1 + C.choose(Blocks - 1 - K);
                      if (T == F)
                        Body += "br label %b" + std::to_string(T) + "\n", Name += "->" + std::to_string(T);
                      else {
                        auto &D = Conds[Of[K]];
                        G.Of["c" + std::to_string(K + 10)] = &D;
                        Body += ProgGen::num(D.Text, K + 10) + "br i1 %c" + std::to_string(K + 10) + ", label %b" + std::to_string(T) + ", label %b" + std::to_string(F) + "\n";
                        Name += std::string("->") + D.Name + "?" + std::to_string(T) + ":" + std::to_string(F);
                      }
                    }
                    if (C.mine())
                      program(C, Name, Body + "b" + std::to_string(Blocks - 1) + ":\n", G.Of, 0, 0);
                  }});
  static N Arith; // one of the conditions with arithmetic and two simple ones
  for (int K = 0; K < int(NC); ++K)
    if (K < 2 || arith(K))
      Arith.push_back(K);
  Add("arithmetic", Arith, {"nop"}, {-1, -1}, 0, 1);
  return mc::run(Argc, Argv, Ps);
}
