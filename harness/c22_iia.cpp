// Instruction-interaction analysis: the labels of a variable against the labels of the instructions that its value came through, over every path of small programs.
#include "interp.h"
#include "minic.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include <bitset>
#include <set>
using namespace psr;
using V = const llvm::Value *;
using I = const llvm::Instruction *;
static constexpr unsigned Any = 255; // a value from outside: the analysis says that nothing is known
using Labels = std::bitset<256>;

// Every memory location has one name in a function, so that the labels are exact.
static const std::vector<minic::Stmt> Basic = {
    {"const", "store i32 1, i32* X", false},
    {"copy", "%a$ = load i32, i32* Y\nstore i32 %a$, i32* X"},
    {"inc", "%a$ = load i32, i32* Y\n%b$ = add i32 1, %a$\nstore i32 %b$, i32* X"},
    {"sum", "%a$ = load i32, i32* Y\n%b$ = load i32, i32* X\n%d$ = add i32 %a$, %b$\nstore i32 %d$, i32* X"},
    {"argc", "store i32 %argc, i32* X", false},
    {"read", "%a$ = load i32, i32* Y\n%b$ = icmp eq i32 %a$, 1"},
};
static const std::vector<minic::Stmt> Calls = {
    {"id", "%a$ = load i32, i32* Y\n%b$ = call i32 @id(i32 %a$)\nstore i32 %b$, i32* X"},
    {"twice", "%a$ = load i32, i32* Y\n%b$ = call i32 @twice(i32 %a$)\nstore i32 %b$, i32* X"},
    {"seven", "%b$ = call i32 @seven()\nstore i32 %b$, i32* X", false},
    {"second", "%a$ = load i32, i32* X\n%b$ = load i32, i32* Y\n%d$ = call i32 @second(i32 %a$, i32 %b$)\nstore i32 %d$, i32* X"},
    {"rec", "%a$ = load i32, i32* Y\n%b$ = call i32 @rec(i32 %a$)\nstore i32 %b$, i32* X"},
    {"setg", "call void @setg()", false},
    {"addg", "%a$ = load i32, i32* Y\ncall void @addg(i32 %a$)"},
    {"getg", "%b$ = call i32 @getg()\nstore i32 %b$, i32* X", false},
    {"print", "%a$ = load i32, i32* Y\ncall void @print(i32 %a$)"},
    {"ext", "%b$ = call i32 @ext()\nstore i32 %b$, i32* X", false},
    {"const", "store i32 1, i32* X", false},
    {"copy", "%a$ = load i32, i32* Y\nstore i32 %a$, i32* X"},
    {"choice", "%q$ = call i1 @nd()\n%f$ = select i1 %q$, i32 (i32)* @id, i32 (i32)* @twice\n%a$ = load i32, i32* Y\n%b$ = call i32 %f$(i32 %a$)\nstore i32 %b$, i32* X"},
    {"extchoice", "%q$ = call i1 @nd()\n%f$ = select i1 %q$, i32 (i32)* @extid2, i32 (i32)* @extid\n%a$ = load i32, i32* Y\n%b$ = call i32 %f$(i32 %a$)\nstore i32 %b$, i32* X"},
};
static const std::vector<minic::Stmt> Pointers = {
    {"setp", "call void @setp(i32* X)", false},
    {"putp", "%a$ = load i32, i32* Y\ncall void @putp(i32* X, i32 %a$)"},
    {"copyp", "call void @copyp(i32* X, i32* Y)"},
    {"getp", "%b$ = call i32 @getp(i32* Y)\nstore i32 %b$, i32* X"},
    {"deep", "call void @deep(i32* X)", false},
    {"printp", "call void @printp(i32* X)", false},
    {"const", "store i32 1, i32* X", false},
    {"copy", "%a$ = load i32, i32* Y\nstore i32 %a$, i32* X"},
};
static const std::vector<minic::Stmt> Other = {
    {"phi", "%q$ = call i1 @nd()\n%a$ = load i32, i32* Y\nbr label %pq$\npq$:\nbr i1 %q$, label %pa$, label %pb$\npa$:\nbr label %pb$\npb$:\n%b$ = phi i32 [ 3, %pa$ ], [ %a$, %pq$ ]\nstore i32 %b$, i32* X"},
    {"select", "%q$ = load i32, i32* X\n%r$ = icmp eq i32 %q$, 1\n%a$ = load i32, i32* Y\n%b$ = select i1 %r$, i32 %a$, i32 3\nstore i32 %b$, i32* X"},
    {"switch", "%q$ = load i32, i32* X\nswitch i32 %q$, label %sa$ [ i32 1, label %sb$\ni32 2, label %sc$ ]\nsa$:\nstore i32 1, i32* Y\nbr label %sc$\nsb$:\nstore i32 %q$, i32* Y\nbr label %sc$\nsc$:\n"},
    {"casts", "%a$ = load i32, i32* Y\n%b$ = sext i32 %a$ to i64\n%d$ = trunc i64 %b$ to i8\n%e$ = zext i8 %d$ to i32\nstore i32 %e$, i32* X"},
    {"heap", "%m$ = call i8* @malloc(i64 1)\n%a$ = load i32, i32* Y\n%b$ = trunc i32 %a$ to i8\nstore i8 %b$, i8* %m$\n%d$ = load i8, i8* %m$\n%e$ = zext i8 %d$ to i32\nstore i32 %e$, i32* X"},
    {"sum", "%a$ = load i32, i32* Y\n%b$ = load i32, i32* X\n%d$ = mul i32 %a$, %b$\nstore i32 %d$, i32* X"},
    {"local", "%l$ = alloca i32\n%a$ = load i32, i32* Y\nstore i32 %a$, i32* %l$\n%b$ = load i32, i32* %l$\nstore i32 %b$, i32* X"},
    {"freeze", "%a$ = load i32, i32* Y\n%b$ = freeze i32 %a$\n%d$ = sub i32 0, %b$\nstore i32 %d$, i32* X"},
    {"undef", "store i32 undef, i32* X", false},
    {"dead", "%a$ = load i32, i32* Y\nbr label %dk$\ndd$:\nstore i32 %a$, i32* X\nbr label %dk$\ndk$:\n"},
    {"invoke", "%a$ = load i32, i32* Y\n%b$ = invoke i32 @id(i32 %a$) to label %ok$ unwind label %lp$\nlp$:\n%l$ = landingpad { i8*, i32 } cleanup\nunreachable\nok$:\nstore i32 %b$, i32* X"},
    {"null", "%l$ = alloca i32*\nstore i32* null, i32** %l$\n%a$ = load i32*, i32** %l$\n%b$ = icmp eq i32* %a$, null\n%d$ = zext i1 %b$ to i32\nstore i32 %d$, i32* X", false},
    {"nullret", "%a$ = call i32* @nul()\n%b$ = icmp eq i32* %a$, null\n%d$ = zext i1 %b$ to i32\nstore i32 %d$, i32* X", false},
    {"aggr", "%a$ = load i32, i32* Y\n%b$ = insertvalue { i32, i32 } zeroinitializer, i32 %a$, 0\n%d$ = extractvalue { i32, i32 } %b$, 0\nstore i32 %d$, i32* X"},
};
static const char Prelude[] = R"(
@g = global i32 5
declare i1 @nd()
declare i32 @ext()
declare i32 @extid(i32)
declare i32 @extid2(i32)
declare i8* @malloc(i64)
declare void @print(i32)
declare void @printp(i32*)
declare i32 @__gxx_personality_v0(...)
define i32 @id(i32 %a) {
  ret i32 %a
}
define i32* @nul() {
  ret i32* null
}
define i32 @twice(i32 %a) {
  %r = add i32 %a, %a
  ret i32 %r
}
define i32 @seven() {
  ret i32 7
}
define i32 @second(i32 %a, i32 %b) {
  %q = call i1 @nd()
  br i1 %q, label %t, label %e
t:
  %c = xor i32 %b, 1
  ret i32 %c
e:
  ret i32 %b
}
define i32 @rec(i32 %a) {
  %q = call i1 @nd()
  br i1 %q, label %t, label %e
t:
  %r = call i32 @rec(i32 %a)
  %s = add i32 %r, 1
  ret i32 %s
e:
  ret i32 %a
}
define void @setg() {
  store i32 7, i32* @g
  ret void
}
define void @addg(i32 %a) {
  %o = load i32, i32* @g
  %n = add i32 %o, %a
  store i32 %n, i32* @g
  ret void
}
define i32 @getg() {
  %r = load i32, i32* @g
  ret i32 %r
}
define void @setp(i32* %p) {
  store i32 3, i32* %p
  ret void
}
define void @putp(i32* %p, i32 %v) {
  store i32 %v, i32* %p
  ret void
}
define void @copyp(i32* %p, i32* %q) {
  %a = load i32, i32* %q
  store i32 %a, i32* %p
  ret void
}
define i32 @getp(i32* %p) {
  %a = load i32, i32* %p
  ret i32 %a
}
define void @deep(i32* %p) {
  %a = load i32, i32* %p
  %b = add i32 %a, 1
  call void @putp(i32* %p, i32 %b)
  ret void
}
)";

// the generator of labels: one per instruction and global, possibly several or none
struct Labelling {
  std::map<V, std::set<unsigned>> L;
  Labelling(const llvm::Module &M, unsigned Kind) {
    unsigned N = 0;
    for (auto &G : M.globals())
      if (Kind != 1)
        L[&G] = {N++};
    for (auto &F : M)
      for (auto &X : llvm::instructions(F)) {
        bool Mem = llvm::isa<llvm::StoreInst>(X) || llvm::isa<llvm::CallBase>(X);
        switch (Kind) {
        case 0: L[&X] = {N++ % 250}; break;                                               // all different
        case 1: if (Mem) L[&X] = {N++ % 250}; break;                                      // writes and calls only
        default: L[&X] = {unsigned(X.getOpcode() % 16), 16 + unsigned(&F == F.getParent()->getFunction("main"))}; // groups that overlap
        }
      }
  }
  Labels operator()(V X) const {
    Labels R;
    if (auto It = L.find(X); It != L.end())
      for (auto K : It->second)
        R.set(K);
    return R;
  }
};

using State = std::map<V, Labels>;
struct Watch : interp::Observer {
  const Labelling &L;
  std::map<I, State> &S;
  std::vector<State> St; // per frame; the globals are with the top
  Watch(const Labelling &L, std::map<I, State> &S) : L(L), S(S) {}
  void start(const llvm::Module &M, const llvm::Function *Main) {
    St.emplace_back();
    for (auto &G : M.globals())
      St[0][&G] = L(&G);
    for (auto &A : Main->args())
      St[0][&A] = {};
  }
  void before(interp::Exec &, I X) override {
    auto &Row = S[X];
    for (auto &[D, B] : St.back())
      Row[D] |= B;
    if (auto *R = llvm::dyn_cast<llvm::ReturnInst>(X)) // remembers the return that leaves the function
      LastRet.push_back(R);
    else if (X->isTerminator() && !llvm::isa<llvm::CallBase>(X)) // branches depend on their condition
      operands(X);
  }
  void call(interp::Exec &, const llvm::CallBase *CB, const llvm::Function *F) override {
    if (F->isDeclaration())
      return;
    State N;
    auto &T = St.back();
    for (auto It = T.begin(); It != T.end();)
      if (llvm::isa<llvm::GlobalVariable>(It->first)) {
        N.insert(*It);
        It = T.erase(It);
      } else {
        ++It;
      }
    for (unsigned K = 0; K < CB->arg_size(); ++K)
      if (auto It = T.find(CB->getArgOperand(K)); It != T.end())
        N[F->getArg(K)] = It->second;
    St.push_back(std::move(N));
  }
  void operands(I X) {
    auto &T = St.back();
    bool Has = false;
    Labels R;
    for (auto &O : X->operands())
      if (auto It = T.find(O); It != T.end()) {
        R |= It->second | L(X);
        Has = true;
      }
    if (Has)
      T[X] |= R;
  }
  void after(interp::Exec &E, I X) override {
    if (auto *CB = llvm::dyn_cast<llvm::CallBase>(X)) {
      Labels Lab = L(CB);
      const llvm::Function *F = CB->getCalledFunction();
      if (!F)
        F = E.function(E.eval(CB->getCalledOperand()));
      bool Def = F && !F->isDeclaration();
      State Ex;
      const llvm::ReturnInst *Ret = nullptr;
      if (Def) {
        Ex = std::move(St.back());
        St.pop_back();
        Ret = LastRet.back();
        LastRet.pop_back();
      }
      auto &T = St.back();
      for (auto &A : CB->args())
        if (auto It = T.find(A); It != T.end())
          It->second |= Lab;
      if (Def) {
        for (auto &[D, B] : Ex)
          if (llvm::isa<llvm::GlobalVariable>(D))
            T[D] = B;
        for (unsigned K = 0; K < CB->arg_size(); ++K)
          if (auto It = Ex.find(F->getArg(K)); It != Ex.end())
            T[CB->getArgOperand(K)] |= It->second; // what happened to a parameter (a call used it, or something was written through it) happened to the argument
        if (auto *RV = Ret->getReturnValue()) {
          if (auto It = Ex.find(RV); It != Ex.end())
            T[CB] |= It->second;
          else if (llvm::isa<llvm::ConstantData>(RV))
            T[CB] |= L(Ret);
        }
      } else if (F && F->getName() == "malloc") {
        T[CB] |= Lab;
      } else if (!CB->getType()->isVoidTy()) {
        T[CB].set(Any);
      }
      return;
    }
    auto &T = St.back();
    if (auto *A = llvm::dyn_cast<llvm::StoreInst>(X)) {
      auto *Val = A->getValueOperand();
      if (llvm::isa<llvm::ConstantData>(Val))
        T[A->getPointerOperand()] = L(A);
      else if (auto It = T.find(Val); It != T.end())
        T[A->getPointerOperand()] = It->second | L(A);
      else
        T.erase(A->getPointerOperand());
      return;
    }
    if (llvm::isa<llvm::AllocaInst>(X)) {
      T[X] |= L(X);
      return;
    }
    operands(X);
  }
  std::vector<const llvm::ReturnInst *> LastRet;
};
static const uint64_t MaxRuns = 600;
static std::string show(const Labels &L) {
  std::string R = "{";
  for (unsigned K = 0; K < 256; ++K)
    if (L[K])
      R += (K == Any ? "anything" : std::to_string(K)) + ",";
  return R + "}";
}

template <bool Syntactic> static void analyse(mc::Ctx &C, const std::string &Name, LLVMProjectIRDB &DB, const LLVMBasedICFG &ICF, LLVMAliasInfoRef AS, const Labelling &L, const std::map<I, State> &S, bool Exact) {
  IDEInstInteractionAnalysisT<unsigned, Syntactic> P(&DB, &ICF, AS, {"main"}, [&](std::variant<I, const llvm::GlobalVariable *> X) {
    auto It = L.L.find(std::visit([](auto *Y) { return V(Y); }, X));
    return It == L.L.end() ? std::set<unsigned>() : It->second;
  });
  IDESolver Solver(P, &ICF);
  Solver.solve();
  auto Res = Solver.getSolverResults();
  auto *Main = DB.getFunction("main");
  std::set<V> NonEmpty;
  for (auto &[X, St] : S) {
    for (auto &[D, B] : St) {
      if (B.any() && !B[Any])
        NonEmpty.insert(D);
    }
    auto Row = Res.resultsAt(X, true);
    C.states(Row.size());
    auto At = [&, X = X](V D) { return Name + (Syntactic ? " (syntactic)" : "") + ": before " + ir::str(X) + ", " + ir::str(D); };
    for (auto &[D, B] : St) {
      auto It = Row.find(D);
      V DV = D;
      const Labels &Exp = B;
      C.check(It != Row.end(), "missing-fact", [&] { return At(DV) + " came through " + show(Exp) + " but has no labels"; });
      if (It == Row.end())
        continue;
      Labels Got;
      bool Top = It->second.isTop();
      if (It->second.isBottom())
        Got.set(Any);
      else if (auto *Set = std::get_if<BitVectorSet<unsigned>>(&It->second))
        for (auto K : *Set)
          Got.set(K);
      bool Sound = !Top && (Got[Any] || (Exp & ~Got).none());
      C.check(Sound, Exp[Any] ? "known-though-from-outside" : "missing-label", [&] { return At(DV) + " came through " + show(Exp) + " but has the labels " + (Top ? "top" : show(Got)); });
      if (Exact)
        C.check(Exp[Any] || (!Got[Any] && (Got & ~Exp).none()), "wrong-label", [&] { return At(DV) + " came through " + show(Exp) + " but has the labels " + show(Got); });
      C.count(Exp[Any] ? "anything" : "labelled");
    }
    if (Exact)
      for (auto &[D, Val] : Row) {
        V DV = D.getBase();
        C.check(St.count(DV) != 0, "fact-from-nowhere", [&] { return At(DV) + " has labels though no value of that kind gets there"; });
      }
  }
  if (!Exact)
    return;
  auto Empty = P.getAllVariablesWithEmptySetValue(Res);
  for (auto *X : DB.getAllInstructions()) {
    auto *CB = llvm::dyn_cast<llvm::CallBase>(X);
    bool Var = llvm::isa<llvm::AllocaInst>(X) || (CB && CB->getCalledFunction() && CB->getCalledFunction()->getName() == "malloc");
    C.check(Empty.count(X) == (Var && !NonEmpty.count(X)), "variables-without-labels", [&] { return Name + ": " + ir::str(X) + (Empty.count(X) ? " is said to have no labels" : " is not said to have no labels"); });
  }
  for (auto &G : DB.getModule()->globals())
    C.check(Empty.count(&G) == !NonEmpty.count(&G), "variables-without-labels", [&] { return Name + ": " + ir::str(&G); });
  std::string Rep;
  llvm::raw_string_ostream OS(Rep);
  P.emitTextReport(Res, OS);
  C.check(OS.str().find("Function: main") != std::string::npos, "report", [&] { return Name + ": no report"; });
  (void)Main;
}

static void program(mc::Ctx &C, const std::string &Name, const std::string &Body, unsigned Kind, bool Exact) {
  auto Text = std::string(Prelude) + "define i32 @main(i32 %argc) personality i8* bitcast (i32 (...)* @__gxx_personality_v0 to i8*) {\nentry:\n%x = alloca i32\n%y = alloca i32\nstore i32 1, i32* %x\nstore i32 %argc, i32* %y\n" + Body +
              "%end = load i32, i32* %x\nret i32 %end\n}\n";
  C.nontrivial(mc::hashStr(Text + std::to_string(Kind)));
  LLVMProjectIRDB DB(ir::parse(Text, ir::context()), false);
  auto &M = *DB.getModule();
  Labelling L(M, Kind);
  auto *Main = M.getFunction("main");
  std::map<I, State> S;
  auto Runs = interp::explore(
      M, Main,
      [&] {
        auto W = std::make_unique<Watch>(L, S);
        W->start(M, Main);
        return W;
      },
      [&](interp::Exec &E, Watch &, interp::Stop St) {
        if (St == interp::Stop::Trap) {
          fprintf(stderr, "harness error: stopped (%s)\n%s\n", E.TrapWhy.c_str(), Text.c_str());
          _exit(3);
        }
        C.transition(E.Steps);
        C.trace();
      },
      90, MaxRuns,
      [&](interp::Exec &E) {
        E.MaxDepth = 4;
        E.AllPaths = true;
        return std::vector<interp::Val>{interp::Val{interp::Val::Opaque, 0, -1, 0}};
      });
  if (Runs >= MaxRuns) {
    C.count("not_all_paths");
    Exact = false;
  }
  if (C.wantSample())
    C.sample(Name);
  LLVMTypeHierarchy TH(DB);
  LLVMAliasSet AS(&DB);
  bool Ind = Body.find("%f") != std::string::npos;
  LLVMBasedICFG ICF(&DB, Ind ? CallGraphAnalysisType::OTF : CallGraphAnalysisType::NORESOLVE, {"main"}, &TH, LLVMAliasInfoRef(&AS), Soundness::Soundy, false);
  analyse<true>(C, Name, DB, ICF, &AS, L, S, Exact);
  analyse<false>(C, Name, DB, ICF, &AS, L, S, Exact && Body.find("@copyp") == std::string::npos /* two parameters may be the same */);
}

int main(int Argc, char **Argv) {
  std::vector<mc::Part> Ps;
  bool T = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  struct Family {
    const char *Name;
    const std::vector<minic::Stmt> *S;
    std::vector<std::string> Vars;
    unsigned Max, Kinds;
  };
  static const std::vector<Family> Fs = {{"basic", &Basic, {"%x", "%y", "@g"}, T ? 3u : 2u, 3}, {"calls", &Calls, T ? std::vector<std::string>{"%x", "%y", "@g"} : std::vector<std::string>{"%y", "@g"}, 2u, T ? 3u : 1u}, {"pointers", &Pointers, {"%x", "%y"}, T ? 3u : 2u, T ? 3u : 1u}, {"other", &Other, {"%x", "%y"}, 2u, T ? 3u : 1u}};
  for (auto &F : Fs)
    for (unsigned K = 1; K <= F.Max; ++K)
      Ps.push_back({std::string(F.Name) + "_" + std::to_string(K), [&F, K](mc::Ctx &C) {
                      minic::Gen G{C, F.Vars, *F.S};
                      auto B = G.body(K);
                      auto Kind = K == 1 ? C.choose(3) : F.Kinds > 1 ? C.choose(F.Kinds) : 0;
                      if (!C.mine())
                        return;
                      if (B.find("copyp(i32* %x, i32* %x") != std::string::npos)
                        return;
                      program(C, G.Name, B, Kind, true);
                    }});
  return mc::run(Argc, Argv, Ps);
}
