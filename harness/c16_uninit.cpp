// Uninitialized variables against every execution of small programs.
#include "interp.h"
#include "minic.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include <set>
using namespace psr;
using V = const llvm::Value *;
using I = const llvm::Instruction *;

// the result has to be exact for these
static const std::vector<minic::Stmt> Scalars = {
    {"one", "store i32 1, i32* X", false},
    {"copy", "%a$ = load i32, i32* Y\nstore i32 %a$, i32* X"},
    {"inc", "%a$ = load i32, i32* Y\n%b$ = add i32 %a$, 1\nstore i32 %b$, i32* X"},
    {"add", "%a$ = load i32, i32* Y\n%b$ = load i32, i32* X\n%d$ = add i32 %a$, %b$\nstore i32 %d$, i32* X"},
    {"byte", "%a$ = load i32, i32* Y\n%b$ = trunc i32 %a$ to i8\n%d$ = sext i8 %b$ to i32\nstore i32 %d$, i32* X"},
    {"cmp", "%a$ = load i32, i32* Y\n%b$ = icmp eq i32 %a$, 1\n%d$ = zext i1 %b$ to i32\nstore i32 %d$, i32* X"},
    {"id", "%a$ = load i32, i32* Y\n%b$ = call i32 @id(i32 %a$)\nstore i32 %b$, i32* X"},
    {"inc", "%a$ = load i32, i32* Y\n%b$ = call i32 @inc(i32 %a$)\nstore i32 %b$, i32* X"},
    {"second", "%a$ = load i32, i32* Y\n%b$ = call i32 @second(i32 1, i32 %a$)\nstore i32 %b$, i32* X"},
    {"rec", "%a$ = load i32, i32* Y\n%b$ = call i32 @rec(i32 %a$)\nstore i32 %b$, i32* X"},
    {"ext", "%b$ = call i32 @ext()\nstore i32 %b$, i32* X", false},
    {"fresh", "%b$ = call i32 @fresh()\nstore i32 %b$, i32* X", false},
    {"setg", "call void @setg()", false},
    {"getg", "%b$ = call i32 @getg()\nstore i32 %b$, i32* X", false},
    {"putg", "%a$ = load i32, i32* Y\ncall void @putg(i32 %a$)"},
    {"branch", "%a$ = load i32, i32* Y\n%b$ = icmp eq i32 %a$, 1\nbr i1 %b$, label %pa$, label %pb$\npa$:\nbr label %pb$\npb$:"},
    {"undef", "store i32 undef, i32* X", false},
    {"undefarg", "%b$ = call i32 @id(i32 undef)\nstore i32 %b$, i32* X", false},
    {"undefret", "%b$ = call i32 @undefret()\nstore i32 %b$, i32* X", false},
    {"undefadd", "%b$ = add i32 undef, 1\nstore i32 %b$, i32* X", false},
    {"kr", "%b$ = call i32 bitcast (i32 (i32)* @zero to i32 ()*)()\nstore i32 %b$, i32* X", false},
    {"var", "%a$ = load i32, i32* Y\n%b$ = call i32 (i32, ...) @var(i32 %a$, i32 1)\nstore i32 %b$, i32* X"},
};
static const std::vector<minic::Stmt> Other = {
    {"one", "store i32 1, i32* X", false},
    {"copy", "%a$ = load i32, i32* Y\nstore i32 %a$, i32* X"},
    {"setp", "call void @setp(i32* X)", false},
    {"incp", "call void @incp(i32* X)", false},
    {"copyp", "call void @copyp(i32* X, i32* Y)"},
    {"maybe", "call void @maybe(i32* X)", false},
    {"nop", "call void @nop(i32* X)", false},
    {"deep", "call void @deep(i32* X)", false},
    {"getp", "%b$ = call i32 @getp(i32* Y)\nstore i32 %b$, i32* X"},
    {"select", "%q$ = call i1 @nd()\n%a$ = load i32, i32* Y\n%b$ = select i1 %q$, i32 %a$, i32 3\nstore i32 %b$, i32* X"},
    {"selectc", "%a$ = load i32, i32* Y\n%q$ = icmp eq i32 %a$, 1\n%b$ = select i1 %q$, i32 2, i32 3\nstore i32 %b$, i32* X"},
    {"phi", "%q$ = call i1 @nd()\n%a$ = load i32, i32* Y\nbr label %pq$\npq$:\nbr i1 %q$, label %pa$, label %pb$\npa$:\nbr label %pb$\npb$:\n%b$ = phi i32 [ 3, %pa$ ], [ %a$, %pq$ ]\nstore i32 %b$, i32* X"},
    {"phiundef", "%q$ = call i1 @nd()\nbr label %pq$\npq$:\nbr i1 %q$, label %pa$, label %pb$\npa$:\nbr label %pb$\npb$:\n%b$ = phi i32 [ 3, %pa$ ], [ undef, %pq$ ]\nstore i32 %b$, i32* X", false},
    {"arr0=", "%a$ = getelementptr [2 x i32], [2 x i32]* %arr, i32 0, i32 0\nstore i32 1, i32* %a$", false},
    {"arr1", "%a$ = getelementptr [2 x i32], [2 x i32]* %arr, i32 0, i32 1\n%b$ = load i32, i32* %a$\nstore i32 %b$, i32* X", false},
    {"bytes", "%a$ = bitcast i32* Y to i8*\n%b$ = load i8, i8* %a$\n%d$ = sext i8 %b$ to i32\nstore i32 %d$, i32* X"},
    {"indirect", "%q$ = call i1 @nd()\n%f$ = select i1 %q$, void (i32*)* @nop, void (i32*)* @setp\ncall void %f$(i32* X)", false},
    {"indirect2", "%q$ = call i1 @nd()\n%f$ = select i1 %q$, i32 (i32*)* @getp, i32 (i32*)* @getone\n%b$ = call i32 %f$(i32* Y)\nstore i32 %b$, i32* X"},
    {"float", "%q$ = alloca float\n%a$ = load float, float* %q$\n%b$ = fadd float %a$, 1.0\nstore float %b$, float* %q$", false},
    {"ptr", "%q$ = alloca i32*\n%a$ = load i32*, i32** %q$\n%b$ = icmp eq i32* %a$, null\n%d$ = zext i1 %b$ to i32\nstore i32 %d$, i32* X", false},
    {"switch", "%a$ = load i32, i32* Y\nswitch i32 %a$, label %pb$ [ i32 1, label %pa$ ]\npa$:\nbr label %pb$\npb$:", true},
};
static const char Prelude[] = R"(
@g = global i32 5
declare i1 @nd()
declare i32 @ext()
declare { i32, i1 } @llvm.sadd.with.overflow.i32(i32, i32)
declare i32 @llvm.sadd.sat.i32(i32, i32)
define i32 @id(i32 %a) {
  ret i32 %a
}
define i32 @inc(i32 %a) {
  %r = add i32 %a, 1
  ret i32 %r
}
define i32 @second(i32 %a, i32 %b) {
  ret i32 %b
}
define i32 @zero(i32 %a) {
  ret i32 0
}
define i32 @var(i32 %a, ...) {
  ret i32 %a
}
define i32 @undefret() {
  ret i32 undef
}
define i32 @fresh() {
  %v = alloca i32
  %r = load i32, i32* %v
  ret i32 %r
}
define i32 @rec(i32 %a) {
  %q = call i1 @nd()
  br i1 %q, label %t, label %e
t:
  %r = call i32 @rec(i32 %a)
  ret i32 %r
e:
  ret i32 %a
}
define void @setg() {
  store i32 7, i32* @g
  ret void
}
define void @putg(i32 %a) {
  store i32 %a, i32* @g
  ret void
}
define i32 @getg() {
  %r = load i32, i32* @g
  ret i32 %r
}
define void @setp(i32* %p) {
  store i32 3, i32* %p
  ret void
}
define void @nop(i32* %p) {
  ret void
}
define i32 @getp(i32* %p) {
  %a = load i32, i32* %p
  ret i32 %a
}
define i32 @getone(i32* %p) {
  ret i32 1
}
define void @incp(i32* %p) {
  %a = load i32, i32* %p
  %b = add i32 %a, 1
  store i32 %b, i32* %p
  ret void
}
define void @copyp(i32* %p, i32* %q) {
  %a = load i32, i32* %q
  store i32 %a, i32* %p
  ret void
}
define void @maybe(i32* %p) {
  %q = call i1 @nd()
  br i1 %q, label %t, label %e
t:
  store i32 1, i32* %p
  ret void
e:
  ret void
}
define void @deep(i32* %p) {
  call void @incp(i32* %p)
  ret void
}
)";

struct Watch : interp::Observer {
  std::map<I, std::set<V>> *Undef, *Uses;
  std::map<const llvm::Function *, std::vector<V>> *Vals;
  bool undef(interp::Exec &E, V X) {
    if (llvm::isa<llvm::Instruction>(X) && !E.top().Regs.count(X))
      return false;
    auto R = E.eval(X);
    if (X->getType()->isPointerTy() && R.K == interp::Val::Ptr) { // what it points to
      if (R.Obj < 0 || E.Mem[R.Obj].Freed || !E.Mem[R.Obj].Site || llvm::isa<llvm::Function>(E.Mem[R.Obj].Site))
        return false;
      auto *T = X->getType()->getPointerElementType();
      if (T->isArrayTy() || T->isFunctionTy())
        return false;
      return E.readMem(R, int64_t(E.DL.getTypeStoreSize(T))).K == interp::Val::Undef;
    }
    return R.K == interp::Val::Undef;
  }
  void before(interp::Exec &E, I X) override {
    auto &S = (*Undef)[X];
    for (auto *Val : (*Vals)[X->getFunction()])
      if (undef(E, Val))
        S.insert(Val);
    if (llvm::isa<llvm::GetElementPtrInst>(X) || llvm::isa<llvm::CastInst>(X) || llvm::isa<llvm::PHINode>(X) || llvm::isa<llvm::CallBase>(X) || llvm::isa<llvm::ReturnInst>(X) ||
        llvm::isa<llvm::StoreInst>(X))
      return;
    for (auto &O : X->operands()) {
      if (llvm::isa<llvm::BasicBlock>(O) || llvm::isa<llvm::Function>(O))
        continue;
      if (llvm::isa<llvm::LoadInst>(X) ? undef(E, O) : E.eval(O).K == interp::Val::Undef)
        (*Uses)[X].insert(O);
    }
  }
};

static std::string list(const std::set<V> &S) {
  std::string T;
  for (auto *X : S)
    T += ir::str(X) + "; ";
  return "{" + T + "}";
}

static void program(mc::Ctx &C, const std::string &Name, const std::string &Body, bool Exact, bool Indirect) {
  auto Text = std::string(Prelude) + "define i32 @main() {\nentry:\n%x = alloca i32\n%y = alloca i32\n%arr = alloca [2 x i32]\nstore i32 2, i32* %y\n" + Body + "%end = load i32, i32* %x\nret i32 %end\n}\n";
  C.nontrivial(mc::hashStr(Text));
  LLVMProjectIRDB DB(ir::parse(Text, ir::context()), false);
  auto &M = *DB.getModule();
  std::map<const llvm::Function *, std::vector<V>> Vals;
  for (auto &F : M) {
    if (F.isDeclaration())
      continue;
    auto &L = Vals[&F];
    for (auto &G : M.globals())
      L.push_back(&G);
    for (auto &A : F.args())
      if (F.getName() != "zero") // called without its argument
      L.push_back(&A);
    for (auto &X : llvm::instructions(F))
      if (!X.getType()->isVoidTy() && !X.getType()->isStructTy() && X.getName() != "arr" && (!X.getType()->isPointerTy() || llvm::isa<llvm::AllocaInst>(X) || llvm::isa<llvm::LoadInst>(X)))
        L.push_back(&X);
  }
  std::map<I, std::set<V>> Undef, Uses;
  auto Runs = interp::explore(
      M, M.getFunction("main"),
      [&] {
        auto W = std::make_unique<Watch>();
        W->Undef = &Undef, W->Uses = &Uses, W->Vals = &Vals;
        return W;
      },
      [&](interp::Exec &E, Watch &, interp::Stop St) {
        if (St == interp::Stop::Trap) {
          fprintf(stderr, "harness error: stopped (%s)\n%s\n", E.TrapWhy.c_str(), Text.c_str());
          _exit(3);
        }
        C.transition(E.Steps);
        C.trace();
      },
      50, 600,
      [&](interp::Exec &E) {
        E.MaxDepth = 5;
        return std::vector<interp::Val>{};
      });
  if (Runs >= 600) {
    C.count("not_all_executions");
    Exact = false;
  }
  if (C.wantSample())
    C.sample(Name);
  std::unique_ptr<LLVMTypeHierarchy> TH;
  std::unique_ptr<LLVMAliasSet> AS;
  if (Indirect) {
    TH = std::make_unique<LLVMTypeHierarchy>(DB);
    AS = std::make_unique<LLVMAliasSet>(&DB);
  }
  LLVMBasedICFG ICF(&DB, Indirect ? CallGraphAnalysisType::OTF : CallGraphAnalysisType::NORESOLVE, {"main"}, TH.get(), Indirect ? LLVMAliasInfoRef(AS.get()) : LLVMAliasInfoRef{}, Soundness::Soundy, false);
  IFDSUninitializedVariables P(&DB, {"main"});
  IFDSSolver Solver(P, &ICF);
  Solver.solve();
  auto *Zero = LLVMZeroValue::getInstance();
  auto &Found = P.getAllUndefUses();
  for (auto &XS : Undef) {
    I X = XS.first;
    auto &S = XS.second;
    C.states(Vals[X->getFunction()].size());
    auto Row = Solver.ifdsResultsAt(X);
    C.check(Row.count(Zero) != 0, "reached", [&] { return Name + ": " + ir::str(X); });
    for (V D : Vals[X->getFunction()]) {
      bool Has = Row.count(D) != 0, Real = S.count(D) != 0;
      auto At = [&] { return Name + ": before " + ir::str(X) + ": " + ir::str(D) + "; uninitialized: " + list(S) + " reported: " + list(std::set<V>(Row.begin(), Row.end())); };
      if (Real)
        C.check(Has, "missed", At);
      else if (Exact)
        C.check(!Has, "initialized", At);
      C.count(Real ? "uninitialized" : Has ? "overapproximated" : "initialized");
    }
    // the report
    auto It = Found.find(X);
    auto &U = Uses[X];
    C.check(U.empty() || It != Found.end(), "use missed", [&] { return Name + ": " + ir::str(X) + " uses " + list(U); });
    if (Exact && It != Found.end())
      for (V D : It->second)
        C.check(U.count(D) != 0, "no use", [&] { return Name + ": " + ir::str(X) + " uses " + list(U) + ", reported " + list(It->second); });
    if (Exact && !U.empty())
      C.check(It->second == U, "used values", [&] { return Name + ": " + ir::str(X) + " uses " + list(U) + ", reported " + list(It->second); });
  }
  for (auto &F : Found)
    C.check(Undef.count(F.first) || !Exact, "not executed", [&] { return Name + ": " + ir::str(F.first); });
}

int main(int Argc, char **Argv) {
  std::vector<mc::Part> Ps;
  bool T = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  struct Family {
    const char *Name;
    const std::vector<minic::Stmt> *S;
    std::vector<std::string> Vars;
    bool Exact;
    unsigned Max;
  };
  static const std::vector<Family> Fs = {{"scalars", &Scalars, {"%x", "%y", "@g"}, true, 2u}, {"other", &Other, {"%x", "%y"}, false, 2u}};
  (void)T;
  for (auto &F : Fs)
    for (unsigned K = 1; K <= F.Max; ++K)
      Ps.push_back({std::string(F.Name) + "_" + std::to_string(K), [&F, K](mc::Ctx &C) {
                      minic::Gen G{C, F.Vars, *F.S};
                      auto B = G.body(K);
                      if (!C.mine())
                        return;
                      program(C, G.Name, B, F.Exact, B.find("%f") != std::string::npos);
                    }});
  return mc::run(Argc, Argv, Ps);
}
