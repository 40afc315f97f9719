// Type state of file handles against every execution of small programs.
#include "interp.h"
#include "minic.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasInfo.h"
#include "phasar/Pointer/AliasAnalysisType.h"
#include "phasar/Pointer/AliasInfoBase.h"
#include "phasar/Pointer/AliasResult.h"
#include <nlohmann/json.hpp>
#include <set>
using namespace psr;
using V = const llvm::Value *;
using I = const llvm::Instruction *;
using S = CSTDFILEIOState;

#define F "%struct._IO_FILE*"
static const std::vector<minic::Stmt> Files = {
    {"fopen", "%a$ = call " F " @fopen(i8* null, i8* null)\nstore " F " %a$, " F "* X", false},
    {"fclose", "%a$ = load " F ", " F "* X\n%b$ = call i32 @fclose(" F " %a$)", false},
    {"fgetc", "%a$ = load " F ", " F "* X\n%b$ = call i32 @fgetc(" F " %a$)", false},
    {"fread", "%a$ = load " F ", " F "* X\n%b$ = call i64 @fread(i8* null, i64 1, i64 1, " F " %a$)", false},
    {"fgets", "%a$ = load " F ", " F "* X\n%b$ = call i8* @fgets(i8* null, i32 1, " F " %a$)", false},
    {"fputc", "%a$ = load " F ", " F "* X\n%b$ = call i32 @fputc(i32 1, " F " %a$)", false},
    {"fprintf", "%a$ = load " F ", " F "* X\n%b$ = call i32 (" F ", i8*, ...) @fprintf(" F " %a$, i8* null)", false},
    {"fdopen", "%a$ = call " F " @fdopen(i32 1, i8* null)\nstore " F " %a$, " F "* X", false},
    {"close", "%a$ = load " F ", " F "* X\ncall void @close(" F " %a$)", false},
    {"closel", "%a$ = load " F ", " F "* X\ncall void @closel(" F " %a$)", false},
    {"use", "%a$ = load " F ", " F "* X\ncall void @use(" F " %a$)", false},
    {"nop", "%a$ = load " F ", " F "* X\ncall void @nop(" F " %a$)", false},
    {"maybe", "%a$ = load " F ", " F "* X\ncall void @maybe(" F " %a$)", false},
    {"rec", "%a$ = load " F ", " F "* X\ncall void @rec(" F " %a$)", false},
    {"deep", "%a$ = load " F ", " F "* X\ncall void @deep(" F " %a$)", false},
    {"var", "%a$ = load " F ", " F "* X\ncall void (" F ", ...) @var(" F " %a$, i32 1)", false},
    {"open", "%a$ = call " F " @open()\nstore " F " %a$, " F "* X", false},
    {"openl", "%a$ = call " F " @openl()\nstore " F " %a$, " F "* X", false},
    {"id", "%a$ = load " F ", " F "* X\n%b$ = call " F " @id(" F " %a$)\nstore " F " %b$, " F "* X", false},
    {"ext", "%a$ = load " F ", " F "* X\ncall void @ext()", false},
    {"twice", "%a$ = load " F ", " F "* X\n%b$ = call i32 @fgetc(" F " %a$)\n%d$ = call i32 @fclose(" F " %a$)", false},
    {"local", "%q$ = alloca " F "\n%a$ = call " F " @fopen(i8* null, i8* null)\nstore " F " %a$, " F "* %q$\n%b$ = load " F ", " F "* %q$\n%d$ = call i32 @fclose(" F " %b$)", false},
};
static const char Prelude[] = R"(
%struct._IO_FILE = type { i32, i8* }
declare i1 @nd()
declare void @ext()
declare FILE @fopen(i8*, i8*)
declare FILE @fdopen(i32, i8*)
declare i32 @fclose(FILE)
declare i32 @fgetc(FILE)
declare i64 @fread(i8*, i64, i64, FILE)
declare i8* @fgets(i8*, i32, FILE)
declare i32 @fputc(i32, FILE)
declare i32 @fprintf(FILE, i8*, ...)
define void @close(FILE %p) {
  %r = call i32 @fclose(FILE %p)
  ret void
}
define void @closel(FILE %p) {
  %v = alloca FILE
  store FILE %p, FILE* %v
  %q = load FILE, FILE* %v
  %r = call i32 @fclose(FILE %q)
  ret void
}
define void @use(FILE %p) {
  %v = alloca FILE
  store FILE %p, FILE* %v
  %q = load FILE, FILE* %v
  %r = call i32 @fgetc(FILE %q)
  ret void
}
define void @nop(FILE %p) {
  ret void
}
define void @deep(FILE %p) {
  call void @close(FILE %p)
  ret void
}
define void @var(FILE %p, ...) {
  %r = call i32 @fgetc(FILE %p)
  ret void
}
define void @maybe(FILE %p) {
  %q = call i1 @nd()
  br i1 %q, label %t, label %e
t:
  %r = call i32 @fclose(FILE %p)
  ret void
e:
  ret void
}
define void @rec(FILE %p) {
  %q = call i1 @nd()
  br i1 %q, label %t, label %e
t:
  %r = call i32 @fgetc(FILE %p)
  call void @rec(FILE %p)
  ret void
e:
  ret void
}
define FILE @open() {
  %r = call FILE @fopen(i8* null, i8* null)
  ret FILE %r
}
define FILE @openl() {
  %v = alloca FILE
  %r = call FILE @fopen(i8* null, i8* null)
  store FILE %r, FILE* %v
  %q = load FILE, FILE* %v
  ret FILE %q
}
define FILE @id(FILE %p) {
  ret FILE %p
}
)";

/// The aliases of these programs, exactly: the handles kept in one variable (in functions with one handle: all). Aliases are updated strongly by the analysis, so others would not do.
class Exact;
namespace psr {
template <> struct AliasInfoTraits<Exact> : DefaultAATraits<V, I> {};
} // namespace psr
class Exact {
  std::map<V, V> Class;
  std::map<V, llvm::DenseSet<V>> Sets;
  std::map<V, llvm::DenseSet<V> *> Boxes;

public:
  using traits = AliasInfoTraits<Exact>;
  using v_t = V;
  using n_t = I;
  explicit Exact(llvm::Module &M) {
    for (auto &Fun : M) {
      for (auto &A : Fun.args())
        Class[&A] = &Fun;
      V Var = nullptr; // of the parameter of the function with the statements
      if (Fun.getName() == "body")
        for (auto *U : Fun.getArg(0)->users())
          if (auto *St = llvm::dyn_cast<llvm::StoreInst>(U))
            Class[Fun.getArg(0)] = Var = St->getPointerOperand();
      for (auto &X : llvm::instructions(Fun)) {
        if (!X.getType()->isPointerTy())
          continue;
        if (X.getType()->getPointerElementType()->isPointerTy() || !X.getType()->getPointerElementType()->isStructTy()) {
          Class[&X] = &X;
          continue;
        }
        Class[&X] = &Fun;
        if (Fun.getName() == "main" && M.getFunction("body"))
          Class[&X] = &X; // two files
        if ((Fun.getName() != "main" && !Var) || (Fun.getName() == "main" && M.getFunction("body")))
          continue;
        if (auto *L = llvm::dyn_cast<llvm::LoadInst>(&X))
          Class[&X] = L->getPointerOperand();
        for (auto *U : X.users())
          if (auto *St = llvm::dyn_cast<llvm::StoreInst>(U))
            Class[&X] = St->getPointerOperand();
      }
    }
    for (auto &VC : Class)
      for (auto &WC : Class)
        if (VC.second == WC.second)
          Sets[VC.first].insert(WC.first);
  }
  static bool isInterProcedural() noexcept { return false; }
  static AliasAnalysisType getAliasAnalysisType() noexcept { return AliasAnalysisType::PointsTo; }
  AliasResult alias(V A, V B, I = nullptr) { return getAliasSet(A)->count(B) ? AliasResult::MustAlias : AliasResult::NoAlias; }
  traits::AliasSetPtrTy getAliasSet(V A, I = nullptr) {
    auto &R = Sets[A];
    R.insert(A);
    auto &B = Boxes[A];
    B = &R;
    return traits::AliasSetPtrTy(&B);
  }
  traits::AllocationSiteSetPtrTy getReachableAllocationSites(V, bool = false, I = nullptr) { return std::make_unique<llvm::DenseSet<V>>(); }
  bool isInReachableAllocationSites(V, V, bool = false, I = nullptr) { return false; }
  void print(llvm::raw_ostream &) const {}
  nlohmann::json getAsJson() const { return {}; }
  void printAsJson(llvm::raw_ostream &) const {}
  void mergeWith(const Exact &) {}
  void introduceAlias(V, V, I = nullptr, AliasResult = {}) {}
  AnalysisProperties getAnalysisProperties() const noexcept { return {}; }
};

struct Watch : interp::Observer {
  std::map<I, std::map<V, std::set<S>>> *Seen;
  std::map<const llvm::Function *, std::vector<V>> *Vals;
  std::map<int, S> State; // by object
  void after(interp::Exec &E, I X) override {
    auto *A = llvm::dyn_cast<llvm::AllocaInst>(X);
    if (!A || !A->getAllocatedType()->isPointerTy())
      return;
    int O = E.alloc(A, 8); // stands for the uninitialized handle
    State[O] = S::UNINIT;
    E.writeMem(E.eval(A), interp::Val::ptr(O), 8);
  }
  void before(interp::Exec &E, I X) override {
    auto &M = (*Seen)[X];
    for (auto *D : (*Vals)[X->getFunction()]) {
      if (llvm::isa<llvm::Instruction>(D) && !E.top().Regs.count(D))
        continue;
      auto P = E.eval(D);
      if (llvm::isa<llvm::AllocaInst>(D))
        P = E.readMem(P, 8);
      if (P.K == interp::Val::Ptr && State.count(P.Obj))
        M[D].insert(State[P.Obj]);
    }
  }
  bool external(interp::Exec &E, const llvm::CallBase *CB, const llvm::Function *Fun, std::vector<interp::Val> &Args, interp::Val &R) override {
    auto N = Fun->getName();
    if (N == "nd" || N == "ext")
      return false;
    if (N == "fopen" || N == "fdopen") {
      int O = E.alloc(CB, 8);
      State[O] = S::OPENED;
      R = interp::Val::ptr(O);
      return true;
    }
    for (unsigned A = 0; A < Args.size(); ++A) // the handle
      if (Args[A].K == interp::Val::Ptr && State.count(Args[A].Obj)) {
        auto &St = State[Args[A].Obj];
        St = St != S::OPENED ? S::ERROR : N == "fclose" ? S::CLOSED : S::OPENED;
      }
    return true;
  }
};

static std::string list(const std::set<S> &X) {
  std::string T;
  for (auto Y : X)
    T += to_string(Y).str() + " ";
  return T;
}

static void program(mc::Ctx &C, const std::string &Name, const std::string &Body, bool Fun = false) {
  std::string Text = Prelude;
  for (size_t P; (P = Text.find("FILE")) != std::string::npos && (P = [&] {
                   size_t Q = 0;
                   while ((Q = Text.find("FILE", Q)) != std::string::npos && Q >= 4 && Text.compare(Q - 4, 4, "_IO_") == 0)
                     ++Q;
                   return Q;
                 }()) != std::string::npos;)
    Text.replace(P, 4, F);
  if (Fun) // the statements are in a function that is called with an opened, and with a closed file
    Text += "define void @body(" F " %xx) {\n%x = alloca " F "\nstore " F " %xx, " F "* %x\n" + Body + "%end = call i1 @nd()\nret void\n}\ndefine i32 @main() {\nentry:\n%q = call i1 @nd()\nbr i1 %q, label %s, label %t\ns:\n%x = call " F " @fopen(i8* null, i8* null)\ncall void @body(" F
            " %x)\n%e = call i32 @fgetc(" F " %x)\nret i32 0\nt:\n%y = call " F " @fopen(i8* null, i8* null)\n%u = call i32 @fclose(" F " %y)\ncall void @body(" F " %y)\n%v = call i32 @fgetc(" F " %y)\nret i32 0\n}\n";
  else
    Text += "define i32 @main() {\nentry:\n%x = alloca " F "\n%y = alloca " F "\n" + Body + "%end = call i1 @nd()\nret i32 0\n}\n";
  C.nontrivial(mc::hashStr(Text));
  LLVMProjectIRDB DB(ir::parse(Text, ir::context()), false);
  auto &M = *DB.getModule();
  std::map<const llvm::Function *, std::vector<V>> Vals;
  for (auto &Fun : M) {
    if (Fun.isDeclaration())
      continue;
    auto &L = Vals[&Fun];
    for (auto &A : Fun.args())
      L.push_back(&A);
    for (auto &X : llvm::instructions(Fun))
      if (X.getType()->isPointerTy())
        L.push_back(&X);
  }
  std::map<I, std::map<V, std::set<S>>> Seen;
  auto Runs = interp::explore(
      M, M.getFunction("main"),
      [&] {
        auto W = std::make_unique<Watch>();
        W->Seen = &Seen, W->Vals = &Vals;
        return W;
      },
      [&](interp::Exec &E, Watch &, interp::Stop St) {
        if (St == interp::Stop::Trap) {
          fprintf(stderr, "harness error: stopped (%s)\n%s\n", E.TrapWhy.c_str(), Text.c_str());
          _exit(3);
        }
        C.transition(E.Steps);
        C.trace();
      },
      60, 300,
      [&](interp::Exec &E) {
        E.MaxDepth = 5;
        return std::vector<interp::Val>{};
      });
  bool Straight = Body.find("br ") == std::string::npos;
  for (auto *N : {"open(", "openl(", "maybe(", "rec("})
    Straight &= (";" + Name).find(std::string(";") + N) == std::string::npos;
  bool All = Runs < 300;
  if (!All)
    C.count("not_all_executions");
  if (C.wantSample())
    C.sample(Name);
  Exact AS(M);
  LLVMBasedICFG ICF(&DB, CallGraphAnalysisType::NORESOLVE, {"main"}, nullptr, LLVMAliasInfoRef{}, Soundness::Soundy, false);
  CSTDFILEIOTypeStateDescription TSD;
  IDETypeStateAnalysis<CSTDFILEIOTypeStateDescription> P(&DB, &AS, &TSD, {"main"});
  IDESolver Solver(P, &ICF);
  Solver.solve();
  for (auto &XM : Seen) {
    I X = XM.first;
    C.states(XM.second.size());
    for (auto &DS : XM.second) {
      V D = DS.first;
      auto &St = DS.second;
      auto R = Solver.resultAt(X, D);
      auto At = [&] { return Name + ": before " + ir::str(X) + ": " + ir::str(D) + " is " + list(St) + " reported " + to_string(R).str(); };
      auto *CB = llvm::dyn_cast<llvm::CallBase>(X);
      if (!llvm::isa<llvm::AllocaInst>(D) && !llvm::isa<llvm::Argument>(D) && !(CB && llvm::is_contained(CB->args(), D)))
        continue;
      for (auto Y : St)
        C.check(R == Y || R == S::BOT, "state", At);
      if (St.size() == 1 && llvm::isa<llvm::AllocaInst>(D) && Straight && X->getFunction()->getName() == "main")
        C.check(R == *St.begin(), "imprecise", At);
      C.count(R == S::BOT ? "bottom" : "state");
    }
  }
}

int main(int Argc, char **Argv) {
  std::vector<mc::Part> Ps;
  bool T = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  for (unsigned K = 1; K <= (T ? 3u : 2u); ++K)
    Ps.push_back({"files_" + std::to_string(K), [K](mc::Ctx &C) {
                    minic::Gen G{C, {"%x", "%y"}, Files};
                    G.Sym = true;
                    auto B = G.body(K);
                    if (!C.mine())
                      return;
                    program(C, G.Name, B);
                  }});
  static std::vector<minic::Stmt> Same; // the variable keeps its file
  for (auto &St : Files)
    if (std::string N = St.Name; N != "fopen" && N != "fdopen" && N != "open" && N != "openl" && N != "local")
      Same.push_back(St);
  for (unsigned K = 1; K <= 3; ++K)
    Ps.push_back({"function_" + std::to_string(K), [K](mc::Ctx &C) {
                    minic::Gen G{C, {"%x"}, Same};
                    auto B = G.body(K);
                    if (!C.mine())
                      return;
                    program(C, G.Name, B, true);
                  }});
  return mc::run(Argc, Argv, Ps);
}
