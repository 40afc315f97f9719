// Linear constant propagation against every execution of small programs.
#include "interp.h"
#include "minic.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h" // used by LLVMSolverResults.h

#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "llvm/IR/DIBuilder.h"
#include <set>
using namespace psr;
using V = const llvm::Value *;
using I = const llvm::Instruction *;

// L: everything is linear, so that the result has to be exact as well
static const std::vector<minic::Stmt> Linear = {
    {"one", "store i32 1, i32* X", false},
    {"two", "store i32 2, i32* X", false},
    {"copy", "%a$ = load i32, i32* Y\nstore i32 %a$, i32* X"},
    {"inc", "%a$ = load i32, i32* Y\n%b$ = add i32 %a$, 1\nstore i32 %b$, i32* X"},
    {"seven-", "%a$ = load i32, i32* Y\n%b$ = sub i32 7, %a$\nstore i32 %b$, i32* X"},
    {"times-3", "%a$ = load i32, i32* Y\n%b$ = mul i32 %a$, -3\nstore i32 %b$, i32* X"},
    {"xor3", "%a$ = load i32, i32* Y\n%b$ = xor i32 %a$, 3\nstore i32 %b$, i32* X"},
    {"id", "%a$ = load i32, i32* Y\n%b$ = call i32 @id(i32 %a$)\nstore i32 %b$, i32* X"},
    {"incf", "%a$ = load i32, i32* Y\n%b$ = call i32 @inc(i32 %a$)\nstore i32 %b$, i32* X"},
    {"seven", "%b$ = call i32 @seven()\nstore i32 %b$, i32* X", false},
    {"id3", "%b$ = call i32 @id(i32 3)\nstore i32 %b$, i32* X", false},
    {"rec", "%a$ = load i32, i32* Y\n%b$ = call i32 @rec(i32 %a$)\nstore i32 %b$, i32* X"},
    {"setg", "call void @setg()", false},
    {"getg", "%b$ = call i32 @getg()\nstore i32 %b$, i32* X", false},
};
// operations on two variables of main that are not the global
static const std::vector<minic::Stmt> Pointers = {
    {"setp", "call void @setp(i32* X)", false},
    {"incp", "call void @incp(i32* X)", false},
    {"copyp", "call void @copyp(i32* X, i32* Y)"},
    {"deep", "call void @deep(i32* X)", false},
    {"one", "store i32 1, i32* X", false},
    {"copy", "%a$ = load i32, i32* Y\nstore i32 %a$, i32* X"},
};
static const std::vector<minic::Stmt> Other = {
    {"maybeset", "%q$ = call i1 @nd()\n%f$ = select i1 %q$, void ()* @extv, void ()* @setg\ncall void %f$()\n%b$ = load i32, i32* @g\nstore i32 %b$, i32* X", false},
    {"bytewise", "%q$ = bitcast i32* X to i8*\nstore i8 0, i8* %q$", false},
    {"asfloat", "%q$ = bitcast i32* X to float*\nstore float 0.0, float* %q$", false},
    {"wide", "%q$ = alloca i128\nstore i128 36893488147419103232, i128* %q$\n%a$ = load i128, i128* %q$\n%b$ = add i128 %a$, 36893488147419103232\n%d$ = trunc i128 %b$ to i32\nstore i32 %d$, i32* X", false},
    {"long", "%a$ = load i32, i32* Y\n%b$ = sext i32 %a$ to i64\n%d$ = add i64 %b$, 2147483647\n%e$ = trunc i64 %d$ to i32\nstore i32 %e$, i32* X"},
    {"half", "%a$ = load i32, i32* Y\n%b$ = sdiv i32 %a$, 2\nstore i32 %b$, i32* X"},
    {"six/", "%a$ = load i32, i32* Y\n%b$ = sdiv i32 6, %a$\nstore i32 %b$, i32* X"},
    {"rem3", "%a$ = load i32, i32* Y\n%b$ = srem i32 %a$, 3\nstore i32 %b$, i32* X"},
    {"and2", "%a$ = load i32, i32* Y\n%b$ = and i32 %a$, 2\nstore i32 %b$, i32* X"},
    {"or1", "%a$ = load i32, i32* Y\n%b$ = or i32 1, %a$\nstore i32 %b$, i32* X"},
    {"one=?", "%a$ = load i32, i32* Y\n%b$ = call i32 @which(i32 %a$)\nstore i32 %b$, i32* X"},
    {"maybe", "call void @maybe(i32* X)", false},
    {"one", "store i32 1, i32* X", false},
    {"copy", "%a$ = load i32, i32* Y\nstore i32 %a$, i32* X"},
    {"nl+", "%a$ = load i32, i32* Y\n%b$ = load i32, i32* X\n%d$ = add i32 %a$, %b$\nstore i32 %d$, i32* X"},
    {"square", "%a$ = load i32, i32* Y\n%b$ = mul i32 %a$, %a$\nstore i32 %b$, i32* X"},
    {"big", "store i32 2147483647, i32* X", false},
    {"inc", "%a$ = load i32, i32* Y\n%b$ = add i32 %a$, 1\nstore i32 %b$, i32* X"},
    {"neg", "store i32 -7, i32* X", false},
    {"twice", "%a$ = load i32, i32* Y\n%b$ = mul i32 %a$, 2\nstore i32 %b$, i32* X"},
    {"udiv", "%a$ = load i32, i32* Y\n%b$ = udiv i32 %a$, 2\nstore i32 %b$, i32* X"},
    {"urem", "%a$ = load i32, i32* Y\n%b$ = urem i32 %a$, 3\nstore i32 %b$, i32* X"},
    {"shl", "%a$ = load i32, i32* Y\n%b$ = shl i32 %a$, 1\nstore i32 %b$, i32* X"},
    {"lshr", "%a$ = load i32, i32* Y\n%b$ = lshr i32 %a$, 1\nstore i32 %b$, i32* X"},
    {"ashr", "%a$ = load i32, i32* Y\n%b$ = ashr i32 %a$, 1\nstore i32 %b$, i32* X"},
    {"select", "%q$ = call i1 @nd()\n%a$ = load i32, i32* Y\n%b$ = select i1 %q$, i32 %a$, i32 3\nstore i32 %b$, i32* X"},
    {"byte", "%a$ = load i32, i32* Y\n%b$ = trunc i32 %a$ to i8\n%d$ = sext i8 %b$ to i32\nstore i32 %d$, i32* X"},
    {"phi", "%q$ = call i1 @nd()\n%a$ = load i32, i32* Y\nbr label %pq$\npq$:\nbr i1 %q$, label %pa$, label %pb$\npa$:\nbr label %pb$\npb$:\n%b$ = phi i32 [ 3, %pa$ ], [ %a$, %pq$ ]\nstore i32 %b$, i32* X"},
    {"cmp", "%a$ = load i32, i32* Y\n%b$ = icmp eq i32 %a$, 1\n%d$ = zext i1 %b$ to i32\nstore i32 %d$, i32* X"},
    {"isone", "%a$ = load i32, i32* Y\n%b$ = call i1 @isone(i32 %a$)\n%d$ = zext i1 %b$ to i32\nstore i32 %d$, i32* X"},
    {"sadd.o", "%a$ = load i32, i32* Y\n%b$ = call { i32, i1 } @llvm.sadd.with.overflow.i32(i32 %a$, i32 1)\n%d$ = extractvalue { i32, i1 } %b$, 0\nstore i32 %d$, i32* X"},
    {"overflows", "%a$ = load i32, i32* Y\n%b$ = call { i32, i1 } @llvm.sadd.with.overflow.i32(i32 %a$, i32 1)\n%d$ = extractvalue { i32, i1 } %b$, 1\n%e$ = zext i1 %d$ to i32\nstore i32 %e$, i32* X"},
    {"sadd.sat", "%a$ = load i32, i32* Y\n%b$ = call i32 @llvm.sadd.sat.i32(i32 %a$, i32 1)\nstore i32 %b$, i32* X"},
    {"usub.sat", "%a$ = load i32, i32* Y\n%b$ = call i32 @llvm.usub.sat.i32(i32 %a$, i32 2)\nstore i32 %b$, i32* X"},
    {"s0=1", "%a$ = getelementptr %S, %S* %s, i32 0, i32 0\nstore i32 1, i32* %a$", false},
    {"s1=2", "%a$ = getelementptr %S, %S* %s, i32 0, i32 1\nstore i32 2, i32* %a$", false},
    {"s0", "%a$ = getelementptr %S, %S* %s, i32 0, i32 0\n%b$ = load i32, i32* %a$\nstore i32 %b$, i32* X", false},
    {"s1", "%a$ = getelementptr %S, %S* %s, i32 0, i32 1\n%b$ = load i32, i32* %a$\nstore i32 %b$, i32* X", false},
    {"t1", "%b$ = load i32, i32* getelementptr (%S, %S* @t, i32 0, i32 1)\nstore i32 %b$, i32* X", false},
    {"t1f", "%b$ = call i32 @deref(i32* getelementptr (%S, %S* @t, i32 0, i32 1))\nstore i32 %b$, i32* X", false},
    {"extg", "%b$ = load i32, i32* @extg\nstore i32 %b$, i32* X", false},
    {"viaptr", "%q$ = alloca i32*\nstore i32* X, i32** %q$\n%a$ = load i32*, i32** %q$\n%b$ = load i32, i32* %a$\nstore i32 %b$, i32* Y"},
    {"ptrint", "store i32 ptrtoint (i32* @g to i32), i32* X", false},
    {"idptrint", "%b$ = call i32 @id(i32 ptrtoint (i32* @g to i32))\nstore i32 %b$, i32* X", false},
    {"retptrint", "%b$ = call i32 @retptr()\nstore i32 %b$, i32* X", false},
    {"div0", "%q$ = load i32, i32* Y\n%d$ = sdiv i32 6, %q$\nstore i32 %d$, i32* X"},
    {"struct", "%q$ = call i32 @third(i32 4, i32 5, i32 6)\nstore i32 %q$, i32* X", false},
    {"va", "%q$ = call i32 (i32, ...) @var(i32 4, i32 5)\nstore i32 %q$, i32* X", false},
    {"invoke", "%b$ = invoke i32 @setg7() to label %iv$ unwind label %iu$\niu$:\n%l$ = landingpad { i8*, i32 } cleanup\nresume { i8*, i32 } %l$\niv$:\nstore i32 %b$, i32* X", false},
    {"invoke id", "%a$ = load i32, i32* Y\n%q$ = call i1 @nd()\nbr label %ip$\nip$:\nbr i1 %q$, label %ib$, label %iv$\nib$:\n%b$ = invoke i32 @id(i32 %a$) to label %iv$ unwind label %iu$\niu$:\n%l$ = landingpad { i8*, i32 } cleanup\nresume { i8*, i32 } %l$\n"
                  "iv$:\n%d$ = phi i32 [ %b$, %ib$ ], [ 4, %ip$ ]\nstore i32 %d$, i32* X"},
    {"calltwice", "%q$ = call i32 @id(i32 4)\n%a$ = call i32 @id(i32 5)\nstore i32 %q$, i32* X", false},
};
// values from outside, which the analysis does not follow
static const std::vector<minic::Stmt> Outside = {
    {"one", "store i32 1, i32* X", false},
    {"ext", "%b$ = call i32 @ext()\nstore i32 %b$, i32* X", false},
    {"argc", "store i32 %argc, i32* X", false},
    {"argp", "%b$ = load i32, i32* %argp\nstore i32 %b$, i32* X", false},
    {"maybefun", "%q$ = call i1 @nd()\n%f$ = select i1 %q$, i32 ()* @ext, i32 ()* @setg7\n%b$ = call i32 %f$()\nstore i32 %b$, i32* X", false},
};
static const char Prelude[] = R"(
%S = type { i32, i32 }
@g = global i32 5
@t = global %S { i32 1, i32 2 }
@extg = external global i32
declare i1 @nd()
declare i32 @__gxx_personality_v0(...)
declare i32 @ext()
declare void @extv()
declare { i32, i1 } @llvm.sadd.with.overflow.i32(i32, i32)
declare i32 @llvm.sadd.sat.i32(i32, i32)
declare i32 @llvm.usub.sat.i32(i32, i32)
define i32 @id(i32 %a) {
  ret i32 %a
}
define i32 @inc(i32 %a) {
  %r = add i32 %a, 1
  ret i32 %r
}
define i32 @seven() {
  ret i32 7
}
define i32 @rec(i32 %a) {
  %q = call i1 @nd()
  br i1 %q, label %t, label %e
t:
  %r = call i32 @rec(i32 %a)
  ret i32 %r
e:
  ret i32 %a
}
define i32 @which(i32 %a) {
  %q = call i1 @nd()
  br i1 %q, label %t, label %e
t:
  ret i32 1
e:
  ret i32 %a
}
define void @setg() {
  store i32 7, i32* @g
  ret void
}
define i32 @setg7() {
  store i32 7, i32* @g
  ret i32 7
}
define i32 @getg() {
  %r = load i32, i32* @g
  ret i32 %r
}
define void @setp(i32* %p) {
  store i32 3, i32* %p
  ret void
}
define void @incp(i32* %p) {
  %a = load i32, i32* %p
  %b = add i32 %a, 1
  store i32 %b, i32* %p
  ret void
}
define void @copyp(i32* %p, i32* %q) {
  %a = load i32, i32* %q
  store i32 %a, i32* %p
  ret void
}
define void @maybe(i32* %p) {
  %q = call i1 @nd()
  br i1 %q, label %t, label %e
t:
  store i32 1, i32* %p
  ret void
e:
  ret void
}
define void @deep(i32* %p) {
  call void @incp(i32* %p)
  ret void
}
define i1 @isone(i32 %a) {
  %r = icmp eq i32 %a, 1
  ret i1 %r
}
define i32 @deref(i32* %p) {
  %r = load i32, i32* %p
  ret i32 %r
}
define i32 @retptr() {
  ret i32 ptrtoint (i32* @g to i32)
}
define i32 @third(i32 %a, i32 %b, i32 %c) {
  ret i32 %c
}
define i32 @var(i32 %a, ...) {
  ret i32 %a
}
)";

// what an instruction sees of a value over all executions
struct Seen {
  std::set<int64_t> Ints;
  bool Unknown = false, Undef = false;
};
struct Watch : interp::Observer {
  std::map<I, std::map<V, Seen>> *S, *SA;
  const std::map<const llvm::Function *, std::vector<V>> *Vals;
  Watch(decltype(S) S, decltype(S) SA, decltype(Vals) Vals) : S(S), SA(SA), Vals(Vals) {}
  void before(interp::Exec &E, I X) override {
    if (!llvm::isa<llvm::DbgInfoIntrinsic>(X))
      see(E, X, (*S)[X]);
  }
  // right after an instruction that has a value
  void after(interp::Exec &E, I X) override {
    if (!X->getType()->isVoidTy() && (X->isTerminator() || !llvm::isa<llvm::PHINode>(X->getNextNode())))
      see(E, X, (*SA)[X]);
  }
  void see(interp::Exec &E, I X, std::map<V, Seen> &M) {
    for (auto *Val : Vals->at(X->getFunction())) {
      auto R = E.eval(Val);
      if (llvm::isa<llvm::Instruction>(Val) && !E.top().Regs.count(Val))
        continue; // not executed yet
      if (Val->getType()->isPointerTy()) {
        if (R.K != interp::Val::Ptr || R.Obj < 0)
          continue;
        R = E.readMem(R, 4);
      }
      auto &Sn = M[Val];
      if (R.K == interp::Val::Int)
        Sn.Ints.insert(R.I);
      else if (R.K == interp::Val::Undef)
        Sn.Undef = true;
      else
        Sn.Unknown = true;
    }
  }
  bool external(interp::Exec &E, const llvm::CallBase *CB, const llvm::Function *F, std::vector<interp::Val> &A, interp::Val &R) override {
    auto N = F->getName();
    bool Sat = N.startswith("llvm.sadd.sat"), USat = N.startswith("llvm.usub.sat");
    if ((Sat || USat) && A[0].K == interp::Val::Int && A[1].K == interp::Val::Int) {
      llvm::APInt X(32, uint64_t(A[0].I), true), Y(32, uint64_t(A[1].I), true);
      R = interp::Val::mkInt((Sat ? X.sadd_sat(Y) : X.usub_sat(Y)).getSExtValue());
      return true;
    }
    (void)E, (void)CB;
    return false;
  }
};

static const uint64_t MaxRuns = 600;
static bool interesting(V X) {
  auto *T = X->getType();
  if (T->isIntegerTy())
    return true;
  if (!T->isPointerTy() || !(T->getPointerElementType()->isIntegerTy() || T->getPointerElementType()->isStructTy()))
    return false;
  return llvm::isa<llvm::AllocaInst>(X) || llvm::isa<llvm::GlobalVariable>(X) || llvm::isa<llvm::Argument>(X);
}

static std::string results(const std::unordered_map<V, LatticeDomain<int64_t>> &R) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  for (auto &[D, L] : R)
    OS << ir::str(D) << "=" << L << " ";
  return OS.str();
}

/// Puts a debug intrinsic behind every instruction where one can be, and in front of each block.
static void addDebug(llvm::Module &M) {
  llvm::DIBuilder B(M);
  auto *File = B.createFile("a.c", ".");
  B.createCompileUnit(llvm::dwarf::DW_LANG_C99, File, "x", false, "", 0);
  auto *Int = B.createBasicType("int", 32, llvm::dwarf::DW_ATE_signed);
  auto *FT = B.createSubroutineType(B.getOrCreateTypeArray(llvm::None));
  for (auto &F : M) {
    if (F.isDeclaration())
      continue;
    auto *SP = B.createFunction(File, F.getName(), F.getName(), File, 1, FT, 1, llvm::DINode::FlagZero, llvm::DISubprogram::SPFlagDefinition);
    F.setSubprogram(SP);
    auto *Var = B.createAutoVariable(SP, "v", File, 1, Int);
    auto *Loc = llvm::DILocation::get(M.getContext(), 1, 1, SP);
    std::vector<llvm::Instruction *> Is;
    for (auto &BB : F)
      for (auto &X : BB)
        if (!llvm::isa<llvm::PHINode>(X) && !llvm::isa<llvm::LandingPadInst>(X))
          Is.push_back(&X);
    for (auto *X : Is) {
      X->setDebugLoc(Loc);
      B.insertDbgValueIntrinsic(llvm::ConstantInt::get(llvm::Type::getInt32Ty(M.getContext()), 9), Var, B.createExpression(), Loc, X);
    }
  }
  B.finalize();
  std::string S;
  llvm::raw_string_ostream OS(S);
  if (llvm::verifyModule(M, &OS)) {
    fprintf(stderr, "harness error: %s\n", OS.str().c_str());
    _exit(3);
  }
}

static const char Pers[] = " personality i8* bitcast (i32 (...)* @__gxx_personality_v0 to i8*)";
static void program(mc::Ctx &C, const std::string &Sig, const std::string &Name, const std::string &Body, bool Exact, bool Indirect, bool Fun, bool Debug = false) {
  auto Text = std::string(Prelude) + (Fun ? std::string("define i32 @body(i32 %xx, i32 %yy)") + Pers + " {\nentry:\n%x = alloca i32\n%y = alloca i32\n%s = alloca %S\nstore i32 %xx, i32* %x\nstore i32 %yy, i32* %y\n" + Body + "%end = load i32, i32* %x\nret i32 %end\n}\n" : "");
  if (Fun) // the statements are in a function that is called with different values
    Text += std::string("define i32 @main(i32 %argc, i32* %argp) {\n%q = call i1 @nd()\n") + (Exact ? "store i32 5, i32* @g\n" : "") + "br i1 %q, label %a, label %b\na:\n%r = call i32 @body(i32 1, i32 2)\nret i32 %r\nb:\n%s = call i32 @body(i32 1, i32 3)\nret i32 %s\n}\n";
  else
    Text += ("define i32 @main(i32 %argc, i32* %argp)" + std::string(Pers) + " {\nentry:\n%x = alloca i32\n%y = alloca i32\n%s = alloca %S\nstore i32 1, i32* %x\nstore i32 2, i32* %y\n") + (Exact ? "store i32 5, i32* @g\n" : "") + Body +
              "%end = load i32, i32* %x\nret i32 %end\n}\n";
  C.nontrivial(mc::hashStr(Text + (Debug ? "d" : "")));
  auto Mod = ir::parse(Text, ir::context());
  if (Debug)
    addDebug(*Mod);
  LLVMProjectIRDB DB(std::move(Mod), false);
  auto &M = *DB.getModule();
  std::map<const llvm::Function *, std::vector<V>> Vals;
  for (auto &F : M) {
    auto &L = Vals[&F];
    for (auto &G : M.globals())
      if (interesting(&G))
        L.push_back(&G);
    for (auto &A : F.args())
      if (interesting(&A))
        L.push_back(&A);
    for (auto &X : llvm::instructions(F))
      if (interesting(&X))
        L.push_back(&X);
  }
  std::map<I, std::map<V, Seen>> S, SA;
  bool Trapped = false;
  auto Runs = interp::explore(
      M, M.getFunction("main"), [&] { return std::make_unique<Watch>(&S, &SA, &Vals); },
      [&](interp::Exec &E, Watch &, interp::Stop St) {
        if (St == interp::Stop::Trap) {
          Trapped = true;
          if (E.TrapWhy != "division") {
            fprintf(stderr, "harness error: stopped (%s)\n%s\n", E.TrapWhy.c_str(), Text.c_str());
            _exit(3);
          }
        }
        C.transition(E.Steps);
        C.trace();
      },
      Debug ? 110 : 50, MaxRuns,
      [&](interp::Exec &E) {
        E.MaxDepth = 5;
        int P = E.alloc(nullptr, 4);
        interp::Val U{interp::Val::Opaque, 0, -1, 0};
        E.writeMem(interp::Val::ptr(P), U, 4);
        E.writeMem(interp::Val::ptr(E.GlobalObj[M.getNamedGlobal("extg")]), U, 4);
        return std::vector<interp::Val>{U, interp::Val::ptr(P)};
      });
  if (Runs >= MaxRuns) {
    C.count("not_all_executions");
    Exact = false;
  }
  if (C.wantSample())
    C.sample(Name);
  std::unique_ptr<LLVMTypeHierarchy> TH;
  std::unique_ptr<LLVMAliasSet> AS;
  if (Indirect) {
    TH = std::make_unique<LLVMTypeHierarchy>(DB);
    AS = std::make_unique<LLVMAliasSet>(&DB);
  }
  LLVMBasedICFG ICF(&DB, Indirect ? CallGraphAnalysisType::OTF : CallGraphAnalysisType::NORESOLVE, {"main"}, TH.get(), Indirect ? LLVMAliasInfoRef(AS.get()) : LLVMAliasInfoRef{}, Soundness::Soundy, false);
  IDELinearConstantAnalysis P(&DB, &ICF, {"main"});
  IDESolver Solver(P, &ICF);
  Solver.solve();
  auto Res = Solver.getSolverResults();
  auto *Zero = LLVMZeroValue::getInstance();
  for (int After = 0; After < 2; ++After)
  for (auto &XV : After ? SA : S) {
    I X = XV.first;
    auto &Vs = XV.second;
    C.states(Vs.size());
    auto Row = After ? Res.resultsAtInLLVMSSA(X, true) : Res.resultsAt(X);
    C.check(Row.count(Zero) != 0, "reached", [&] { return Name + ": " + ir::str(X) + " is executed but not reached"; });
    for (auto &DS : Vs) {
      V D = DS.first;
      auto &Sn = DS.second;
      auto It = Row.find(D);
      bool Has = It != Row.end();
      auto At = [&] { return Name + (After ? ": after " : ": before ") + ir::str(X) + ", " + ir::str(D) + " has the values {" + [&] { std::string T; for (auto K : Sn.Ints) T += std::to_string(K) + ","; return T; }() + (Sn.Unknown ? "?" : "") + "}; results: " + results(Row); };
      if (After)
        C.check(Has ? Res.resultAtInLLVMSSA(X, D, true) == It->second : Res.resultAtInLLVMSSA(X, D, true) == LatticeDomain<int64_t>(), "one-result", At);
      auto *Cst = Has ? std::get_if<int64_t>(&It->second) : nullptr;
      if (Cst) {
        bool Ok = !Sn.Unknown;
        unsigned W = D->getType()->isIntegerTy() ? D->getType()->getIntegerBitWidth() : 32;
        for (auto K : Sn.Ints)
          Ok &= interp::Exec::norm(K, W) == interp::Exec::norm(*Cst, W) && (W == 1 || *Cst == K);
        C.check(Ok, Sig.c_str(), At);
        C.count("constants");
      } else if (Exact && !(D->getType()->isPointerTy() && D->getType()->getPointerElementType()->isStructTy()) && !Sn.Unknown && !Sn.Undef && Sn.Ints.size() == 1 && !Trapped) {
        C.check(false, "imprecise", At);
      }
      if (!Cst && Has && It->second.isBottom())
        C.count("bottom");
    }
  }
}

int main(int Argc, char **Argv) {
  std::vector<mc::Part> Ps;
  bool T = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  struct Family {
    const char *Name;
    const std::vector<minic::Stmt> *S;
    std::vector<std::string> Vars;
    bool Exact;
    unsigned Max;
    const char *Sig = "wrong constant";
  };
  static const std::vector<Family> Fs = {{"linear", &Linear, {"%x", "%y", "@g"}, true, 2u}, {"pointers", &Pointers, {"%x", "%y"}, true, T ? 3u : 2u}, {"other", &Other, {"%x", "%y"}, false, 2u}, {"outside", &Outside, {"%x", "%y"}, false, 2u, "value-from-outside-ignored"}};
  for (auto &F : Fs)
    for (unsigned K = 1; K <= F.Max; ++K)
      Ps.push_back({std::string(F.Name) + "_" + std::to_string(K), [&F, K](mc::Ctx &C) {
                      minic::Gen G{C, F.Vars, *F.S};
                      G.Sym = F.Vars.size() == 2 && K > 1;
                      auto B = G.body(K);
                      if (!C.mine())
                        return;
                      program(C, F.Sig, G.Name, B, F.Exact, B.find("%f") != std::string::npos, false);
                      if (F.S != &Outside && K == 1)
                        program(C, F.Sig, "with debug information: " + G.Name, B, F.Exact, B.find("%f") != std::string::npos, false, true);
                      if (F.S != &Outside)
                        program(C, F.Sig, "in a function: " + G.Name, B, F.Exact && B.find("br ") == std::string::npos /* joins of edge functions are not exact */, B.find("%f") != std::string::npos, true);
                    }});
  // operations on registers of a function, two of which (or of their values) end up in one variable
  for (unsigned K = 1; K <= (T ? 3u : 2u); ++K)
    Ps.push_back({"registers_" + std::to_string(K), [K](mc::Ctx &C) {
                    static const char *const Ops[] = {"add i32 R, 1", "add i32 R, 2", "add i32 -1, R", "sub i32 R, 1", "sub i32 1, R", "sub i32 4, R", "mul i32 R, 3", "mul i32 5, R", "xor i32 R, 3",
                                                      "xor i32 1, R", "sdiv i32 6, R", "sdiv i32 R, 2", "sdiv i32 R, 1", "shl i32 R, 1", "shl i32 1, R", "srem i32 5, R", "srem i32 R, 2"};
                    static constexpr unsigned N = sizeof(Ops) / sizeof(*Ops);
                    std::vector<std::string> R = {"%xx"};
                    std::string B, Name;
                    for (unsigned I = 1; I <= K; ++I) {
                      std::string Op = Ops[C.choose(N)], D = "%r" + std::to_string(I);
                      Op.replace(Op.find('R'), 1, R[C.choose(unsigned(R.size()))]);
                      B += D + " = " + Op + "\n";
                      Name += D + " = " + Op + "; ";
                      R.push_back(D);
                    }
                    auto L = R[C.choose(unsigned(R.size()))], E = R[C.choose(unsigned(R.size()))];
                    auto How = C.choose(3);
                    if (How == 0)
                      B += "%q = call i1 @nd()\nbr i1 %q, label %t, label %e\nt:\nstore i32 " + L + ", i32* %x\nbr label %j\ne:\nstore i32 " + E + ", i32* %x\nbr label %j\nj:\n";
                    else if (How == 1)
                      B += "%q = call i1 @nd()\nbr label %ss\nss:\nbr i1 %q, label %t, label %j\nt:\nbr label %j\nj:\n%p = phi i32 [ " + L + ", %t ], [ " + E + ", %ss ]\nstore i32 %p, i32* %x\n";
                    else
                      B += "%q = call i1 @nd()\n%p = select i1 %q, i32 " + L + ", i32 " + E + "\nstore i32 %p, i32* %x\n";
                    if (C.mine())
                      program(C, "wrong constant", Name + (How == 0 ? "if x = " : How == 1 ? "phi " : "select ") + L + " else " + E, B, false, false, true);
                  }});
  return mc::run(Argc, Argv, Ps);
}
