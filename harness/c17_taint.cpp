// Taint analysis against every execution of small programs.
#include "interp.h"
#include "minic.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TaintConfig/LLVMTaintConfig.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigBase.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigData.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include <set>
using namespace psr;
using V = const llvm::Value *;
using I = const llvm::Instruction *;

// the result has to be exact for these
static const std::vector<minic::Stmt> Scalars = {
    {"source", "%a$ = call i32 @source()\nstore i32 %a$, i32* X", false},
    {"one", "store i32 1, i32* X", false},
    {"copy", "%a$ = load i32, i32* Y\nstore i32 %a$, i32* X"},
    {"sink", "%a$ = load i32, i32* X\ncall void @sink(i32 %a$)", false},
    {"byte", "%a$ = load i32, i32* Y\n%b$ = trunc i32 %a$ to i8\n%d$ = sext i8 %b$ to i32\nstore i32 %d$, i32* X"},
    {"id", "%a$ = load i32, i32* Y\n%b$ = call i32 @id(i32 %a$)\nstore i32 %b$, i32* X"},
    {"second", "%a$ = load i32, i32* Y\n%b$ = call i32 @second(i32 1, i32 %a$)\nstore i32 %b$, i32* X"},
    {"first", "%a$ = load i32, i32* Y\n%b$ = call i32 @first(i32 1, i32 %a$)\nstore i32 %b$, i32* X"},
    {"rec", "%a$ = load i32, i32* Y\n%b$ = call i32 @rec(i32 %a$)\nstore i32 %b$, i32* X"},
    {"ext", "%b$ = call i32 @ext()\nstore i32 %b$, i32* X", false},
    {"mysource", "%b$ = call i32 @mysource()\nstore i32 %b$, i32* X", false},
    {"mysink", "%a$ = load i32, i32* X\ncall void @mysink(i32 %a$)", false},
    {"sink2", "%a$ = load i32, i32* X\n%b$ = load i32, i32* Y\ncall void @sink2(i32 %a$, i32 %b$)"},
    {"sourcep", "call void @sourcep(i32* X)", false},
    {"sanitize", "call void @sanitize(i32* X)", false},
    {"mysanitize", "call void @mysanitize(i32* X)", false},
    {"phi", "%q$ = call i1 @nd()\n%a$ = load i32, i32* Y\nbr label %pq$\npq$:\nbr i1 %q$, label %pa$, label %pb$\npa$:\nbr label %pb$\npb$:\n%b$ = phi i32 [ 3, %pa$ ], [ %a$, %pq$ ]\nstore i32 %b$, i32* X"},
    {"select", "%q$ = call i1 @nd()\n%a$ = load i32, i32* Y\n%b$ = select i1 %q$, i32 %a$, i32 3\nstore i32 %b$, i32* X"},
    {"freeze", "%a$ = load i32, i32* Y\n%b$ = freeze i32 %a$\nstore i32 %b$, i32* X"},
    {"pair", "%a$ = load i32, i32* Y\n%b$ = insertvalue { i32, i32 } undef, i32 %a$, 0\n%d$ = extractvalue { i32, i32 } %b$, 0\nstore i32 %d$, i32* X"},
    {"var", "%a$ = load i32, i32* Y\n%b$ = call i32 (i32, ...) @var(i32 %a$, i32 1)\nstore i32 %b$, i32* X"},
};
static const std::vector<minic::Stmt> Other = {
    {"source", "%a$ = call i32 @source()\nstore i32 %a$, i32* X", false},
    {"one", "store i32 1, i32* X", false},
    {"copy", "%a$ = load i32, i32* Y\nstore i32 %a$, i32* X"},
    {"copyp", "call void @copyp(i32* X, i32* Y)"},
    {"copyl", "call void @copyl(i32* X, i32* Y)"},
    {"setp", "call void @setp(i32* X)", false},
    {"getp", "%b$ = call i32 @getp(i32* Y)\nstore i32 %b$, i32* X"},
    {"getl", "%b$ = call i32 @getl(i32* Y)\nstore i32 %b$, i32* X"},
    {"use", "call void @use(i32* X)", false},
    {"usel", "call void @usel(i32* X)", false},
    {"srcp", "call void @srcp(i32* X)", false},
    {"srcl", "call void @srcl(i32* X)", false},
    {"sourcep", "call void @sourcep(i32* X)", false},
    {"sinkp", "call void @sinkp(i32* X)", false},
    {"sinks", "call void @sinks(i32* X)", false},
    {"mysinkp", "call void @mysinkp(i32* X)", false},
    {"setg", "call void @setg()", false},
    {"getg", "%b$ = call i32 @getg()\nstore i32 %b$, i32* X", false},
    {"putg", "%a$ = load i32, i32* Y\ncall void @putg(i32 %a$)"},
    {"clean", "call void @clean(i32* X)", false},
    {"memcpy", "%a$ = bitcast i32* X to i8*\n%b$ = bitcast i32* Y to i8*\n%d$ = call i8* @memcpy(i8* %a$, i8* %b$, i64 4)"},
    {"llvm.memcpy", "%a$ = bitcast i32* X to i8*\n%b$ = bitcast i32* Y to i8*\ncall void @llvm.memcpy.p0i8.p0i8.i64(i8* %a$, i8* %b$, i64 4, i1 false)"},
    {"field", "%q$ = alloca { i32, i32 }\n%p$ = getelementptr { i32, i32 }, { i32, i32 }* %q$, i32 0, i32 1\n%a$ = load i32, i32* Y\nstore i32 %a$, i32* %p$\n%r$ = getelementptr { i32, i32 }, { i32, i32 }* %q$, i32 0, i32 1\n%b$ = load i32, i32* %r$\nstore i32 %b$, i32* X"},
    {"fieldp", "%q$ = alloca { i32, i32 }\n%p$ = getelementptr { i32, i32 }, { i32, i32 }* %q$, i32 0, i32 1\n%a$ = load i32, i32* Y\nstore i32 %a$, i32* %p$\n%b$ = call i32 @getf({ i32, i32 }* %q$)\nstore i32 %b$, i32* X"},
    {"byval", "%q$ = alloca { i32, i32 }\n%p$ = getelementptr { i32, i32 }, { i32, i32 }* %q$, i32 0, i32 1\n%a$ = load i32, i32* Y\nstore i32 %a$, i32* %p$\n%b$ = call i32 @getb({ i32, i32 }* byval({ i32, i32 }) %q$)\nstore i32 %b$, i32* X"},
    {"sret", "%q$ = alloca { i32, i32 }\n%a$ = load i32, i32* Y\ncall void @mk({ i32, i32 }* sret({ i32, i32 }) %q$, i32 %a$)\n%p$ = getelementptr { i32, i32 }, { i32, i32 }* %q$, i32 0, i32 1\n%b$ = load i32, i32* %p$\nstore i32 %b$, i32* X"},
    {"array", "%q$ = alloca [2 x i32]\n%p$ = getelementptr [2 x i32], [2 x i32]* %q$, i32 0, i32 1\n%a$ = load i32, i32* Y\nstore i32 %a$, i32* %p$\n%r$ = getelementptr [2 x i32], [2 x i32]* %q$, i32 0, i32 0\n%s$ = getelementptr i32, i32* %r$, i64 1\n%b$ = load i32, i32* %s$\nstore i32 %b$, i32* X"},
    {"ptr", "%q$ = alloca i32*\nstore i32* Y, i32** %q$\n%p$ = load i32*, i32** %q$\n%b$ = load i32, i32* %p$\nstore i32 %b$, i32* X"},
    {"ptr=", "%q$ = alloca i32*\nstore i32* X, i32** %q$\n%p$ = load i32*, i32** %q$\n%b$ = load i32, i32* Y\nstore i32 %b$, i32* %p$"},
    {"phip", "%q$ = call i1 @nd()\n%p$ = select i1 %q$, i32* X, i32* Y\n%b$ = load i32, i32* %p$\ncall void @sink(i32 %b$)"},
    {"phip=", "%q$ = call i1 @nd()\n%p$ = select i1 %q$, i32* X, i32* Y\n%b$ = call i32 @source()\nstore i32 %b$, i32* %p$"},
    {"indirect", "%q$ = call i1 @nd()\n%f$ = select i1 %q$, void (i32*)* @srcp, void (i32*)* @setp\ncall void %f$(i32* X)", false},
    {"indirect2", "%q$ = call i1 @nd()\n%f$ = select i1 %q$, i32 (i32*)* @getp, i32 (i32*)* @getone\n%b$ = call i32 %f$(i32* Y)\nstore i32 %b$, i32* X"},
    {"indirect3", "%q$ = call i1 @nd()\n%f$ = select i1 %q$, void (i32*)* @clean, void (i32*)* @sanitize\ncall void %f$(i32* X)", false},
    {"indirect4", "%q$ = call i1 @nd()\n%f$ = select i1 %q$, void (i32*)* @sinkp, void (i32*)* @use\ncall void %f$(i32* X)", false},
};
static const char Prelude[] = R"(
@g = global i32 5
declare i1 @nd()
declare i32 @ext()
declare i32 @source()
declare void @sourcep(i32*)
declare void @sink(i32)
declare void @sinkp(i32*)
declare void @sink2(i32, i32)
declare void @sanitize(i32*)
declare i8* @memcpy(i8*, i8*, i64)
declare void @llvm.memcpy.p0i8.p0i8.i64(i8*, i8*, i64, i1)
define i32 @mysource() {
  ret i32 7
}
define void @mysink(i32 %a) {
  ret void
}
define void @mysinkp(i32* %p) {
  ret void
}
define void @mysanitize(i32* %p) {
  ret void
}
define i32 @id(i32 %a) {
  ret i32 %a
}
define i32 @first(i32 %a, i32 %b) {
  ret i32 %a
}
define i32 @second(i32 %a, i32 %b) {
  ret i32 %b
}
define i32 @var(i32 %a, ...) {
  ret i32 %a
}
define i32 @rec(i32 %a) {
  %q = call i1 @nd()
  br i1 %q, label %t, label %e
t:
  %r = call i32 @rec(i32 %a)
  ret i32 %r
e:
  ret i32 %a
}
define void @setg() {
  store i32 7, i32* @g
  ret void
}
define void @putg(i32 %a) {
  store i32 %a, i32* @g
  ret void
}
define i32 @getg() {
  %r = load i32, i32* @g
  ret i32 %r
}
define void @setp(i32* %p) {
  store i32 3, i32* %p
  ret void
}
define void @use(i32* %p) {
  %a = load i32, i32* %p
  ret void
}
define void @usel(i32* %p) {
  %v = alloca i32*
  store i32* %p, i32** %v
  %q = load i32*, i32** %v
  %a = load i32, i32* %q
  ret void
}
define void @clean(i32* %p) {
  call void @sanitize(i32* %p)
  ret void
}
define void @sinks(i32* %p) {
  %a = load i32, i32* %p
  call void @sink(i32 %a)
  ret void
}
define void @srcp(i32* %p) {
  %a = call i32 @source()
  store i32 %a, i32* %p
  ret void
}
define void @srcl(i32* %p) {
  %v = alloca i32*
  store i32* %p, i32** %v
  %a = call i32 @source()
  %q = load i32*, i32** %v
  store i32 %a, i32* %q
  ret void
}
define i32 @getp(i32* %p) {
  %a = load i32, i32* %p
  ret i32 %a
}
define i32 @getl(i32* %p) {
  %v = alloca i32*
  store i32* %p, i32** %v
  %q = load i32*, i32** %v
  %a = load i32, i32* %q
  ret i32 %a
}
define i32 @getone(i32* %p) {
  ret i32 1
}
define i32 @getf({ i32, i32 }* %p) {
  %q = getelementptr { i32, i32 }, { i32, i32 }* %p, i32 0, i32 1
  %a = load i32, i32* %q
  ret i32 %a
}
define i32 @getb({ i32, i32 }* byval({ i32, i32 }) %p) {
  %q = getelementptr { i32, i32 }, { i32, i32 }* %p, i32 0, i32 1
  %a = load i32, i32* %q
  ret i32 %a
}
define void @mk({ i32, i32 }* sret({ i32, i32 }) %p, i32 %a) {
  %q = getelementptr { i32, i32 }, { i32, i32 }* %p, i32 0, i32 1
  store i32 %a, i32* %q
  ret void
}
define void @copyp(i32* %p, i32* %q) {
  %a = load i32, i32* %q
  store i32 %a, i32* %p
  ret void
}
define void @copyl(i32* %p, i32* %q) {
  %pp = alloca i32*
  %qq = alloca i32*
  store i32* %p, i32** %pp
  store i32* %q, i32** %qq
  %b = load i32*, i32** %qq
  %a = load i32, i32* %b
  %d = load i32*, i32** %pp
  store i32 %a, i32* %d
  ret void
}
)";

struct Watch : interp::Observer {
  std::map<I, std::set<V>> *Leaks;
  std::set<I> *Reached;
  void leak(interp::Exec &E, const llvm::CallBase *CB, unsigned Arg, const interp::Val &A, bool Pointer) {
    bool T = Pointer ? E.readMem(A, 4).T != 0 : A.T != 0;
    if (T)
      (*Leaks)[CB].insert(CB->getArgOperand(Arg));
  }
  void set(interp::Exec &E, const interp::Val &P, bool T) {
    auto X = E.readMem(P, 4);
    X.T = T;
    E.writeMem(P, X, 4);
  }
  void before(interp::Exec &, I X) override { Reached->insert(X); }
  void call(interp::Exec &E, const llvm::CallBase *CB, const llvm::Function *F) override {
    auto N = F->getName();
    if (N == "mysink" || N == "mysinkp")
      leak(E, CB, 0, E.eval(CB->getArgOperand(0)), N == "mysinkp");
  }
  void after(interp::Exec &E, I X) override {
    auto *CB = llvm::dyn_cast<llvm::CallBase>(X);
    auto *F = CB ? CB->getCalledFunction() : nullptr;
    if (F && F->getName() == "mysource")
      E.top().Regs[X].T = 1;
    if (F && F->getName() == "mysanitize")
      set(E, E.eval(CB->getArgOperand(0)), false);
  }
  bool external(interp::Exec &E, const llvm::CallBase *CB, const llvm::Function *F, std::vector<interp::Val> &Args, interp::Val &R) override {
    auto N = F->getName();
    if (N == "source") {
      R.T = 1;
      return true;
    }
    if (N == "sourcep" || N == "sanitize") {
      set(E, Args[0], N == "sourcep");
      return true;
    }
    if (N == "sink" || N == "sinkp")
      leak(E, CB, 0, Args[0], N == "sinkp");
    if (N == "sink2") // the second parameter is the sink
      leak(E, CB, 1, Args[1], false);
    if (N == "memcpy") {
      E.writeMem(Args[0], E.readMem(Args[1], 4), 4);
      R = Args[0];
      return true;
    }
    return false;
  }
};

static LLVMTaintConfig config(const LLVMProjectIRDB &DB, bool Callbacks) {
  if (Callbacks) {
    auto On = [](std::vector<std::pair<const char *, int>> L) {
      return [L](I X) {
        std::set<V> R;
        if (auto *CB = llvm::dyn_cast<llvm::CallBase>(X))
          if (auto *F = CB->getCalledFunction())
            for (auto &NA : L)
              if (F->getName() == NA.first)
                R.insert(NA.second < 0 ? static_cast<V>(CB) : CB->getArgOperand(unsigned(NA.second)));
        return R;
      };
    };
    return LLVMTaintConfig(On({{"source", -1}, {"mysource", -1}, {"sourcep", 0}}), On({{"sink", 0}, {"sinkp", 0}, {"sink2", 1}, {"mysink", 0}, {"mysinkp", 0}}),
                           On({{"sanitize", 0}, {"mysanitize", 0}}));
  }
  TaintConfigData D;
  auto Add = [&](const char *N, TaintCategory Ret, std::vector<uint32_t> So, std::vector<uint32_t> Si, std::vector<uint32_t> Sa) {
    D.Functions.emplace_back();
    auto &F = D.Functions.back();
    F.Name = N, F.ReturnCat = Ret, F.SourceValues = std::move(So), F.SinkValues = std::move(Si), F.SanitizerValues = std::move(Sa);
  };
  Add("source", TaintCategory::Source, {}, {}, {});
  Add("mysource", TaintCategory::Source, {}, {}, {});
  Add("sourcep", TaintCategory::None, {0}, {}, {});
  Add("sink", TaintCategory::None, {}, {0}, {});
  Add("sinkp", TaintCategory::None, {}, {0}, {});
  Add("sink2", TaintCategory::None, {}, {1}, {});
  Add("mysink", TaintCategory::None, {}, {0}, {});
  Add("mysinkp", TaintCategory::None, {}, {0}, {});
  Add("sanitize", TaintCategory::None, {}, {}, {0});
  Add("mysanitize", TaintCategory::None, {}, {}, {0});
  return LLVMTaintConfig(DB, D);
}

static std::string list(const std::map<I, std::set<V>> &S) {
  std::string T;
  for (auto &XS : S)
    for (auto *X : XS.second)
      T += ir::str(X) + " at " + ir::str(XS.first) + "; ";
  return "{" + T + "}";
}

static void program(mc::Ctx &C, const std::string &Name, const std::string &Body, bool Exact, bool Callbacks) {
  auto Text = std::string(Prelude) + "define i32 @main() {\nentry:\n%x = alloca i32\n%y = alloca i32\nstore i32 1, i32* %x\nstore i32 2, i32* %y\n" + Body +
              "%end1 = load i32, i32* %x\ncall void @sink(i32 %end1)\n%end2 = load i32, i32* %y\ncall void @sink(i32 %end2)\n%end3 = load i32, i32* @g\ncall void @sink(i32 %end3)\nret i32 0\n}\n";
  C.nontrivial(mc::hashStr(Text));
  LLVMProjectIRDB DB(ir::parse(Text, ir::context()), false);
  auto &M = *DB.getModule();
  std::map<I, std::set<V>> Leaks;
  std::set<I> Reached;
  auto Runs = interp::explore(
      M, M.getFunction("main"),
      [&] {
        auto W = std::make_unique<Watch>();
        W->Leaks = &Leaks, W->Reached = &Reached;
        return W;
      },
      [&](interp::Exec &E, Watch &, interp::Stop St) {
        if (St == interp::Stop::Trap) {
          fprintf(stderr, "harness error: stopped (%s)\n%s\n", E.TrapWhy.c_str(), Text.c_str());
          _exit(3);
        }
        C.transition(E.Steps);
        C.trace();
      },
      60, 200,
      [&](interp::Exec &E) {
        E.MaxDepth = 5;
        return std::vector<interp::Val>{};
      });
  if (Runs >= 200) {
    C.count("not_all_executions");
    Exact = false;
  }
  if (C.wantSample())
    C.sample(Name);
  LLVMAliasSet AS(&DB);
  std::unique_ptr<LLVMTypeHierarchy> TH;
  bool Indirect = Body.find("%f") != std::string::npos;
  if (Indirect)
    TH = std::make_unique<LLVMTypeHierarchy>(DB);
  LLVMBasedICFG ICF(&DB, Indirect ? CallGraphAnalysisType::OTF : CallGraphAnalysisType::NORESOLVE, {"main"}, TH.get(), Indirect ? LLVMAliasInfoRef(&AS) : LLVMAliasInfoRef{}, Soundness::Soundy, false);
  auto Config = config(DB, Callbacks);
  IFDSTaintAnalysis P(&DB, &AS, &Config, {"main"}, false);
  IFDSSolver Solver(P, &ICF);
  Solver.solve();
  auto At = [&] { return Name + (Callbacks ? " (callbacks)" : "") + ": leaks " + list(Leaks) + " reported " + list(P.Leaks); };
  C.states(Reached.size());
  for (auto &XS : Leaks) {
    auto It = P.Leaks.find(XS.first);
    for (V D : XS.second)
      C.check(It != P.Leaks.end() && It->second.count(D), Name.find("sret(") != std::string::npos ? "field-through-parameter" : "missed", At);
    C.count("leaks", XS.second.size());
  }
  for (auto &XS : P.Leaks)
    for (V D : XS.second) {
      bool Real = Leaks.count(XS.first) && Leaks[XS.first].count(D);
      C.check(!Exact || Real, "no leak", At);
      if (!Real)
        C.count("overapproximated");
    }
}

int main(int Argc, char **Argv) {
  std::vector<mc::Part> Ps;
  struct Family {
    const char *Name;
    const std::vector<minic::Stmt> *S;
    std::vector<std::string> Vars;
    bool Exact;
    unsigned Max;
  };
  static const std::vector<Family> Fs = {{"scalars", &Scalars, {"%x", "%y", "@g"}, true, 2u}, {"other", &Other, {"%x", "%y"}, false, 2u}};
  for (auto &F : Fs)
    for (unsigned K = 1; K <= F.Max; ++K)
      Ps.push_back({std::string(F.Name) + "_" + std::to_string(K), [&F, K](mc::Ctx &C) {
                      minic::Gen G{C, F.Vars, *F.S};
                      auto B = G.body(K);
                      bool Cb = B.find("%f") == std::string::npos && (K == 1 ? C.flip() : mc::hashStr(B) & 1); // the callbacks look at direct calls only
                      if (!C.mine())
                        return;
                      program(C, G.Name, B, F.Exact, Cb);
                    }});
  // values in registers: every sequence of K operations on any registers, then every subset of the registers goes to the sink
  for (unsigned K = 1; K <= (getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough") ? 3u : 2u); ++K)
    Ps.push_back({"registers_" + std::to_string(K), [K](mc::Ctx &C) {
                    std::vector<std::string> R = {"%r0"}, A;
                    std::string B = "%r0 = call i32 @source()\n", Name = "source";
                    bool Exact = true;
                    for (unsigned I = 1; I <= K; ++I) {
                      auto N = std::to_string(I), D = "%r" + N;
                      unsigned Kind = C.choose(A.empty() ? 8 : 10);
                      auto Reg = [&] { return R[C.choose(unsigned(R.size()))]; };
                      auto Opt = [&] {
                        unsigned X = C.choose(unsigned(R.size()) + 1);
                        return X < R.size() ? R[X] : std::string("1");
                      };
                      std::string T;
                      bool Agg = false;
                      switch (Kind) {
                      case 0: T = D + " = freeze i32 " + Reg() + "\n"; break;
                      case 1: {
                        auto X = Reg(), Y = Opt();
                        bool Swap = Y != X && C.flip();
                        T = "%q" + N + " = call i1 @nd()\n" + D + " = select i1 %q" + N + ", i32 " + (Swap ? Y : X) + ", i32 " + (Swap ? X : Y) + "\n";
                        break;
                      }
                      case 2: T = D + " = call i32 @id(i32 " + Reg() + ")\n"; break;
                      case 3: {
                        auto X = Reg(), Y = Opt();
                        bool Swap = Y != X && C.flip();
                        T = D + " = call i32 @" + (C.flip() ? "first" : "second") + "(i32 " + (Swap ? Y : X) + ", i32 " + (Swap ? X : Y) + ")\n";
                        break;
                      }
                      case 4: T = "%b" + N + " = trunc i32 " + Reg() + " to i16\n" + D + " = zext i16 %b" + N + " to i32\n"; break;
                      case 5: T = "%m" + N + " = alloca i32\nstore i32 " + Reg() + ", i32* %m" + N + "\n" + D + " = load i32, i32* %m" + N + "\n"; break;
                      case 6: {
                        auto X = Reg(), Y = Opt();
                        bool Swap = Y != X && C.flip();
                        T = "%q" + N + " = call i1 @nd()\nbr label %pe" + N + "\npe" + N + ":\nbr i1 %q" + N + ", label %pt" + N + ", label %pj" + N + "\npt" + N + ":\nbr label %pj" + N + "\npj" + N + ":\n" + D +
                            " = phi i32 [ " + (Swap ? Y : X) + ", %pt" + N + " ], [ " + (Swap ? X : Y) + ", %pe" + N + " ]\n";
                        break;
                      }
                      case 7: {
                        unsigned X = C.choose(unsigned(A.size()) + 1);
                        auto Y = Reg();
                        Agg = true;
                        T = D + " = insertvalue { i32, i32 } " + (X ? A[X - 1] : "undef") + ", i32 " + Y + ", " + (C.flip() ? "1" : "0") + "\n";
                        break;
                      }
                      case 8: T = D + " = extractvalue { i32, i32 } " + A[C.choose(unsigned(A.size()))] + ", " + (C.flip() ? "1" : "0") + "\n"; break;
                      default: { // a constant replaces one of the fields
                        Agg = true;
                        T = D + " = insertvalue { i32, i32 } " + A[C.choose(unsigned(A.size()))] + ", i32 1, " + (C.flip() ? "1" : "0") + "\n";
                      }
                      }
                      if (Kind >= 7)
                        Exact = false; // fields of values are not distinguished
                      (Agg ? A : R).push_back(D);
                      B += T;
                      Name += "; " + T;
                    }
                    for (auto &X : A) { // what the aggregates hold is only observed with all their fields
                      auto N = X.substr(2);
                      if (C.flip())
                        for (auto F : {"0", "1"})
                          B += "%x" + N + "_" + F + " = extractvalue { i32, i32 } " + X + ", " + F + "\ncall void @sink(i32 %x" + N + "_" + F + ")\n", Name += "; sink(" + X + "." + F + ")";
                    }
                    for (auto &X : R)
                      if (C.flip())
                        B += "call void @sink(i32 " + X + ")\n", Name += "; sink(" + X + ")";
                    if (!C.mine())
                      return;
                    program(C, Name, B, Exact, mc::hashStr(B) & 1);
                  }});
  return mc::run(Argc, Argv, Ps);
}
