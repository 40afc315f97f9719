// C14: alias sets. Every program of a small statement grammar over pointers and cells is executed completely by the explicit-state executor; pointers that overlap in
// some state must be reported as aliases, the sets must be a partition, and every history of operations on two alias-set objects is compared with a partition model.
#include "interp.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasInfo.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/Pointer/LLVMBasedAliasAnalysis.h"
#include "phasar/Pointer/AliasAnalysisType.h"
#include "llvm/Analysis/BasicAliasAnalysis.h"
#include "llvm/Analysis/CFLAndersAliasAnalysis.h"
#include "llvm/Analysis/CFLSteensAliasAnalysis.h"
#include "llvm/Analysis/ScopedNoAliasAA.h"
#include "llvm/Analysis/TypeBasedAliasAnalysis.h"
#include "llvm/Passes/PassBuilder.h"
#include <algorithm>

using namespace psr;
using V = const llvm::Value *;
using F = const llvm::Function *;

#define EACH(X, FX) for (auto &P##X : Ps) if (V X = P##X.first) if (F FX = P##X.second; (void)FX, true)
static const char *paName(AliasAnalysisType T) { return T == AliasAnalysisType::CFLAnders ? "CFLAnders" : T == AliasAnalysisType::CFLSteens ? "CFLSteens" : "Basic"; }

/// every pointer value of the module (null excluded) and the function it belongs to (null: global)
static std::vector<std::pair<V, F>> pointers(const llvm::Module &M) {
  std::vector<std::pair<V, F>> R;
  for (auto &G : M.globals())
    R.emplace_back(&G, nullptr);
  for (auto &Fn : M)
    R.emplace_back(&Fn, nullptr);
  for (auto &Fn : M) {
    for (auto &A : Fn.args())
      if (A.getType()->isPointerTy())
        R.emplace_back(&A, &Fn);
    for (auto &I : llvm::instructions(Fn))
      if (I.getType()->isPointerTy())
        R.emplace_back(&I, &Fn);
  }
  return R;
}
static uint64_t storeSize(const llvm::DataLayout &DL, V X) {
  auto *T = X->getType()->getNonOpaquePointerElementType();
  return T->isSized() ? DL.getTypeStoreSize(T) : llvm::MemoryLocation::UnknownSize;
}
/// LLVM's own alias analyses, set up independently
struct Oracle {
  llvm::FunctionAnalysisManager FAM;
  llvm::PassBuilder PB;
  const llvm::DataLayout &DL;
  explicit Oracle(const llvm::Module &M, AliasAnalysisType T) : DL(M.getDataLayout()) {
    FAM.registerPass([T] {
      llvm::AAManager AA;
      if (T == AliasAnalysisType::CFLAnders)
        AA.registerFunctionAnalysis<llvm::CFLAndersAA>();
      if (T == AliasAnalysisType::CFLSteens)
        AA.registerFunctionAnalysis<llvm::CFLSteensAA>();
      AA.registerFunctionAnalysis<llvm::TypeBasedAA>();
      AA.registerFunctionAnalysis<llvm::ScopedNoAliasAA>();
      AA.registerFunctionAnalysis<llvm::BasicAA>();
      return AA;
    });
    PB.registerFunctionAnalyses(FAM);
  }
  bool may(F Fn, V A, V B) { return FAM.getResult<llvm::AAManager>(const_cast<llvm::Function &>(*Fn)).alias(A, storeSize(DL, A), B, storeSize(DL, B)) != llvm::AliasResult::NoAlias; }
};

struct EndOfFrame : interp::Observer {
  std::set<std::pair<V, V>> *Over;
  std::set<std::pair<V, V>> *Sites; // pointer, allocation site in the same function
  const llvm::DataLayout &DL;
  EndOfFrame(std::set<std::pair<V, V>> *Over, std::set<std::pair<V, V>> *Sites, const llvm::DataLayout &DL) : Over(Over), Sites(Sites), DL(DL) {}
  std::map<std::pair<F, V>, bool> Mentioned;
  /// directly, or in the initializer of a global it mentions
  bool mentions(F Fn, V G) {
    auto [It, New] = Mentioned.emplace(std::make_pair(Fn, G), false);
    if (!New)
      return It->second;
    bool R = false;
    for (auto *U : G->users())
      if (auto *UI = llvm::dyn_cast<llvm::Instruction>(U))
        R |= UI->getFunction() == Fn;
      else
        R |= mentions(Fn, U);
    return Mentioned[{Fn, G}] = R;
  }
  void before(interp::Exec &E, const llvm::Instruction *I) override {
    if (!llvm::isa<llvm::ReturnInst>(I))
      return;
    struct R {
      V X;
      int Obj;
      int64_t Lo, Hi;
    };
    std::vector<R> Rs;
    auto Add = [&](V X, const interp::Val &P) {
      if (P.K != interp::Val::Ptr || P.Obj < 0 || !X->getType()->isPointerTy())
        return;
      auto Sz = storeSize(DL, X);
      if (Sz == llvm::MemoryLocation::UnknownSize)
        Sz = 1;
      if (P.I < 0 || P.I + int64_t(Sz) > E.Mem[P.Obj].Size)
        return;
      Rs.push_back({X, P.Obj, P.I, P.I + int64_t(Sz)});
    };
    for (auto &[X, P] : E.top().Regs)
      Add(X, P);
    for (auto &[G, O] : E.GlobalObj) // the alias sets are intra-procedural: only globals that the function mentions
      if (mentions(E.top().F, G))
        Add(G, interp::Val::ptr(O));
    for (auto &A : Rs) {
      for (auto &B : Rs)
        if (A.X != B.X && A.Obj == B.Obj && A.Lo < B.Hi && B.Lo < A.Hi)
          Over->insert({A.X, B.X});
      if (auto *S = E.Mem[A.Obj].Site; S && llvm::isa<llvm::Instruction>(S))
        Sites->insert({A.X, S});
    }
  }
};

//---------------------------------------------------------------- programs
struct Gen {
  std::string Body;
  std::vector<std::string> P{"%a", "%f0"}, C{"%c", "@gp"};
  bool G = false; // uses globals
  unsigned N = 0;
  std::vector<std::string> W;
};
static const char *Prelude = "%S = type { i32, i32 }\n@g = global i32 0\n@gp = global i32* null\n@gx = global i32 0\n@gi = global i32* @gx\ndeclare i8* @malloc(i64)\ndeclare i8* @_Znwm(i64)\ndeclare i32 @__gxx_personality_v0(...)\ndeclare i1 @nd()\n";
static const char *Helpers = "define i32* @id(i32* %x) {\n  ret i32* %x\n}\n"
                             "define void @put(i32** %c, i32* %x) {\n  store i32* %x, i32** %c\n  %r = load i32*, i32** %c\n  ret void\n}\n"
                             "define i32* @setg(i32* %x) {\n  %old = load i32*, i32** @gp\n  store i32* %x, i32** @gp\n  %new = load i32*, i32** @gp\n  ret i32* %old\n}\n";
/// One statement, chosen; false when the choice is not interesting.
static bool statement(mc::Ctx &Ch, Gen &G) {
  auto S = std::to_string(++G.N);
  auto PickP = [&] {
    unsigned K = Ch.choose(unsigned(G.P.size()) + 1);
    if (K == G.P.size()) {
      G.G = true;
      return std::string("@g");
    }
    return G.P[K];
  };
  auto PickC = [&] {
    auto X = G.C[Ch.choose(unsigned(G.C.size()))];
    if (X[0] == '@')
      G.G = true;
    return X;
  };
  auto Br = [&](const std::string &Then) { G.Body += "  %b" + S + " = call i1 @nd()\n  br i1 %b" + S + ", label %t" + S + ", label %j" + S + "\nt" + S + ":\n" + Then + "  br label %j" + S + "\nj" + S + ":\n"; };
  unsigned Before = unsigned(G.P.size());
  switch (Ch.choose(16)) {
  case 15: // an object allocated by an invoke
    G.Body += "  %m" + S + " = invoke i8* @_Znwm(i64 4) to label %k" + S + " unwind label %u" + S + "\nu" + S + ":\n  %l" + S + " = landingpad { i8*, i32 } cleanup\n  resume { i8*, i32 } %l" + S + "\nk" + S + ":\n  %p" + S + " = bitcast i8* %m" + S + " to i32*\n";
    break;
  case 0: G.Body += "  %p" + S + " = alloca i32\n"; break;
  case 1: G.Body += "  %m" + S + " = call i8* @malloc(i64 4)\n  %p" + S + " = bitcast i8* %m" + S + " to i32*\n"; break;
  case 2: G.Body += "  %p" + S + " = getelementptr %S, %S* %s, i32 0, i32 1\n"; break;
  case 3: G.Body += "  %p" + S + " = getelementptr i32, i32* " + PickP() + ", i64 1\n"; break;
  case 4: {
    auto X = PickP();
    G.Body += "  %q" + S + " = bitcast i32* " + X + " to i8*\n  %p" + S + " = bitcast i8* %q" + S + " to i32*\n";
    break;
  }
  case 5:
  case 6: {
    bool Phi = Ch.Seq[Ch.Pos - 1] == 6;
    auto A = PickP(), B = PickP();
    if (!(A < B))
      return false;
    if (!Phi) {
      G.Body += "  %b" + S + " = call i1 @nd()\n  %p" + S + " = select i1 %b" + S + ", i32* " + A + ", i32* " + B + "\n";
    } else {
      G.Body += "  br label %e" + S + "\ne" + S + ":\n";
      Br("");
      G.Body += "  %p" + S + " = phi i32* [ " + A + ", %e" + S + " ], [ " + B + ", %t" + S + " ]\n";
    }
    break;
  }
  case 7: G.Body += "  %p" + S + " = load i32*, i32** " + PickC() + "\n"; break;
  case 8: {
    auto X = PickP(), C = PickC();
    G.Body += "  store i32* " + X + ", i32** " + C + "\n";
    break;
  }
  case 9: {
    auto X = PickP(), C = PickC();
    Br("  store i32* " + X + ", i32** " + C + "\n");
    break;
  }
  case 10: G.Body += "  %p" + S + " = call i32* @id(i32* " + PickP() + ")\n"; break;
  case 11: {
    auto X = PickP(), C = PickC();
    G.Body += "  call void @put(i32** " + C + ", i32* " + X + ")\n";
    break;
  }
  case 12:
    if (G.C.size() > 3)
      return false;
    if (Ch.flip()) {
      G.Body += "  %c" + S + " = alloca i32*\n";
    } else {
      G.G = true;
      G.Body += "  %b" + S + " = call i1 @nd()\n  %c" + S + " = select i1 %b" + S + ", i32** %c, i32** @gp\n";
    }
    G.C.push_back("%c" + S);
    break;
  case 13: G.Body += "  %p" + S + " = call i32* @setg(i32* " + PickP() + ")\n"; G.G = true; break;
  case 14: { // through an object that holds a pointer to a cell
    auto C = PickC();
    G.Body += "  %cc" + S + " = alloca i32**\n  store i32** " + C + ", i32*** %cc" + S + "\n  %d" + S + " = load i32**, i32*** %cc" + S + "\n";
    if (G.C.size() > 3)
      return false;
    G.C.push_back("%d" + S);
    break;
  }
  }
  if (G.Body.find("  %p" + S + " =") != std::string::npos)
    G.P.push_back("%p" + S);
  (void)Before;
  return true;
}

static void checkSets(mc::Ctx &C, LLVMAliasSet &AS, const std::vector<std::pair<V, F>> &Ps, const std::string &W) {
  EACH(A, FA) {
    auto Set = AS.getAliasSet(A);
    C.check(Set->count(A) != 0, "own set", [&] { return W + ": " + ir::str(A) + " is not in its alias set"; });
    auto All = AS.getReachableAllocationSites(A), Intra = AS.getReachableAllocationSites(A, true);
    EACH(B, FB) {
      bool Al = AS.alias(A, B) != AliasResult::NoAlias;
      C.check(Al == (AS.alias(B, A) != AliasResult::NoAlias), "symmetric", [&] { return W + ": alias(" + ir::str(A) + ", " + ir::str(B) + ") is not symmetric"; });
      C.check(Al == (AS.getAliasSet(A)->count(B) != 0), "alias set and alias", [&] { return W + ": " + ir::str(A) + " / " + ir::str(B); });
      if (Al) // a partition
        C.check(*AS.getAliasSet(A) == *AS.getAliasSet(B), "equal sets", [&] { return W + ": " + ir::str(A) + " and " + ir::str(B) + " alias but have different sets"; });
      // allocation sites
      auto *CB = llvm::dyn_cast<llvm::CallBase>(B);
      bool IsSite = llvm::isa<llvm::AllocaInst>(B) || (CB && CB->getCalledFunction() && (CB->getCalledFunction()->getName() == "malloc" || CB->getCalledFunction()->getName() == "_Znwm"));
      bool Glob = llvm::isa<llvm::GlobalObject>(A);
      bool IsIntra = (IsSite && (FA == FB || Glob)) || (llvm::isa<llvm::Argument>(B) && FA == FB);
      All = AS.getReachableAllocationSites(A), Intra = AS.getReachableAllocationSites(A, true);
      C.check((All->count(B) != 0) == (Al && IsSite), "allocation sites", [&] { return W + ": of " + ir::str(A) + ": " + ir::str(B); });
      C.check((Intra->count(B) != 0) == (Al && IsIntra), "allocation sites of the function", [&] { return W + ": of " + ir::str(A) + ": " + ir::str(B); });
      C.check(AS.isInReachableAllocationSites(A, B) == (Al && IsSite) && AS.isInReachableAllocationSites(A, B, true) == (Al && IsIntra), "isInReachableAllocationSites",
              [&] { return W + ": of " + ir::str(A) + ": " + ir::str(B); });
    }
    for (auto *X : *Set)
      C.check(X->getType()->isPointerTy(), "only pointers", W);
  }
}

static void programs(mc::Ctx &C, unsigned Len, bool Param, bool Early = false, bool Init = false) {
  Gen G;
  if (Param)
    G.P.push_back("%x");
  if (Init)
    G.C[1] = "@gi";
  for (unsigned K = 0; K < Len; ++K)
    if (!statement(C, G))
      return;
  std::string Text = std::string(Prelude) + Helpers + "define i32* @work(i32* %x) personality i8* bitcast (i32 (...)* @__gxx_personality_v0 to i8*) {\n" + (Early ? "  store i32 7, i32* %x\n" : "") + "  %a = alloca i32\n  %s = alloca %S\n  %c = alloca i32*\n  %f0 = getelementptr %S, %S* %s, i32 0, i32 0\n" + G.Body +
                     "  ret i32* " + G.P.back() + "\n}\ndefine i32 @main() {\n  %l = alloca i32\n  %r = call i32* @work(i32* " + (Param ? "%l" : "null") + ")\n  ret i32 0\n}\n";
  if (!C.mine())
    return;
  C.nontrivial(mc::hashStr(Text));
  std::set<std::pair<V, V>> Over, Sites;
  LLVMProjectIRDB DB(ir::parse(Text, ir::context()));
  auto &M = *DB.getModule();
  interp::explore(
      M, M.getFunction("main"), [&] { return std::make_unique<EndOfFrame>(&Over, &Sites, M.getDataLayout()); },
      [&](interp::Exec &E, EndOfFrame &, interp::Stop S) {
        if (S == interp::Stop::Trap && E.TrapWhy != "bad access") {
          fprintf(stderr, "harness error: stopped (%s)\n%s\n", E.TrapWhy.c_str(), Text.c_str());
          _exit(3);
        }
        C.states(E.Steps);
        C.transition(E.Steps);
        C.trace();
      });
  C.count("overlapping_pairs", Over.size());
  if (C.wantSample())
    C.sample(Text);
  auto Ps = pointers(M);
  std::map<V, F> Of(Ps.begin(), Ps.end());
  for (auto T : {AliasAnalysisType::CFLAnders, AliasAnalysisType::CFLSteens, AliasAnalysisType::Basic}) {
    Oracle O(M, T);
    std::vector<std::set<std::pair<V, V>>> Rel;
    for (int Mode = 0; Mode < 3; ++Mode) { // lazy; eager; lazy and asked the other way round
      std::string W = std::string(paName(T)) + (Mode == 1 ? ", eager" : Mode == 2 ? ", lazy (last function first)" : ", lazy") + "\n" + Text;
      LLVMAliasSet AS(&DB, Mode != 1, T);
      C.check(AS.getAliasAnalysisType() == T, "type", W);
      if (Mode == 2)
        for (auto It = Ps.rbegin(); It != Ps.rend(); ++It)
          (void)AS.getAliasSet(It->first);
      std::set<std::pair<V, V>> R;
      EACH(A, FA)
        EACH(B, FB)
          if (AS.alias(A, B) != AliasResult::NoAlias)
            R.insert({A, B});
      if (Mode != 1) { // later answers may only be larger once every function is known
        std::set<std::pair<V, V>> R2;
        EACH(A, FA)
          EACH(B, FB)
            if (AS.alias(A, B) != AliasResult::NoAlias)
              R2.insert({A, B});
        C.check(std::includes(R2.begin(), R2.end(), R.begin(), R.end()), "grows", W);
        R = R2;
      }
      Rel.push_back(R);
      for (auto &AB : Over) {
        V A = AB.first, B = AB.second;
        if (R.count({A, B}))
          continue;
        F Fn = Of[A] ? Of[A] : Of[B];
        // the alias analyses of LLVM decide within a function; what they exclude is theirs
        if (Fn && !O.may(Fn, A, B)) {
          C.count((std::string("excluded_by_llvm_") + paName(T)).c_str());
          continue;
        }
        C.fail("missing alias", W + "\n" + ir::str(A) + " and " + ir::str(B) + " overlap in an execution, but are not reported");
      }
      // whatever LLVM cannot exclude
      EACH(A, FA)
        EACH(B, FB)
          if (FA && FA == FB)
            C.check(R.count({A, B}) || !O.may(FA, A, B), "less than LLVM", [&] { return W + "\n" + ir::str(A) + " and " + ir::str(B); });
      if (!G.G) { // in functions without globals: exactly the partition induced
        std::map<V, int> Cls;
        int N = 0;
        EACH(A, FA)
          Cls[A] = N++;
        EACH(A, FA)
          EACH(B, FB)
            if (FA && FA == FB && Cls[A] != Cls[B] && O.may(FA, A, B)) {
              int Old = Cls[A], New = Cls[B];
              for (auto &[X, K] : Cls)
                if (K == Old)
                  K = New;
            }
        F Work = M.getFunction("work");
        EACH(A, FA)
          EACH(B, FB)
            if (FA == Work && FB == Work)
              C.check((R.count({A, B}) != 0) == (Cls[A] == Cls[B]), "exactly", [&] { return W + "\n" + ir::str(A) + " and " + ir::str(B) + ": reported " + std::to_string(R.count({A, B})); });
      }
      checkSets(C, AS, Ps, W);
      for (auto &XS : Sites)
        if (V A = XS.first, S = XS.second; Of[A] && Of[A] == Of[S] && (A == S || O.may(Of[A], A, S)))
          C.check(AS.isInReachableAllocationSites(A, S, true) && AS.isInReachableAllocationSites(A, S), "allocation site of an execution", [&] { return W + "\n" + ir::str(A) + " points to " + ir::str(S); });
    }
    C.check(Rel[0] == Rel[1] && Rel[1] == Rel[2], "lazy and eager", [&] { return std::string(paName(T)) + "\n" + Text; });
  }
}

//---------------------------------------------------------------- histories
static const char *HistText = R"(
@g = global i32 0
@h = global i32 0
@gp = global i32* null
@fp = global void ()* null
define void @t() {
  ret void
}
define i32* @f(i32* %x, i32* noalias %y) {
  %a = alloca i32
  %b = alloca i32
  %l = load i32*, i32** @gp
  store i32 1, i32* @g
  ret i32* %a
}
define void @k(i32* noalias %x) {
  %a = alloca i32
  %b = alloca i32
  %s = alloca void ()*
  store void ()* @t, void ()** %s
  %t = load void ()*, void ()** %s
  ret void
}
define i32 @main() {
  %m = alloca i32
  %n = alloca i32
  %r = call i32* @f(i32* %m, i32* %n)
  call void @k(i32* %m)
  ret i32 0
}
)";
struct HistEnv {
  llvm::LLVMContext Ctx;
  std::unique_ptr<LLVMProjectIRDB> DB;
  std::vector<std::pair<V, F>> Ps;
  std::map<V, int> Base; // the partition of the module itself
  std::vector<std::pair<V, V>> Pairs;
  HistEnv() {
    DB = std::make_unique<LLVMProjectIRDB>(ir::parse(HistText, Ctx));
    auto &M = *DB->getModule();
    Ps = pointers(M);
    LLVMAliasSet AS(DB.get(), false);
    int N = 0;
    for (auto &PA : Ps) {
      V A = PA.first;
      Base[A] = N++;
      for (auto &PB : Ps)
        if (V B = PB.first; Base.count(B) && A != B && AS.alias(A, B) != AliasResult::NoAlias) Base[A] = Base[B];
    }
    auto *Fn = M.getFunction("f"), *K = M.getFunction("k"), *Main = M.getFunction("main");
    V Fa = ir::val(Fn, "a"), Fb = ir::val(Fn, "b"), Ka = ir::val(K, "a"), Ks = ir::val(K, "s"), H = M.getNamedGlobal("h"), Mm = ir::val(Main, "m");
    Pairs = {{Fa, Fb}, {Fb, Ka}, {Ka, H}, {Ks, Mm}, {Fn->getArg(0), Mm}, {M.getFunction("t"), Fn}};
  }
};
static void join(const HistEnv &E, std::map<V, int> &M, V A, V B) {
  int O = M[A], N = M[B];
  for (auto &[X, K] : M)
    if (K == O)
      K = N;
}
static nlohmann::json dump(const LLVMAliasSet &AS) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  AS.printAsJson(OS);
  OS.flush();
  return nlohmann::json::parse(S);
}
static void histories(mc::Ctx &C, unsigned Len, bool Ser, bool Funs) {
  static HistEnv *E = new HistEnv;
  std::vector<unsigned> Ops;
  unsigned NP = unsigned(E->Pairs.size()) - (Funs ? 0 : 1), NOps = 2 * NP + (Ser ? 5 : 3);
  for (unsigned K = 0; K < Len; ++K)
    Ops.push_back(C.choose(NOps));
  unsigned Ask = C.choose(2); // the other alias set is asked first or last
  if (!C.mine())
    return;
  std::string W;
  std::unique_ptr<LLVMAliasSet> S[2] = {std::make_unique<LLVMAliasSet>(E->DB.get()), std::make_unique<LLVMAliasSet>(E->DB.get())};
  std::map<V, int> M[2] = {E->Base, E->Base};
  for (auto O : Ops) {
    if (O < 2 * NP) {
      V A = E->Pairs[O % NP].first, B = E->Pairs[O % NP].second;
      W += std::string(O < NP ? "A" : "B") + ".introduceAlias(" + ir::str(A) + ", " + ir::str(B) + "); ";
      S[O / NP]->introduceAlias(A, B);
      join(*E, M[O / NP], A, B);
    } else if (O < 2 * NP + 2) {
      unsigned X = O - 2 * NP;
      W += X ? "B.mergeWith(A); " : "A.mergeWith(B); ";
      S[X]->mergeWith(*S[1 - X]);
      std::map<int, V> First;
      for (auto &P : E->Ps) {
        auto [It, New] = First.emplace(M[1 - X][P.first], P.first);
        if (!New)
          join(*E, M[X], It->second, P.first);
      }
    } else if (O == 2 * NP + 2) {
      W += "B asked about all of @k; ";
      for (auto &P : E->Ps)
        if (P.second && P.second->getName() == "k")
          (void)S[1]->getAliasSet(P.first);
    } else {
      unsigned X = O - 2 * NP - 3;
      W += X ? "B written and read; " : "A written and read; ";
      auto J = dump(*S[X]);
      S[X] = std::make_unique<LLVMAliasSet>(E->DB.get(), J);
    }
  }
  C.nontrivial(mc::hashStr(W));
  C.states(Len);
  C.transition(Len);
  C.trace();
  for (unsigned Y = 0; Y < 2; ++Y) {
    unsigned X = Ask ? 1 - Y : Y;
    for (auto &PA : E->Ps) for (auto &PB : E->Ps) {
      V A = PA.first, B = PB.first;
      bool Al = S[X]->alias(A, B) != AliasResult::NoAlias, Want = M[X][A] == M[X][B];
      if (!Al && Want)
        C.fail("lost alias", W + (X ? "B" : "A") + ": " + ir::str(A) + " and " + ir::str(B) + " do not alias");
      if (Al && !Want)
        C.fail("wrong alias", W + (X ? "B" : "A") + ": " + ir::str(A) + " and " + ir::str(B) + " alias");
    }
    checkSets(C, *S[X], E->Ps, W + (X ? "B" : "A"));
  }
}

static std::set<std::multiset<std::string>> setsOf(const std::vector<std::vector<std::string>> &X) {
  std::set<std::multiset<std::string>> R;
  for (auto &Y : X)
    R.emplace(Y.begin(), Y.end());
  return R;
}
/// written and read back in every state of laziness, on small modules
static void written(mc::Ctx &C, bool Const) {
  static const char *Texts[] = {"",
                                "declare void @e()\n",
                                "define void @f() {\n  ret void\n}\n",
                                "define void @f() {\n  %a = alloca i32\n  %b = alloca i32\n  ret void\n}\n",
                                "define void @f.1(i8* %x, i8* %y) {\n  ret void\n}\ndefine void @f(i8* %x, i8* %y) {\n  ret void\n}\n",
                                "define void @\"1\"(i8* %x, i8* %y) {\n  %c = alloca void ()*\n  store void ()* @\"@2.0\", void ()** %c\n  %l = load void ()*, void ()** %c\n  ret void\n}\ndefine void @\"@2.0\"() {\n  ret void\n}\n",
                                "@g = global i32 0\n@h = global i32* @g\n",
                                "@g = global i32 0\ndefine void @f() {\n  %l = load i32, i32* @g\n  ret void\n}\n",
                                "define void @f() {\n  %a = alloca i8\n  %b = alloca i8\n  call void @k(i8* %a, i8* bitcast (void ()* @f to i8*))\n  ret void\n}\ndefine void @k(i8* %x, i8* %y) {\n  ret void\n}\n"};
  unsigned K = Const ? 8 : C.choose(8), Eager = C.choose(2), Asked = C.choose(3);
  if (!C.mine())
    return;
  LLVMProjectIRDB DB(ir::parse(Texts[K], ir::context()));
  std::string W = std::string(Texts[K]) + (Eager ? "eager" : "lazy") + ", values asked before: " + std::to_string(Asked);
  auto Ps = pointers(*DB.getModule());
  if (Const)
    for (auto &I : llvm::instructions(*DB.getModule()->getFunction("f")))
      for (auto &O : I.operands())
        if (llvm::isa<llvm::ConstantExpr>(O))
          Ps.emplace_back(O, nullptr);
  C.nontrivial(mc::hashStr(W));
  C.states(1);
  C.trace();
  LLVMAliasSet A(&DB, !Eager);
  for (unsigned X = 0; X < Asked && X < Ps.size(); ++X)
    (void)A.getAliasSet(Ps[Ps.size() - 1 - X].first);
  if (Const) // actual and formal parameter
    A.introduceAlias(Ps.back().first, DB.getFunction("k")->getArg(1));
  auto D = A.getLLVMAliasSetData();
  std::string T;
  llvm::raw_string_ostream OS(T);
  A.printAsJson(OS);
  auto D2 = LLVMAliasSetData::loadJsonString(OS.str());
  C.check(setsOf(D.AliasSets) == setsOf(D2.AliasSets) && setsOf({D.AnalyzedFunctions}) == setsOf({D2.AnalyzedFunctions}), "data", [&] { return W + ": " + T; });
  LLVMAliasSet B(&DB, nlohmann::json::parse(T));
  for (auto &PA : Ps)
    for (auto &PB : Ps) {
      bool X = A.alias(PA.first, PB.first) != AliasResult::NoAlias, Y = B.alias(PA.first, PB.first) != AliasResult::NoAlias;
      C.check(X == Y, Const ? "constant-expression-lost" : "changed", [&] { return W + ": " + ir::str(PA.first) + " and " + ir::str(PB.first) + ": " + std::to_string(X) + " becomes " + std::to_string(Y) + " " + T; });
    }
  std::string T2;
  llvm::raw_string_ostream OS2(T2);
  B.printAsJson(OS2);
  if (!Const)
    C.check(!OS2.str().empty(), "empty");
}

int main(int Argc, char **Argv) {
  std::vector<mc::Part> Ps;
  bool T = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  for (unsigned L = 0; L <= (T ? 3u : 2u); ++L)
    Ps.push_back({"programs_" + std::to_string(L), [L](mc::Ctx &C) { programs(C, L, false); }});
  for (unsigned L = 1; L <= 2; ++L)
    Ps.push_back({"param_" + std::to_string(L), [L](mc::Ctx &C) { programs(C, L, true); }});
  for (unsigned L = 1; L <= (T ? 3u : 2u); ++L)
    Ps.push_back({"early_" + std::to_string(L), [L](mc::Ctx &C) { programs(C, L, true, true); }});
  for (unsigned L = 1; L <= 2; ++L)
    Ps.push_back({"init_" + std::to_string(L), [L](mc::Ctx &C) { programs(C, L, false, false, true); }});
  for (int Ser = 0; Ser < 2; ++Ser)
    Ps.push_back({Ser ? "written" : "histories", [=](mc::Ctx &C) { histories(C, T ? 4 : 3, Ser, false); }});
  Ps.push_back({"modules", [](mc::Ctx &C) { written(C, false); }});
  Ps.push_back({"constants", [](mc::Ctx &C) { written(C, true); }});
  Ps.push_back({"functions", [=](mc::Ctx &C) { histories(C, 3, true, true); }});
  return mc::run(Argc, Argv, Ps);
}
