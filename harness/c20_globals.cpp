// The model of global constructors and destructors against what the C++ runtime does.
#include "interp.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include <algorithm>
#include <set>
using namespace psr;
using Events = std::vector<std::string>;
using std::to_string;

// What a program looks like.
struct Ctor {
  unsigned Prio;
  int Kind; // 0: plain function, 1..: registers that many destructors in __cxx_global_var_init functions, -1: null entry
};
struct Prog {
  std::vector<Ctor> Ctors;
  std::vector<unsigned> Dtors; // priorities
  std::string Entries;         // one letter per entry point: m = main, M = main(argc, argv), f, h
  int Local = 0;               // local statics registered by a function called from main: 0 none, 1 one, 2 two
  bool SameDtor = false, Direct = false, Again = false;
  std::string name() const {
    std::string N = "ctors(";
    for (auto &C : Ctors)
      N += " " + to_string(C.Prio) + ":" + to_string(C.Kind);
    N += " ) dtors(";
    for (auto D : Dtors)
      N += " " + to_string(D);
    return N + " ) entries " + Entries + " local " + to_string(Local) + (SameDtor ? " same destructor" : "") + (Direct ? " direct" : "") + (Again ? " built again" : "");
  }
};
static std::string fname(char E) { return E == 'm' || E == 'M' ? "main" : std::string(1, E); }
struct Text {
  std::string S;
  unsigned N = 0;                                          // value stored to @g by the n-th event function
  std::map<std::string, unsigned> Val;                     // event function -> value
  std::string leaf() { return "  store i32 " + to_string(++N) + ", i32* @g\n"; }
  unsigned Obj = 0;
  std::set<std::string> DtorFns;
};
/// A registration of a destructor: text of the call and its event
static std::string reg(const Prog &P, Text &T, std::vector<std::pair<std::string, std::string>> &Regs) {
  std::string O = "obj" + to_string(T.Obj), D = P.SameDtor ? "D" : "D" + to_string(T.Obj);
  ++T.Obj;
  if (P.Direct)
    T.S += "@" + O + " = global i8 0\n";
  else
    T.S += "@" + O + " = global %S zeroinitializer\n";
  if (T.DtorFns.insert(D).second) {
    T.Val[D] = T.N + 1;
    T.S += std::string("define internal void @") + D + "(" + (P.Direct ? "i8*" : "%S*") + " %this) {\n" + T.leaf() + "  ret void\n}\n";
  }
  Regs.push_back({D, O});
  if (P.Direct)
    return "  %r" + to_string(T.Obj) + " = call i32 @__cxa_atexit(void (i8*)* @" + D + ", i8* @" + O + ", i8* @__dso_handle)\n";
  return "  %r" + to_string(T.Obj) + " = call i32 @__cxa_atexit(void (i8*)* bitcast (void (%S*)* @" + D + " to void (i8*)*), i8* getelementptr inbounds (%S, %S* @" + O + ", i32 0, i32 0), i8* @__dso_handle)\n";
}

struct Log : interp::Observer {
  Events &Ev;
  Log(Events &Ev) : Ev(Ev) {}
  void before(interp::Exec &E, const llvm::Instruction *X) override {
    auto *St = llvm::dyn_cast<llvm::StoreInst>(X);
    if (!St || St->getPointerOperand()->getName() != "g")
      return;
    auto *F = X->getFunction();
    std::string N = F->getName().str();
    if (N[0] == 'D') {
      auto A = E.eval(F->getArg(0));
      N += A.K == interp::Val::Ptr && A.Obj >= 0 && A.I == 0 && E.Mem[A.Obj].Site ? "(" + E.Mem[A.Obj].Site->getName().str() + ")" : "(?)";
    }
    Ev.push_back(N);
  }
};

template <typename T> static std::string str(const T &X) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  OS << X;
  return OS.str();
}
static std::string show(const Events &E) {
  std::string S;
  for (auto &X : E)
    S += " " + X;
  return S;
}

static void program(mc::Ctx &C, const Prog &P) {
  Text T;
  T.S = "%S = type { i8 }\n@g = global i32 0\n@__dso_handle = external hidden global i8\ndeclare i32 @__cxa_atexit(void (i8*)*, i8*, i8*)\n";
  std::vector<std::pair<std::string, std::string>> Regs, LocalRegs; // in order of registration, per constructor and for local statics
  std::vector<std::vector<std::pair<std::string, std::string>>> PerCtor(P.Ctors.size());
  std::string Arr;
  for (unsigned I = 0; I < P.Ctors.size(); ++I) {
    auto &Ct = P.Ctors[I];
    std::string N = "_GLOBAL__sub_I_" + to_string(I);
    Arr += std::string(I ? ", " : "") + "{ i32, void ()*, i8* } { i32 " + to_string(Ct.Prio) + ", void ()* " + (Ct.Kind < 0 ? "null" : "@" + N) + ", i8* null }";
    if (Ct.Kind < 0)
      continue;
    std::string Calls;
    for (int K = 0; K < Ct.Kind; ++K) {
      std::string V = "__cxx_global_var_init." + to_string(I) + "." + to_string(K);
      std::string R = reg(P, T, PerCtor[I]);
      T.S += "define internal void @" + V + "() {\n" + R + "  ret void\n}\n";
      Calls += "  call void @" + V + "()\n";
    }
    T.Val[N] = T.N + 1;
    T.S += "define internal void @" + N + "() {\n" + T.leaf() + Calls + "  ret void\n}\n";
  }
  if (!P.Ctors.empty())
    T.S += "@llvm.global_ctors = appending global [" + to_string(P.Ctors.size()) + " x { i32, void ()*, i8* }] [" + Arr + "]\n";
  Arr.clear();
  for (unsigned I = 0; I < P.Dtors.size(); ++I) {
    std::string N = "fini" + to_string(I);
    Arr += std::string(I ? ", " : "") + "{ i32, void ()*, i8* } { i32 " + to_string(P.Dtors[I]) + ", void ()* @" + N + ", i8* null }";
    T.Val[N] = T.N + 1;
    T.S += "define internal void @" + N + "() {\n" + T.leaf() + "  ret void\n}\n";
  }
  if (!P.Dtors.empty())
    T.S += "@llvm.global_dtors = appending global [" + to_string(P.Dtors.size()) + " x { i32, void ()*, i8* }] [" + Arr + "]\n";
  if (P.Local) {
    std::string R;
    for (int K = 0; K < P.Local; ++K)
      R += reg(P, T, LocalRegs);
    T.S += "define void @local() {\n" + R + "  ret void\n}\n";
  }
  std::set<char> Fns(P.Entries.begin(), P.Entries.end());
  if (!Fns.count('m') && !Fns.count('M'))
    Fns.insert('m');
  std::vector<std::string> EPs;
  for (char E : P.Entries)
    EPs.push_back(fname(E));
  for (char E : Fns) {
    T.Val[fname(E)] = T.N + 1;
    bool Main = fname(E) == "main";
    T.S += std::string("define ") + (Main ? "i32" : "void") + " @" + fname(E) + "(" + (E == 'M' ? "i32 %argc, i8** %argv" : "") + ") {\n" + T.leaf() + (Main && P.Local ? "  call void @local()\n" : "") + "  ret " + (Main ? "i32 0" : "void") + "\n}\n";
  }
  // what the runtime does for an entry point
  auto Real = [&](char Entry) {
    std::vector<unsigned> Order;
    for (unsigned I = 0; I < P.Ctors.size(); ++I)
      Order.push_back(I);
    std::stable_sort(Order.begin(), Order.end(), [&](unsigned A, unsigned B) { return P.Ctors[A].Prio < P.Ctors[B].Prio; });
    Events Ev;
    std::vector<std::pair<std::string, std::string>> Reg;
    for (auto I : Order)
      if (P.Ctors[I].Kind >= 0) {
        Ev.push_back("_GLOBAL__sub_I_" + to_string(I));
        Reg.insert(Reg.end(), PerCtor[I].begin(), PerCtor[I].end());
      }
    Ev.push_back(fname(Entry));
    if (fname(Entry) != "main")
      return Ev;
    Reg.insert(Reg.end(), LocalRegs.begin(), LocalRegs.end());
    for (auto I = Reg.size(); I-- > 0;)
      Ev.push_back(Reg[I].first + "(" + Reg[I].second + ")");
    Order.clear();
    for (unsigned I = 0; I < P.Dtors.size(); ++I)
      Order.push_back(I);
    std::stable_sort(Order.begin(), Order.end(), [&](unsigned A, unsigned B) { return P.Dtors[A] > P.Dtors[B]; });
    for (auto I : Order)
      Ev.push_back("fini" + to_string(I));
    return Ev;
  };

  C.trace();
  C.nontrivial(std::hash<std::string>()(P.name()));
  auto M = ir::parse(T.S, ir::context());
  auto *Mod = M.get();
  std::set<const llvm::Function *> Orig;
  for (auto &F : *Mod)
    Orig.insert(&F);
  LLVMProjectIRDB DB(std::move(M));
  LLVMTypeHierarchy TH(DB);
  LLVMAliasSet PT(&DB);
  LLVMBasedICFG ICF(&DB, CallGraphAnalysisType::OTF, EPs, &TH, &PT, Soundness::Soundy, true);
  if (P.Again) // the same model, for another call graph
    LLVMBasedICFG(&DB, CallGraphAnalysisType::CHA, EPs, &TH, &PT, Soundness::Soundy, true);
  auto *Model = DB.getFunctionDefinition(GlobalCtorsDtorsModel::ModelName);
  auto At = [&](const std::string &S) { return [&C, &P, S] { return P.name() + ": " + S; }; };
  C.check(Model != nullptr, "no-model", At("no model function"));
  if (!Model)
    return;
  std::string VE;
  llvm::raw_string_ostream OS(VE);
  C.check(!llvm::verifyModule(*Mod, &OS), "invalid-ir", At(OS.str()));
  for (auto &F : *Mod)
    C.check(GlobalCtorsDtorsModel::isPhasarGenerated(F) == !Orig.count(&F), "generated", At("isPhasarGenerated(" + F.getName().str() + ")"));
  for (auto *F : DB.getAllFunctions())
    if (!F->isDeclaration())
      for (auto &X : llvm::instructions(F))
        C.check(DB.getInstruction(DB.getInstructionId(&X)) == &X, "ids", At(ir::str(&X)));
  // executions of the model
  std::set<Events> Got;
  interp::Chooser Ch;
  Events Cur;
  interp::explore(
      *Mod, Model, [&] { Cur.clear(); return std::make_unique<Log>(Cur); },
      [&](interp::Exec &E, Log &, interp::Stop S) {
        if (S == interp::Stop::Finished)
          Got.insert(Cur);
        C.states(E.Steps);
      });
  std::set<Events> Exp;
  for (char E : P.Entries)
    Exp.insert(Real(E));
  auto Norm = [&](std::set<Events> S) { // destructors of the same priority have no order
    std::set<Events> R;
    for (auto E : S) {
      for (size_t I = 0; I < E.size();) {
        size_t J = I;
        auto Pr = [&](const std::string &N) { return N.compare(0, 4, "fini") ? -1 : int(P.Dtors[N[4] - '0']); };
        while (J < E.size() && Pr(E[I]) >= 0 && Pr(E[J]) == Pr(E[I]))
          ++J;
        std::sort(E.begin() + I, E.begin() + J);
        I = std::max(J, I + 1);
      }
      R.insert(E);
    }
    return R;
  };
  auto G = Norm(Got), X = Norm(Exp);
  for (auto &E : X)
    C.check(G.count(E), "missing-run", At("the runtime calls" + show(E) + "; the model calls" + (G.empty() ? " nothing" : show(*G.begin()))));
  for (auto &E : G)
    C.check(X.count(E), "additional-run", At("the model calls" + show(E)));
  // the call graph covers them
  std::set<std::string> Called;
  for (auto &E : X)
    for (auto &N : E)
      Called.insert(N.substr(0, N.find('(')));
  for (auto &N : Called) {
    auto *F = DB.getFunction(N);
    C.check(F && llvm::is_contained(ICF.getAllVertexFunctions(), F) && !ICF.getCallersOf(F).empty(), "not-called", At(N + " has no callers"));
  }
  // a data-flow analysis over the model knows the value every event leaves
  if (P.Entries.size() != 1 || P.SameDtor)
    return;
  IDELinearConstantAnalysis LCA(&DB, &ICF, {GlobalCtorsDtorsModel::ModelName.str()});
  IDESolver S(LCA, &ICF);
  S.solve();
  auto *Glob = DB.getGlobalVariableDefinition("g");
  for (auto &E : Exp) {
    int64_t Prev = 0;
    for (auto &N : E) {
      std::string FN = N.substr(0, N.find('('));
      auto *F = DB.getFunctionDefinition(FN);
      auto *St = &F->front().front();
      auto R = S.resultAt(St, Glob);
      if (std::count_if(E.begin(), E.end(), [&](auto &O) { return O.substr(0, O.find('(')) == FN; }) == 1 && (P.Dtors.size() < 2 || N[0] != 'f'))
        C.check(R == Prev, "value", At("g before " + N + " is " + to_string(Prev) + ", reported " + str(R)));
      Prev = T.Val[FN];
    }
  }
}

int main(int Argc, char **Argv) {
  std::vector<mc::Part> Ps;
  bool T = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  static const std::vector<std::string> EntrySets = {"m", "M", "f", "mf", "Mf", "fh", "fm", "mfh"};
  for (unsigned K = 0; K <= (T ? 4u : 3u); ++K)
    Ps.push_back({"ctors_" + to_string(K), [K, T](mc::Ctx &C) {
                    Prog P;
                    for (unsigned I = 0; I < K; ++I) {
                      Ctor Ct;
                      Ct.Prio = std::vector<unsigned>{65535, 101, 7}[C.choose(K > 3 ? 2 : 3)];
                      Ct.Kind = K > 2 && !T ? int(C.choose(2)) : int(C.choose(4)) - 1;
                      P.Ctors.push_back(Ct);
                    }
                    unsigned D = C.choose(K > 2 && !T ? 2 : 3);
                    for (unsigned I = 0; I < D; ++I)
                      P.Dtors.push_back(std::vector<unsigned>{65535, 0, 300}[C.choose(K > 2 ? 2 : 3)]);
                    P.Local = int(C.choose(3));
                    P.SameDtor = C.flip();
                    P.Direct = C.flip();
                    P.Again = !P.SameDtor && !P.Direct && K < 3 && C.flip();
                    P.Entries = K > 2 ? EntrySets[C.choose(5)] : EntrySets[C.choose(unsigned(EntrySets.size()))];
                    if (!C.mine())
                      return;
                    program(C, P);
                  }});
  return mc::run(Argc, Argv, Ps);
}
