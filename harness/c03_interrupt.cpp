// Interrupting, resuming and stepping the IDE/IFDS solver at every point.
#include "ide_model.h"

using namespace ide;

// ---- a clock under the control of the harness
static int64_t VirtualNow = 0;        // ns
static const std::vector<int64_t> *Deltas = nullptr;
static size_t DeltaPos = 0;
static uint64_t NowCalls = 0;
namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  ++NowCalls;
  if (Deltas && !Deltas->empty())
    VirtualNow += (*Deltas)[DeltaPos++ % Deltas->size()];
  return time_point(duration(VirtualNow));
}
} // namespace _V2
} // namespace std::chrono

// ---- counts every query of the solver to the problem
static uint64_t Ticks = 0, CancelAt = ~0ULL;
static std::atomic_bool Flag{false};
static void tick() {
  if (++Ticks == CancelAt)
    Flag = true;
}

template <typename Base> struct Ticking : Base {
  using Base::Base;
  using FF = typename Base::FF;
  FF getNormalFlowFunction(Node A, Node B) override { return tick(), Base::getNormalFlowFunction(A, B); }
  FF getCallFlowFunction(Node A, Func F) override { return tick(), Base::getCallFlowFunction(A, F); }
  FF getRetFlowFunction(Node CS, Func F, Node E, Node RS) override { return tick(), Base::getRetFlowFunction(CS, F, E, RS); }
  FF getCallToRetFlowFunction(Node CS, Node RS, llvm::ArrayRef<Func> L) override { return tick(), Base::getCallToRetFlowFunction(CS, RS, L); }
};
struct TickFlow : psr::FlowFunction<uint32_t> {
  std::shared_ptr<psr::FlowFunction<uint32_t>> F;
  TickFlow(std::shared_ptr<psr::FlowFunction<uint32_t>> F) : F(std::move(F)) {}
  Container computeTargets(uint32_t D) override { return tick(), F->computeTargets(D); }
};
struct Prob : Ticking<IdeProblem> {
  using Ticking::Ticking;
  FF getNormalFlowFunction(Node A, Node B) override { return std::make_shared<TickFlow>(IdeProblem::getNormalFlowFunction(A, B)); }
  FF getCallFlowFunction(Node A, Func F) override { return std::make_shared<TickFlow>(IdeProblem::getCallFlowFunction(A, F)); }
  FF getRetFlowFunction(Node CS, Func F, Node E, Node RS) override {
    return std::make_shared<TickFlow>(IdeProblem::getRetFlowFunction(CS, F, E, RS));
  }
  FF getCallToRetFlowFunction(Node CS, Node RS, llvm::ArrayRef<Func> L) override {
    return std::make_shared<TickFlow>(IdeProblem::getCallToRetFlowFunction(CS, RS, L));
  }
};

using Solver = psr::IDESolver<Domain>;
using Row = std::unordered_map<uint32_t, V>;
using ms = std::chrono::milliseconds;

struct Env {
  mc::Ctx &C;
  const Problem &Pr;
  const Results &Ref;
  synth::ICFG ICF;
  std::set<uint32_t> Skip;
  std::vector<uint64_t> StepEnd; // ticks after initialize() and after every step
  bool Started = false;          // initialize() returned true
  std::string What;

  Env(mc::Ctx &C, const Problem &Pr, const Results &Ref) : C(C), Pr(Pr), Ref(Ref), ICF(Pr.P) {
    for (auto &S : Pr.Summaries)
      Skip.insert(S.second);
  }
  std::string msg() const { return Pr.str() + "\n" + What; }
  template <typename R> void check(const R &Res, const char *Sig) {
    C.trace();
    for (uint32_t N = 1; N < Pr.P.Nodes.size(); ++N) {
      if (Skip.count(Pr.P.Nodes[N].Fun))
        continue;
      auto Row = Res.resultsAt(Node(N));
      for (uint32_t D = 0; D < ND; ++D) {
        auto It = Row.find(D);
        int Got = It == Row.end() ? -1 : It->second.X;
        if (Got != Ref.R[N][D])
          C.fail(Sig, msg() + "\nat n" + std::to_string(N) + " d" + std::to_string(D) + ": uninterrupted " + std::to_string(Ref.R[N][D]) +
                          " got " + std::to_string(Got));
      }
    }
  }
  void reset(std::vector<int64_t> *D = nullptr) {
    Ticks = 0;
    CancelAt = ~0ULL;
    Flag = false;
    Deltas = D;
    DeltaPos = 0;
    VirtualNow = 1000000000;
    NowCalls = 0;
  }
};

static std::string num(uint64_t X) { return std::to_string(X); }

// A predicate that answers from a list of booleans, false afterwards.
struct Pred {
  std::vector<bool> *Ans;
  size_t *Pos;
  Env *E;
  bool operator()() const {
    if (*Pos > 20000)
      E->C.fail("interrupt:no-progress", E->msg() + "\nthe solver asked 20000 times without finishing");
    bool R = *Pos < Ans->size() && (*Ans)[*Pos];
    ++*Pos;
    return R;
  }
};
struct TPred {
  Pred P;
  bool operator()(std::chrono::steady_clock::time_point T) const {
    if (T.time_since_epoch().count() != VirtualNow)
      P.E->C.fail("interrupt:timestamp", P.E->msg());
    return P();
  }
};

static void body(mc::Ctx &C, int Shape) {
  Problem Pr;
  static const auto A = alphabet();
  Builder B{C, Pr, A};
  B.MaxAlpha = C.thorough() ? 3 : 2;
  B.MaxEdges = C.thorough() ? 5 : 4;
  build(B, Shape, false);
  if (Pr.Seeds.empty())
    return;
  if (Shape == 0 && C.choose(2)) // nothing to do at all
    Pr.Seeds.clear();
  if (!C.mine())
    return;
  auto Ref = summaries(Pr);
  std::vector<uint32_t> FuncOf;
  for (auto &N : Pr.P.Nodes)
    FuncOf.push_back(N.Fun);
  synth::CurFuncOf = &FuncOf;
  efKind() = C.Cases % 3;
  Env E(C, Pr, Ref);
  C.nontrivial(mc::hashStr(Pr.str()));
  if (C.wantSample() || (C.Cases & (C.Cases - 1)) == 0)
    C.sample(Pr.str());

  // step by step
  {
    E.reset();
    E.What = "step by step";
    Prob P(Pr);
    Solver S(P, &E.ICF);
    bool More = S.initialize();
    E.Started = More;
    E.StepEnd.push_back(Ticks);
    while (More) {
      More = S.next();
      E.StepEnd.push_back(Ticks);
      if (E.StepEnd.size() > 100000)
        C.fail("interrupt:steps", E.msg());
    }
    E.check(S.finalize(), "stepwise:result");
  }
  size_t Steps = E.StepEnd.size() - 1;
  C.states(Steps + 1);
  C.transition(Steps);
  // in chunks
  for (size_t Chunk : {2, 3, 7, 1000}) {
    E.reset();
    E.What = "in chunks of " + num(Chunk);
    Prob P(Pr);
    Solver S(P, &E.ICF);
    if (S.initialize())
      while (S.nextN(Chunk)) {
      }
    C.check(Ticks == E.StepEnd.back(), "stepwise:chunks", [&] { return E.msg(); });
    E.check(std::move(S).finalize(), "stepwise:chunks-result");
  }
  // a flag that is raised at every possible point: before, within or after every step
  auto Within = [&](uint64_t T) { // the end of the step that contains tick T
    for (auto X : E.StepEnd)
      if (T <= X)
        return X;
    return E.StepEnd.back();
  };
  auto Async = [&](uint64_t K1, uint64_t K2, int Mode) {
    E.reset();
    E.What = "flag raised at query " + num(K1) + (K2 ? " and again " + num(K2) + " later" : "") + ", mode " + num(Mode);
    Prob P(Pr);
    Solver S(P, &E.ICF);
    CancelAt = K1;
    if (K1 == 0)
      Flag = true;
    auto Stop = [&](uint64_t From, uint64_t At) {
      // it has to stop, after at most the step during which the flag was raised
      uint64_t Lim = Within(At ? At : From);
      if (!At && From < E.StepEnd.back()) // raised before a continuation: one more step is fine
        for (auto X : E.StepEnd)
          if (X > From) {
            Lim = X;
            break;
          }
      C.check(Ticks <= Lim, "async:late", [&] { return E.msg() + "\nstopped after " + num(Ticks) + " queries, expected at most " + num(Lim); });
    };
    auto Res = S.solveWithAsyncCancellation(Flag);
    if (Res) {
      C.check(!Flag || CancelAt > E.StepEnd.back(), "async:result-although-cancelled", [&] { return E.msg(); });
      return;
    }
    C.check(Flag, "async:no-result", [&] { return E.msg(); });
    Stop(0, K1);
    Flag = false;
    if (K2) {
      uint64_t From = Ticks;
      CancelAt = Ticks + K2;
      if (Mode & 4)
        Flag = true;
      auto R2 = S.continueWithAsyncCancellation(Flag);
      if (R2) {
        C.check(!Flag || CancelAt > E.StepEnd.back(), "async:result-although-cancelled", [&] { return E.msg(); });
        E.check(*R2, "async:continued-result");
        return;
      }
      C.check(Flag, "async:no-result", [&] { return E.msg(); });
      Stop(From, Mode & 4 ? 0 : CancelAt);
      Flag = false;
      CancelAt = ~0ULL;
    }
    std::vector<bool> None;
    size_t Pos = 0;
    switch (Mode & 3) {
    case 0:
      E.check(S.continueSolving(), "async:result");
      break;
    case 1:
      E.check(std::move(S).continueSolving(), "async:result");
      break;
    case 2: {
      auto R = S.continueUntil(Pred{&None, &Pos, &E}, ms(1));
      C.check(!!R, "async:no-result", [&] { return E.msg(); });
      E.check(*R, "async:result");
      break;
    }
    case 3: {
      auto R = std::move(S).continueWithAsyncCancellation(Flag);
      C.check(!!R, "async:no-result", [&] { return E.msg(); });
      E.check(*R, "async:result");
      break;
    }
    }
  };
  uint64_t T = E.StepEnd.back();
  for (uint64_t K = 0; K <= T + 1; ++K) {
    C.beat();
    for (int Mode = 0; Mode < 4; ++Mode)
      Async(K, 0, Mode);
    for (uint64_t K2 = 1; K2 <= std::min<uint64_t>(T, C.thorough() ? 200 : 8); ++K2)
      Async(K, K2, (K + K2) % 8);
  }
  // a predicate that is asked from time to time; clock steps of every kind
  std::vector<std::vector<int64_t>> Clocks = {{0}, {1}, {1000000}, {1, 3000000000LL}, {5000000000LL, 0, 1000}};
  for (size_t CI = 0; CI < Clocks.size(); ++CI)
    for (int Iv : {0, 1, 7})
      for (unsigned Mask = 0; Mask < 8; ++Mask)
        for (int Mode = 0; Mode < 3; ++Mode) {
          E.reset(&Clocks[CI]);
          std::vector<bool> Ans{bool(Mask & 1), bool(Mask & 2), bool(Mask & 4)};
          size_t Pos = 0;
          E.What = "predicate answers " + num(Mask & 1) + num(Mask >> 1 & 1) + num(Mask >> 2) + ", interval " + num(Iv) + " ms, clock " + num(CI) +
                   ", mode " + num(Mode);
          Prob P(Pr);
          Solver S(P, &E.ICF);
          Pred Pd{&Ans, &Pos, &E};
          auto Last = [&] { return Pos > 0 && Pos <= Ans.size() && Ans[Pos - 1]; };
          auto First = Mode == 1 ? S.solveUntil(TPred{Pd}, ms(Iv)) : S.solveUntil(Pd, ms(Iv));
          C.check(Pos > 0, "until:never-asked", [&] { return E.msg(); });
          C.check(!First == Last(), "until:answer-ignored", [&] { return E.msg(); });
          if (First) {
            E.check(*First, "until:result");
            continue;
          }
          bool Done = false;
          for (int Rounds = 0; Rounds < 6 && !Done; ++Rounds) {
            if (Mode == 2) {
              auto Own = std::move(S).continueSolving();
              E.check(Own, "until:result");
              Done = true;
              break;
            }
            size_t Before = Pos;
            auto R = S.continueUntil(Pd, ms(Iv));
            C.check(Pos > Before, "until:never-asked", [&] { return E.msg(); });
            C.check(!R == Last(), "until:answer-ignored", [&] { return E.msg(); });
            if (R) {
              E.check(*R, "until:result");
              Done = true;
            }
          }
          C.check(Done, "until:not-done", [&] { return E.msg(); });
        }
  // timeouts
  for (size_t CI = 0; CI < Clocks.size(); ++CI)
    for (int Iv : {0, 1, 50})
      for (int64_t To : {0LL, 1LL, 4000LL, 1000000000LL}) {
        E.reset(&Clocks[CI]);
        E.What = "timeout " + num(To) + " ms, interval " + num(Iv) + " ms, clock " + num(CI);
        Prob P(Pr);
        Solver S(P, &E.ICF);
        // the clock of the start of the call is read within the call
        int64_t Begin = VirtualNow + Clocks[CI][0];
        auto Spent = [&] { return VirtualNow - Begin; };
        if (CI == 0 && Iv == 0 && To > 0 && Steps > 20000)
          continue;
        auto R = S.solveWithTimeout(ms(To), ms(Iv));
        C.check(!R == (Spent() >= To * 1000000), "timeout:decision", [&] { return E.msg() + "\nspent " + num(Spent()) + " ns"; });
        if (R) {
          E.check(*R, "timeout:result");
          continue;
        }
        bool Again = To == 4000;
        if (Again) {
          int64_t B2 = VirtualNow + Clocks[CI][DeltaPos % Clocks[CI].size()];
          auto R2 = S.continueWithTimeout(ms(To), ms(Iv));
          C.check(!R2 == (VirtualNow - B2 >= To * 1000000), "timeout:decision", [&] { return E.msg() + " (continued)"; });
          if (R2) {
            E.check(*R2, "timeout:result");
            continue;
          }
        }
        E.check(S.continueSolving(), "timeout:result");
      }
  E.reset();
}

int main(int argc, char **argv) {
  std::vector<mc::Part> Parts;
  for (int S = 0; S < NumShapes; ++S)
    Parts.push_back({std::string("interrupt-") + shapeName(S), [S](mc::Ctx &C) { body(C, S); }});
  mc::Options O;
  O.CaseTimeoutMs = 15000;
  return mc::run(argc, argv, Parts, O);
}
