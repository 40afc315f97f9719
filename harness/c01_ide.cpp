// IDE / IFDS solver against the join over all valid paths.
#include "ide_model.h"
using namespace ide;

template <typename SolverT, typename Get> static void compare(mc::Ctx &C, const Problem &Pr, const Results &Ref, Get G, const char *What) {
  std::set<uint32_t> Skip;
  for (auto &S : Pr.Summaries)
    Skip.insert(S.second);
  for (uint32_t N = 1; N < Pr.P.Nodes.size(); ++N) {
    if (Skip.count(Pr.P.Nodes[N].Fun))
      continue;
    for (uint32_t D = 0; D < ND; ++D) {
      int Got = G(N, D);
      if (Got != Ref.R[N][D])
        C.fail(std::string(What) + (Ref.R[N][D] < 0 ? ":spurious-fact" : Got < 0 ? ":missing-fact" : ":wrong-value"),
               Pr.str() + "\nat n" + std::to_string(N) + " d" + std::to_string(D) + ": expected " + std::to_string(Ref.R[N][D]) + " got " +
                   std::to_string(Got));
    }
  }
}

static bool gen(mc::Ctx &C, Problem &Pr, int Shape) {
  static const auto A = alphabet();
  Builder B{C, Pr, A};
  build(B, Shape, C.thorough());
  return !Pr.Seeds.empty();
}

static uint64_t ctrlHash(const std::string &S) { return mc::hashStr(S); }

static void ideBody(mc::Ctx &C, int Shape) {
  Problem Pr;
  if (!gen(C, Pr, Shape))
    return;
  if (!C.mine())
    return;
  auto Ref = summaries(Pr);
  bool Hit;
  auto Conf = configurations(C, Pr, isRecursive(Shape) ? 4 : 8, Hit);
  // the two reference models have to agree
  for (uint32_t N = 1; N < Pr.P.Nodes.size(); ++N)
    for (int D = 0; D < ND; ++D) {
      bool Ok = Hit ? Conf.R[N][D] < 0 || (Ref.R[N][D] >= 0 && leqV(Conf.R[N][D], Ref.R[N][D])) : Conf.R[N][D] == Ref.R[N][D];
      if (!Ok) {
        fprintf(stderr, "reference models disagree: %s n%u d%d: %d %d\n", Pr.str().c_str(), N, D, Conf.R[N][D], Ref.R[N][D]);
        _exit(3);
      }
    }
  uint64_t H = 7;
  bool Interesting = false;
  for (auto &R : Ref.R)
    for (auto X : R) {
      H = mc::mix(H, X + 2);
      Interesting |= X > 0 && X < 4;
    }
  C.outcome(H);
  if (Interesting)
    C.nontrivial(ctrlHash(Pr.str()));
  if (C.wantSample() || (C.Cases & (C.Cases - 1)) == 0)
    C.sample(Pr.str());

  synth::ICFG ICF(Pr.P);
  std::vector<uint32_t> FuncOf;
  for (auto &N : Pr.P.Nodes)
    FuncOf.push_back(N.Fun);
  synth::CurFuncOf = &FuncOf;
  // storage of the edge functions and solver options: all combinations that
  // must not change the result, one after the other
  unsigned Variant = C.Cases; // every worker walks through all of them
  for (unsigned K = 0; K < (C.replaying() ? 12 : 1); ++K) {
    unsigned W = C.replaying() ? K : Variant % 12;
    efKind() = W % 3;
    IdeProblem Prob(Pr);
    auto &Cfg = Prob.getIFDSIDESolverConfig();
    bool Explicit = (W / 3) % 2;
    Prob.ExplicitZero = Explicit;
    Cfg.setAutoAddZero(!Explicit);
    Cfg.setRecordEdges((W / 3) == 2);
    Cfg.setComputePersistedSummaries((W / 3) == 3);
    psr::IDESolver<Domain> Solver(Prob, &ICF);
    auto Res = Solver.solve();
    C.trace();
    compare<decltype(Solver)>(
        C, Pr, Ref,
        [&](uint32_t N, uint32_t D) -> int {
          auto Row = Res.resultsAt(Node(N));
          auto It = Row.find(D);
          return It == Row.end() ? -1 : It->second.X;
        },
        "ide");
    // accessors agree
    for (uint32_t N = 1; N < Pr.P.Nodes.size(); ++N) {
      auto NoZero = Solver.resultsAt(Node(N), true);
      auto With = Solver.resultsAt(Node(N), false);
      C.check(!NoZero.count(0), "ide:strip-zero", Pr.str());
      for (auto &[D, X] : With) {
        C.check(D == 0 || (NoZero.count(D) && NoZero[D] == X), "ide:strip-zero-changes-facts", Pr.str());
        C.check(Solver.resultAt(Node(N), D) == X, "ide:resultAt", Pr.str());
      }
      C.check(NoZero.size() + With.count(0) == With.size(), "ide:strip-zero-size", Pr.str());
    }
    auto Own = Solver.consumeSolverResults();
    compare<decltype(Solver)>(
        C, Pr, Ref,
        [&](uint32_t N, uint32_t D) -> int {
          auto Row = Own.resultsAt(Node(N));
          auto It = Row.find(D);
          return It == Row.end() ? -1 : It->second.X;
        },
        "ide-owning");
  }
  // one-shot entry point
  if (C.Cases % 16 == 0 || C.replaying()) {
    IdeProblem Prob(Pr);
    auto Own = psr::solveIDEProblem(Prob, ICF);
    compare<int>(
        C, Pr, Ref,
        [&](uint32_t N, uint32_t D) -> int {
          auto Row = Own.resultsAt(Node(N));
          auto It = Row.find(D);
          return It == Row.end() ? -1 : It->second.X;
        },
        "ide-oneshot");
  }
}

static void ifdsBody(mc::Ctx &C, int Shape) {
  Problem Pr;
  if (!gen(C, Pr, Shape))
    return;
  if (!C.mine())
    return;
  auto Ref = summaries(Pr);
  bool Hit;
  auto Conf = configurations(C, Pr, isRecursive(Shape) ? 4 : 8, Hit);
  uint64_t H = 11;
  unsigned Facts = 0;
  for (uint32_t N = 1; N < Pr.P.Nodes.size(); ++N)
    for (int D = 0; D < ND; ++D) {
      bool A = Conf.R[N][D] >= 0, B = Ref.R[N][D] >= 0;
      if ((A && !B) || (!Hit && A != B)) {
        fprintf(stderr, "reference models disagree: %s\n", Pr.str().c_str());
        _exit(3);
      }
      H = mc::mix(H, B);
      Facts += B && D;
    }
  C.outcome(H);
  if (Facts)
    C.nontrivial(ctrlHash(Pr.str()));
  if (C.wantSample() || (C.Cases & (C.Cases - 1)) == 0)
    C.sample(Pr.str());
  synth::ICFG ICF(Pr.P);
  std::set<uint32_t> Skip;
  for (auto &S : Pr.Summaries)
    Skip.insert(S.second);
  for (unsigned K = 0; K < (C.replaying() ? 4 : 1); ++K) {
    unsigned W = C.replaying() ? K : C.Cases % 4;
    IfdsProblem Prob(Pr);
    Prob.ExplicitZero = W & 1;
    Prob.getIFDSIDESolverConfig().setAutoAddZero(!(W & 1));
    Prob.getIFDSIDESolverConfig().setRecordEdges(W & 2);
    psr::IFDSSolver<IfdsDomain> Solver(Prob, &ICF);
    auto Res = Solver.solve();
    C.trace();
    for (uint32_t N = 1; N < Pr.P.Nodes.size(); ++N) {
      if (Skip.count(Pr.P.Nodes[N].Fun))
        continue;
      std::set<uint32_t> Want;
      for (uint32_t D = 0; D < ND; ++D)
        if (Ref.R[N][D] >= 0)
          Want.insert(D);
      auto Str = [&](const char *W, const std::set<uint32_t> &Got) {
        std::string S = Pr.str() + "\n" + W + " at n" + std::to_string(N) + ": expected {";
        for (auto D : Want)
          S += " " + std::to_string(D);
        S += " } got {";
        for (auto D : Got)
          S += " " + std::to_string(D);
        return S + " }";
      };
      auto G1 = Solver.ifdsResultsAt(Node(N));
      auto G2 = Res.ifdsResultsAt(Node(N));
      std::set<uint32_t> G3;
      for (auto &[D, B] : Solver.resultsAt(Node(N))) {
        G3.insert(D);
        C.check(B == psr::BinaryDomain::BOTTOM, "ifds:value", Pr.str());
      }
      C.check(G1 == Want, Want.size() > G1.size() ? "ifds:missing-fact" : "ifds:spurious-fact", Str("ifdsResultsAt", G1));
      C.check(G2 == Want, "ifds:results-view", Str("SolverResults::ifdsResultsAt", G2));
      C.check(G3 == Want, "ifds:resultsAt", Str("resultsAt", G3));
    }
  }
}

int main(int argc, char **argv) {
  bool Ifds = getenv("MC_IFDS") != nullptr;
  std::vector<mc::Part> Parts;
  for (int S = 0; S < NumShapes; ++S)
    Parts.push_back({std::string(Ifds ? "ifds-" : "ide-") + shapeName(S), [S, Ifds](mc::Ctx &C) {
                       if (Ifds)
                         ifdsBody(C, S);
                       else
                         ideBody(C, S);
                     }});
  return mc::run(argc, argv, Parts);
}
