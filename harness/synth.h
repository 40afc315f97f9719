// A synthetic program representation for the generic (IR independent) solvers:
// nodes, functions, an ICFG with exactly the interface the solvers need.
#pragma once
#include "llvm/ADT/ArrayRef.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/Support/raw_ostream.h"
#include <cassert>
#include <cstdint>
#include <functional>
#include <set>
#include <string>
#include <vector>

namespace synth {

struct Func {
  uint32_t Id = 0;
  Func() = default;
  Func(uint32_t I) : Id(I) {}
  operator uint32_t() const { return Id; }
  const Func *operator->() const { return this; }
  llvm::StringRef getName() const {
    static const char *const Names[] = {"f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9"};
    return Names[Id % 10];
  }
};
struct Node {
  uint32_t Id = 0;
  Node() = default;
  Node(uint32_t I) : Id(I) {}
  operator uint32_t() const { return Id; }
  const Node *operator->() const { return this; }
  Func getFunction() const;
};
inline thread_local const std::vector<uint32_t> *CurFuncOf = nullptr;
inline Func Node::getFunction() const { return Func(CurFuncOf ? (*CurFuncOf)[Id] : 0); }

// Ids start at 1: 0 is never a node or a function.
struct Prog {
  struct N {
    uint32_t Fun = 0;
    std::vector<Node> Succs;
    std::vector<Node> Preds;
    bool Call = false;
    bool Exit = false;
    std::vector<Func> Callees;
  };
  struct F {
    uint32_t Start = 0; // 0: declaration
  };
  std::vector<N> Nodes{1};
  std::vector<F> Funs{1};

  uint32_t addFun() {
    Funs.emplace_back();
    return Funs.size() - 1;
  }
  uint32_t addNode(uint32_t Fun) {
    N X;
    X.Fun = Fun;
    Nodes.push_back(X);
    if (!Funs[Fun].Start)
      Funs[Fun].Start = Nodes.size() - 1;
    return Nodes.size() - 1;
  }
  void edge(uint32_t A, uint32_t B) {
    Nodes[A].Succs.push_back(Node(B));
    Nodes[B].Preds.push_back(Node(A));
  }
  void call(uint32_t A, std::vector<uint32_t> Callees) {
    Nodes[A].Call = true;
    for (auto C : Callees)
      Nodes[A].Callees.push_back(Func(C));
  }
  void exits() {
    for (size_t I = 1; I < Nodes.size(); ++I)
      if (Nodes[I].Succs.empty() && !Nodes[I].Call)
        Nodes[I].Exit = true;
  }
  std::string str() const {
    std::string S;
    for (size_t I = 1; I < Nodes.size(); ++I) {
      auto &X = Nodes[I];
      S += "n" + std::to_string(I) + "(f" + std::to_string(X.Fun) + (Funs[X.Fun].Start == I ? ",start" : "") + (X.Exit ? ",exit" : "") + ")";
      if (X.Call) {
        S += " call{";
        for (auto C : X.Callees)
          S += " f" + std::to_string(C.Id);
        S += " }";
      }
      S += "->";
      for (auto T : X.Succs)
        S += " n" + std::to_string(T.Id);
      S += "; ";
    }
    return S;
  }
};

class ICFG {
public:
  using n_t = Node;
  using f_t = Func;
  ICFG(const Prog &P) : P(P) {}
  const std::vector<Node> &getReturnSitesOfCallAt(Node N) const { return P.Nodes[N.Id].Succs; }
  const std::vector<Func> &getCalleesOfCallAt(Node N) const { return P.Nodes[N.Id].Callees; }
  std::vector<Node> getStartPointsOf(Func F) const {
    if (!P.Funs[F.Id].Start)
      return {};
    return {Node(P.Funs[F.Id].Start)};
  }
  Func getFunctionOf(Node N) const { return Func(P.Nodes[N.Id].Fun); }
  llvm::StringRef getFunctionName(Func F) const {
    return F.getName();
  }
  bool isCallSite(Node N) const { return P.Nodes[N.Id].Call; }
  bool isExitInst(Node N) const { return P.Nodes[N.Id].Exit; }
  bool isStartPoint(Node N) const { return P.Funs[P.Nodes[N.Id].Fun].Start == N.Id; }
  const std::vector<Node> &getSuccsOf(Node N) const { return P.Nodes[N.Id].Succs; }
  const std::vector<Node> &getPredsOf(Node N) const { return P.Nodes[N.Id].Preds; }
  std::vector<Node> getCallsFromWithin(Func F) const {
    std::vector<Node> R;
    for (uint32_t I = 1; I < P.Nodes.size(); ++I)
      if (P.Nodes[I].Fun == F.Id && P.Nodes[I].Call)
        R.push_back(Node(I));
    return R;
  }
  std::vector<Node> getCallersOf(Func F) const {
    std::vector<Node> R;
    for (uint32_t I = 1; I < P.Nodes.size(); ++I)
      for (auto C : P.Nodes[I].Callees)
        if (C == F) {
          R.push_back(Node(I));
          break;
        }
    return R;
  }
  std::vector<Node> allNonCallStartNodes() const {
    std::vector<Node> R;
    for (uint32_t I = 1; I < P.Nodes.size(); ++I)
      if (!P.Nodes[I].Call && !isStartPoint(Node(I)))
        R.push_back(Node(I));
    return R;
  }
  std::string getStatementId(Node N) const { return std::to_string(N.Id); }
  std::string getFunctionId(Func F) const { return std::to_string(F.Id); }
  std::vector<Func> getAllFunctions() const {
    std::vector<Func> R;
    for (uint32_t I = 1; I < P.Funs.size(); ++I)
      R.push_back(Func(I));
    return R;
  }
  const Prog &P;
};

inline llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, Node N) { return OS << "n" << N.Id; }
inline llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, Func F) { return OS << "f" << F.Id; }

struct DB;
} // namespace synth

namespace std {
template <> struct hash<synth::Node> {
  size_t operator()(synth::Node N) const { return N.Id; }
};
template <> struct hash<synth::Func> {
  size_t operator()(synth::Func N) const { return N.Id; }
};
} // namespace std

#include "phasar/DB/ProjectIRDBBase.h"
namespace psr {
template <> struct ProjectIRDBTraits<synth::DB> {
  using n_t = synth::Node;
  using f_t = synth::Func;
  using m_t = const synth::Prog *;
  using g_t = synth::Node;
};
} // namespace psr
namespace synth {
struct DB : psr::ProjectIRDBBase<DB> {
  friend psr::ProjectIRDBBase<DB>;

private:
  [[nodiscard]] bool isValidImpl() const noexcept { return true; }
  void dumpImpl() const {}
  [[nodiscard]] bool debugInfoAvailableImpl() const { return false; }
};
} // namespace synth

namespace psr {
inline std::string toStr(uint32_t I) { return std::to_string(I); }
} // namespace psr
