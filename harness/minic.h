// Small imperative programs as LLVM IR text: statements over the variables %x, %y (locals of main) and @g (a global), put together by sequence, branch and loop.
#pragma once
#include "mc.h"
#include <string>
#include <functional>
#include <vector>

namespace minic {
/// X and Y in the text stand for two variables (pointers), $ for a fresh number.
struct Stmt {
  const char *Name, *Text;
  bool Two = true; // uses Y
};
inline std::string subst(const std::string &T, const std::string &X, const std::string &Y, unsigned &N) {
  std::string R, Num = std::to_string(N++);
  for (size_t I = 0; I < T.size(); ++I) {
    char Ch = T[I];
    bool Alone = (I == 0 || !isalnum((unsigned char)T[I - 1])) && (I + 1 == T.size() || !isalnum((unsigned char)T[I + 1]));
    if (Ch == '$')
      R += Num;
    else if (Ch == 'X' && Alone)
      R += X;
    else if (Ch == 'Y' && Alone)
      R += Y;
    else
      R += Ch;
  }
  return R + "\n";
}
struct Gen {
  mc::Ctx &C;
  std::vector<std::string> Vars;
  const std::vector<Stmt> &S;
  unsigned N = 0;
  std::string Name; // readable form
  unsigned Leaf = 0;
  bool Sym = false; // the variables are alike: the first statement writes the first one

  std::string leaf() {
    ++Leaf;
    auto &T = S[C.choose(unsigned(S.size()))];
    unsigned X = Sym && Leaf == 1 ? 0 : C.choose(unsigned(Vars.size())), Y = T.Two ? C.choose(unsigned(Vars.size())) : X;
    Name += std::string(T.Name) + "(" + Vars[X] + (T.Two ? "," + Vars[Y] : "") + ")";
    return subst(T.Text, Vars[X], Vars[Y], N);
  }
  std::string branch(const std::function<std::string()> &A, const std::function<std::string()> &B) {
    auto I = std::to_string(N++);
    Name += "if{";
    auto SA = A();
    Name += "}else{";
    auto SB = B();
    Name += "}";
    return "%c" + I + " = call i1 @nd()\nbr i1 %c" + I + ", label %t" + I + ", label %e" + I + "\nt" + I + ":\n" + SA + "br label %j" + I + "\ne" + I + ":\n" + SB +
           "br label %j" + I + "\nj" + I + ":\n";
  }
  std::string loop(const std::function<std::string()> &A) {
    auto I = std::to_string(N++);
    Name += "while{";
    auto SA = A();
    Name += "}";
    return "br label %h" + I + "\nh" + I + ":\n%c" + I + " = call i1 @nd()\nbr i1 %c" + I + ", label %t" + I + ", label %j" + I + "\nt" + I + ":\n" + SA + "br label %h" + I +
           "\nj" + I + ":\n";
  }
  /// All shapes with K leaves.
  std::string body(unsigned K) {
    auto L = [this] { return leaf(); };
    auto None = [] { return std::string(); };
    auto Seq = [this] {
      auto A = leaf();
      Name += ";";
      return A + leaf();
    };
    if (K == 1)
      switch (C.choose(3)) {
      case 0: return leaf();
      case 1: return branch(L, None);
      default: return loop(L);
      }
    if (K == 2)
      switch (C.choose(7)) {
      case 0: return Seq();
      case 1: return branch(L, L);
      case 2: {
        auto A = branch(L, None);
        Name += ";";
        return A + leaf();
      }
      case 3: {
        auto A = leaf();
        Name += ";";
        return A + branch(L, None);
      }
      case 4: {
        auto A = loop(L);
        Name += ";";
        return A + leaf();
      }
      case 5: {
        auto A = leaf();
        Name += ";";
        return A + loop(L);
      }
      default: return loop(Seq);
      }
    switch (C.choose(6)) {
    case 0: {
      auto A = Seq();
      Name += ";";
      return A + leaf();
    }
    case 1: {
      auto A = branch(L, L);
      Name += ";";
      return A + leaf();
    }
    case 2: {
      auto A = leaf();
      Name += ";";
      return A + branch(L, L);
    }
    case 3: return loop([&] { return branch(L, L) + leaf(); });
    case 4: return branch(Seq, L);
    default: {
      auto A = leaf();
      Name += ";";
      return A + loop(Seq);
    }
    }
  }
};
} // namespace minic
