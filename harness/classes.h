// Generated C++-like class hierarchies, in the shape clang 14 gives them (typed pointers, Itanium ABI), with the facts about them a type hierarchy has to report.
#pragma once
#include "ir.h"
#include <array>
#include <set>

namespace cls {
inline std::string num(size_t N) { return std::to_string(N); }
struct Slot {
  unsigned Method;
  int Impl; // class of the implementation, -1: pure virtual
  bool Thunk;
};
struct Hier {
  unsigned N = 1;
  std::vector<std::vector<unsigned>> Par;   // direct bases
  std::vector<std::array<uint8_t, 2>> Decl; // per method: 0 not declared, 1 defined, 2 pure
  unsigned Kw = 0;                          // 0: struct., 1: class., 2: alternating
  bool Ns = false, Covariant = false, Sret = false;

  bool poly(unsigned C) const {
    if (Decl[C][0] || Decl[C][1])
      return true;
    for (auto P : Par[C])
      if (poly(P))
        return true;
    return false;
  }
  bool subOf(unsigned C, unsigned B) const { // reflexive, transitive
    if (C == B)
      return true;
    for (auto P : Par[C])
      if (subOf(P, B))
        return true;
    return false;
  }
  bool hasTI(unsigned C) const {
    for (unsigned D = 0; D < N; ++D)
      if (poly(D) && subOf(D, C))
        return true;
    return false;
  }
  /// what the type infos show
  bool tiSubOf(unsigned C, unsigned B) const {
    if (C == B)
      return true;
    if (!hasTI(C))
      return false;
    for (auto P : Par[C])
      if (tiSubOf(P, B))
        return true;
    return false;
  }
  std::vector<std::vector<Slot>> tables(unsigned C) const {
    std::vector<std::vector<Slot>> R;
    if (!poly(C))
      return R;
    std::set<unsigned> Known;
    for (auto P : Par[C])
      for (auto T : tables(P)) {
        bool Prim = R.empty();
        for (auto &S : T) {
          if (Prim)
            Known.insert(S.Method);
          if (Decl[C][S.Method]) {
            S.Impl = Decl[C][S.Method] == 1 ? int(C) : -1;
            S.Thunk = !Prim && S.Impl >= 0;
          }
        }
        R.push_back(T);
      }
    if (R.empty())
      R.emplace_back();
    for (unsigned M = 0; M < 2; ++M)
      if (Decl[C][M] && !Known.count(M))
        R[0].push_back({M, Decl[C][M] == 1 ? int(C) : -1, false});
    return R;
  }
  bool abstract(unsigned C) const {
    for (auto &T : tables(C))
      for (auto &S : T)
        if (S.Impl < 0)
          return true;
    return false;
  }
  int slot(unsigned C, unsigned M) const { // in the primary table
    auto T = tables(C);
    if (!T.empty())
      for (size_t K = 0; K < T[0].size(); ++K)
        if (T[0][K].Method == M)
          return int(K);
    return -1;
  }
  std::string tyName(unsigned C) const { return std::string(Kw == 0 || (Kw == 2 && C % 2) ? "struct." : "class.") + (Ns ? "ns::" : "") + "C" + num(C); }
  std::string ty(unsigned C) const { return Ns ? "%\"" + tyName(C) + "\"" : "%" + tyName(C); }
  std::string mangled(unsigned C) const { return Ns ? "N2ns2C" + num(C) + "E" : "2C" + num(C); }
  std::string fn(int C, unsigned M, bool Thunk = false) const {
    if (C < 0)
      return "__cxa_pure_virtual";
    auto Q = Ns ? "N2ns2C" + num(unsigned(C)) : "N2C" + num(unsigned(C));
    return (Thunk ? "_ZThn8_" : "_Z") + Q + "2m" + num(M) + "Ev";
  }
  std::string ctor(unsigned C) const { return (Ns ? "_ZN2ns2C" : "_ZN2C") + num(C) + "C2Ev"; }
  std::string ret(unsigned C, unsigned M) const { return M == 0 || Sret ? "void" : Covariant ? ty(C) + "*" : "i32"; }
  std::string result(unsigned M, bool Param) const { return M && Sret ? Param ? "%struct.Res* sret(%struct.Res) align 8 %res, " : "%struct.Res*, " : ""; } // the hidden result parameter
  std::string fnTy(int C, unsigned M) const { return C < 0 ? "void ()" : ret(unsigned(C), M) + " (" + result(M, false) + ty(unsigned(C)) + "*)"; }
  std::string tiTy(unsigned C) const {
    if (Par[C].empty())
      return "{ i8*, i8* }";
    if (Par[C].size() == 1)
      return "{ i8*, i8*, i8* }";
    std::string S = "{ i8*, i8*, i32, i32";
    for (size_t K = 0; K < Par[C].size(); ++K)
      S += ", i8*, i64";
    return S + " }";
  }
  std::string vtTy(unsigned C) const {
    std::string S = "{ ";
    auto T = tables(C);
    for (size_t K = 0; K < T.size(); ++K)
      S += (K ? ", [" : "[") + num(T[K].size() + 2) + " x i8*]";
    return S + " }";
  }
  std::string vptr(unsigned C, unsigned Table = 0) const {
    return "i8** getelementptr inbounds (" + vtTy(C) + ", " + vtTy(C) + "* @_ZTV" + mangled(C) + ", i32 0, inrange i32 " + num(Table) + ", i32 2)";
  }
  // layout, if all roots are polymorphic
  unsigned size(unsigned C) const {
    unsigned R = 0;
    for (auto P : Par[C])
      R += size(P);
    return R ? R : 8;
  }
  std::vector<unsigned> vptrOffsets(unsigned C) const {
    std::vector<unsigned> R;
    unsigned B = 0;
    for (auto P : Par[C]) {
      for (auto O : vptrOffsets(P))
        R.push_back(B + O);
      B += size(P);
    }
    return R.empty() ? std::vector<unsigned>{0} : R;
  }
  int offsetOf(unsigned C, unsigned Base) const { // -1: none
    if (C == Base)
      return 0;
    unsigned B = 0;
    for (auto P : Par[C]) {
      int O = offsetOf(P, Base);
      if (O >= 0)
        return int(B) + O;
      B += size(P);
    }
    return -1;
  }
  std::vector<std::string> bodies() const {
    std::vector<std::string> B(N);
    for (unsigned C = 0; C < N; ++C) {
      std::string S;
      bool OwnVptr = poly(C);
      for (auto P : Par[C])
        OwnVptr = OwnVptr && !poly(P);
      if (OwnVptr)
        S = "i32 (...)**";
      for (auto P : Par[C])
        S += (S.empty() ? "" : ", ") + ty(P);
      B[C] = S.empty() ? "i8" : S;
    }
    return B;
  }
  /// types, type infos, vtables and method bodies; single inheritance also constructors
  std::string ir() const {
    std::string S = "target datalayout = \"e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128\"\n";
    if (Sret)
      S += "%struct.Res = type { [3 x i64] }\n";
    auto B = bodies();
    for (unsigned C = 0; C < N; ++C)
      S += ty(C) + " = type { " + B[C] + " }\n";
    for (auto *X : {"_ZTVN10__cxxabiv117__class_type_infoE", "_ZTVN10__cxxabiv120__si_class_type_infoE", "_ZTVN10__cxxabiv121__vmi_class_type_infoE"})
      S += "@" + std::string(X) + " = external global i8*\n";
    S += "declare void @__cxa_pure_virtual()\ndeclare i8* @_Znwm(i64)\ndeclare i1 @nd()\n";
    std::set<std::string> Done;
    std::string Fns;
    for (unsigned C = 0; C < N; ++C) {
      if (hasTI(C)) {
        auto Nm = num(2 + num(C).size()) + "C" + num(C);
        S += "@_ZTS" + mangled(C) + " = linkonce_odr constant [4 x i8] c\"2C" + num(C) + "\\00\"\n";
        auto Vt = Par[C].empty() ? "_ZTVN10__cxxabiv117__class_type_infoE" : Par[C].size() == 1 ? "_ZTVN10__cxxabiv120__si_class_type_infoE" : "_ZTVN10__cxxabiv121__vmi_class_type_infoE";
        S += "@_ZTI" + mangled(C) + " = linkonce_odr constant " + tiTy(C) + " { i8* bitcast (i8** getelementptr inbounds (i8*, i8** @" + Vt +
             ", i64 2) to i8*), i8* getelementptr inbounds ([4 x i8], [4 x i8]* @_ZTS" + mangled(C) + ", i32 0, i32 0)";
        auto ti = [&](unsigned P) { return "i8* bitcast (" + tiTy(P) + "* @_ZTI" + mangled(P) + " to i8*)"; };
        if (Par[C].size() == 1) {
          S += ", " + ti(Par[C][0]);
        } else if (Par[C].size() > 1) {
          S += ", i32 0, i32 " + num(Par[C].size());
          for (size_t K = 0; K < Par[C].size(); ++K)
            S += ", " + ti(Par[C][K]) + ", i64 " + num(2048 * K + 2);
        }
        S += " }\n";
      }
      if (poly(C)) {
        S += "@_ZTV" + mangled(C) + " = linkonce_odr unnamed_addr constant " + vtTy(C) + " { ";
        auto T = tables(C);
        for (size_t K = 0; K < T.size(); ++K) {
          S += (K ? ", [" : "[") + num(T[K].size() + 2) + " x i8*] [i8* " + (K ? "inttoptr (i64 -" + num(8 * K) + " to i8*)" : std::string("null")) + ", i8* bitcast (" + tiTy(C) + "* @_ZTI" + mangled(C) +
               " to i8*)";
          for (auto &X : T[K]) {
            S += ", i8* bitcast (" + fnTy(X.Impl, X.Method) + "* @" + fn(X.Impl, X.Method, X.Thunk) + " to i8*)";
            if (X.Impl >= 0 && Done.insert(fn(X.Impl, X.Method, X.Thunk)).second)
              Fns += "define " + ret(unsigned(X.Impl), X.Method) + " @" + fn(X.Impl, X.Method, X.Thunk) + "(" + result(X.Method, true) + ty(unsigned(X.Impl)) + "* %this) {\n  ret " +
                     (X.Method == 0 || Sret ? "void" : Covariant ? ty(unsigned(X.Impl)) + "* %this" : "i32 " + num(unsigned(X.Impl))) + "\n}\n";
          }
          S += "]";
        }
        S += " }\n";
      }
      Fns += "define void @use" + num(C) + "(" + ty(C) + "* %p) {\n  ret void\n}\n";
    }
    return S + Fns;
  }
  std::string ctors() const {
    std::string S;
    for (unsigned C = 0; C < N; ++C) {
      S += "define linkonce_odr void @" + ctor(C) + "(" + ty(C) + "* %this) {\n  %s = alloca " + ty(C) + "*\n  store " + ty(C) + "* %this, " + ty(C) + "** %s\n  %t = load " + ty(C) + "*, " + ty(C) + "** %s\n";
      if (Par[C].size() == 1)
        S += "  %b = bitcast " + ty(C) + "* %t to " + ty(Par[C][0]) + "*\n  call void @" + ctor(Par[C][0]) + "(" + ty(Par[C][0]) + "* %b)\n";
      if (Par[C].size() > 1) {
        for (size_t K = 0; K < Par[C].size(); ++K)
          S += "  %b" + num(K) + " = getelementptr " + ty(C) + ", " + ty(C) + "* %t, i32 0, i32 " + num(K) + "\n  call void @" + ctor(Par[C][K]) + "(" + ty(Par[C][K]) + "* %b" + num(K) + ")\n";
        auto O = vptrOffsets(C);
        S += "  %r = bitcast " + ty(C) + "* %t to i8*\n";
        for (size_t K = 1; K < O.size(); ++K)
          S += "  %g" + num(K) + " = getelementptr i8, i8* %r, i64 " + num(O[K]) + "\n  %v" + num(K) + " = bitcast i8* %g" + num(K) + " to i32 (...)***\n  store i32 (...)** bitcast (" + vptr(C, unsigned(K)) +
               " to i32 (...)**), i32 (...)*** %v" + num(K) + "\n";
      }
      if (poly(C))
        S += "  %v = bitcast " + ty(C) + "* %t to i32 (...)***\n  store i32 (...)** bitcast (" + vptr(C) + " to i32 (...)**), i32 (...)*** %v\n";
      S += "  ret void\n}\n";
    }
    return S;
  }
  std::string str() const {
    std::string S;
    for (unsigned C = 0; C < N; ++C) {
      S += "C" + num(C);
      for (auto P : Par[C])
        S += (P == Par[C][0] ? " : C" : ", C") + num(P);
      S += " {";
      for (unsigned M = 0; M < 2; ++M)
        if (Decl[C][M])
          S += " m" + num(M) + (Decl[C][M] == 2 ? "=0" : "");
      S += " } ";
    }
    return S + (Kw == 0 ? "struct" : Kw == 1 ? "class" : "mixed") + (Ns ? " in ns" : "") + (Covariant ? " covariant" : Sret ? " sret" : "");
  }
};
} // namespace cls
