// The database-backed graph store: every query, through whichever index, returns exactly the matching edges, also after the store was reopened or the process ended in the middle.
#include "mc.h"
#include "phasar/DB/Hexastore.h"
#include <fcntl.h>
#include <fstream>
#include <memory>
#include <set>
#include <sqlite3.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace psr;
using Edge = std::array<std::string, 3>;
using Set = std::set<Edge>;
using std::to_string;

static std::string show(const Edge &E) {
  std::string S = "(";
  for (auto &N : E)
    S += "'" + N + "' ";
  S.back() = ')';
  return S;
}
static std::string show(const Set &X) {
  std::string S = "{";
  for (auto &E : X)
    S += show(E);
  return S + "}";
}

/// Every query over the given names against the edges that must be in the store.
static void checkAll(mc::Ctx &C, Hexastore &H, const Set &Want, const std::vector<std::string> &Names, const std::function<std::string()> &W) {
  std::vector<std::string> Ns = Names;
  Ns.push_back("?");
  for (auto &S : Ns)
    for (auto &P : Ns)
      for (auto &O : Ns) {
        Edge Q{S, P, O};
        Set X;
        for (auto &E : Want)
          if ((S == "?" || S == E[0]) && (P == "?" || P == E[1]) && (O == "?" || O == E[2]))
            X.insert(E);
        Set G;
        auto R = H.get(Q, Want.size());
        for (auto &E : R)
          G.insert(Edge{E.Subject, E.Predicate, E.Object});
        C.transition();
        C.check(G.size() == R.size(), "repeated", [&] { return W() + ": query " + show(Q) + " lists an edge twice"; });
        if (G != X) {
          bool Missing = !std::includes(G.begin(), G.end(), X.begin(), X.end());
          C.check(false, Missing ? "missing" : "wrong", [&] { return W() + ": query " + show(Q) + " gives " + show(G) + ", expected " + show(X); });
        }
      }
}

// a file system that ends the process at the K-th write operation (a torn write of it first, if asked)
namespace crash {
static long Count = 0, At = -1;
static int Torn = 0;
static sqlite3_vfs *Real;
struct File {
  sqlite3_file Base;
  sqlite3_file *R() { return reinterpret_cast<sqlite3_file *>(this + 1); }
};
static sqlite3_file *r(sqlite3_file *F) { return reinterpret_cast<File *>(F)->R(); }
static bool now() { return Count++ == At; }
static int xClose(sqlite3_file *F) { return r(F)->pMethods->xClose(r(F)); }
static int xRead(sqlite3_file *F, void *B, int N, sqlite3_int64 O) { return r(F)->pMethods->xRead(r(F), B, N, O); }
static int xWrite(sqlite3_file *F, const void *B, int N, sqlite3_int64 O) {
  if (now()) {
    if (Torn)
      r(F)->pMethods->xWrite(r(F), B, Torn == 1 ? N / 2 : N - 1, O);
    _exit(77);
  }
  return r(F)->pMethods->xWrite(r(F), B, N, O);
}
static int xTruncate(sqlite3_file *F, sqlite3_int64 S) {
  if (now())
    _exit(77);
  return r(F)->pMethods->xTruncate(r(F), S);
}
static int xSync(sqlite3_file *F, int) {
  if (now())
    _exit(77);
  return SQLITE_OK; // the process ends, not the machine
}
static int xFileSize(sqlite3_file *F, sqlite3_int64 *S) { return r(F)->pMethods->xFileSize(r(F), S); }
static int xLock(sqlite3_file *F, int L) { return r(F)->pMethods->xLock(r(F), L); }
static int xUnlock(sqlite3_file *F, int L) { return r(F)->pMethods->xUnlock(r(F), L); }
static int xCheck(sqlite3_file *F, int *O) { return r(F)->pMethods->xCheckReservedLock(r(F), O); }
static int xControl(sqlite3_file *F, int Op, void *A) { return r(F)->pMethods->xFileControl(r(F), Op, A); }
static int xSector(sqlite3_file *F) { return r(F)->pMethods->xSectorSize(r(F)); }
static int xChar(sqlite3_file *F) { return r(F)->pMethods->xDeviceCharacteristics(r(F)); }
static const sqlite3_io_methods Methods = {1, xClose, xRead, xWrite, xTruncate, xSync, xFileSize, xLock, xUnlock, xCheck, xControl, xSector, xChar, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr};
static int xOpen(sqlite3_vfs *, const char *N, sqlite3_file *F, int Fl, int *O) {
  F->pMethods = nullptr;
  int Rc = Real->xOpen(Real, N, r(F), Fl, O);
  if (Rc == SQLITE_OK)
    F->pMethods = &Methods;
  return Rc;
}
static int xDelete(sqlite3_vfs *, const char *N, int) {
  if (now())
    _exit(77);
  return Real->xDelete(Real, N, 0);
}
static void install() {
  static sqlite3_vfs V;
  if (Real)
    return;
  Real = sqlite3_vfs_find(nullptr);
  V = *Real;
  V.szOsFile = sizeof(File) + Real->szOsFile;
  V.zName = "crash";
  V.pNext = nullptr;
  V.xOpen = xOpen;
  V.xDelete = xDelete;
  sqlite3_vfs_register(&V, 1);
}
} // namespace crash

static std::string scratch() {
  static std::string D;
  if (D.empty()) {
    const char *S = getenv("MC_SCRATCH");
    std::string T = (access("/dev/shm", W_OK) == 0 ? std::string("/dev/shm") : std::string(S ? S : "/tmp")) + "/mc24.XXXXXX";
    D = mkdtemp(T.data());
  }
  return D;
}
static void removeStore(const std::string &F) {
  unlink(F.c_str());
  unlink((F + "-journal").c_str());
}
struct Cleanup {
  std::string D;
  ~Cleanup() {
    if (!D.empty()) {
      removeStore(D + "/s");
      rmdir(D.c_str());
    }
  }
};

static std::vector<Edge> universe(const std::vector<std::string> &Ns) {
  std::vector<Edge> U;
  for (auto &S : Ns)
    for (auto &P : Ns)
      for (auto &O : Ns)
        U.push_back({S, P, O});
  return U;
}

int main(int Argc, char **Argv) {
  bool T = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough";
  std::vector<mc::Part> Ps;
  // all sequences of puts; every prefix is a sequence of its own
  auto Seqs = [](mc::Ctx &C, const std::vector<std::string> &Names, unsigned Len, const std::vector<std::string> &Extra) {
    auto U = universe(Names);
    std::vector<Edge> Seq;
    unsigned N = C.choose(Len + 1);
    for (unsigned I = 0; I < N; ++I)
      Seq.push_back(U[C.choose(unsigned(U.size()))]);
    if (!C.mine())
      return;
    C.trace();
    auto W = [&] {
      std::string S = "after";
      for (auto &E : Seq)
        S += " " + show(E);
      return S;
    };
    Hexastore H(":memory:");
    Set Want;
    for (auto &E : Seq) {
      H.put(E);
      Want.insert(E);
    }
    C.states(1);
    C.nontrivial(mc::hashStr(W()));
    C.outcome(mc::hashStr(show(Want)));
    auto Ns = Names;
    Ns.insert(Ns.end(), Extra.begin(), Extra.end());
    checkAll(C, H, Want, Ns, W);
    if (C.wantSample())
      C.sample(W());
  };
  Ps.push_back({"sequences2", [=](mc::Ctx &C) { Seqs(C, {"a", "b"}, T ? 5 : 4, {"c"}); }});
  Ps.push_back({"sequences3", [=](mc::Ctx &C) { Seqs(C, {"a", "b", "c"}, 3, {}); }});
  static const std::vector<std::string> Odd = {"a", "", "A", "name", "id", "sid", "oid", "pid", "rowid", "null", "\"", "'", "''", "a'b", "a\"b", "'a'", "\"a\"", "%1%", "%", "%%", "%s", "_", "*", "--", "/*", ";", "a;b", "');--", " ", "a ", "\n", "\t", "1", "01", "1.0",
                                               "0x1", "1e0", "a?", "??", "?1", ":a", "@a", "$a", "\\", "`", "[a]", "\xc3\xa4", "\xc3\x84", "spo_subject.name", "begin;", "commit"};
  Ps.push_back({"names", [=](mc::Ctx &C) {
                  unsigned I = C.choose(unsigned(Odd.size())), J = C.choose(unsigned(Odd.size()));
                  if (I == J)
                    return;
                  Seqs(C, {Odd[I], Odd[J]}, 1 + (T || I < 2), {});
                }});
  // two handles on one file, and reopening it
  Ps.push_back({"reopen", [=](mc::Ctx &C) {
                  auto U = universe({"a", "b"});
                  struct Op {
                    int K; // 0, 1: put through a handle; 2: reopen handle 0; 3: reopen both
                    unsigned E;
                  };
                  std::vector<Op> Ops;
                  unsigned N = 1 + C.choose(T ? 4 : 3);
                  for (unsigned I = 0; I < N; ++I) {
                    unsigned K = C.choose(4);
                    // only the edges that start at a, and one other
                    Ops.push_back({int(K), K < 2 ? C.choose(5) : 0});
                  }
                  if (!C.mine())
                    return;
                  C.trace();
                  crash::install();
                  Cleanup Cl{scratch()};
                  std::string F = scratch() + "/s";
                  mkdir(scratch().c_str(), 0700);
                  removeStore(F);
                  Set Want;
                  std::string Name = "store";
                  {
                    std::unique_ptr<Hexastore> H[2];
                    for (auto &P : H)
                      P = std::make_unique<Hexastore>(F);
                    for (auto &O : Ops) {
                      if (O.K < 2) {
                        H[O.K]->put(U[O.E]);
                        Want.insert(U[O.E]);
                        Name += ", handle " + to_string(O.K) + " puts " + show(U[O.E]);
                      } else {
                        Name += O.K == 2 ? ", reopened" : ", both reopened";
                        H[0].reset();
                        if (O.K == 3)
                          H[1].reset();
                        for (auto &P : H)
                          if (!P)
                            P = std::make_unique<Hexastore>(F);
                      }
                      C.states(1);
                    }
                    for (auto &P : H)
                      checkAll(C, *P, Want, {"a", "b"}, [&] { return Name; });
                  }
                  C.nontrivial(mc::hashStr(Name));
                  C.outcome(mc::hashStr(show(Want)));
                  if (C.wantSample())
                    C.sample(Name);
                }});
  // the process ends at any write operation of the creation or of a put
  Ps.push_back({"crash", [=](mc::Ctx &C) {
                  auto U = universe({"a", "b"});
                  std::vector<Edge> Seq;
                  unsigned N = C.choose(T ? 3 : 2);
                  for (unsigned I = 0; I < N; ++I)
                    Seq.push_back(I || T ? U[C.choose(unsigned(U.size()))] : U[0]);
                  Edge Last = N || T ? U[C.choose(unsigned(U.size()))] : U[0];
                  unsigned Tn = C.choose(3);
                  bool InCtor = N == 0 && Last == U[0] && C.flip();
                  if (!C.mine())
                    return;
                  C.trace();
                  crash::install();
                  Cleanup Cl{scratch()};
                  mkdir(scratch().c_str(), 0700);
                  std::string F = scratch() + "/s";
                  Set Before(Seq.begin(), Seq.end()), After = Before;
                  After.insert(Last);
                  removeStore(F);
                  std::string Base;
                  if (!InCtor) {
                    {
                      Hexastore H(F);
                      for (auto &E : Seq)
                        H.put(E);
                    }
                    std::ifstream In(F, std::ios::binary);
                    Base.assign(std::istreambuf_iterator<char>(In), {});
                  }
                  for (long K = 0;; ++K) {
                    removeStore(F);
                    if (!InCtor)
                      std::ofstream(F, std::ios::binary) << Base;
                    pid_t P = fork();
                    if (P == 0) {
                      crash::Torn = Tn;
                      crash::Count = 0;
                      crash::At = InCtor ? K : -1;
                      Hexastore H(F);
                      if (!InCtor) {
                        crash::Count = 0;
                        crash::At = K;
                        H.put(Last);
                      }
                      _exit(crash::Count > K ? 78 : 0);
                    }
                    int St = 0;
                    waitpid(P, &St, 0);
                    if (!WIFEXITED(St) || (WEXITSTATUS(St) != 77 && WEXITSTATUS(St) != 0)) {
                      C.fail("harness", "unexpected end of the writer: " + to_string(St) + " at " + to_string(K));
                      return;
                    }
                    bool Crashed = WEXITSTATUS(St) == 77;
                    C.states(1);
                    auto W = [&] {
                      std::string S = "the process ended at write operation " + to_string(K) + (Tn == 1 ? " (half done)" : Tn == 2 ? " (a byte short)" : "") + (InCtor ? " of the creation" : " of put " + show(Last)) + " after";
                      for (auto &E : Seq)
                        S += " " + show(E);
                      return Crashed ? S : "without a crash, " + S;
                    };
                    {
                      Hexastore H(F);
                      auto R = H.get({"?", "?", "?"});
                      Set G;
                      for (auto &E : R)
                        G.insert(Edge{E.Subject, E.Predicate, E.Object});
                      Set Want = InCtor ? Set{} : G == Before && Crashed ? Before : After;
                      C.outcome(mc::mix(G.size(), mc::mix(Crashed, InCtor)));
                      checkAll(C, H, Want, {"a", "b"}, W);
                      H.put(Last);
                      checkAll(C, H, After, {"a", "b"}, [&] { return W() + ", and the edge put again"; });
                    }
                    C.nontrivial(mc::hashStr(W()));
                    if (!Crashed)
                      break;
                    C.count("crash_points");
                    if (K > 20000) {
                      C.fail("harness", "endless");
                      return;
                    }
                  }
                }});
  return mc::run(Argc, Argv, Ps);
}
