// Explorer used by every harness: enumerates all choice sequences of a body
// (depth first), spreads the cases over worker processes, and turns a failed
// check, a crash or a hang of the code under test into a replayable record.
#pragma once
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation {
  std::string Sig, Msg;
};

struct Shared { // one per worker
  volatile uint64_t Heartbeat; // ms
  volatile uint64_t Cases;
  volatile uint32_t Len;
  volatile uint32_t InCase;
  uint16_t Seq[1 << 16];
};

inline uint64_t nowMs() {
  timespec T;
  clock_gettime(CLOCK_MONOTONIC, &T); // the vdso call: std::chrono may be interposed by a harness
  return uint64_t(T.tv_sec) * 1000 + T.tv_nsec / 1000000;
}

inline uint64_t mix(uint64_t H, uint64_t V) {
  H ^= V + 0x9e3779b97f4a7c15ULL + (H << 6) + (H >> 2);
  H *= 0xff51afd7ed558ccdULL;
  H ^= H >> 33;
  return H;
}
inline uint64_t hashStr(const std::string &S) {
  uint64_t H = 1469598103934665603ULL;
  for (unsigned char C : S) {
    H ^= C;
    H *= 1099511628211ULL;
  }
  return mix(H, S.size());
}

class Ctx {
public:
  // --- used by bodies
  /// Picks a number in [0,N); every value is explored.
  uint32_t choose(uint32_t N) {
    if (N == 0) {
      fprintf(stderr, "mc: choose(0)\n");
      abort();
    }
    uint32_t V;
    if (Pos < Seq.size()) {
      V = Seq[Pos];
      if (Pos < Arity.size() && Arity[Pos] != N && Arity[Pos] != 0) {
        fprintf(stderr, "mc: replay divergence at choice %zu: arity %u, was %u\n", Pos, N, Arity[Pos]);
        _exit(3);
      }
      if (V >= N) {
        fprintf(stderr, "mc: replay divergence at choice %zu: value %u of %u\n", Pos, V, N);
        _exit(3);
      }
      if (Pos >= Arity.size())
        Arity.push_back(N);
      else
        Arity[Pos] = N;
    } else {
      V = 0;
      Seq.push_back(0);
      Arity.push_back(N);
    }
    ++Pos;
    if (Shm && Pos < sizeof(Shm->Seq) / 2) {
      Shm->Seq[Pos - 1] = V;
      Shm->Len = Pos;
    }
    return V;
  }
  bool flip() { return choose(2) == 1; }
  /// Has to be called once per case, after the cheap generation phase: false
  /// means that another worker does this case.
  bool mine() {
    if (Replaying) {
      begin();
      return true;
    }
    if (MinePos == SIZE_MAX) {
      MinePos = Pos;
      // a contiguous block per worker would be uneven: spread by a hash of the index
      MineVal = mix(0x1234, Index++) % NumWorkers == Worker;
      if (MineVal)
        ++Generated;
    }
    if (MineVal)
      begin();
    return MineVal;
  }
  void check(bool Cond, const std::string &Sig, const std::string &Msg = {}) {
    if (!Cond)
      fail(Sig, Msg);
  }
  template <typename F, typename = decltype(std::declval<F>()())>
  void check(bool Cond, const char *Sig, F &&Msg) {
    if (!Cond)
      fail(Sig, Msg());
  }
  [[noreturn]] void fail(const std::string &Sig, const std::string &Msg = {}) { throw Violation{Sig, Msg}; }
  /// Distinct states of the reference model / system.
  void state(uint64_t H) {
    if (States.size() < MaxStates)
      States.insert(H);
    else
      ++Counters["states_not_deduplicated"];
  }
  /// States that are distinct by construction (deduplicated by the caller).
  void states(uint64_t N) { StateCount += N; }
  void transition(uint64_t N = 1) { Transitions += N; }
  void trace(uint64_t N = 1) { Traces += N; }
  void count(const char *Name, uint64_t N = 1) { Counters[Name] += N; }
  /// Distinct non-trivial cases (by hash).
  void nontrivial(uint64_t H) { Nontriv.insert(H); }
  void outcome(uint64_t H) { Outcomes.insert(H); }
  bool wantSample() const { return Samples.size() < 3 || Replaying; }
  void sample(std::string S) {
    if (Replaying)
      printf("case: %s\n", S.c_str());
    if (Samples.size() < 3 || (Cases & (Cases - 1)) == 0) {
      if (Samples.size() >= 6)
        Samples.pop_back();
      Samples.push_back(std::move(S));
    }
  }
  bool thorough() const { return Thorough; }
  bool replaying() const { return Replaying; }
  /// Marks activity for cases that are long but progress.
  void beat() {
    if (Shm)
      Shm->Heartbeat = nowMs();
  }
  std::string seqStr() const {
    std::string S;
    for (size_t I = 0; I < Pos; ++I)
      S += (I ? "," : "") + std::to_string(Seq[I]);
    return S;
  }

  // --- driver state
  std::vector<uint32_t> Seq, Arity;
  size_t Pos = 0, MinePos = SIZE_MAX;
  bool MineVal = false, Replaying = false, Thorough = false;
  uint64_t Index = 0, Generated = 0, Cases = 0, Transitions = 0, Traces = 0, StateCount = 0;
  unsigned Worker = 0, NumWorkers = 1;
  Shared *Shm = nullptr;
  size_t MaxStates = 1500000;
  std::unordered_set<uint64_t> States, Nontriv, Outcomes;
  std::map<std::string, uint64_t> Counters;
  std::vector<std::string> Samples;

private:
  void begin() {
    ++Cases;
    if (Shm) {
      Shm->Heartbeat = nowMs();
      Shm->InCase = 1;
      Shm->Cases = Cases;
    }
  }
};

inline std::string jsonStr(const std::string &S) {
  std::string R = "\"";
  for (unsigned char C : S) {
    if (C == '"' || C == '\\') {
      R += '\\';
      R += C;
    } else if (C == '\n')
      R += "\\n";
    else if (C < 0x20 || C >= 0x7f) {
      char B[8];
      snprintf(B, sizeof B, "\\u%04x", C);
      R += B;
    } else
      R += C;
  }
  return R + "\"";
}

struct Options {
  unsigned CaseTimeoutMs = 20000;
  size_t MemLimitMB = 3500; // 0: none
};

struct Part {
  std::string Name;
  std::function<void(Ctx &)> Body;
};

inline std::string tail(const std::string &File, size_t N = 4000) {
  std::ifstream I(File, std::ios::binary);
  std::stringstream SS;
  SS << I.rdbuf();
  auto S = SS.str();
  if (S.size() > N)
    S = "[...]" + S.substr(S.size() - N);
  return S;
}

/// Runs every part. Exit code 0: all held; 1: violations written to OUT; other: error.
inline int run(int Argc, char **Argv, std::vector<Part> Parts, Options Opt = {}) {
  std::string Out = "/dev/null", Tmp = "/tmp", Replay, ReplayPart, Only;
  unsigned NW = 0;
  double Budget = 600;
  bool Thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  std::set<std::string> Known;
  for (int I = 1; I < Argc; ++I) {
    std::string A = Argv[I];
    auto Next = [&] { return I + 1 < Argc ? std::string(Argv[++I]) : std::string(); };
    if (A == "--out")
      Out = Next();
    else if (A == "--tmp")
      Tmp = Next();
    else if (A == "--workers")
      NW = atoi(Next().c_str());
    else if (A == "--replay")
      Replay = Next();
    else if (A == "--part")
      ReplayPart = Only = Next();
    else if (A == "--budget")
      Budget = atof(Next().c_str());
    else if (A == "--known")
      Known.insert(Next());
  }
  if (!NW)
    NW = std::max(1L, sysconf(_SC_NPROCESSORS_ONLN));
  setvbuf(stdout, nullptr, _IOLBF, 0);

  auto setSeq = [](Ctx &C, const std::string &S) {
    std::stringstream SS(S);
    std::string X;
    while (std::getline(SS, X, ','))
      if (!X.empty())
        C.Seq.push_back(std::stoul(X));
  };

  if (Argc > 2 && std::string(Argv[1]) == "--replay") {
    for (auto &P : Parts) {
      if (!ReplayPart.empty() && P.Name != ReplayPart)
        continue;
      Ctx C;
      C.Replaying = true;
      C.Thorough = Thorough;
      setSeq(C, Replay);
      try {
        P.Body(C);
      } catch (Violation &V) {
        printf("part %s: FAILED: %s: %s\n", P.Name.c_str(), V.Sig.c_str(), V.Msg.c_str());
        return 1;
      }
      printf("part %s: held\n", P.Name.c_str());
    }
    return 0;
  }

  struct Viol {
    std::string Part, Sig, Msg, Seq;
  };
  std::vector<Viol> Viols;
  std::set<std::string> KnownSeen;
  uint64_t Cases = 0, Transitions = 0, Traces = 0, StateCount = 0;
  std::unordered_set<uint64_t> States, Nontriv, Outcomes;
  std::map<std::string, uint64_t> Counters;
  std::vector<std::string> Samples;
  bool Capped = false;
  std::string PartStats;
  auto T0 = nowMs();

  for (size_t PI = 0; PI < Parts.size(); ++PI) {
    auto &P = Parts[PI];
    if (!Only.empty() && P.Name != Only)
      continue;
    auto PT0 = nowMs();
    auto *Shm = (Shared *)mmap(nullptr, sizeof(Shared) * NW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto *Single = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> Pids(NW, -1);
    std::vector<int> Retried(NW, 0);
    auto Base = Tmp + "/p" + std::to_string(PI);
    auto limits = [&] {
      if (Opt.MemLimitMB) {
        rlimit L{Opt.MemLimitMB << 20, Opt.MemLimitMB << 20};
        setrlimit(RLIMIT_AS, &L);
      }
      rlimit L{0, 0};
      setrlimit(RLIMIT_CORE, &L);
    };
    auto redirect = [&](const std::string &F) {
      int Fd = open(F.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
      if (Fd >= 0) {
        dup2(Fd, 2);
        dup2(Fd, 1);
        close(Fd);
      }
    };
    auto spawn = [&](unsigned W) {
      Shm[W].Heartbeat = nowMs();
      Shm[W].InCase = 0;
      unlink((Base + "." + std::to_string(W) + ".stat").c_str());
      fflush(stdout);
      pid_t Pid = fork();
      if (Pid)
        return Pid;
      limits();
      auto Err = Base + "." + std::to_string(W) + ".err";
      redirect(Err);
      Ctx C;
      C.Worker = W;
      C.NumWorkers = NW;
      C.Shm = &Shm[W];
      C.Thorough = Thorough;
      bool Cap = false;
      std::ofstream VF(Base + "." + std::to_string(W) + ".viol");
      std::set<std::string> Seen;
      unsigned Bad = 0;
      while (true) {
        C.Pos = 0;
        try {
          P.Body(C);
        } catch (Violation &V) {
          bool IsKnown = Known.count(V.Sig);
          if (!Seen.count(V.Sig)) {
            Seen.insert(V.Sig);
            VF << "{\"sig\":" << jsonStr(V.Sig) << ",\"msg\":" << jsonStr(V.Msg) << ",\"seq\":\"" << C.seqStr() << "\"}\n";
            VF.flush();
          }
          if (!IsKnown && ++Bad >= 3)
            break;
        } catch (std::bad_alloc &) {
          VF << "{\"sig\":\"out-of-memory\",\"msg\":\"bad_alloc\",\"seq\":\"" << C.seqStr() << "\"}\n";
          VF.flush();
          break;
        } catch (std::exception &E) {
          VF << "{\"sig\":\"exception\",\"msg\":" << jsonStr(E.what()) << ",\"seq\":\"" << C.seqStr() << "\"}\n";
          VF.flush();
          if (++Bad >= 3)
            break;
        }
        C.Shm->InCase = 0;
        C.Shm->Heartbeat = nowMs();
        // advance
        C.Seq.resize(C.Pos);
        C.Arity.resize(C.Pos);
        while (!C.Seq.empty() && C.Seq.back() + 1 >= C.Arity.back()) {
          C.Seq.pop_back();
          C.Arity.pop_back();
        }
        if (C.Seq.empty())
          break;
        ++C.Seq.back();
        if (C.MinePos != SIZE_MAX && C.Seq.size() <= C.MinePos)
          C.MinePos = SIZE_MAX;
        if ((C.Index & 255) == 0 || C.MineVal) {
          if (nowMs() - T0 > Budget * 1000) {
            Cap = true;
            break;
          }
        }
        if ((C.Cases & 1023) == 0) // keep the log small
          if (ftruncate(2, 0)) {
          }
      }
      std::ofstream SF(Base + "." + std::to_string(W) + ".stat");
      SF << C.Cases << " " << C.Transitions << " " << C.Traces << " " << C.StateCount << " " << Cap << "\n" << C.Counters.size() << "\n";
      for (auto &[K, V] : C.Counters)
        SF << K << " " << V << "\n";
      auto Dump = [&](auto &S) {
        SF << S.size() << "\n";
        for (auto H : S)
          SF << H << "\n";
      };
      Dump(C.States);
      Dump(C.Nontriv);
      Dump(C.Outcomes);
      SF << C.Samples.size() << "\n";
      for (auto &S : C.Samples)
        SF << jsonStr(S) << "\n";
      SF << "done\n";
      SF.close();
      fflush(nullptr);
      _exit(0);
    };
    // Runs one case alone. 0: held, 1: violation/crash, 2: timeout
    auto alone = [&](const std::string &Seq, unsigned TimeoutMs, std::string &Msg, std::string &Sig) {
      auto F = Base + ".alone";
      pid_t Pid = fork();
      if (!Pid) {
        limits();
        redirect(F);
        Ctx C;
        C.Replaying = true;
        C.Thorough = Thorough;
        C.Shm = Single;
        setSeq(C, Seq);
        try {
          P.Body(C);
        } catch (Violation &V) {
          fprintf(stderr, "\nFAILED %s: %s\n", V.Sig.c_str(), V.Msg.c_str());
          _exit(1);
        } catch (std::exception &E) {
          fprintf(stderr, "\nFAILED exception: %s\n", E.what());
          _exit(1);
        }
        _exit(0);
      }
      auto S = nowMs();
      int St;
      while (true) {
        pid_t R = waitpid(Pid, &St, WNOHANG);
        if (R == Pid)
          break;
        if (nowMs() - S > TimeoutMs) {
          kill(Pid, SIGKILL);
          waitpid(Pid, &St, 0);
          Sig = "hang";
          Msg = "no result after " + std::to_string(TimeoutMs) + " ms";
          return 2;
        }
        usleep(2000);
      }
      if (WIFEXITED(St) && WEXITSTATUS(St) == 0)
        return 0;
      Msg = tail(F);
      if (WIFSIGNALED(St)) {
        Sig = "crash";
        Msg = "killed by signal " + std::to_string(WTERMSIG(St)) + "\n" + Msg;
      } else
        Sig = WEXITSTATUS(St) == 3 ? "divergence" : "crash";
      return 1;
    };
    for (unsigned W = 0; W < NW; ++W)
      Pids[W] = spawn(W);
    unsigned Live = NW;
    bool Error = false;
    while (Live) {
      usleep(3000);
      for (unsigned W = 0; W < NW; ++W) {
        if (Pids[W] < 0)
          continue;
        int St;
        pid_t R = waitpid(Pids[W], &St, WNOHANG);
        bool Hang = false;
        if (R == 0) {
          auto HB = Shm[W].Heartbeat;
          auto Now = nowMs();
          if (Now > HB && Now - HB > Opt.CaseTimeoutMs && Shm[W].InCase) {
            kill(Pids[W], SIGKILL);
            waitpid(Pids[W], &St, 0);
            Hang = true;
          } else
            continue;
        }
        Pids[W] = -1;
        if (!Hang && WIFEXITED(St) && WEXITSTATUS(St) == 0) {
          --Live;
          continue;
        }
        std::string Seq;
        for (uint32_t I = 0; I < Shm[W].Len; ++I)
          Seq += (I ? "," : "") + std::to_string(Shm[W].Seq[I]);
        std::string Msg, Sig;
        int A = alone(Seq, Opt.CaseTimeoutMs * 3, Msg, Sig);
        if (A == 0 && !Retried[W]) {
          // not reproducible alone: run the whole share again
          ++Retried[W];
          Pids[W] = spawn(W);
          continue;
        }
        if (A == 0) {
          Sig = Hang ? "hang" : "crash";
          Msg = "reproduced only after the preceding cases of worker " + std::to_string(W) + ": " +
                tail(Base + "." + std::to_string(W) + ".err");
        }
        if (Sig == "divergence") {
          fprintf(stderr, "mc: harness diverged on replay: %s\n", Msg.c_str());
          Error = true;
        }
        Viols.push_back({P.Name, Sig, Msg, Seq});
        --Live;
      }
      if (!Viols.empty() && Live) { // no need to finish: the property is broken
        for (unsigned W = 0; W < NW; ++W)
          if (Pids[W] >= 0) {
            kill(Pids[W], SIGKILL);
            int St;
            waitpid(Pids[W], &St, 0);
            Pids[W] = -1;
            --Live;
          }
      }
    }
    if (Error)
      return 2;
    uint64_t PCases = 0;
    for (unsigned W = 0; W < NW; ++W) {
      std::ifstream VF(Base + "." + std::to_string(W) + ".viol");
      std::string L;
      while (std::getline(VF, L)) {
        // {"sig":..,"msg":..,"seq":".."} as written above; kept as JSON text
        auto G = [&](const char *K) {
          auto At = L.find(std::string("\"") + K + "\":\"");
          if (At == std::string::npos)
            return std::string();
          At += strlen(K) + 4;
          std::string R;
          while (At < L.size() && L[At] != '"') {
            if (L[At] == '\\' && At + 1 < L.size()) {
              ++At;
              R += L[At] == 'n' ? '\n' : L[At];
            } else
              R += L[At];
            ++At;
          }
          return R;
        };
        auto Sig = G("sig");
        if (Known.count(Sig))
          KnownSeen.insert(Sig);
        else
          Viols.push_back({P.Name, Sig, G("msg"), L.substr(L.rfind("\"seq\":\"") + 7, L.rfind('"') - L.rfind("\"seq\":\"") - 7)});
      }
      std::ifstream SF(Base + "." + std::to_string(W) + ".stat");
      uint64_t A = 0, B = 0, D = 0, N = 0, SC = 0;
      int Cap = 0;
      if (!(SF >> A >> B >> D >> SC >> Cap))
        continue;
      PCases += A;
      Cases += A;
      Transitions += B;
      Traces += D;
      StateCount += SC;
      Capped |= Cap;
      SF >> N;
      while (SF && N--) {
        std::string K;
        uint64_t V;
        SF >> K >> V;
        Counters[K] += V;
      }
      for (auto *S : {&States, &Nontriv, &Outcomes}) {
        SF >> N;
        while (SF && N--) {
          uint64_t H;
          SF >> H;
          S->insert(mix(H, PI)); // parts have state spaces of their own
        }
      }
      SF >> N;
      std::string Line;
      std::getline(SF, Line);
      for (uint64_t I = 0; SF && I < N; ++I) {
        std::getline(SF, Line);
        if (I < 2 && W < 2)
          Samples.push_back(Line);
      }
    }
    PartStats += (PartStats.empty() ? "" : ",") + jsonStr(P.Name) + ":{\"cases\":" + std::to_string(PCases) +
                 ",\"wall_s\":" + std::to_string((nowMs() - PT0) / 1000.0) + "}";
    munmap(Shm, sizeof(Shared) * NW);
    munmap(Single, sizeof(Shared));
    if (!Viols.empty())
      break;
  }
  std::ofstream OF(Out);
  OF << "{\"evaluations\":" << Cases << ",\"transitions\":" << Transitions << ",\"traces\":" << Traces
     << ",\"states\":" << States.size() + StateCount << ",\"distinct_nontrivial\":" << Nontriv.size()
     << ",\"distinct_outcomes\":" << Outcomes.size() << ",\"capped\":" << (Capped ? "true" : "false") << ",\"parts\":{"
     << PartStats << "},\"counters\":{";
  bool First = true;
  for (auto &[K, V] : Counters) {
    OF << (First ? "" : ",") << jsonStr(K) << ":" << V;
    First = false;
  }
  OF << "},\"samples\":[";
  First = true;
  for (auto &S : Samples) {
    OF << (First ? "" : ",") << S;
    First = false;
  }
  OF << "],\"known_seen\":[";
  First = true;
  for (auto &S : KnownSeen) {
    OF << (First ? "" : ",") << jsonStr(S);
    First = false;
  }
  OF << "],\"violations\":[";
  First = true;
  for (auto &V : Viols) {
    OF << (First ? "" : ",") << "{\"part\":" << jsonStr(V.Part) << ",\"sig\":" << jsonStr(V.Sig) << ",\"msg\":" << jsonStr(V.Msg)
       << ",\"seq\":" << jsonStr(V.Seq) << "}";
    First = false;
  }
  OF << "]}\n";
  OF.close();
  return Viols.empty() ? 0 : 1;
}

} // namespace mc
