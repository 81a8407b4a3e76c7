#include "vdrv.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace vdrv {
std::map<std::string, OpFn> &ops() {
  static std::map<std::string, OpFn> M;
  return M;
}
void bad(const std::string &Msg) {
  llvm::outs() << "BADSCRIPT " << Msg << "\n";
  llvm::outs().flush();
  _exit(77);
}
} // namespace vdrv
using namespace vdrv;

static void writeAll(int Fd, const std::string &S) {
  size_t Off = 0;
  while (Off < S.size()) {
    ssize_t N = ::write(Fd, S.data() + Off, S.size() - Off);
    if (N <= 0) {
      _exit(78);
    }
    Off += N;
  }
}

static std::string render(json::Object O) {
  std::string S;
  llvm::raw_string_ostream RS(S);
  RS << json::Value(std::move(O));
  RS.flush();
  S += "\n";
  return S;
}

// usage: vdrv IN.ndjson OUT.ndjson
// IN: one script per line, {"id":..,"ops":[{"op":..,..},..]}
// OUT: one event per line, {"s":<line>,"i":<op index>,"res":..,..}; a script
// that dies yields {"s":..,"i":..,"res":"CRASH","how":..} as its last event.
int main(int Argc, char **Argv) {
  if (Argc < 3) {
    return 2;
  }
  unsigned Timeout = Argc > 3 ? atoi(Argv[3]) : 20;
  auto Buf = llvm::MemoryBuffer::getFile(Argv[1]);
  if (!Buf) {
    return 2;
  }
  std::vector<llvm::StringRef> Lines;
  llvm::SmallVector<llvm::StringRef, 0> Tmp;
  (*Buf)->getBuffer().split(Tmp, '\n', -1, false);
  Lines.assign(Tmp.begin(), Tmp.end());
  int Out = ::open(Argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (Out < 0) {
    return 2;
  }
  struct Shared {
    volatile size_t S, I;
  };
  // progress marker shared between worker and parent through a pipe-free page
  char Name[] = "/tmp/vdrvXXXXXX";
  int Mf = mkstemp(Name);
  unlink(Name);
  size_t Next = 0;
  size_t Crashes = 0;
  while (Next < Lines.size()) {
    pid_t P = fork();
    if (P < 0) {
      return 2;
    }
    if (P == 0) {
      for (size_t S = Next; S < Lines.size(); ++S) {
        alarm(Timeout);
        auto V = json::parse(Lines[S]);
        if (!V) {
          llvm::consumeError(V.takeError());
          bad("line " + std::to_string(S));
        }
        auto *O = V->getAsObject();
        auto *Ops = O ? O->getArray("ops") : nullptr;
        if (!Ops) {
          bad("line " + std::to_string(S));
        }
        auto W = std::make_unique<World>();
        size_t I = 0;
        for (auto &OpV : *Ops) {
          size_t Mark[2] = {S, I};
          if (pwrite(Mf, Mark, sizeof(Mark), 0) != sizeof(Mark)) {
            _exit(78);
          }
          auto *Op = OpV.getAsObject();
          auto It = ops().find(str(*Op, "op"));
          if (It == ops().end()) {
            bad("unknown op " + str(*Op, "op"));
          }
          json::Object R;
          bool Threw = false;
          try {
            R = It->second(*W, *Op);
          } catch (const std::exception &E) {
            R = json::Object{{"res", "EXCEPTION"}, {"what", E.what()}};
            Threw = true;
          } catch (...) {
            R = json::Object{{"res", "EXCEPTION"}};
            Threw = true;
          }
          if (!R.get("res")) {
            R["res"] = "OK";
          }
          if (!Threw && flag(*Op, "dump", true) && !R.get("st")) {
            json::Object St;
            for (auto &KV : W->M) {
              if (KV.second) {
                St[KV.first] = dumpModel(*KV.second);
              }
            }
            R["st"] = std::move(St);
          }
          R["s"] = (int64_t)S;
          R["i"] = (int64_t)I;
          writeAll(Out, render(std::move(R)));
          ++I;
          if (Threw) {
            break;
          }
        }
        size_t Mark[2] = {S, I};
        if (pwrite(Mf, Mark, sizeof(Mark), 0) != sizeof(Mark)) {
          _exit(78);
        }
        W.reset();
        size_t Mark2[2] = {S + 1, 0};
        if (pwrite(Mf, Mark2, sizeof(Mark2), 0) != sizeof(Mark2)) {
          _exit(78);
        }
      }
      _exit(0);
    }
    int St = 0;
    waitpid(P, &St, 0);
    if (WIFEXITED(St) && WEXITSTATUS(St) == 0) {
      break;
    }
    if (WIFEXITED(St) && (WEXITSTATUS(St) == 77 || WEXITSTATUS(St) == 78)) {
      return 3;
    }
    size_t Mark[2] = {Next, 0};
    if (pread(Mf, Mark, sizeof(Mark), 0) != sizeof(Mark)) {
      return 3;
    }
    std::string How = WIFSIGNALED(St)
                          ? "signal " + std::to_string(WTERMSIG(St))
                          : "exit " + std::to_string(WEXITSTATUS(St));
    writeAll(Out, render(json::Object{{"s", (int64_t)Mark[0]},
                                      {"i", (int64_t)Mark[1]},
                                      {"res", "CRASH"},
                                      {"how", How}}));
    Next = Mark[0] + 1;
    bool Hung = WIFSIGNALED(St) && WTERMSIG(St) == SIGALRM;
    Crashes += Hung ? 100 : 1;
    if (Crashes > 300) {
      break; // enough: everything after is reported as not run
    }
  }
  return 0;
}
