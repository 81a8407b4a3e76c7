// the graph a model is exported to, by the library and by the viewer
#include "vdrv.h"
#include "vara/Feature/FeatureModelWriter.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <sstream>
#include <cstdlib>
#include <filesystem>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using namespace vdrv;

VOP(dot) {
  auto *FM = &model(W, O);
  std::string S;
  llvm::raw_string_ostream OS(S);
  llvm::WriteGraph(OS, FM, false, llvm::Twine(FM->getName()));
  return json::Object{{"dot", OS.str()}};
}

VOP(view) {
  const char *T = getenv("TMPDIR");
  const char *Exe = getenv("VDRV_VIEWER");
  if (!Exe) {
    bad("no viewer");
  }
  std::string D = T ? T : ".";
  std::string In = D + "/view.xml";
  std::string Out = D + "/view.dot";
  auto Text = FeatureModelXmlWriter(model(W, O)).writeFeatureModel();
  {
    std::ofstream F(In, std::ios::binary);
    F << (Text ? *Text : "");
  }
  unlink(Out.c_str());
  std::string Cmd = std::string("'") + Exe + "' -o '" + Out + "' '" + In + "' >/dev/null 2>&1";
  int R = system(Cmd.c_str());
  std::ifstream F(Out, std::ios::binary);
  std::stringstream SS;
  SS << F.rdbuf();
  return json::Object{{"res", R == 0 ? "OK" : "FAILED"}, {"dot", SS.str()}};
}

// the program itself: every way to call it, and everything it leaves behind
static std::string slurp(const std::filesystem::path &P) {
  std::ifstream F(P, std::ios::binary);
  std::stringstream SS;
  SS << F.rdbuf();
  return SS.str();
}

VOP(tool) {
  namespace fs = std::filesystem;
  const char *T = getenv("TMPDIR");
  const char *Exe = getenv("VDRV_VIEWER");
  if (!Exe) {
    bad("no viewer");
  }
  fs::path D = fs::absolute(fs::path(T ? T : ".")) / "tool";
  fs::remove_all(D);
  fs::create_directories(D / "tmp");
  auto Text = str(O, "text", "");
  {
    std::ofstream(D / "in.xml", std::ios::binary) << Text;
    std::ofstream S(D / "see.sh");
    S << "#!/bin/sh\nprintf %s \"$1\" > '" << (D / "seen.part").string()
      << "'\nmv '" << (D / "seen.part").string() << "' '"
      << (D / "seen").string() << "'\n";
  }
  fs::permissions(D / "see.sh", fs::perms::owner_all);
  std::string Flags;
  bool Show = false;
  for (const auto &P : *O.getArray("pick")) {
    auto S = P.getAsString()->str();
    if (S == "out") {
      Flags += " -o=" + (D / "out.dot").string();
    } else if (S == "show") {
      Flags += " -viewer=" + (D / "see.sh").string();
      Show = true;
    } else {
      Flags += " -" + S;
    }
  }
  auto File = str(O, "file");
  std::string In = (D / "in.xml").string();
  std::string Names = File == "none"      ? ""
                      : File == "missing" ? (D / "no.xml").string()
                      : File == "two"     ? In + " " + In
                      : File == "badflag" ? "-nosuchflag " + In
                                          : In;
  // a graph drawn earlier
  std::string Old;
  if (flag(O, "old")) {
    Old = "digraph {\n";
    for (int J = 0; J < 200; ++J) {
      Old += "node_" + std::to_string(J) + " [label=<older>];\n";
    }
    Old += "}\n";
    std::ofstream(D / "out.dot") << Old;
  }
  bool Env = str(O, "via") == "env";
  std::string Cmd = "cd '" + D.string() + "' && env -u FM_VIEWER_FLAGS TMPDIR=tmp " +
                    (Env ? "FM_VIEWER_FLAGS='" + Flags + "' " : "") + "'" +
                    Exe + "' " + (Env ? "" : Flags) + " " + Names +
                    " </dev/null >stdout 2>stderr";
  int R = system(Cmd.c_str());
  json::Array Temps;
  std::string Temp, Name;
  int Shown = 0;
  for (const auto &E : fs::directory_iterator(D / "tmp")) {
    Shown++;
    Name = E.path().filename().string();
    Temp = slurp(E.path());
  }
  if (Show && Shown == 1) { // the program does not wait for what it starts
    for (int J = 0; J < 400 && !fs::exists(D / "seen"); ++J) {
      std::this_thread::sleep_for(std::chrono::milliseconds(50));
    }
  }
  bool Viewed =
      fs::exists(D / "seen") &&
      fs::path(slurp(D / "seen")).filename().string() == Name;
  bool Crash = !WIFEXITED(R) || WEXITSTATUS(R) >= 126;
  json::Object Res{{"res", Crash ? "CRASH" : WEXITSTATUS(R) == 0 ? "OK" : "FAILED"},
                   {"written", fs::exists(D / "out.dot") != flag(O, "old") ||
                                   slurp(D / "out.dot") != Old},
                   {"dot", slurp(D / "out.dot")},
                   {"dump", slurp(D / "stdout")},
                   {"shown", Shown},
                   {"viewed", Viewed},
                   {"temp", Temp},
                   {"kept", slurp(D / "in.xml") == Text}};
  fs::remove_all(D);
  return Res;
}
