// Runs config-generator as a program of its own.
#include "vdrv.h"
#include "vara/Feature/FeatureModelWriter.h"

#include "llvm/Support/YAMLTraits.h"

#include <filesystem>
#include <fstream>
#include <sstream>
#include <sys/wait.h>

using namespace vdrv;
LLVM_YAML_IS_STRING_MAP(std::string)

static std::string slurp(const std::filesystem::path &P) {
  std::ifstream In(P, std::ios::binary);
  std::stringstream S;
  S << In.rdbuf();
  return S.str();
}

// the entries of a written sample set
static bool entries(std::string Text, json::Array &Out) {
  std::map<std::string, std::string> M;
  llvm::yaml::Input In(Text);
  In >> M;
  if (In.error()) {
    return false;
  }
  for (auto &E : M) {
    std::vector<std::string> L;
    llvm::yaml::Input Inner(E.second);
    Inner >> L;
    if (Inner.error()) {
      return false;
    }
    Out.push_back(json::Array{E.first, json::Array(L)});
  }
  return true;
}

VOP(gen) {
  namespace fs = std::filesystem;
  const char *T = getenv("TMPDIR");
  const char *Exe = getenv("VDRV_GEN");
  if (!Exe) {
    bad("no generator");
  }
  json::Object Refusal;
  auto FM = described(O, Refusal);
  if (!FM) {
    return Refusal;
  }
  auto Text = FeatureModelXmlWriter(*FM).writeFeatureModel();
  if (!Text) {
    return json::Object{{"res", "NOTWRITTEN"}};
  }
  auto File = str(O, "file");
  if (File == "broken") {
    Text = Text->substr(0, Text->size() - 20);
  }
  fs::path D = fs::absolute(fs::path(T ? T : ".")) / "gen";
  fs::remove_all(D);
  fs::create_directories(D);
  std::ofstream(D / "in.xml", std::ios::binary) << *Text;
  auto Want = str(O, "want");
  std::string Flags = Want == "all"        ? " -type=All"
                      : Want == "sample"   ? " -type=sample"
                      : Want == "strategy" ? " -type=sampling"
                      : Want == "other"    ? " -type=nosuch"
                                           : "";
  if (auto *C = O.getObject("csv")) {
    std::ofstream S(D / "in.csv");
    bool First = true;
    for (auto &X : *C->getArray("cols")) {
      S << (First ? "" : ";") << X.getAsString()->str();
      First = false;
    }
    S << "\n";
    for (auto &R : *C->getArray("rows")) {
      First = true;
      for (auto &X : *R.getAsArray()) {
        S << (First ? "" : ";") << X.getAsString()->str();
        First = false;
      }
      S << "\n";
    }
    Flags += " -csv=in.csv";
  }
  auto To = str(O, "to");
  fs::path Out = D / (To == "given" ? "out.yml" : "configurations.yml");
  if (To == "given") {
    Flags += " -out=out.yml";
  } else if (To == "nowhere") {
    Flags += " -out=missing/out.yml";
  }
  // what an earlier run left where this one writes
  const std::string Old = "'0': '[\"old\"]'\n'41': '[\"-older\", \"-text that makes the file rather long\"]'\n"
                          "'42': '[]'\n'43': '[\"-a\"]'\n'44': '[\"-x=3\"]'\n";
  if (flag(O, "old")) {
    std::ofstream(Out) << Old;
  }
  std::string Names = File == "none"      ? ""
                      : File == "missing" ? "no.xml"
                      : File == "two"     ? "in.xml in.xml"
                                          : "in.xml";
  bool Env = str(O, "via") == "env";
  std::string Cmd = "cd '" + D.string() + "' && env -u CONFIG_GENERATOR_FLAGS " +
                    (Env ? "CONFIG_GENERATOR_FLAGS='" + Flags + "' " : "") +
                    "'" + Exe + "' " + (Env ? "" : Flags) + " " + Names +
                    " </dev/null >stdout 2>stderr";
  int R = system(Cmd.c_str());
  bool Crash = !WIFEXITED(R) || WEXITSTATUS(R) >= 126;
  json::Array E;
  bool Stale = flag(O, "old") && fs::is_regular_file(Out) && slurp(Out) == Old;
  bool Readable = Stale || entries(slurp(Out), E);
  unsigned Others = 0; // files nobody asked for
  for (const auto &F : fs::directory_iterator(D)) {
    auto N = F.path().filename().string();
    Others += N != "in.xml" && N != "in.csv" && N != "stdout" && N != "stderr" &&
              F.path() != Out;
  }
  json::Object Res{
      {"res", Crash ? "CRASH" : WEXITSTATUS(R) == 0 ? "OK" : "FAILED"},
      {"entries", std::move(E)},
      {"readable", Readable},
      {"stale", Stale},
      {"others", Others},
      {"kept", slurp(D / "in.xml") == *Text},
      {"err", slurp(D / "stderr").substr(0, 400)}};
  fs::remove_all(D);
  return Res;
}
