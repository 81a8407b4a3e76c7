#include "vdrv.h"
#include "vara/Configuration/Configuration.h"

using namespace vdrv;

static json::Object option(const ConfigurationOption &C, llvm::StringRef Key) {
  json::Object R;
  std::string T;
  std::string Flags;
  if (C.isBool() || C.boolValue()) {
    Flags += C.isBool() && C.boolValue() ? "b" : "?";
    T = *C.boolValue() ? "true" : "false";
  }
  if (C.isInt() || C.intValue()) {
    Flags += C.isInt() && C.intValue() ? "i" : "?";
    T = std::to_string(*C.intValue());
  }
  if (C.isString() || C.stringValue()) {
    Flags += C.isString() && C.stringValue() ? "s" : "?";
    T = C.stringValue()->str();
  }
  if (Key != C.name()) {
    Flags += "!";
  }
  R["n"] = C.name().str();
  R["k"] = C.isBool() ? "b" : C.isInt() ? "i" : "s";
  R["v"] = C.asString();
  R["flags"] = Flags;
  R["typed"] = T;
  R["text"] = C.toString();
  return R;
}

static json::Array items(Configuration &C) {
  json::Array A;
  for (auto &E : C) {
    A.push_back(option(*E.second, E.first()));
  }
  return A;
}

static json::Array items(const Configuration &C) {
  json::Array A;
  for (auto I = C.begin(); I != C.end(); ++I) {
    A.push_back(option(*I->second, I->first()));
  }
  return A;
}

VOP(conf) {
  auto C = std::make_unique<Configuration>();
  json::Array SS;
  std::set<std::string> Names{"a", "", "absent"};
  for (auto &V : *O.getArray("steps")) {
    auto &S = *V.getAsObject();
    auto K = str(S, "k");
    bool Ok = true;
    if (K == "set") {
      C->setConfigurationOption(str(S, "n"), str(S, "v"));
    } else if (K == "add") {
      C->addConfigurationOption(
          std::make_unique<ConfigurationOption>(str(S, "n"), str(S, "v")));
    } else if (K == "parse" || K == "trip") {
      auto D = Configuration::createConfigurationFromString(
          K == "trip" ? C->dumpToString() : str(S, "t"));
      Ok = D != nullptr;
      if (Ok) {
        C = std::move(D);
      }
    }
    if (S.get("n")) {
      Names.insert(str(S, "n"));
    }
    json::Object E;
    E["ok"] = Ok;
    E["it"] = items(*C);
    E["ci"] = items(static_cast<const Configuration &>(*C));
    json::Array G;
    for (auto &N : Names) {
      auto R = C->configurationOptionValue(N);
      G.push_back(json::Object{
          {"n", N}, {"has", R.has_value()}, {"v", R ? *R : std::string()}});
    }
    E["get"] = std::move(G);
    auto T = C->dumpToString();
    E["dump"] = T;
    auto D = Configuration::createConfigurationFromString(T);
    E["rp"] = D ? items(*D) : json::Array{json::Object{{"n", ""}, {"k", "none"}, {"v", ""}}};
    SS.push_back(std::move(E));
  }
  return json::Object{{"ss", std::move(SS)}};
}
