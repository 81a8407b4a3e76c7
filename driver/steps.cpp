#include "vdrv.h"
#include "vara/Feature/StepFunctionParser.h"
#include "vara/Solver/ConfigurationFactory.h"

#include <cmath>
#include <cstring>

using namespace vdrv;
using namespace vara::solver;

static json::Array chars(const std::string &S) {
  json::Array A;
  for (char C : S) {
    A.push_back(std::string(1, C));
  }
  return A;
}

static json::Value milli(double D) {
  double R = std::nearbyint(D * 1000);
  if (std::isnan(R) || std::fabs(R) > 2e9) {
    return 2000000001; // beyond what the specification computes
  }
  return (int64_t)R;
}

static json::Object describe(StepFunction *F, ObjRef O) {
  if (!F) {
    return json::Object{{"res", "NULL"}};
  }
  json::Object R{{"res", "OK"}};
  auto S = F->toString();
  R["pc"] = chars(S);
  auto G = StepFunctionParser(S).buildStepFunction();
  bool Same = G != nullptr;
  json::Array Nx;
  for (auto &V : *O.getArray("at")) {
    auto A = *V.getAsInteger();
    double D = F->next<double>(A);
    double C = (*F)(A);
    json::Value I = 2000000001;
    if (std::fabs(D) < 2e9) {
      I = F->next<int64_t>(A);
    }
    Nx.push_back(json::Array{milli(D), std::move(I)});
    Same = Same && !std::memcmp(&C, &D, sizeof(C));
    if (Same) {
      double E = G->next<double>(A);
      Same = (std::isnan(E) && std::isnan(D)) || E == D;
    }
  }
  R["nx"] = std::move(Nx);
  R["same"] = Same;
  return R;
}

VOP(step) {
  auto F = StepFunctionParser(str(O, "text")).buildStepFunction();
  return describe(F.get(), O);
}

VOP(stepmk) {
  auto S = str(O, "o");
  auto Op = S == "+"   ? StepFunction::StepOperation::ADDITION
            : S == "*" ? StepFunction::StepOperation::MULTIPLICATION
                       : StepFunction::StepOperation::EXPONENTIATION;
  double C = strtod(str(O, "ctext").c_str(), nullptr);
  if (flag(O, "left")) {
    StepFunction F(C, Op);
    return describe(&F, O);
  }
  StepFunction F(Op, C);
  StepFunction G(F);
  return describe(&G, O);
}

VOP(numvals) {
  FeatureModelBuilder B;
  B.makeRoot("root");
  std::unique_ptr<StepFunction> F;
  if (!str(O, "text").empty()) {
    F = StepFunctionParser(str(O, "text")).buildStepFunction();
    if (!F) {
      return json::Object{{"res", "NULL"}};
    }
  }
  B.makeFeature<NumericFeature>(
      "n", std::pair<int64_t, int64_t>(num(O, "lo"), num(O, "hi")), false,
      std::vector<FeatureSourceRange>{}, "", std::move(F));
  auto FM = B.buildFeatureModel();
  auto R = ConfigurationFactory::getAllConfigs(*FM);
  if (!R) {
    return json::Object{{"res", "ERR"}};
  }
  json::Array A;
  for (auto &C : R.extractValue()) {
    A.push_back(atoll(C->configurationOptionValue("n")->c_str()));
  }
  return json::Object{{"res", "OK"}, {"vals", std::move(A)}};
}
