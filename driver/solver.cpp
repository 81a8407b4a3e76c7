#include "vdrv.h"
#include "vara/Solver/ConfigurationFactory.h"
#include "vara/Solver/SolverFactory.h"
#include "vara/Solver/Z3Solver.h"

using namespace vdrv;
using namespace vara::solver;

static std::string serr(SolverErrorCode E) {
  switch (E) {
  case SolverErrorCode::NOT_IMPLEMENTED:
    return "NOT_IMPLEMENTED";
  case SolverErrorCode::NOT_SUPPORTED:
    return "NOT_SUPPORTED";
  case SolverErrorCode::UNSAT:
    return "UNSAT";
  case SolverErrorCode::ALREADY_PRESENT:
    return "ALREADY_PRESENT";
  case SolverErrorCode::NOT_ALL_CONSTRAINTS_PROCESSED:
    return "NOT_ALL_CONSTRAINTS_PROCESSED";
  case SolverErrorCode::PARENT_NOT_PRESENT:
    return "PARENT_NOT_PRESENT";
  case SolverErrorCode::ILLEGAL_STATE:
    return "ILLEGAL_STATE";
  }
  return "?";
}

static json::Value cfg(Configuration &C) {
  json::Object R;
  for (auto &E : C) {
    auto &O = *E.getValue();
    if (O.isBool()) {
      R[E.getKey().str()] = json::Array{"b", *O.boolValue() ? 1 : 0};
    } else if (O.isInt()) {
      R[E.getKey().str()] = json::Array{"i", *O.intValue()};
    } else {
      R[E.getKey().str()] = json::Array{"s", 0, O.asString()};
    }
  }
  return R;
}

static json::Object
one(vara::Result<SolverErrorCode, std::unique_ptr<Configuration>> R) {
  if (!R) {
    return json::Object{{"res", serr(R.getError())}};
  }
  auto C = R.extractValue();
  return json::Object{{"res", "OK"}, {"cfg", cfg(*C)}};
}

static json::Object plain(vara::Result<SolverErrorCode> R) {
  return json::Object{{"res", R ? std::string("OK") : serr(R.getError())}};
}

struct SolverExt : Ext {
  std::unique_ptr<Solver> S;
};
struct IterExt : Ext {
  ConfigurationIterable I;
  ConfigurationIterable::ConfigurationIterator It;
  explicit IterExt(FeatureModel &FM)
      : I(ConfigurationFactory::getConfigIterator(FM)), It(I.begin()) {}
};

static Solver &solver(World &W, ObjRef O) {
  auto It = W.X.find("S" + str(O, "s", "1"));
  if (It == W.X.end()) {
    bad("no solver");
  }
  return *static_cast<SolverExt *>(It->second.get())->S;
}

// Builds a model from its description; null and the refusal if it is refused.
std::unique_ptr<FeatureModel> vdrv::described(ObjRef O, json::Object &Refusal) {
  auto FM = std::make_unique<FeatureModel>("M");
  auto T = FeatureModelModifyTransaction::openTransaction(*FM);
  T.setRoot(std::make_unique<RootFeature>(str(O, "root", "root")));
  for (auto &V : *O.getArray("steps")) {
    auto &S = *V.getAsObject();
    auto E = str(S, "e");
    if (E == "f") {
      auto P = str(S, "p");
      T.addFeature(mkFeature(S), FM->getFeature(P));
      auto R = T.commit();
      if (!R) {
        Refusal = json::Object{{"res", "REFUSED"}, {"what", str(S, "n") + " " + fterr(R.getError())}};
        return nullptr;
      }
      T = FeatureModelModifyTransaction::openTransaction(*FM);
    } else if (E == "g") {
      T.addRelationship(str(S, "kind") == "ALT"
                            ? Relationship::RelationshipKind::RK_ALTERNATIVE
                            : Relationship::RelationshipKind::RK_OR,
                        str(S, "n"));
      auto R = T.commit();
      if (!R) {
        Refusal = json::Object{{"res", "REFUSED"}, {"what", str(S, "n") + " " + fterr(R.getError())}};
        return nullptr;
      }
      T = FeatureModelModifyTransaction::openTransaction(*FM);
    } else if (E == "del") {
      vara::feature::detail::FeatureVariantTy Del = str(S, "n");
      T.removeFeature(Del, true);
      auto R = T.commit();
      if (!R) {
        Refusal = json::Object{{"res", "REFUSED"}, {"what", str(S, "n") + " " + fterr(R.getError())}};
        return nullptr;
      }
      T = FeatureModelModifyTransaction::openTransaction(*FM);
    } else {
      auto A = mkAst(*S.getObject("a"));
      if (E == "cb") {
        T.addConstraint(
            std::make_unique<FeatureModel::BooleanConstraint>(std::move(A)));
      } else if (E == "cn") {
        T.addConstraint(
            std::make_unique<FeatureModel::NonBooleanConstraint>(std::move(A)));
      } else {
        T.addConstraint(std::make_unique<FeatureModel::MixedConstraint>(
            std::move(A),
            str(S, "req") == "all" ? FeatureModel::MixedConstraint::Req::ALL
                                   : FeatureModel::MixedConstraint::Req::NONE,
            str(S, "ek") == "neg"
                ? FeatureModel::MixedConstraint::ExprKind::NEG
                : FeatureModel::MixedConstraint::ExprKind::POS));
      }
      auto R = T.commit();
      if (!R) {
        Refusal = json::Object{{"res", "REFUSED"}, {"what", fterr(R.getError())}};
        return nullptr;
      }
      T = FeatureModelModifyTransaction::openTransaction(*FM);
    }
  }
  T.abort();
  return FM;
}

VOP(smodel) {
  json::Object Refusal;
  auto FM = described(O, Refusal);
  if (!FM) {
    return Refusal;
  }
  W.M["A"] = std::move(FM);
  return json::Object{{"res", "OK"}};
}


using Configs = std::vector<std::unique_ptr<Configuration>>;
static json::Object many(vara::Result<SolverErrorCode, Configs> R) {
  if (!R) {
    return json::Object{{"res", serr(R.getError())}};
  }
  auto V = R.extractValue();
  json::Array A;
  for (auto &C : V) {
    A.push_back(cfg(*C));
  }
  return json::Object{{"res", "OK"}, {"cfgs", std::move(A)}};
}

VOP(qall) { return many(ConfigurationFactory::getAllConfigs(model(W, O))); }
VOP(qn) {
  return many(ConfigurationFactory::getNConfigs(model(W, O), num(O, "k")));
}
VOP(qnum) {
  auto R = ConfigurationFactory::getNumConfigs(model(W, O));
  if (!R) {
    return json::Object{{"res", serr(R.getError())}};
  }
  return json::Object{{"res", "OK"}, {"v", (int64_t)R.extractValue()}};
}
VOP(qvalid) {
  return json::Object{{"res", "OK"},
                      {"v", ConfigurationFactory::isValid(model(W, O))}};
}

VOP(itnew) {
  W.X["I"] = std::make_unique<IterExt>(model(W, O));
  return json::Object{{"res", "OK"}};
}
static IterExt &iter(World &W) { return *static_cast<IterExt *>(W.X["I"].get()); }
VOP(itend) {
  auto &I = iter(W);
  return json::Object{{"res", "OK"}, {"v", I.It == I.I.end()}};
}
VOP(itget) {
  auto &I = iter(W);
  if (I.It == I.I.end()) {
    return json::Object{{"res", "END"}};
  }
  return one(*I.It);
}
VOP(itinc) {
  auto &I = iter(W);
  if (I.It == I.I.end()) {
    return json::Object{{"res", "END"}};
  }
  ++I.It;
  return json::Object{{"res", "OK"}};
}

VOP(snew) {
  auto E = std::make_unique<SolverExt>();
  if (flag(O, "model")) {
    E->S = SolverFactory::initializeSolver(model(W, O), SolverType::Z3);
  } else {
    E->S = Z3Solver::create();
  }
  W.X["S" + str(O, "s", "1")] = std::move(E);
  return json::Object{{"res", "OK"}};
}
VOP(saddF) {
  auto *F = model(W, O).getFeature(str(O, "n"));
  if (!F) {
    bad("saddF");
  }
  return plain(O.getBoolean("alt") ? solver(W, O).addFeature(*F, flag(O, "alt"))
                                   : solver(W, O).addFeature(*F));
}
VOP(saddO) {
  // a feature of its own, which is in no model
  auto F = mkFeature(O);
  return plain(solver(W, O).addFeature(*F));
}
VOP(saddB) { return plain(solver(W, O).addFeature(str(O, "n"))); }
VOP(saddN) {
  std::vector<int64_t> V;
  for (auto &E : *O.getArray("list")) {
    V.push_back(*E.getAsInteger());
  }
  return plain(solver(W, O).addFeature(str(O, "n"), V));
}
VOP(srem) {
  auto *F = model(W, O).getFeature(str(O, "n"));
  return plain(solver(W, O).removeFeature(*F));
}
VOP(saddR) {
  const FeatureModel &CFM = model(W, O);
  for (const auto &R : CFM.relationships()) {
    if (llvm::cast<Feature>(R->getParent())->getName() == str(O, "n")) {
      return plain(solver(W, O).addRelationship(*R));
    }
  }
  bad("saddR");
}
VOP(saddC) {
  auto A = mkAst(*O.getObject("a"));
  if (flag(O, "bound")) {
    // the constraint as the model holds it
  }
  return plain(solver(W, O).addConstraint(*A));
}
VOP(saddM) {
  auto A = mkAst(*O.getObject("a"));
  return plain(solver(W, O).addMixedConstraint(
      *A,
      str(O, "ek") == "neg" ? FeatureModel::MixedConstraint::ExprKind::NEG
                            : FeatureModel::MixedConstraint::ExprKind::POS,
      str(O, "req") == "all" ? FeatureModel::MixedConstraint::Req::ALL
                             : FeatureModel::MixedConstraint::Req::NONE));
}
VOP(snext) { return one(solver(W, O).getNextConfiguration()); }
VOP(scur) { return one(solver(W, O).getCurrentConfiguration()); }
VOP(svalid) {
  auto R = solver(W, O).hasValidConfigurations();
  if (!R) {
    return json::Object{{"res", serr(R.getError())}};
  }
  return json::Object{{"res", "OK"}, {"v", R.extractValue()}};
}
