#include "vdrv.h"
#include "vara/Sampling/SampleSetWriter.h"

#include "llvm/Support/YAMLTraits.h"

using namespace vdrv;
LLVM_YAML_IS_STRING_MAP(std::string)

VOP(write) {
  FeatureModelBuilder B;
  B.makeRoot("root");
  auto FM = B.buildFeatureModel();
  for (auto &V : *O.getArray("steps")) {
    auto &S = *V.getAsObject();
    auto T = FeatureModelModifyTransaction::openTransaction(*FM);
    if (str(S, "e") == "f") {
      T.addFeature(mkFeature(S), FM->getFeature(str(S, "p")));
    } else {
      T.addRelationship(str(S, "kind") == "ALT"
                            ? Relationship::RelationshipKind::RK_ALTERNATIVE
                            : Relationship::RelationshipKind::RK_OR,
                        str(S, "n"));
    }
    if (!T.commit()) {
      bad("model refused");
    }
  }
  std::vector<std::unique_ptr<Configuration>> Cs;
  for (auto &V : *O.getArray("confs")) {
    auto C = std::make_unique<Configuration>();
    for (auto &X : *V.getAsArray()) {
      auto &S = *X.getAsObject();
      C->setConfigurationOption(str(S, "n"), str(S, "v"));
    }
    Cs.push_back(std::move(C));
  }
  auto Text = vara::sampling::SampleSetWriter::writeConfigurations(
      static_cast<const FeatureModel &>(*FM), Cs);
  if (Cs.size() != O.getArray("confs")->size()) {
    return json::Object{{"res", "TAKEN"}};
  }
  // read back: a map from numbers to lists in text form
  std::map<std::string, std::string> M;
  llvm::yaml::Input In(Text);
  In >> M;
  if (In.error()) {
    return json::Object{{"res", "BADYAML"}, {"text", Text}};
  }
  json::Array Out;
  for (auto &E : M) {
    std::vector<std::string> L;
    llvm::yaml::Input Inner(E.second);
    Inner >> L;
    if (Inner.error()) {
      return json::Object{{"res", "BADLIST"}, {"text", Text}};
    }
    Out.push_back(json::Array{E.first, json::Array(L)});
  }
  return json::Object{{"out", std::move(Out)}, {"text", Text}};
}
