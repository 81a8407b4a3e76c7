#include "vdrv.h"
#include "vara/Feature/OrderedFeatureVector.h"
#include "vara/Feature/Relationship.h"
#include <algorithm>

using namespace vdrv;

static Relationship::RelationshipKind relKind(ObjRef O) {
  return str(O, "kind", "ALT") == "OR"
             ? Relationship::RelationshipKind::RK_OR
             : Relationship::RelationshipKind::RK_ALTERNATIVE;
}

// "by":"ptr" passes the feature itself, otherwise its name.
static detail::FeatureVariantTy fvar(FeatureModel &FM, ObjRef O,
                                     const char *K) {
  auto N = str(O, K);
  if (str(O, "by") == "ptr") {
    auto *F = FM.getFeature(N);
    if (!F) {
      bad("no feature " + N);
    }
    return F;
  }
  return N;
}

// tree node by name, by pointer, or ("#x") the group node below feature x
static detail::FeatureTreeNodeVariantTy nvar(FeatureModel &FM, ObjRef O,
                                             const char *K) {
  auto N = str(O, K);
  if (!N.empty() && N[0] == '#') {
    auto *F = FM.getFeature(N.substr(1));
    if (F) {
      for (auto *C : F->children()) {
        if (C->getKind() == FeatureTreeNode::NodeKind::NK_RELATIONSHIP) {
          return C;
        }
      }
    }
    bad("no group " + N);
  }
  if (str(O, "by") == "ptr") {
    auto *F = FM.getFeature(N);
    if (!F) {
      bad("no feature " + N);
    }
    return static_cast<FeatureTreeNode *>(F);
  }
  return N;
}

VOP(new) {
  if (O.getString("name")) {
    W.M[str(O, "m", "A")] = std::make_unique<FeatureModel>(
        str(O, "name"), std::make_unique<RootFeature>(str(O, "root", "root")),
        fs::path(str(O, "path")), str(O, "commit"));
  } else {
    W.M[str(O, "m", "A")] = std::make_unique<FeatureModel>();
  }
  return {};
}
VOP(clone) {
  auto C = model(W, O).clone();
  bool Ok = C != nullptr;
  W.M[str(O, "to", "B")] = std::move(C);
  return json::Object{{"res", Ok ? "OK" : "NULL"}};
}
VOP(destroy) {
  W.M.erase(str(O, "m", "A"));
  return {};
}
VOP(show) { return {}; }

// One edit on a transaction of either mode. Returns the reported result, or ""
// if the call reports nothing.
template <typename Tx>
static std::string edit(FeatureModel &FM, Tx &T, ObjRef O) {
  constexpr bool Copy = std::is_same_v<Tx, FeatureModelCopyTransaction>;
  auto E = str(O, "e");
  if (E == "addFeature") {
    Feature *P = nullptr;
    if (O.getString("p")) {
      P = FM.getFeature(str(O, "p"));
      if (!P) {
        bad("no parent " + str(O, "p"));
      }
    }
    if constexpr (Copy) {
      auto R = T.addFeature(mkFeature(O), P);
      return ftres(R);
    } else {
      T.addFeature(mkFeature(O), P);
    }
  } else if (E == "removeFeature") {
    auto V = fvar(FM, O, "n");
    T.removeFeature(V, flag(O, "rec"));
  } else if (E == "addRel") {
    auto V = fvar(FM, O, "n");
    if constexpr (Copy) {
      auto R = T.addRelationship(relKind(O), V);
      return ftres(R);
    } else {
      T.addRelationship(relKind(O), V);
    }
  } else if (E == "removeRel") {
    T.removeRelationship(fvar(FM, O, "n"));
  } else if (E == "addLoc") {
    T.addLocation(fvar(FM, O, "n"), mkLoc(*O.getObject("loc")));
  } else if (E == "removeLoc") {
    auto V = fvar(FM, O, "n");
    T.removeLocation(V, mkLoc(*O.getObject("loc")));
  } else if (E == "addConstraint") {
    auto A = mkAst(*O.getObject("a"));
    auto K = str(O, "ck");
    auto Go = [&](auto C) -> std::string {
      if constexpr (Copy) {
        auto R = T.addConstraint(std::move(C));
        return ftres(R);
      } else {
        T.addConstraint(std::move(C));
        return "";
      }
    };
    if (K == "b") {
      return Go(std::make_unique<FeatureModel::BooleanConstraint>(std::move(A)));
    }
    if (K == "n") {
      return Go(
          std::make_unique<FeatureModel::NonBooleanConstraint>(std::move(A)));
    }
    return Go(std::make_unique<FeatureModel::MixedConstraint>(
        std::move(A),
        str(O, "req") == "none" ? FeatureModel::MixedConstraint::Req::NONE
                                : FeatureModel::MixedConstraint::Req::ALL,
        str(O, "ek") == "neg" ? FeatureModel::MixedConstraint::ExprKind::NEG
                              : FeatureModel::MixedConstraint::ExprKind::POS));
  } else if (E == "setName") {
    T.setName(str(O, "v"));
  } else if (E == "setCommit") {
    T.setCommit(str(O, "v"));
  } else if (E == "setPath") {
    T.setPath(fs::path(str(O, "v")));
  } else if (E == "setRoot") {
    if constexpr (Copy) {
      auto R = T.setRoot(std::make_unique<RootFeature>(str(O, "n")));
      return ftres(R);
    } else {
      T.setRoot(std::make_unique<RootFeature>(str(O, "n")));
    }
  } else if (E == "addChild") {
    auto P = nvar(FM, O, "p");
    auto C = nvar(FM, O, "c");
    T.addChild(P, C);
  } else {
    bad("edit " + E);
  }
  return "";
}

VOP(open) {
  auto &FM = model(W, O);
  auto T = str(O, "t", "t");
  if (str(O, "mode") == "copy") {
    W.TC[T].reset(new FeatureModelCopyTransaction(
        FeatureModelCopyTransaction::openTransaction(FM)));
  } else {
    W.TM[T].reset(new FeatureModelModifyTransaction(
        FeatureModelModifyTransaction::openTransaction(FM)));
  }
  return {};
}
VOP(edit) {
  auto T = str(O, "t", "t");
  auto &FM = model(W, O);
  std::string R;
  if (auto It = W.TC.find(T); It != W.TC.end()) {
    R = edit(FM, *It->second, O);
  } else if (auto It = W.TM.find(T); It != W.TM.end()) {
    R = edit(FM, *It->second, O);
  } else {
    bad("no transaction " + T);
  }
  return json::Object{{"res", R.empty() ? "-" : R}};
}
VOP(commit) {
  auto T = str(O, "t", "t");
  if (auto It = W.TC.find(T); It != W.TC.end()) {
    auto R = It->second->commit();
    std::string S = ftres(R);
    if (R) {
      auto FM = R.extractValue();
      if (!FM) {
        S = "NULL";
      }
      W.M[str(O, "to", "B")] = std::move(FM);
    }
    return json::Object{{"res", S}};
  }
  if (auto It = W.TM.find(T); It != W.TM.end()) {
    auto R = It->second->commit();
    return json::Object{{"res", ftres(R)}};
  }
  bad("no transaction " + T);
}
VOP(abort) {
  auto T = str(O, "t", "t");
  if (auto It = W.TC.find(T); It != W.TC.end()) {
    It->second->abort();
  } else if (auto It = W.TM.find(T); It != W.TM.end()) {
    It->second->abort();
  } else {
    bad("no transaction " + T);
  }
  return {};
}
// destroy a transaction object (commits pending edits in modify mode)
VOP(drop) {
  auto T = str(O, "t", "t");
  W.TC.erase(T);
  W.TM.erase(T);
  return {};
}

// hand a transaction on to another owner
VOP(move) {
  auto T = str(O, "t", "t");
  auto To = str(O, "to");
  if (W.TM.count(T)) {
    W.TM[To] = std::make_unique<FeatureModelModifyTransaction>(
        std::move(*W.TM[T]));
    W.TM.erase(T);
  } else {
    W.TC[To] =
        std::make_unique<FeatureModelCopyTransaction>(std::move(*W.TC[T]));
    W.TC.erase(T);
  }
  return {};
}

// the free helper functions
VOP(helper) {
  auto &FM = model(W, O);
  auto E = str(O, "e");
  if (E == "addFeature") {
    vara::feature::addFeature(
        FM, mkFeature(O),
        O.getString("p") ? FM.getFeature(str(O, "p")) : nullptr);
  } else if (E == "addFeatures") {
    std::vector<std::pair<std::unique_ptr<Feature>, Feature *>> V;
    for (auto &X : *O.getArray("fs")) {
      auto &XO = *X.getAsObject();
      V.emplace_back(mkFeature(XO), XO.getString("p")
                                        ? FM.getFeature(str(XO, "p"))
                                        : nullptr);
    }
    vara::feature::addFeatures(FM, std::move(V));
  } else if (E == "removeFeature") {
    vara::feature::removeFeature(FM, fvar(FM, O, "n"), flag(O, "rec"));
  } else if (E == "addRel") {
    vara::feature::addRelationship(FM, fvar(FM, O, "n"), relKind(O));
  } else if (E == "removeRel") {
    vara::feature::removeRelationship(FM, fvar(FM, O, "n"));
  } else if (E == "setCommit") {
    vara::feature::setCommit(FM, str(O, "v"));
  } else {
    bad("helper " + E);
  }
  return {};
}

VOP(removeFeatures) {
  auto &FM = model(W, O);
  std::vector<detail::FeatureVariantTy> V;
  std::map<Feature *, std::string> Names;
  for (auto *F : static_cast<const FeatureModel &>(FM).unorderedFeatures()) {
    Names[F] = F->getName().str();
  }
  for (auto &X : *O.getArray("fs")) {
    auto &XO = *X.getAsObject();
    V.push_back(fvar(FM, XO, "n"));
  }
  auto R = vara::feature::removeFeatures(FM, std::move(V), flag(O, "rec"));
  std::vector<std::string> L;
  for (auto &X : R) {
    if (std::holds_alternative<std::string>(X)) {
      L.push_back(std::get<std::string>(X));
    } else {
      L.push_back(Names[std::get<Feature *>(X)]);
    }
  }
  std::sort(L.begin(), L.end());
  json::Array A;
  for (auto &S : L) {
    A.push_back(S);
  }
  return json::Object{{"rest", std::move(A)}};
}

VOP(merge) {
  auto &F1 = model(W, O, "m");
  auto &F2 = model(W, O, "m2");
  auto R = mergeFeatureModels(F1, F2, flag(O, "strict", true));
  bool Ok = R != nullptr;
  if (Ok) {
    W.M[str(O, "to", "C")] = std::move(R);
  }
  return json::Object{{"res", Ok ? "OK" : "NULL"}};
}

VOP(updateLoc) {
  auto *F = model(W, O).getFeature(str(O, "n"));
  bool B = F->updateLocation(mkLoc(*O.getObject("loc")),
                             mkLoc(*O.getObject("new")));
  return json::Object{{"res", B ? "TRUE" : "FALSE"}};
}
// change one component of a location where it is
VOP(locSet) {
  auto *F = model(W, O).getFeature(str(O, "n"));
  auto Old = mkLoc(*O.getObject("loc"));
  auto New = mkLoc(*O.getObject("new"));
  for (auto &L : F->getLocations()) {
    if (L == Old) {
      auto What = str(O, "what");
      if (What == "path") {
        L.setPath(New.getPath().string());
      } else if (What == "cat") {
        L.setCategory(New.getCategory());
      } else {
        auto *P = What == "s" ? L.getStart() : L.getEnd();
        auto *Q = What == "s" ? New.getStart() : New.getEnd();
        P->setLineNumber(Q->getLineNumber());
        P->setColumnOffset(Q->getColumnOffset());
      }
      return json::Object{{"res", "TRUE"}};
    }
  }
  return json::Object{{"res", "FALSE"}};
}
VOP(locEq) {
  auto A = mkLoc(*O.getObject("x"));
  auto B = mkLoc(*O.getObject("y"));
  return json::Object{{"eq", A == B}, {"ne", A != B}};
}
VOP(locOrd) {
  using L = FeatureSourceRange::FeatureSourceLocation;
  auto &XA = *O.getArray("x");
  auto &YA = *O.getArray("y");
  L A((unsigned)*XA[0].getAsInteger(), (unsigned)*XA[1].getAsInteger());
  L B((unsigned)*YA[0].getAsInteger(), (unsigned)*YA[1].getAsInteger());
  return json::Object{{"eq", A == B}, {"lt", A < B}, {"gt", A > B}};
}
VOP(memberOffset) {
  using MO = FeatureSourceRange::FeatureMemberOffset;
  auto T = str(O, "text");
  auto M = MO::createFeatureMemberOffset(T);
  json::Object R{{"is", MO::isMemberOffsetFormat(T)}, {"has", M.has_value()}};
  if (M) {
    R["str"] = M->toString();
    R["cls"] = M->className();
    R["mem"] = M->memberName();
    R["depth"] = (int64_t)M->nestingDepth();
    json::Array A;
    for (size_t I = 0; I < M->nestingDepth(); ++I) {
      A.push_back(M->className(I));
    }
    R["nest"] = std::move(A);
    auto M2 = MO::createFeatureMemberOffset(M->toString());
    R["again"] = M2.has_value() && *M2 == *M;
  }
  return R;
}

// all pairwise comparisons
VOP(order) {
  auto &FM = model(W, O);
  json::Object Lt, Gt, Eq;
  for (auto *F : static_cast<const FeatureModel &>(FM).unorderedFeatures()) {
    json::Array L, G, Q;
    for (auto *H : static_cast<const FeatureModel &>(FM).unorderedFeatures()) {
      if (*F < *H) {
        L.push_back(H->getName().str());
      }
      if (*F > *H) {
        G.push_back(H->getName().str());
      }
      if (*F == *H) {
        Q.push_back(H->getName().str());
      }
    }
    Lt[F->getName()] = std::move(L);
    Gt[F->getName()] = std::move(G);
    Eq[F->getName()] = std::move(Q);
  }
  return json::Object{
      {"lt", std::move(Lt)}, {"gt", std::move(Gt)}, {"eq", std::move(Eq)}};
}
VOP(ofv) {
  auto &FM = model(W, O);
  using OFV = vara::feature::deprecated::OrderedFeatureVector;
  OFV V;
  json::Array Steps;
  for (auto &X : *O.getArray("seq")) {
    auto &XO = *X.getAsObject();
    auto *F = FM.getFeature(str(XO, "n"));
    if (!F) {
      bad("ofv");
    }
    if (flag(XO, "rm")) {
      V.remove(F);
    } else if (Steps.size() % 3 == 1) {
      V.insert({F});
    } else if (Steps.size() % 3 == 2) {
      std::vector<Feature *> One{F};
      V.insert(One.begin(), One.end());
    } else {
      V.insert(F);
    }
    json::Array A;
    std::vector<Feature *> All;
    for (auto *G : V) {
      A.push_back(G->getName().str());
      All.push_back(G);
    }
    const auto &CV = V;
    if (V.size() != A.size() || V.empty() != A.empty() ||
        !std::equal(CV.begin(), CV.end(), All.begin(), All.end())) {
      A.push_back("?size");
    }
    // vectors made from the same features at once
    OFV Same(All.rbegin(), All.rend());
    OFV List{F};
    if (!std::equal(Same.begin(), Same.end(), All.begin(), All.end()) ||
        List.size() != 1 || *List.begin() != F) {
      A.push_back("?made");
    }
    Steps.push_back(std::move(A));
  }
  return json::Object{{"steps", std::move(Steps)}};
}

// the model builder
VOP(build) {
  FeatureModelBuilder FMB;
  json::Array Par;
  for (auto &X : *O.getArray("decls")) {
    auto &D = *X.getAsObject();
    auto K = str(D, "d");
    if (K == "feature") {
      auto FK = str(D, "k", "bin");
      std::vector<FeatureSourceRange> L;
      if (auto *A = D.getArray("locs")) {
        for (auto &V : *A) {
          L.push_back(mkLoc(*V.getAsObject()));
        }
      }
      if (FK == "bin") {
        FMB.makeFeature<BinaryFeature>(str(D, "n"), flag(D, "opt"), L,
                                       str(D, "out"));
      } else if (FK == "unk") {
        FMB.makeFeature<Feature>(str(D, "n"));
      } else {
        auto F = mkFeature(D);
        auto *NF = static_cast<NumericFeature *>(F.get());
        std::unique_ptr<StepFunction> St;
        if (auto *S = D.getObject("step")) {
          St = mkStep(*S);
        }
        FMB.makeFeature<NumericFeature>(str(D, "n"), NF->getValues(),
                                        flag(D, "opt"), L, str(D, "out"),
                                        std::move(St));
      }
    } else if (K == "edge") {
      FMB.addEdge(str(D, "p"), str(D, "c"));
    } else if (K == "loc") {
      FMB.addLocation(str(D, "n"), mkLoc(*D.getObject("loc")));
    } else if (K == "rel") {
      FMB.emplaceRelationship(relKind(D), str(D, "n"));
    } else if (K == "root") {
      FMB.makeRoot(str(D, "n"));
    } else if (K == "name") {
      FMB.setVmName(str(D, "v"));
    } else if (K == "commit") {
      FMB.setCommit(str(D, "v"));
    } else if (K == "path") {
      FMB.setPath(fs::path(str(D, "v")));
    } else if (K == "constraint") {
      auto A = mkAst(*D.getObject("a"));
      auto CK = str(D, "ck");
      if (CK == "b") {
        FMB.addConstraint(
            std::make_unique<FeatureModel::BooleanConstraint>(std::move(A)));
      } else if (CK == "n") {
        FMB.addConstraint(
            std::make_unique<FeatureModel::NonBooleanConstraint>(std::move(A)));
      } else {
        FMB.addConstraint(std::make_unique<FeatureModel::MixedConstraint>(
            std::move(A),
            str(D, "req") == "none" ? FeatureModel::MixedConstraint::Req::NONE
                                    : FeatureModel::MixedConstraint::Req::ALL,
            str(D, "ek") == "neg"
                ? FeatureModel::MixedConstraint::ExprKind::NEG
                : FeatureModel::MixedConstraint::ExprKind::POS));
      }
    } else if (K == "ask") {
      auto P = FMB.getParentName(str(D, "n"));
      Par.push_back(P ? *P : std::string("?none"));
      continue;
    } else {
      bad("decl " + K);
    }
    Par.push_back("-");
  }
  auto FM = FMB.buildFeatureModel();
  bool Ok = FM != nullptr;
  if (Ok) {
    W.M[str(O, "m", "A")] = std::move(FM);
  }
  return json::Object{{"res", Ok ? "OK" : "NULL"}, {"par", std::move(Par)}};
}
