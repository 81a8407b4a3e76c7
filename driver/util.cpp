#include "vdrv.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <sstream>

namespace vdrv {
World::~World() {
  // open copy transactions must be ended before they are destroyed
  for (auto &T : TC) {
    if (T.second) {
      T.second->abort();
    }
  }
  for (auto &T : TM) {
    if (T.second) {
      T.second->abort();
    }
  }
  TC.clear();
  TM.clear();
  B.clear();
  X.clear();
  M.clear();
}

std::string str(ObjRef O, llvm::StringRef K, const char *Def) {
  if (auto S = O.getString(K)) {
    return S->str();
  }
  return Def;
}
int64_t num(ObjRef O, llvm::StringRef K, int64_t Def) {
  if (auto V = O.getInteger(K)) {
    return *V;
  }
  if (auto S = O.getString(K)) {
    return strtoll(S->str().c_str(), nullptr, 10);
  }
  return Def;
}
bool flag(ObjRef O, llvm::StringRef K, bool Def) {
  if (auto V = O.getBoolean(K)) {
    return *V;
  }
  return Def;
}
FeatureModel &model(World &W, ObjRef O, const char *K) {
  auto It = W.M.find(str(O, K, "A"));
  if (It == W.M.end() || !It->second) {
    bad("no model " + str(O, K, "A"));
  }
  return *It->second;
}

std::string fterr(FTErrorCode E) {
  switch (E) {
  case ABORTED:
    return "ABORTED";
  case ALREADY_PRESENT:
    return "ALREADY_PRESENT";
  case ERROR:
    return "ERROR";
  case INCONSISTENT:
    return "INCONSISTENT";
  case MISSING_FEATURE:
    return "MISSING_FEATURE";
  case MISSING_MODEL:
    return "MISSING_MODEL";
  case MISSING_PARENT:
    return "MISSING_PARENT";
  case MISSING_CHILD:
    return "MISSING_CHILD";
  case NON_LEAF_NODE:
    return "NON_LEAF_NODE";
  case RECURSIVE_EDGE:
    return "RECURSIVE_EDGE";
  }
  return "?";
}

std::unique_ptr<StepFunction> mkStep(ObjRef O) {
  auto S = str(O, "o");
  auto Op = S == "+"   ? StepFunction::StepOperation::ADDITION
            : S == "*" ? StepFunction::StepOperation::MULTIPLICATION
                       : StepFunction::StepOperation::EXPONENTIATION;
  double C = O.getNumber("c") ? *O.getNumber("c") : 1.0;
  if (flag(O, "left")) {
    return std::make_unique<StepFunction>(C, Op);
  }
  return std::make_unique<StepFunction>(Op, C);
}

static std::vector<FeatureSourceRange> mkLocs(ObjRef O) {
  std::vector<FeatureSourceRange> R;
  if (auto *A = O.getArray("locs")) {
    for (auto &V : *A) {
      R.push_back(mkLoc(*V.getAsObject()));
    }
  }
  return R;
}

FeatureSourceRange mkLoc(ObjRef O) {
  std::optional<FeatureSourceRange::FeatureSourceLocation> S, E;
  auto Pos = [&](const char *K)
      -> std::optional<FeatureSourceRange::FeatureSourceLocation> {
    if (auto *A = O.getArray(K); A && A->size() == 2) {
      return FeatureSourceRange::FeatureSourceLocation(
          (unsigned)*(*A)[0].getAsInteger(), (unsigned)*(*A)[1].getAsInteger());
    }
    return std::nullopt;
  };
  S = Pos("s");
  E = Pos("e");
  std::optional<FeatureSourceRange::FeatureMemberOffset> MO;
  if (auto M = O.getString("mo")) {
    MO = FeatureSourceRange::FeatureMemberOffset::createFeatureMemberOffset(*M);
  }
  std::optional<FeatureSourceRange::FeatureRevisionRange> RR;
  if (auto *A = O.getArray("rev"); A && !A->empty()) {
    if (A->size() == 1) {
      RR.emplace((*A)[0].getAsString()->str());
    } else {
      RR.emplace((*A)[0].getAsString()->str(), (*A)[1].getAsString()->str());
    }
  }
  return FeatureSourceRange(fs::path(str(O, "path")), S, E,
                            str(O, "cat", "n") == "i"
                                ? FeatureSourceRange::Category::inessential
                                : FeatureSourceRange::Category::necessary,
                            MO, RR);
}

std::string dumpLoc(FeatureSourceRange &L) {
  std::stringstream S;
  S << L.getPath().string() << "|";
  if (L.hasStart()) {
    S << L.getStart()->getLineNumber() << "," << L.getStart()->getColumnOffset();
  }
  S << "|";
  if (L.hasEnd()) {
    S << L.getEnd()->getLineNumber() << "," << L.getEnd()->getColumnOffset();
  }
  S << "|"
    << (L.getCategory() == FeatureSourceRange::Category::necessary ? "n" : "i")
    << "|";
  if (L.hasMemberOffset()) {
    S << L.getMemberOffset()->toString();
  }
  S << "|";
  if (L.hasRevisionRange()) {
    S << L.revisionRange()->introducingCommit().str() << ".."
      << (L.revisionRange()->hasRemovingCommit()
              ? L.revisionRange()->removingCommit().str()
              : std::string("-"));
  }
  return S.str();
}

std::unique_ptr<Feature> mkFeature(ObjRef O) {
  auto N = str(O, "n");
  auto K = str(O, "k", "bin");
  if (K == "root") {
    return std::make_unique<RootFeature>(N);
  }
  if (K == "unk") {
    return std::make_unique<Feature>(N);
  }
  if (K == "num") {
    std::unique_ptr<StepFunction> Step;
    if (auto *S = O.getObject("step")) {
      Step = mkStep(*S);
    }
    NumericFeature::ValuesVariantType V = std::make_pair<int64_t, int64_t>(0, 0);
    if (auto *A = O.getArray("list")) {
      std::vector<int64_t> L;
      for (auto &E : *A) {
        L.push_back(E.getAsInteger()
                        ? *E.getAsInteger()
                        : strtoll(E.getAsString()->str().c_str(), nullptr, 10));
      }
      V = L;
    } else if (auto *A = O.getArray("range")) {
      auto G = [](const json::Value &E) {
        return E.getAsInteger()
                   ? *E.getAsInteger()
                   : (int64_t)strtoll(E.getAsString()->str().c_str(), nullptr,
                                      10);
      };
      V = std::make_pair(G((*A)[0]), G((*A)[1]));
    }
    return std::make_unique<NumericFeature>(N, V, flag(O, "opt"), mkLocs(O),
                                            str(O, "out"), std::move(Step));
  }
  return std::make_unique<BinaryFeature>(N, flag(O, "opt"), mkLocs(O),
                                         str(O, "out"));
}

std::unique_ptr<Constraint> mkAst(ObjRef O) {
  auto K = str(O, "o");
  if (K == "f") {
    return std::make_unique<PrimaryFeatureConstraint>(
        std::make_unique<Feature>(str(O, "n")));
  }
  if (K == "i") {
    return std::make_unique<PrimaryIntegerConstraint>(num(O, "v"));
  }
  if (K == "!") {
    return std::make_unique<NotConstraint>(mkAst(*O.getObject("x")));
  }
  if (K == "~") {
    return std::make_unique<NegConstraint>(mkAst(*O.getObject("x")));
  }
  auto L = mkAst(*O.getObject("l"));
  auto R = mkAst(*O.getObject("r"));
#define BIN(S, T)                                                              \
  if (K == S) {                                                                \
    return std::make_unique<T>(std::move(L), std::move(R));                    \
  }
  BIN("|", OrConstraint)
  BIN("^", XorConstraint)
  BIN("&", AndConstraint)
  BIN("=", EqualConstraint)
  BIN("!=", NotEqualConstraint)
  BIN("=>", ImpliesConstraint)
  BIN("=>!", ExcludesConstraint)
  BIN("<=>", EquivalenceConstraint)
  BIN("+", AdditionConstraint)
  BIN("-", SubtractionConstraint)
  BIN("*", MultiplicationConstraint)
  BIN("/", DivisionConstraint)
  BIN("<", LessConstraint)
  BIN(">", GreaterConstraint)
  BIN("<=", LessEqualConstraint)
  BIN(">=", GreaterEqualConstraint)
#undef BIN
  bad("ast " + K);
}

json::Value dumpAst(Constraint *C) {
  using CK = Constraint::ConstraintKind;
  if (!C) {
    return json::Object{{"o", "null"}};
  }
  auto Bin = [C](const char *K) -> json::Value {
    auto *B = static_cast<BinaryConstraint *>(C);
    return json::Object{{"o", K},
                        {"l", dumpAst(B->getLeftOperand())},
                        {"r", dumpAst(B->getRightOperand())}};
  };
  switch (C->getKind()) {
  case CK::CK_ADDITION:
    return Bin("+");
  case CK::CK_AND:
    return Bin("&");
  case CK::CK_DIVISION:
    return Bin("/");
  case CK::CK_EQUAL:
    return Bin("=");
  case CK::CK_EQUIVALENCE:
    return Bin("<=>");
  case CK::CK_EXCLUDES:
    return Bin("=>!");
  case CK::CK_GREATER:
    return Bin(">");
  case CK::CK_GREATER_EQUAL:
    return Bin(">=");
  case CK::CK_IMPLIES:
    return Bin("=>");
  case CK::CK_LESS:
    return Bin("<");
  case CK::CK_LESS_EQUAL:
    return Bin("<=");
  case CK::CK_MULTIPLICATION:
    return Bin("*");
  case CK::CK_NOT_EQUAL:
    return Bin("!=");
  case CK::CK_OR:
    return Bin("|");
  case CK::CK_SUBTRACTION:
    return Bin("-");
  case CK::CK_XOR:
    return Bin("^");
  case CK::CK_NEG:
    return json::Object{
        {"o", "~"},
        {"x", dumpAst(static_cast<UnaryConstraint *>(C)->getOperand())}};
  case CK::CK_NOT:
    return json::Object{
        {"o", "!"},
        {"x", dumpAst(static_cast<UnaryConstraint *>(C)->getOperand())}};
  case CK::CK_FEATURE: {
    auto *F = static_cast<PrimaryFeatureConstraint *>(C)->getFeature();
    return json::Object{{"o", "f"}, {"n", F ? F->getName().str() : "?null"}};
  }
  case CK::CK_INTEGER: {
    auto V = static_cast<PrimaryIntegerConstraint *>(C)->getValue();
    return json::Object{{"o", "i"}, {"v", std::to_string(V)}};
  }
  default:
    return json::Object{{"o", "?"}};
  }
}

// Are all parent links of the tree consistent?
static bool linksOk(Constraint *C, Constraint *Parent, Constraint *Root) {
  if (!C || C->getParent() != Parent || C->getRoot() != Root) {
    return false;
  }
  if (auto *B = dynamic_cast<BinaryConstraint *>(C)) {
    return linksOk(B->getLeftOperand(), C, Root) &&
           linksOk(B->getRightOperand(), C, Root);
  }
  if (auto *U = dynamic_cast<UnaryConstraint *>(C)) {
    return linksOk(U->getOperand(), C, Root);
  }
  return true;
}

static bool boundOk(Constraint *C, FeatureModel &FM) {
  if (auto *B = dynamic_cast<BinaryConstraint *>(C)) {
    return boundOk(B->getLeftOperand(), FM) && boundOk(B->getRightOperand(), FM);
  }
  if (auto *U = dynamic_cast<UnaryConstraint *>(C)) {
    return boundOk(U->getOperand(), FM);
  }
  if (auto *F = dynamic_cast<PrimaryFeatureConstraint *>(C)) {
    return F->getFeature() && FM.getFeature(F->getFeature()->getName()) ==
                                  F->getFeature();
  }
  return true;
}

json::Object dumpModel(FeatureModel &FM) {
  const FeatureModel &CFM = FM;
  json::Object R;
  R["name"] = FM.getName().str();
  R["path"] = FM.getPath() == fs::current_path() ? std::string("CWD")
                                                 : FM.getPath().string();
  R["commit"] = FM.getCommit().str();
  R["root"] = FM.getRoot() ? FM.getRoot()->getName().str() : std::string("");
  R["size"] = (int64_t)FM.size();

  std::map<FeatureTreeNode *, std::string> Id;
  bool LookupOk = true;
  for (auto *F : CFM.unorderedFeatures()) {
    Id[F] = F->getName().str();
    LookupOk = LookupOk && FM.getFeature(F->getName()) == F;
  }
  R["lookup"] = LookupOk;
  // group nodes are named after the feature they hang below
  std::map<std::string, int> Seen;
  for (const auto &Rel : CFM.relationships()) {
    auto P = Id.find(Rel->getParent());
    std::string N = "#" + (P == Id.end() ? std::string("?") : P->second);
    int K = Seen[N]++;
    Id[Rel.get()] = K ? N + "#" + std::to_string(K) : N;
  }
  auto IdOf = [&Id](FeatureTreeNode *N) -> std::string {
    if (!N) {
      return "";
    }
    auto It = Id.find(N);
    return It == Id.end() ? std::string("?dangling") : It->second;
  };
  auto Kids = [&](FeatureTreeNode *N) {
    std::vector<std::string> V;
    for (auto *C : N->children()) {
      V.push_back(IdOf(C));
    }
    std::sort(V.begin(), V.end());
    json::Array A;
    for (auto &S : V) {
      A.push_back(S);
    }
    return A;
  };

  std::map<Constraint *, std::string> CId;
  json::Array CB, CN, CX;
  int I = 0;
  for (const auto &C : CFM.booleanConstraints()) {
    CId[C->constraint()] = "b" + std::to_string(++I);
    CB.push_back(json::Object{{"a", dumpAst(C->constraint())},
                              {"s", C->toString()},
                              {"ok", linksOk(C->constraint(), nullptr,
                                             C->constraint()) &&
                                         boundOk(C->constraint(), FM)}});
  }
  I = 0;
  for (const auto &C : CFM.nonBooleanConstraints()) {
    CId[C->constraint()] = "n" + std::to_string(++I);
    CN.push_back(json::Object{{"a", dumpAst(C->constraint())},
                              {"s", C->toString()},
                              {"ok", linksOk(C->constraint(), nullptr,
                                             C->constraint()) &&
                                         boundOk(C->constraint(), FM)}});
  }
  I = 0;
  for (const auto &C : CFM.mixedConstraints()) {
    CId[C->constraint()] = "x" + std::to_string(++I);
    CX.push_back(json::Object{
        {"a", dumpAst(C->constraint())},
        {"s", C->toString()},
        {"req", C->req() == FeatureModel::MixedConstraint::Req::ALL ? "all"
                                                                    : "none"},
        {"ek", C->exprKind() == FeatureModel::MixedConstraint::ExprKind::POS
                   ? "pos"
                   : "neg"},
        {"ok", linksOk(C->constraint(), nullptr, C->constraint()) &&
                   boundOk(C->constraint(), FM)}});
  }
  R["cb"] = std::move(CB);
  R["cn"] = std::move(CN);
  R["cx"] = std::move(CX);

  json::Object FO;
  for (auto *F : CFM.unorderedFeatures()) {
    json::Object N;
    switch (F->getKind()) {
    case Feature::FeatureKind::FK_BINARY:
      N["k"] = "bin";
      break;
    case Feature::FeatureKind::FK_NUMERIC:
      N["k"] = "num";
      break;
    case Feature::FeatureKind::FK_ROOT:
      N["k"] = "root";
      break;
    case Feature::FeatureKind::FK_UNKNOWN:
      N["k"] = "unk";
      break;
    }
    N["opt"] = F->isOptional();
    N["out"] = F->getOutputString().str();
    N["vals"] = "";
    N["step"] = "";
    if (auto *NF = llvm::dyn_cast<NumericFeature>(F)) {
      auto V = NF->getValues();
      std::string S;
      if (std::holds_alternative<NumericFeature::ValueListType>(V)) {
        S = "l";
        for (auto X : std::get<NumericFeature::ValueListType>(V)) {
          S += ":" + std::to_string(X);
        }
      } else {
        auto P = std::get<NumericFeature::ValueRangeType>(V);
        S = "r:" + std::to_string(P.first) + ":" + std::to_string(P.second);
      }
      N["vals"] = S;
      if (NF->getStepFunction()) {
        // what it does, not how it is written
        char Buf[128];
        auto *SF = NF->getStepFunction();
        snprintf(Buf, sizeof(Buf), "%.6g %.6g %.6g", SF->next(2.0),
                 SF->next(3.0), SF->next(5.0));
        N["step"] = std::string(Buf);
      }
    }
    json::Array L;
    for (auto &Loc : F->getLocations()) {
      L.push_back(dumpLoc(Loc));
    }
    N["locs"] = std::move(L);
    N["par"] = IdOf(F->getParent());
    N["ch"] = Kids(F);
    N["leaf"] = F->isLeaf();
    auto *PF = F->getParentFeature();
    N["pf"] = PF ? PF->getName().str() : std::string("");
    std::vector<std::string> Cs, Im, Ex;
    for (auto *C : F->constraints()) {
      auto It = CId.find(C->getRoot());
      auto *PC = llvm::dyn_cast<PrimaryFeatureConstraint>(C);
      Cs.push_back(It == CId.end() || !PC || PC->getFeature() != F
                       ? std::string("?")
                       : It->second);
    }
    for (auto *C : F->implications()) {
      auto It = CId.find(C);
      Im.push_back(It == CId.end() ? std::string("?") : It->second);
    }
    for (auto *C : F->excludes()) {
      auto It = CId.find(C);
      Ex.push_back(It == CId.end() ? std::string("?") : It->second);
    }
    auto Arr = [](std::vector<std::string> V) {
      std::sort(V.begin(), V.end());
      json::Array A;
      for (auto &S : V) {
        A.push_back(S);
      }
      return A;
    };
    N["cs"] = Arr(Cs);
    N["im"] = Arr(Im);
    N["ex"] = Arr(Ex);
    FO[F->getName()] = std::move(N);
  }
  R["F"] = std::move(FO);
  json::Object RO;
  for (const auto &Rel : CFM.relationships()) {
    RO[Id[Rel.get()]] = json::Object{
        {"k", Rel->getKind() == Relationship::RelationshipKind::RK_ALTERNATIVE
                  ? "ALT"
                  : "OR"},
        {"par", IdOf(Rel->getParent())},
        {"ch", Kids(Rel.get())}};
  }
  R["R"] = std::move(RO);
  // traversal, cut off well beyond any legal length
  json::Array D;
  size_t Limit = 4 * (FM.size() + 4);
  if (FM.getRoot()) {
    for (auto It = CFM.begin(); It != CFM.end() && D.size() < Limit; ++It) {
      auto *F = *It;
      D.push_back(Id.count(F) ? F->getName().str() : std::string("?dangling"));
    }
  }
  R["dfs"] = std::move(D);
  return R;
}
} // namespace vdrv
bool vdrvLinksOk(vara::feature::Constraint *C) {
  return vdrv::linksOk(C, nullptr, C);
}
