#include "vdrv.h"
#include "vara/Feature/ConstraintBuilder.h"
#include "vara/Feature/ConstraintParser.h"

using namespace vdrv;

bool vdrvLinksOk(Constraint *C);

static json::Array chars(const std::string &S) {
  json::Array A;
  for (char C : S) {
    A.push_back(std::string(1, C));
  }
  return A;
}

static json::Object describe(std::unique_ptr<Constraint> C) {
  if (!C) {
    return json::Object{{"res", "NULL"}};
  }
  json::Object R{{"res", "OK"}};
  auto S = C->toString();
  R["a"] = dumpAst(C.get());
  R["s"] = S;
  R["pc"] = chars(S);
  R["links"] = vdrvLinksOk(C.get());
  auto Again = ConstraintParser(S).buildConstraint();
  R["again"] = dumpAst(Again.get());
  return R;
}

VOP(parse) { return describe(ConstraintParser(str(O, "text")).buildConstraint()); }

static void call(ConstraintBuilder &B, const json::Array &Calls) {
  for (auto &X : Calls) {
    auto &C = *X.getAsObject();
    auto K = str(C, "k");
    auto V = str(C, "v");
    if (K == "id") {
      B.feature(V);
    } else if (K == "num") {
      B.constant(atoi(V.c_str()));
    } else if (K == "!") {
      B.lNot();
    } else if (K == "~") {
      B.neg();
    } else if (K == "(") {
      B.openPar();
    } else if (K == ")") {
      B.closePar();
    } else if (K == "()") {
      B();
    } else if (K == "op") {
#define OPC(S, F)                                                              \
  if (V == S) {                                                                \
    B.F();                                                                     \
    continue;                                                                  \
  }
      OPC("&", lAnd)
      OPC("|", lOr)
      OPC("^", lXor)
      OPC("=>", implies)
      OPC("=>!", excludes)
      OPC("<=>", equivalent)
      OPC("=", equal)
      OPC("!=", notEqual)
      OPC("<", less)
      OPC("<=", lessEqual)
      OPC(">", greater)
      OPC(">=", greaterEqual)
      OPC("+", add)
      OPC("-", subtract)
      OPC("*", multiply)
      OPC("/", divide)
      bad("op " + V);
    } else {
      bad("call " + K);
    }
  }
}

VOP(cbuild) {
  ConstraintBuilder B;
  call(B, *O.getArray("calls"));
  auto R = describe(B.build());
  // the same builder is used again
  call(B, *O.getArray("next"));
  R["next"] = describe(B.build());
  return R;
}
