// Conformance driver: executes scripts of operations against the public API of
// vara-feature and reports, after every operation, what the API shows.
#ifndef VDRV_H
#define VDRV_H

#include "vara/Feature/Constraint.h"
#include "vara/Feature/Feature.h"
#include "vara/Feature/FeatureModel.h"
#include "vara/Feature/FeatureModelBuilder.h"
#include "vara/Feature/FeatureModelTransaction.h"

#include "llvm/Support/JSON.h"

#include <functional>
#include <map>
#include <memory>
#include <string>

namespace vdrv {
namespace json = llvm::json;
using namespace vara::feature;
using ObjRef = const json::Object &;

struct Ext {
  virtual ~Ext() = default;
};

struct World {
  std::map<std::string, std::unique_ptr<FeatureModel>> M;
  std::map<std::string, std::unique_ptr<FeatureModelModifyTransaction>> TM;
  std::map<std::string, std::unique_ptr<FeatureModelCopyTransaction>> TC;
  std::map<std::string, std::unique_ptr<FeatureModelBuilder>> B;
  std::map<std::string, std::unique_ptr<Ext>> X;
  ~World();
};

// An operation returns the fields of the event; "res" is added if missing.
using OpFn = std::function<json::Object(World &, ObjRef)>;
std::map<std::string, OpFn> &ops();
struct Reg {
  Reg(const char *Name, OpFn F) { ops()[Name] = std::move(F); }
};
#define VOP(NAME)                                                              \
  static json::Object op_##NAME(World &W, ObjRef O);                           \
  static Reg reg_##NAME(#NAME, op_##NAME);                                     \
  static json::Object op_##NAME([[maybe_unused]] World &W,                     \
                                [[maybe_unused]] ObjRef O)

std::string str(ObjRef O, llvm::StringRef K, const char *Def = "");
int64_t num(ObjRef O, llvm::StringRef K, int64_t Def = 0);
bool flag(ObjRef O, llvm::StringRef K, bool Def = false);
FeatureModel &model(World &W, ObjRef O, const char *K = "m");

std::unique_ptr<FeatureModel> described(ObjRef O, json::Object &Refusal);
std::unique_ptr<Feature> mkFeature(ObjRef O);
FeatureSourceRange mkLoc(ObjRef O);
std::unique_ptr<StepFunction> mkStep(ObjRef O);
std::unique_ptr<Constraint> mkAst(ObjRef O);
json::Value dumpAst(Constraint *C);
std::string dumpLoc(FeatureSourceRange &L);
json::Object dumpModel(FeatureModel &FM);
std::string fterr(FTErrorCode E);
template <typename V> std::string ftres(vara::Result<FTErrorCode, V> &R) {
  return R ? std::string("OK") : fterr(R.getError());
}
[[noreturn]] void bad(const std::string &Msg);
} // namespace vdrv
#endif
