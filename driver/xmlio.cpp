// reading and writing XML documents
#include "vdrv.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelWriter.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>

using namespace vdrv;

static std::string scratch(const char *Name) {
  const char *T = getenv("TMPDIR");
  return std::string(T ? T : ".") + "/" + Name;
}
static std::string shown(FeatureModel *FM) {
  if (!FM) {
    return "none";
  }
  std::string S;
  llvm::raw_string_ostream OS(S);
  OS << json::Value(dumpModel(*FM));
  return OS.str();
}

VOP(xmlread) {
  auto Text = str(O, "text");
  bool Verify = bool(FeatureModelXmlParser(Text).verifyFeatureModel());
  auto FM = FeatureModelXmlParser(Text).buildFeatureModel();
  // the same through the other entry points
  auto P = scratch("read.xml");
  {
    std::ofstream F(P, std::ios::binary);
    F << Text;
  }
  bool File = verifyFeatureModel(P) == Verify;
  auto FM2 = loadFeatureModel(P);
  File = File && shown(FM.get()) == shown(FM2.get());
  bool Ok = FM != nullptr;
  if (Ok && str(O, "to", "") != "nowhere") {
    W.M[str(O, "m", "A")] = std::move(FM);
  }
  return json::Object{
      {"res", Ok ? "OK" : "NULL"}, {"verify", Verify}, {"file", File}};
}

VOP(xmlsave) {
  FeatureModelXmlWriter Writer(model(W, O));
  auto Text = Writer.writeFeatureModel();
  if (!Text) {
    return json::Object{{"res", "NULL"}};
  }
  auto FM = FeatureModelXmlParser(*Text).buildFeatureModel();
  if (!FM) {
    return json::Object{{"res", "UNREADABLE"}, {"text", *Text}};
  }
  bool Verify = bool(FeatureModelXmlParser(*Text).verifyFeatureModel());
  // what was read is written and read again without any change
  auto Text2 = FeatureModelXmlWriter(*FM).writeFeatureModel();
  auto Again = FeatureModelXmlParser(Text2 ? *Text2 : "").buildFeatureModel();
  auto Text3 = Again ? FeatureModelXmlWriter(*Again).writeFeatureModel()
                     : std::optional<std::string>();
  bool Same = Text2 && Text3 && *Text2 == *Text3 &&
              shown(FM.get()) == shown(Again.get());
  auto P = scratch("save.xml");
  bool File = Writer.writeFeatureModel(P) >= 0 && verifyFeatureModel(P);
  auto FM2 = loadFeatureModel(P);
  File = File && shown(FM.get()) == shown(FM2.get());
  bool NoFile = Writer.writeFeatureModel(scratch("no/such/dir/x.xml")) < 0;
  W.M[str(O, "to", "B")] = std::move(FM);
  return json::Object{{"res", "OK"},
                      {"verify", Verify},
                      {"same", Same},
                      {"file", File},
                      {"nofile", NoFile},
                      {"text", *Text},
                      {"again", Same || !Text3 ? "" : *Text3}};
}

VOP(sxfmread) {
  auto Text = str(O, "text");
  bool Verify = bool(FeatureModelSxfmParser(Text).verifyFeatureModel());
  auto FM = FeatureModelSxfmParser(Text).buildFeatureModel();
  shown(FM.get());
  bool Ok = FM != nullptr;
  if (Ok && str(O, "to", "") != "nowhere") {
    W.M[str(O, "m", "A")] = std::move(FM);
  }
  return json::Object{{"res", Ok ? "OK" : "NULL"}, {"verify", Verify}};
}
