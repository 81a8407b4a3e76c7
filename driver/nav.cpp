// what single nodes answer: children by type and depth, edges, descriptions
#include "vdrv.h"
#include "vara/Feature/Relationship.h"
#include "llvm/Support/raw_ostream.h"
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <unistd.h>

using namespace vdrv;

// run Fn while everything written to the standard output goes to a file
template <typename Fn> static std::string captured(Fn F) {
  const char *Name = "captured.txt";
  llvm::outs().flush();
  int Old = dup(1);
  int Fd = open(Name, O_CREAT | O_TRUNC | O_WRONLY, 0644);
  dup2(Fd, 1);
  F();
  llvm::outs().flush();
  fflush(stdout);
  dup2(Old, 1);
  close(Old);
  close(Fd);
  std::ifstream In(Name, std::ios::binary);
  std::stringstream SS;
  SS << In.rdbuf();
  return SS.str();
}

VOP(nav) {
  FeatureModel &FM = model(W, O);
  const FeatureModel &CFM = FM;
  std::map<FeatureTreeNode *, std::string> Id;
  for (auto *F : CFM.unorderedFeatures()) {
    Id[F] = F->getName().str();
  }
  for (const auto &R : CFM.relationships()) {
    auto P = Id.find(R->getParent());
    Id[R.get()] = "#" + (P == Id.end() ? std::string("?") : P->second);
  }
  auto NameOf = [&Id](FeatureTreeNode *N) {
    auto It = Id.find(N);
    return It == Id.end() ? std::string("?") : It->second;
  };
  json::Object To, From, Leaf, Text;
  json::Object Below;
  const std::pair<const char *, int> Ds[] = {
      {"all", -1}, {"0", 0}, {"1", 1}, {"2", 2}, {"3", 3}};
  for (const char *T : {"feature", "group", "any"}) {
    json::Object PerD;
    for (auto &D : Ds) {
      json::Object PerN;
      for (auto &KV : Id) {
        json::Array A;
        auto Fill = [&](const auto &S) {
          for (auto *N : S) {
            A.push_back(NameOf(N));
          }
        };
        bool All = D.second < 0;
        if (T[0] == 'f') {
          Fill(All ? KV.first->getChildren<Feature>()
                   : KV.first->getChildren<Feature>(D.second));
        } else if (T[0] == 'g') {
          Fill(All ? KV.first->getChildren<Relationship>()
                   : KV.first->getChildren<Relationship>(D.second));
        } else {
          Fill(All ? KV.first->getChildren()
                   : KV.first->getChildren(D.second));
        }
        PerN[KV.second] = std::move(A);
      }
      PerD[D.first] = std::move(PerN);
    }
    Below[T] = std::move(PerD);
  }
  for (auto &A : Id) {
    json::Array T, F;
    for (auto &B : Id) {
      if (A.first->hasEdgeTo(*B.first)) {
        T.push_back(B.second);
      }
      if (B.first->hasEdgeFrom(*A.first)) {
        F.push_back(B.second);
      }
    }
    To[A.second] = std::move(T);
    From[A.second] = std::move(F);
    Leaf[A.second] = A.first->isLeaf();
  }
  bool Streams = true;
  for (auto *F : CFM.unorderedFeatures()) {
    auto S = F->toString();
    Text[F->getName()] = S;
    std::stringstream SS;
    SS << *F;
    std::string R;
    llvm::raw_string_ostream RS(R);
    RS << *F;
    Streams = Streams && SS.str() == S && RS.str() == S;
  }
  auto Dump = captured([&] { CFM.dump(); });
  auto *One = FM.getFeature(str(O, "n", FM.getRoot()->getName().str().c_str()));
  auto Single = captured([&] { (One ? One : FM.getRoot())->dump(); });
  return json::Object{{"to", std::move(To)},       {"from", std::move(From)},
                      {"leaf", std::move(Leaf)},   {"below", std::move(Below)},
                      {"text", std::move(Text)},   {"streams", Streams},
                      {"dump", std::move(Dump)},   {"single", std::move(Single)}};
}

// two cursors over the same walk
namespace {
// Read gives what a cursor shows, and whether all ways to read it agree
template <typename It, typename ReadFn>
json::Object cursors(const json::Array &Seq, const It &Begin, const It &End,
                     ReadFn Read) {
  json::Array Base, Steps;
  for (It I(Begin); I != End; ++I) {
    bool Same = true;
    Base.push_back(Read(I, Same));
  }
  std::optional<It> C[2];
  C[0].emplace(Begin);
  C[1].emplace(Begin);
  for (auto &X : Seq) {
    auto &S = *X.getAsObject();
    auto Op = str(S, "o");
    auto &Cur = C[num(S, "c") - 1];
    auto &Twin = C[2 - num(S, "c")];
    bool Same = true;
    std::string Seen;
    if (Op == "copy") {
      It Copy(*Twin);
      Cur.emplace(Copy);
    }
    bool AtEnd = *Cur == End;
    if (Op == "next" && !AtEnd) {
      auto R = ++*Cur;
      Same = R == *Cur;
    }
    if (Op == "post" && !AtEnd) {
      auto R = (*Cur)++;
      Seen = Read(R, Same);
    } else if (*Cur != End) {
      Seen = Read(*Cur, Same);
    }
    Same = Same && (*C[0] == *C[1]) == !(*C[0] != *C[1]) &&
           (*C[0] == *C[1]) == (*C[1] == *C[0]);
    Steps.push_back(json::Object{{"seen", Seen},
                                 {"eq", *C[0] == *C[1]},
                                 {"end", *Cur == End},
                                 {"same", Same}});
  }
  return json::Object{{"base", std::move(Base)}, {"steps", std::move(Steps)}};
}
} // namespace

VOP(cursors) {
  const FeatureModel &FM = model(W, O);
  auto &Seq = *O.getArray("seq");
  json::Object Kinds;
  auto D = FM.features();
  Kinds["dfs"] = cursors(Seq, D.begin(), D.end(), [](auto &I, bool &Same) {
    const auto &CI = I;
    Same = Same && *I == *CI && *I.operator->() == *I && *CI.operator->() == *I;
    return (*I)->getName().str();
  });
  auto U = FM.unorderedFeatures();
  Kinds["map"] = cursors(Seq, U.begin(), U.end(), [](auto &I, bool &Same) {
    const auto &CI = I;
    Same = Same && *I == *CI && I->getName() == (*I)->getName() &&
           CI->getName() == (*I)->getName();
    return (*I)->getName().str();
  });
  auto B = FM.booleanConstraints();
  Kinds["cons"] = cursors(Seq, B.begin(), B.end(), [](auto &I, bool &Same) {
    Same = Same && I->toString() == (*I)->toString();
    return (*I)->toString();
  });
  return json::Object{{"res", "OK"}, {"kinds", std::move(Kinds)}};
}
