#include "vdrv.h"
#include "vara/Feature/Error.h"
#include "vara/Solver/Error.h"

#include <optional>
#include <sstream>

using namespace vdrv;
using vara::Result;
namespace vf = vara::feature;
namespace vs = vara::solver;

namespace {

const std::vector<std::pair<const char *, vf::FTErrorCode>> FT{
    {"ABORTED", vf::ABORTED},
    {"ALREADY_PRESENT", vf::ALREADY_PRESENT},
    {"ERROR", vf::ERROR},
    {"INCONSISTENT", vf::INCONSISTENT},
    {"MISSING_FEATURE", vf::MISSING_FEATURE},
    {"MISSING_MODEL", vf::MISSING_MODEL},
    {"MISSING_PARENT", vf::MISSING_PARENT},
    {"MISSING_CHILD", vf::MISSING_CHILD},
    {"NON_LEAF_NODE", vf::NON_LEAF_NODE},
    {"RECURSIVE_EDGE", vf::RECURSIVE_EDGE}};
const std::vector<std::pair<const char *, vs::SolverErrorCode>> SV{
    {"NOT_IMPLEMENTED", vs::NOT_IMPLEMENTED},
    {"NOT_SUPPORTED", vs::NOT_SUPPORTED},
    {"UNSAT", vs::UNSAT},
    {"ALREADY_PRESENT", vs::ALREADY_PRESENT},
    {"NOT_ALL_CONSTRAINTS_PROCESSED", vs::NOT_ALL_CONSTRAINTS_PROCESSED},
    {"PARENT_NOT_PRESENT", vs::PARENT_NOT_PRESENT},
    {"ILLEGAL_STATE", vs::ILLEGAL_STATE}};
int First = 1;
int Second = 2;

template <class C>
struct Code;
template <class Table, class C>
C find(const Table &T, const std::string &S, C Else) {
  for (auto &P : T) {
    if (S == P.first) {
      return P.second;
    }
  }
  return Else;
}
template <class Table, class C>
std::string back(const Table &T, C E) {
  for (auto &P : T) {
    if (E == P.second) {
      return P.first;
    }
  }
  return "?";
}
template <>
struct Code<vf::FTErrorCode> {
  static vf::FTErrorCode of(const std::string &S) { return find(FT, S, vf::ERROR); }
  static std::string str(vf::FTErrorCode E) { return back(FT, E); }
};
template <>
struct Code<vs::SolverErrorCode> {
  static vs::SolverErrorCode of(const std::string &S) { return find(SV, S, vs::UNSAT); }
  static std::string str(vs::SolverErrorCode E) { return back(SV, E); }
};
template <>
struct Code<std::string> {
  static std::string of(const std::string &S) { return S; }
  static std::string str(const std::string &S) { return S; }
};

template <class V>
struct Val;
template <>
struct Val<bool> {
  static bool of(const std::string &S) { return S == "true"; }
  static std::string str(bool B) { return B ? "true" : "false"; }
};
template <>
struct Val<uint64_t> {
  static uint64_t of(const std::string &S) { return std::stoull(S); }
  static std::string str(uint64_t N) { return std::to_string(N); }
};
template <>
struct Val<int> {
  static int of(const std::string &S) { return std::stoi(S); }
  static std::string str(int N) { return std::to_string(N); }
};
template <>
struct Val<std::string> {
  static std::string of(const std::string &S) { return S; }
  static std::string str(const std::string &S) { return S; }
};
template <>
struct Val<std::unique_ptr<std::string>> {
  static std::unique_ptr<std::string> of(const std::string &S) {
    return std::make_unique<std::string>(S);
  }
  static std::string str(const std::unique_ptr<std::string> &S) {
    return S ? *S : "?";
  }
};
template <>
struct Val<std::vector<int>> {
  static std::vector<int> of(const std::string &S) {
    std::vector<int> R;
    std::stringstream SS(S);
    int N;
    while (SS >> N) {
      R.push_back(N);
    }
    return R;
  }
  static std::string str(const std::vector<int> &V) {
    std::string R;
    for (auto N : V) {
      R += (R.empty() ? "" : " ") + std::to_string(N);
    }
    return R;
  }
};
template <>
struct Val<int *> {
  static int *of(const std::string &S) {
    return S == "first" ? &First : S == "second" ? &Second : nullptr;
  }
  static std::string str(int *P) {
    return P == &First ? "first" : P == &Second ? "second" : P ? "?" : "null";
  }
};

template <class E, class V, bool BareCode, bool Prints>
json::Array session(const json::Array &Steps) {
  using R = Result<E, V>;
  constexpr bool Void = std::is_void_v<V>;
  constexpr bool Copies = Void || std::is_copy_constructible_v<
      std::conditional_t<Void, int, V>>;
  std::map<std::string, std::optional<R>> M;
  M["p"], M["q"];
  json::Array SS;
  for (auto &X : Steps) {
    auto &S = *X.getAsObject();
    auto K = str(S, "k");
    auto Via = str(S, "via");
    auto &A = M[str(S, "s")];
    std::string Out;
    auto put = [&](auto &&New) {
      if (Via == "assign" && A) {
        *A = std::forward<decltype(New)>(New);
      } else {
        A.reset();
        A.emplace(std::forward<decltype(New)>(New));
      }
    };
    if (K == "ok") {
      if constexpr (Void) {
        if (Via == "named" || Via == "copied") {
          vara::Ok<void> O;
          auto P = O;
          put(R(P));
        } else {
          put(R(vara::Ok<void>()));
        }
      } else {
        auto W = Val<V>::of(str(S, "v"));
        if (Via == "bare") {
          A.reset();
          A.emplace(std::move(W));
        } else if (Via == "named") {
          vara::Ok<V> O(std::move(W));
          Out = O ? "" : "no";
          put(R(std::move(O)));
        } else if (Via == "copied") {
          if constexpr (Copies) {
            vara::Ok<V> O(std::move(W));
            vara::Ok<V> P(O);
            const auto Q = P;
            auto T = Q;
            Out = Val<V>::str(*O) == Val<V>::str(*T) ? "" : "changed";
            put(R(T));
          } else {
            vara::Ok<V> O(std::move(W));
            vara::Ok<V> P(std::move(O));
            put(R(vara::Ok<V>(*std::move(P))));
          }
        } else {
          put(R(vara::Ok<V>(std::move(W))));
        }
      }
    } else if (K == "err") {
      auto W = Code<E>::of(str(S, "v"));
      if (Via == "bare") {
        if constexpr (BareCode) {
          A.reset();
          A.emplace(std::move(W));
        }
      } else if (Via == "named") {
        vara::Error<E> O(W);
        Out = O ? "yes" : "";
        put(R(std::move(O)));
      } else if (Via == "copied") {
        vara::Error<E> O(W);
        vara::Error<E> P(O);
        const auto Q = P;
        auto T = Q;
        Out = Code<E>::str(*O) == Code<E>::str(*T) ? "" : "changed";
        put(R(T));
      } else {
        put(R(vara::Error<E>(W)));
      }
    } else if (K == "copy") {
      if constexpr (Copies) {
        auto &B = M[str(S, "to")];
        if (Via == "assign") {
          *B = *A;
        } else if (Via == "const") {
          R T(static_cast<const R &>(*A));
          B.reset();
          B.emplace(std::move(T));
        } else if (Via == "brace") {
          R T{*A};
          B.reset();
          B.emplace(std::move(T));
        } else {
          R &L = *A;
          R T = L;
          B.reset();
          B.emplace(T);
        }
      }
    } else if (K == "move") {
      auto &B = M[str(S, "to")];
      if (Via == "assign") {
        *B = std::move(*A);
      } else {
        R T = std::move(*A);
        B.reset();
        B.emplace(std::move(T));
      }
      A.reset();
    } else if (K == "get") {
      if constexpr (!Void) {
        if (Via == "read") {
          if constexpr (Copies) {
            R &L = *A;
            Out = Val<V>::str(*L);
          }
        } else if (Via == "take") {
          Out = Val<V>::str(A->extractValue());
        } else {
          Out = Val<V>::str(*std::move(*A));
        }
      }
    } else if (K == "code") {
      if (Via == "read") {
        R &L = *A;
        Out = Code<E>::str(L.getError());
      } else if (Via == "take") {
        Out = Code<E>::str(A->extractError());
      } else {
        Out = Code<E>::str(std::move(*A).getError());
      }
      if (Via != "read" && std::is_same_v<E, std::string>) {
        A.reset();
      }
    } else if (K == "text") {
      if constexpr (Prints) {
        llvm::raw_string_ostream OS(Out);
        OS << *A;
        OS.flush();
      }
    }
    json::Object Ev{{"out", Out}};
    for (const char *N : {"p", "q"}) {
      auto &T = M[N];
      json::Object O{{"there", T.has_value()}, {"ok", false}, {"v", ""}};
      if (T) {
        bool Ok = *T;
        O["ok"] = Ok;
        if (!Ok) {
          O["v"] = Code<E>::str(T->getError());
        } else if constexpr (Void) {
          O["v"] = "-";
        } else if constexpr (Copies) {
          O["v"] = Val<V>::str(**T);
        }
      }
      Ev[N] = std::move(O);
    }
    SS.push_back(std::move(Ev));
  }
  return SS;
}

} // namespace

VOP(result) {
  auto K = str(O, "kind");
  auto &S = *O.getArray("steps");
  using FTE = vf::FTErrorCode;
  using SVE = vs::SolverErrorCode;
  json::Array R;
  if (K == "void") {
    R = session<FTE, void, true, true>(S);
  } else if (K == "bool") {
    R = session<SVE, bool, false, true>(S);
  } else if (K == "num") {
    R = session<SVE, uint64_t, false, true>(S);
  } else if (K == "str") {
    R = session<FTE, std::string, true, true>(S);
  } else if (K == "ptr") {
    R = session<SVE, std::unique_ptr<std::string>, true, false>(S);
  } else if (K == "vec") {
    R = session<FTE, std::vector<int>, false, false>(S);
  } else if (K == "raw") {
    R = session<FTE, int *, true, false>(S);
  } else if (K == "own") {
    R = session<std::string, int, true, true>(S);
  }
  return json::Object{{"ss", std::move(R)}};
}
