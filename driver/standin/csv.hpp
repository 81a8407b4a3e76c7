// A stand-in for the csv-parser library, which is not part of this checkout:
// the part of its interface a reader of sample sets may want, for files
// without quoted fields.
#ifndef STANDIN_CSV_HPP
#define STANDIN_CSV_HPP
#include <fstream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace csv {
using string_view = std::string_view;
constexpr int CSV_NOT_FOUND = -1;

class CSVFormat {
public:
  CSVFormat &delimiter(char C) {
    Delim = C;
    return *this;
  }
  CSVFormat &delimiter(const std::vector<char> &C) { return delimiter(C.at(0)); }
  CSVFormat &trim(const std::vector<char> &) { return *this; }
  CSVFormat &quote(char) { return *this; }
  CSVFormat &quote(bool) { return *this; }
  CSVFormat &header_row(int) { return *this; }
  char Delim = ',';
};

class CSVField {
public:
  explicit CSVField(std::string S) : S(std::move(S)) {}
  template <typename T = std::string> T get() const {
    if constexpr (std::is_same_v<T, std::string>) {
      return S;
    } else if constexpr (std::is_same_v<T, std::string_view>) {
      return std::string_view(S);
    } else {
      std::istringstream In(S);
      T V{};
      if (!(In >> V) || !In.eof()) {
        throw std::runtime_error("Not a number.");
      }
      return V;
    }
  }
  std::string_view get_sv() const { return S; }
  bool is_null() const { return S.empty(); }
  bool is_num() const {
    std::istringstream In(S);
    double V;
    return (In >> V) && In.eof();
  }
  bool is_int() const { return is_num() && S.find('.') == std::string::npos; }
  bool is_str() const { return !is_null() && !is_num(); }
  bool operator==(std::string_view O) const { return S == O; }

private:
  std::string S;
};

class CSVRow {
public:
  CSVRow() = default;
  CSVRow(std::shared_ptr<std::vector<std::string>> Names, std::vector<std::string> V)
      : Names(std::move(Names)), V(std::move(V)) {}
  size_t size() const { return V.size(); }
  bool empty() const { return V.empty(); }
  CSVField operator[](size_t I) const { return CSVField(V.at(I)); }
  CSVField operator[](const std::string &N) const {
    for (size_t I = 0; I < Names->size(); ++I) {
      if ((*Names)[I] == N) {
        return CSVField(V.at(I));
      }
    }
    throw std::runtime_error("Can't find a column named " + N);
  }
  std::vector<std::string> get_col_names() const { return *Names; }

private:
  std::shared_ptr<std::vector<std::string>> Names;
  std::vector<std::string> V;
};

class CSVReader {
public:
  class iterator {
  public:
    using value_type = CSVRow;
    using difference_type = std::ptrdiff_t;
    using pointer = CSVRow *;
    using reference = CSVRow &;
    using iterator_category = std::input_iterator_tag;
    iterator(CSVReader *R, size_t I) : R(R), I(I) {}
    CSVRow &operator*() { return R->Rows[I]; }
    CSVRow *operator->() { return &R->Rows[I]; }
    iterator &operator++() {
      ++I;
      return *this;
    }
    bool operator==(const iterator &O) const { return I == O.I; }
    bool operator!=(const iterator &O) const { return I != O.I; }

  private:
    CSVReader *R;
    size_t I;
  };
  explicit CSVReader(std::string_view File, CSVFormat F = CSVFormat())
      : Names(std::make_shared<std::vector<std::string>>()) {
    std::ifstream In{std::string(File)};
    if (!In) {
      throw std::runtime_error("Cannot open file " + std::string(File));
    }
    std::string L;
    if (std::getline(In, L)) {
      *Names = split(L, F.Delim);
    }
    while (std::getline(In, L)) {
      if (!L.empty()) {
        Rows.emplace_back(Names, split(L, F.Delim));
      }
    }
  }
  iterator begin() { return {this, 0}; }
  iterator end() { return {this, Rows.size()}; }
  bool read_row(CSVRow &R) {
    if (Next >= Rows.size()) {
      return false;
    }
    R = Rows[Next++];
    return true;
  }
  std::vector<std::string> get_col_names() const { return *Names; }
  int index_of(std::string_view N) const {
    for (size_t I = 0; I < Names->size(); ++I) {
      if ((*Names)[I] == N) {
        return (int)I;
      }
    }
    return CSV_NOT_FOUND;
  }
  size_t n_rows() const { return Rows.size(); }
  bool empty() const { return Rows.empty(); }
  bool eof() const { return Next >= Rows.size(); }

private:
  static std::vector<std::string> split(std::string L, char D) {
    if (!L.empty() && L.back() == '\r') {
      L.pop_back();
    }
    std::vector<std::string> V{""};
    for (char C : L) {
      if (C == D) {
        V.emplace_back();
      } else {
        V.back().push_back(C);
      }
    }
    return V;
  }
  std::shared_ptr<std::vector<std::string>> Names;
  std::vector<CSVRow> Rows;
  size_t Next = 0;
};
} // namespace csv
#endif
