// Building tables and forests from stimuli and showing them in traces.
#pragma once
#include <string.h>
#include <cmath>
#include <functional>
#include "common.h"
#include "src/data_store/column.h"
#include "src/data_store/data_store.h"
#include "src/loss_func/gradient_data.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
#include "src/utils/utils.h"

namespace hz {
using namespace gbdt;

const long long kOrdNaN = 2147483647;
inline long long Ord(float f) {
  if (std::isnan(f)) return kOrdNaN;
  int32_t b;
  memcpy(&b, &f, 4);
  return b < 0 ? -(long long)(b & 0x7fffffff) : b;
}
inline float FromOrd(long long o) {
  if (o == kOrdNaN) return NAN;
  uint32_t b = o < 0 ? 0x80000000u | (uint32_t)(-o) : (uint32_t)o;
  float f;
  memcpy(&f, &b, 4);
  return f;
}
inline std::string CodeName(const Status& s) {
  switch (s.error_code()) {
    case error::OK: return "OK";
    case error::ALREADY_EXISTS: return "ALREADY_EXISTS";
    case error::OUT_OF_RANGE: return "OUT_OF_RANGE";
    case error::NOT_FOUND: return "NOT_FOUND";
    case error::INVALID_ARGUMENT: return "INVALID_ARGUMENT";
    case error::FAILED_PRECONDITION: return "FAILED_PRECONDITION";
    case error::ABORTED: return "ABORTED";
    default: return "OTHER";
  }
}
// A table given in small and built in large: every row given stands for m equal rows, "fill" more rows hold
// other values and have weight 0.  {"m":1024,"fill":70000,"blocked":true,"first":true}
struct Scale {
  int n = 0, m = 1, fill = 0;
  bool on = false, blocked = false, first = false;
  void Set(const Val& v, int rows) {
    *this = Scale();
    n = rows;
    if (v.k != Val::OBJ) return;
    on = true;
    m = v["m"].i(1);
    fill = v["fill"].i(0);
    blocked = v["blocked"].t();
    first = v["first"].t();
  }
  size_t Rows() const { return (size_t)n * m + fill; }
  // which of the rows given it is, or -1 - k for other rows
  int Of(size_t i) const {
    if (first) {
      if (i < (size_t)fill) return -1 - (int)i;
      i -= fill;
    }
    if (i >= (size_t)n * m) return -1 - (int)(i - (size_t)n * m);
    return blocked ? i / m : i % n;
  }
  template <class T> std::vector<T> Expand(const std::vector<T>& v, std::function<T(int)> other) const {
    if (!on) return v;
    std::vector<T> r;
    r.reserve(Rows());
    for (size_t i = 0; i < Rows(); ++i) { int k = Of(i); r.push_back(k >= 0 ? v[k] : other(-1 - k)); }
    return r;
  }
  // back to the rows given; false when two equal rows are not treated alike
  template <class T> bool Reduce(const std::vector<T>& v, std::vector<T>* r) const {
    if (!on) { *r = v; return true; }
    if (v.size() != Rows()) return false;
    std::vector<bool> seen(n);
    r->assign(n, T());
    for (size_t i = 0; i < v.size(); ++i) {
      int k = Of(i);
      if (k < 0) continue;
      if (!seen[k]) { seen[k] = true; (*r)[k] = v[i]; }
      else if (memcmp(&(*r)[k], &v[i], sizeof(T))) return false;
    }
    return true;
  }
};
extern Scale g_scale;
// {"n":name,"t":"str|bkt|raw","v":[...]}; null is missing
std::unique_ptr<Column> MakeColumn(const Val& c);
std::vector<float> Floats(const Val& v);
std::vector<std::string> Strings(const Val& v);
// false when some Add failed
bool Fill(DataStore* ds, const Val& cols);
// {"f1":{"t":"bkt","v":[ordinals]},...}
std::string Table(const Val& cols);
// Preorder node list: l, r are 1-based positions or 0
std::string ShowTree(const TreeNode& t);
std::string ShowForest(const Forest& f);
// the same trees with bits instead of rounded numbers
std::string HexTree(const TreeNode& t);
std::string HexForest(const Forest& f);
// {"s":score,"f":feature,"th":x,"mr":b,"cats":[..],"gain":x,"l":{..},"r":{..}}
void MakeTree(const Val& v, TreeNode* t);
Forest MakeForest(const Val& v);
void MakeConfig(const Val& v, Config* c);
template <class C> std::string HexArr(const C& c) {
  std::vector<std::string> r;
  for (double x : c) r.push_back(HexD(x));
  return ArrS(r);
}
}  // namespace hz
