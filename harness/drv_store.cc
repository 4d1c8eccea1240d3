// Mode "store": sequences of calls on gbdt::DataStore.
#include <algorithm>
#include <cmath>
#include "common.h"
#include "src/data_store/column.h"
#include "src/data_store/data_store.h"
using namespace hz;
using namespace gbdt;

namespace {
string CodeName(const Status& s) {
  switch (s.error_code()) {
    case error::OK: return "OK";
    case error::ALREADY_EXISTS: return "ALREADY_EXISTS";
    case error::OUT_OF_RANGE: return "OUT_OF_RANGE";
    case error::NOT_FOUND: return "NOT_FOUND";
    case error::INVALID_ARGUMENT: return "INVALID_ARGUMENT";
    case error::FAILED_PRECONDITION: return "FAILED_PRECONDITION";
    default: return "OTHER";
  }
}
const char* TypeName(int t) {
  return t == Column::kStringColumn ? "str" : t == Column::kBucketizedFloatColumn ? "bkt" : "raw";
}
unique_ptr<Column> Make(const string& n, const string& t, int rows, int id) {
  vector<float> f;
  vector<string> s;
  for (int i = 0; i < rows; ++i) {
    f.push_back(id * 8 + i);
    s.push_back("v" + to_string(id) + "_" + to_string(i));
  }
  if (t == "str") return Column::CreateStringColumn(n, s);
  if (t == "bkt") return Column::CreateBucketizedFloatColumn(n, f);
  return Column::CreateRawFloatColumn(n, std::move(f));
}
// The id whose content the column holds, or -1.
int ContentId(const Column* c, const std::map<const Column*, int>& added) {
  auto it = added.find(c);
  if (it == added.end()) return -1;
  int id = it->second;
  for (unsigned i = 0; i < c->size(); ++i) {
    float want = id * 8 + i;
    switch (c->type()) {
      case Column::kStringColumn:
        if (static_cast<const StringColumn*>(c)->get_row_string(i) != "v" + to_string(id) + "_" + to_string(i)) return -1;
        break;
      case Column::kBucketizedFloatColumn: {
        auto* b = static_cast<const BucketizedFloatColumn*>(c);
        if (b->get_row_min(i) != want || b->get_row_max(i) != want) return -1;
        break;
      }
      default:
        if ((*static_cast<const RawFloatColumn*>(c))[i] != want) return -1;
    }
  }
  return id;
}
void Observe(J& j, DataStore& ds, const vector<string>& names, const std::map<const Column*, int>& added) {
  j.kv("nrows", ds.num_rows()).kv("ncols", ds.num_cols());
  vector<string> l[3];
  for (auto* c : ds.GetStringColumns()) l[0].push_back(c->name());
  for (auto* c : ds.GetBucketizedFloatColumns()) l[1].push_back(c->name());
  for (auto* c : ds.GetRawFloatColumns()) l[2].push_back(c->name());
  j.raw("list", J().raw("str", ArrS(l[0])).raw("bkt", ArrS(l[1])).raw("raw", ArrS(l[2])).str());
  vector<string> obs;
  for (auto& n : names) {
    const Column* c = ds.GetColumn(n);
    J o;
    o.kv("n", n).kv("found", c != nullptr);
    const Column* t[3] = {ds.GetStringColumn(n), ds.GetBucketizedFloatColumn(n), ds.GetRawFloatColumn(n)};
    bool same = c && c->name() == n;
    for (auto* p : t) if (p && p != c) same = false;
    if (c && !Alive(c)) same = false;
    o.kv("same", same);
    o.kv("type", c ? TypeName(c->type()) : "none").kv("rows", c ? (int)c->size() : 0);
    o.kv("id", c && Alive(c) ? ContentId(c, added) : -1);
    o.raw("typed", J().kv("str", t[0] != nullptr).kv("bkt", t[1] != nullptr).kv("raw", t[2] != nullptr).str());
    obs.push_back(o.str());
  }
  j.raw("obs", ArrR(obs));
}
Register r("store", [](const Val& cas) {
  DataStore ds;
  vector<string> names;
  for (auto& v : cas["names"].a) names.push_back(v.str());
  std::map<const Column*, int> added;
  Emit(J().kv("e", "Reset"));
  int id = 0;
  for (auto& op : cas["ops"].a) {
    J j;
    if (op["op"].str() == "add") {
      ++id;
      auto col = Make(op["n"].str(), op["t"].str(), op["r"].i(), id);
      const Column* p = col.get();
      Status s = ds.Add(std::move(col));
      if (s.ok()) added[p] = id;
      j.kv("e", "Add").kv("n", op["n"].str()).kv("t", op["t"].str()).kv("r", op["r"].i()).kv("id", id);
      j.kv("res", CodeName(s));
    } else {
      const Column* c = ds.GetColumn(op["n"].str());
      ds.RemoveColumnIfExists(op["n"].str());
      added.erase(c);
      j.kv("e", "Remove").kv("n", op["n"].str());
    }
    Observe(j, ds, names, added);
    Emit(j);
  }
});
}  // namespace
