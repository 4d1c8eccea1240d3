// Modes "strcol", "bktcol", "collife": string and bucketized columns (C04, C05, C06).
#include <string.h>
#include <cmath>
#include <limits>
#include "common.h"
#include "src/data_store/column.h"
using namespace hz;
using namespace gbdt;

namespace {
const long long kNaN = 2147483647;  // ordinal used for NaN
// Floats as order preserving integers.
long long Ord(float f) {
  if (std::isnan(f)) return kNaN;
  int32_t b;
  memcpy(&b, &f, 4);
  return b < 0 ? -(long long)(b & 0x7fffffff) : b;
}
float FromOrd(long long o) {
  if (o == kNaN) return NAN;
  uint32_t b = o < 0 ? 0x80000000u | (uint32_t)(-o) : (uint32_t)o;
  float f;
  memcpy(&f, &b, 4);
  return f;
}
string Text(const Val& v) { return v.k == Val::STR ? v.str() : v.i() == 0 ? "__missing__" : "s" + to_string(v.i()); }

struct Ids {
  std::map<string, int> m{{"__missing__", 0}};
  int of(const string& s, bool add) {
    auto it = m.find(s);
    if (it != m.end()) return it->second;
    if (!add) return -1;
    int k = m.size();
    return m[s] = k;
  }
};

Register rs("strcol", [](const Val& cas) {
  StringColumn c("col");
  Ids ids;
  vector<int> want;
  vector<vector<string>> batches;
  for (auto& b : cas["b"].a) {
    batches.emplace_back();
    for (auto& v : b.a) {
      batches.back().push_back(Text(v));
      want.push_back(ids.of(batches.back().back(), true));
    }
    vector<string> tmp = batches.back();
    c.Add(&tmp);
  }
  c.Finalize();
  J j;
  j.kv("e", "Str").raw("want", Arr(want)).kv("ok", c.status().ok()).kv("name", c.name());
  j.kv("type", (int)c.type());
  vector<int> got, code, cats, inv, absent, miss;
  int n = c.size();
  for (int i = 0; i < n; ++i) {
    got.push_back(ids.of(c.get_row_string(i), false));
    code.push_back(c.col()[i]);
    miss.push_back(c.col().missing(i));
  }
  for (uint k = 0; k < c.max_int(); ++k) {
    cats.push_back(ids.of(c.get_cat_string(k), false));
    uint x = 0;
    inv.push_back(c.get_cat_index(c.get_cat_string(k), &x) ? (int)x : -1);
  }
  uint x = 7777;
  j.kv("nosuch", c.get_cat_index("no such string", &x) || x != 7777);
  j.kv("n", n).kv("nids", (int)ids.m.size()).kv("maxint", c.max_int());
  j.raw("got", Arr(got)).raw("code", Arr(code)).raw("miss", Arr(miss)).raw("cats", Arr(cats)).raw("inv", Arr(inv));
  Emit(j);
});

Register rb("bktcol", [](const Val& cas) {
  int budget = cas["budget"].i();
  BucketizedFloatColumn c("col", budget);
  vector<long long> v;
  vector<int> lens;
  for (auto& b : cas["b"].a) {
    vector<float> tmp;
    for (auto& x : b.a) {
      tmp.push_back(FromOrd(x.ll()));
      v.push_back(x.ll());
    }
    lens.push_back(tmp.size());
    c.Add(&tmp);
  }
  c.Finalize();
  vector<int> code, miss;
  vector<long long> mn, mx, omn, omx;
  std::map<int, int> occ;
  vector<int> ocode;
  int n = c.size();
  for (int i = 0; i < n; ++i) {
    int k = c.col()[i];
    code.push_back(k);
    miss.push_back(c.col().missing(i));
    mn.push_back(Ord(c.get_row_min(i)));
    mx.push_back(Ord(c.get_row_max(i)));
    if (k) occ[k] = 1;
  }
  for (auto& p : occ) {
    ocode.push_back(p.first);
    omn.push_back(Ord(c.get_bucket_min(p.first)));
    omx.push_back(Ord(c.get_bucket_max(p.first)));
  }
  Emit(J().kv("e", cas["big"].t() ? "BktBig" : "Bkt").kv("ok", c.status().ok()).kv("budget", budget).kv("n", n)
           .raw("v", Arr(v)).raw("lens", Arr(lens)).raw("code", Arr(code)).raw("miss", Arr(miss)).raw("mn", Arr(mn))
           .raw("mx", Arr(mx)).kv("maxint", c.max_int()).raw("ocode", Arr(ocode)).raw("omn", Arr(omn)).raw("omx", Arr(omx)));
});

// Histories: {kind, budget, ops:[{op:add,b:[..]}|{op:fin}|{op:build}]}
struct Rows {
  bool readable = false;
  vector<long long> v, code;
};
string Read(StringColumn* s, BucketizedFloatColumn* b, Ids& ids) {
  vector<long long> v, w;
  if (s)
    for (uint i = 0; i < s->size(); ++i) { v.push_back(ids.of(s->get_row_string(i), false)); }
  else
    for (uint i = 0; i < b->size(); ++i) {
      v.push_back(Ord(b->get_row_min(i)));
      w.push_back(Ord(b->get_row_max(i)));
    }
  return s ? J().raw("v", Arr(v)).raw("w", Arr(v)).str() : J().raw("v", Arr(v)).raw("w", Arr(w)).str();
}
Register rl("collife", [](const Val& cas) {
  bool str = cas["kind"].str() == "str";
  unique_ptr<StringColumn> s(str ? new StringColumn("col") : nullptr);
  unique_ptr<BucketizedFloatColumn> b(str ? nullptr : new BucketizedFloatColumn("col", cas["budget"].i()));
  Column* c = str ? (Column*)s.get() : b.get();
  Ids ids;
  Emit(J().kv("e", "New").kv("kind", cas["kind"].str()).kv("budget", cas["budget"].i(0)));
  bool fin = false;
  for (auto& op : cas["ops"].a) {
    string o = op["op"].str();
    J j;
    if (o == "add") {
      vector<long long> ev;
      if (str) {
        vector<string> t;
        for (auto& x : op["b"].a) { t.push_back(Text(x)); ev.push_back(ids.of(t.back(), true)); }
        s->Add(&t);
      } else {
        vector<float> t;
        for (auto& x : op["b"].a) { t.push_back(FromOrd(x.ll())); ev.push_back(x.ll()); }
        b->Add(&t);
      }
      j.kv("e", "Add").raw("b", Arr(ev));
    } else if (o == "fin") {
      if (str) s->Finalize(); else b->Finalize();
      fin = true;
      j.kv("e", "Finalize");
    } else {
      if (b) b->BuildBuckets();
      j.kv("e", "Build");
    }
    j.kv("ok", c->status().ok());
    j.raw("rows", fin ? Read(s.get(), b.get(), ids) : "{\"v\":[],\"w\":[]}");
    j.kv("readable", fin);
    if (fin) j.kv("size", (int)c->size()); else j.kv("size", 0);
    Emit(j);
  }
});
// One set of rows, several divisions into batches.
Register rd("coldiv", [](const Val& cas) {
  bool str = cas["kind"].str() == "str";
  vector<string> outs;
  vector<int> sizes;
  Ids ids;
  for (auto& d : cas["divs"].a) {  // list of batch lengths
    unique_ptr<StringColumn> s(str ? new StringColumn("col") : nullptr);
    unique_ptr<BucketizedFloatColumn> b(str ? nullptr : new BucketizedFloatColumn("col", cas["budget"].i()));
    size_t p = 0;
    for (auto& l : d.a) {
      vector<string> t;
      vector<float> f;
      for (int k = 0; k < l.i(); ++k, ++p) {
        const Val& x = cas["rows"].at(p);
        if (str) { t.push_back(Text(x)); ids.of(t.back(), true); }
        else f.push_back(FromOrd(x.ll()));
      }
      if (str) s->Add(&t); else b->Add(&f);
    }
    if (str) s->Finalize(); else b->Finalize();
    outs.push_back(Read(s.get(), b.get(), ids));
    sizes.push_back(str ? s->size() : b->size());
  }
  Emit(J().kv("e", "Div").kv("kind", cas["kind"].str()).kv("budget", cas["budget"].i(0)).kv("n", (int)cas["rows"].size())
           .raw("divs", [&] { vector<string> x; for (auto& d : cas["divs"].a) { vector<int> y; for (auto& l : d.a) y.push_back(l.i()); x.push_back(Arr(y)); } return ArrR(x); }())
           .raw("outs", ArrR(outs)).raw("sizes", Arr(sizes)));
});
}  // namespace
