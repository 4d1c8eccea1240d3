// Modes "partition", "split", "tree": split_algo and tree_algo (C09, C10, C11).
#include "data.h"
#include "src/gbdt_algo/split_algo.h"
#include "src/gbdt_algo/tree_algo.h"
#include "src/utils/subsampling.h"
#include "src/utils/vector_slice.h"
#include <gflags/gflags.h>
#include <algorithm>
#include <random>
#include <set>
DECLARE_int32(num_threads);
using namespace hz;
using namespace gbdt;

namespace {
// Category codes, or bucket numbers, per row.
vector<int> Codes(const Column* c) {
  vector<int> r;
  auto* i = static_cast<const IntegerizedColumn*>(c);
  for (uint k = 0; k < c->size(); ++k) r.push_back(i->col()[k]);
  return r;
}
// A split of very many rows, shown by the rows they are copies of.
void PartitionLarge(const Val& cas) {
  g_scale.Set(cas["scale"], cas["col"]["v"].size());
  auto col = MakeColumn(cas["col"]);
  Scale sc = g_scale;
  g_scale = Scale();
  TreeNode t;
  MakeTree(cas["node"], &t);
  vector<uint> rows(sc.Rows());
  std::mt19937 gen(cas["seed"].i(1));
  for (uint i = 0; i < rows.size(); ++i) rows[i] = i;
  if (cas["shuffle"].t()) std::shuffle(rows.begin(), rows.end(), gen);
  vector<uint> before = rows;
  uint off = cas["off"].i(), len = rows.size() - off - cas["rest"].i();
  auto p = Partition(col.get(), t.split(), VectorSlice<uint>(rows, off, len));
  bool parts = p.first.begin() == rows.begin() + off && p.first.end() == p.second.begin() && p.second.end() == rows.begin() + off + len &&
               p.first.size() + p.second.size() == len;
  bool outside = rows.size() == before.size() && std::equal(rows.begin(), rows.begin() + off, before.begin()) &&
                 std::equal(rows.begin() + off + len, rows.end(), before.begin() + off + len);
  vector<uint> a(before.begin() + off, before.begin() + off + len), b(rows.begin() + off, rows.begin() + off + len);
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  std::set<int> in[2];
  bool fill[2] = {false, false};
  if (parts)
    for (int s = 0; s < 2; ++s)
      for (uint i : s ? p.second : p.first) {
        int k = i < sc.Rows() ? sc.Of(i) : 0;
        if (k >= 0) in[s].insert(k); else fill[s] = true;
      }
  auto sorted = [](const std::set<int>& x) { return Arr(vector<int>(x.begin(), x.end())); };
  bool str = cas["col"]["t"].str() == "str";
  vector<long long> v;
  if (!str) for (float x : Floats(cas["col"]["v"])) v.push_back(Ord(x));
  Emit(J().kv("e", "Large").kv("parts", parts).kv("outside", outside).kv("same", a == b).raw("left", sorted(in[0])).raw("right", sorted(in[1]))
           .raw("v", str ? ArrS(Strings(cas["col"]["v"])) : Arr(v)).kv("t", cas["col"]["t"].str()).kv("filled", str && fill[0]).raw("node", ShowTree(t)));
}
Register rp("partition", [](const Val& cas) {
  if (cas.has("scale")) { PartitionLarge(cas); return; }
  auto col = MakeColumn(cas["col"]);
  vector<uint> rows;
  for (auto& x : cas["rows"].a) rows.push_back(x.i());
  uint off = cas["off"].i(), len = cas["len"].i();
  TreeNode t;
  MakeTree(cas["node"], &t);
  if (cas["internal"].t())
    for (auto& c : t.split().cat_split().category()) {
      uint k;
      if (static_cast<const StringColumn*>(col.get())->get_cat_index(c, &k))
        t.mutable_split()->mutable_cat_split()->add_internal_categorical_index(k);
    }
  vector<uint> before = rows;
  auto p = Partition(col.get(), t.split(), VectorSlice<uint>(rows, off, len));
  vector<uint> l(p.first.begin(), p.first.end()), r(p.second.begin(), p.second.end());
  J j;
  j.kv("e", "Partition").raw("before", Arr(before)).kv("off", off).kv("len", len).raw("after", Arr(rows));
  j.raw("left", Arr(l)).raw("right", Arr(r)).kv("lsz", (int)p.first.size()).kv("rsz", (int)p.second.size());
  vector<long long> v;
  bool str = cas["col"]["t"].str() == "str";
  if (!str) {
    auto* b = static_cast<const BucketizedFloatColumn*>(col.get());
    for (uint i = 0; i < b->size(); ++i) v.push_back(b->col().missing(i) ? kOrdNaN : Ord(b->get_row_max(i)));
  }
  j.raw("v", str ? ArrS(Strings(cas["col"]["v"])) : Arr(v)).kv("t", cas["col"]["t"].str());
  vector<long long> ov;
  if (!str) for (float x : Floats(cas["col"]["v"])) ov.push_back(Ord(x));
  j.raw("ov", Arr(ov)).kv("exact", !cas["col"].has("budget"));
  j.raw("node", ShowTree(t));
  Emit(j);
});

vector<GradientData> Grads(const Val& cas) {
  vector<GradientData> g;
  for (size_t i = 0; i < cas["g"].size(); ++i) g.emplace_back(cas["g"].at(i).d(), cas["h"].at(i).d());
  return g;
}
vector<int> Ints(const Val& v) {
  vector<int> r;
  for (auto& x : v.a) r.push_back(x.i());
  return r;
}
void Cfg(const Val& cas, Config* c) {
  MakeConfig(cas["cfg"], c);
  c->set_l2_lambda(cas["lam4"].d() / 4);
  c->set_min_hessian(cas["minh4"].d() / 4);
  c->set_min_gain(cas["ming4"].d() / 4);
}
// integers over a power of two: sums are exact in any order
vector<GradientData> Large(vector<GradientData> g) {
  for (auto& x : g) x = GradientData(x.g / g_scale.m, x.h / g_scale.m);
  return g_scale.Expand<GradientData>(g, [](int k) { return GradientData(k % 7 - 3, 1); });
}
Register rs("split", [](const Val& cas) {
  g_scale.Set(cas["scale"], cas["w"].size());
  auto col = MakeColumn(cas["col"]);
  auto grads = Large(Grads(cas));
  auto wv = Ints(cas["w"]);
  auto wl = g_scale.Expand<int>(wv, [](int) { return 0; });
  FloatVector w = [&wl](int i) { return (float)wl[i]; };
  vector<uint> rows, given;
  for (auto& x : cas["rows"].a) rows.push_back(x.i());
  given = rows;
  if (g_scale.on) {
    std::set<int> in(rows.begin(), rows.end());
    rows.clear();
    for (size_t i = 0; i < g_scale.Rows(); ++i) if (g_scale.Of(i) < 0 || in.count(g_scale.Of(i))) rows.push_back(i);
  }
  size_t whole = rows.size();
  Config config;
  Cfg(cas, &config);
  GradientData total;
  for (uint i : rows) total += w(i) * grads[i];
  Split split;
  VectorSlice<uint> slice(rows);
  bool found = FindBestSplit(col.get(), w, &grads, slice, config, total, &split);
  vector<uint> l, r;
  if (found) {
    auto p = Partition(col.get(), split, slice);
    l.assign(p.first.begin(), p.first.end());
    r.assign(p.second.begin(), p.second.end());
  }
  bool kept = !found || l.size() + r.size() == whole;
  vector<int> codes = Codes(col.get());
  if (g_scale.on) {   // back to the rows given
    vector<uint> sides[2];
    std::set<int> in[2];
    for (int s = 0; s < 2; ++s)
      for (uint i : s ? r : l) {
        int k = i < g_scale.Rows() ? g_scale.Of(i) : 0;
        if (k >= 0 && in[s].insert(k).second) sides[s].push_back(k);
      }
    l = sides[0];
    r = sides[1];
    vector<int> c;
    kept = g_scale.Reduce(codes, &c) && kept;
    codes = c;
  }
  g_scale = Scale();
  Emit(J().kv("e", "Split").kv("t", cas["col"]["t"].str()).raw("code", Arr(codes)).raw("rows", Arr(given)).kv("kept", kept)
           .raw("w", Arr(wv)).raw("g", Arr(Ints(cas["g"]))).raw("h", Arr(Ints(cas["h"])))
           .kv("lam4", cas["lam4"].i()).kv("minh4", cas["minh4"].i()).kv("ming4", cas["ming4"].i())
           .kv("found", found).kv("gain", Fix(split.gain(), 1e4)).raw("left", Arr(l)).raw("right", Arr(r))
           .kv("kind", split.has_float_split() ? split.has_cat_split() ? "both" : "flt" : split.has_cat_split() ? "cat" : "none"));
});
Register rt("tree", [](const Val& cas) {
  DataStore ds;
  g_scale.Set(cas["scale"], cas["w"].size());
  Fill(&ds, cas["cols"]);
  auto grads = Large(Grads(cas));
  auto wv = Ints(cas["w"]);
  auto wl = g_scale.Expand<int>(wv, [](int) { return 0; });
  g_scale = Scale();
  FloatVector w = [&wl](int i) { return (float)wl[i]; };
  Config config;
  Cfg(cas, &config);
  vector<const Column*> features;
  for (auto& c : cas["cols"].a) features.push_back(ds.GetColumn(c["n"].str()));
  FLAGS_num_threads = cas["threads"].i(2);
  Subsampling::Reseed(cas["seed"].i(1));
  TreeNode t = FitTreeToGradients(w, grads, features, config);
  Emit(J().kv("e", "Tree").kv("n", (int)wv.size()).raw("data", Table(cas["cols"])).raw("w", Arr(wv))
           .raw("g", Arr(Ints(cas["g"]))).raw("h", Arr(Ints(cas["h"])))
           .kv("lam4", cas["lam4"].i()).kv("minh4", cas["minh4"].i()).kv("ming4", cas["ming4"].i())
           .kv("leaves", config.num_leaves()).kv("shrink8", 8).kv("allrows", config.example_sampling_rate() >= 1)
           .kv("allfeatures", config.feature_sampling_rate() >= 1).raw("tree", ShowTree(t)));
});
}  // namespace
