// Mode "val": requests to train and evaluate, good and bad, on one store (C21).
#include <dirent.h>
#include <stdlib.h>
#include <unistd.h>
#include "data.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/gbdt_algo/utils.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/utils/json_utils.h"
#include "src/utils/subsampling.h"
#include <gflags/gflags.h>
DECLARE_int32(num_threads);
using namespace hz;
using namespace gbdt;

namespace {
const int kRows = 24;
void Build(DataStore* ds) {
  vector<float> x, gb, rf;
  vector<string> s, g, gap;
  for (int i = 0; i < kRows; ++i) {
    x.push_back((i * 7) % 11);
    gb.push_back(i % 3);
    rf.push_back(i * .5f);
    s.push_back(std::string("k") + char('a' + (i * 5) % 4));
    g.push_back(std::string("q") + char('0' + i / 8));
    gap.push_back(i == 13 ? "__missing__" : g.back());
  }
  ds->Add(Column::CreateBucketizedFloatColumn("x", x));
  ds->Add(Column::CreateBucketizedFloatColumn("gb", gb));
  ds->Add(Column::CreateRawFloatColumn("rf", std::move(rf)));
  ds->Add(Column::CreateStringColumn("s", s));
  ds->Add(Column::CreateStringColumn("g", g));
  ds->Add(Column::CreateStringColumn("gap", gap));
  auto broken = Column::CreateBucketizedFloatColumn("br", x);
  static_cast<BucketizedFloatColumn*>(broken.get())->Add(&x);  // finalized: an error
  ds->Add(std::move(broken));
}
std::string Dump(DataStore* ds) {
  std::string r = std::to_string(ds->num_rows()) + "/" + std::to_string(ds->num_cols());
  for (auto* c : ds->GetBucketizedFloatColumns()) {
    if (c->name() != "x" && c->name() != "gb" && c->name() != "br") r += "?";
  }
  for (std::string n : {"x", "gb"}) {
    auto* c = ds->GetBucketizedFloatColumn(n);
    r += "|" + n;
    if (!c) { r += "gone"; continue; }
    for (uint i = 0; i < c->size(); ++i) r += "," + std::to_string(c->get_row_min(i));
  }
  for (std::string n : {"rf"}) {
    auto* c = ds->GetRawFloatColumn(n);
    r += "|" + n;
    if (!c) { r += "gone"; continue; }
    for (uint i = 0; i < c->size(); ++i) r += "," + std::to_string((*c)[i]);
  }
  for (std::string n : {"s", "g", "gap"}) {
    auto* c = ds->GetStringColumn(n);
    r += "|" + n;
    if (!c) { r += "gone"; continue; }
    for (uint i = 0; i < c->size(); ++i) r += "," + c->get_row_string(i);
  }
  return r;
}
float Rate(const std::string& r) {
  return r == "neg" ? -.5f : r == "zero" ? 0 : r == "tiny" ? 1e-6f : r == "half" ? .5f : r == "one" ? 1 : r == "above" ? 1.0001f : r == "two" ? 2 : r == "inf" ? INFINITY : NAN;
}
TreeNode* Grow(TreeNode* t, const std::string& feature) {
  t->set_score(.25);
  t->mutable_split()->set_feature(feature);
  t->mutable_split()->set_gain(1);
  t->mutable_left_child()->set_score(1);
  t->mutable_right_child()->set_score(-1);
  return t;
}
// The odd split is at the top, in one of the children or below, of the second or of the last tree.
TreeNode* Spot(Forest* f, const std::string& feature, int at) {
  auto* t = f->add_tree();
  for (int depth = at % 3; depth > 0; --depth) {
    Grow(t, depth % 2 ? "x" : "gb")->mutable_split()->mutable_float_split()->set_threshold(3);
    t = (at / 3 >> depth) % 2 ? t->mutable_left_child() : t->mutable_right_child();
  }
  return Grow(t, feature);
}
Forest Base(const std::string& kind, int at) {
  Forest f;
  f.add_tree()->set_score(.5);
  if (kind == "gone") Spot(&f, "nosuch", at)->mutable_split()->mutable_float_split()->set_threshold(4);
  if (kind == "othertype") {
    if (at % 2) Spot(&f, "s", at / 2)->mutable_split()->mutable_float_split()->set_threshold(4);
    else Spot(&f, "x", at / 2)->mutable_split()->mutable_cat_split()->add_category("ka");
  }
  if (kind == "nosplit") Spot(&f, "x", at);
  if (kind == "raw") Spot(&f, "rf", at)->mutable_split()->mutable_float_split()->set_threshold(4);
  if (kind == "broken") Spot(&f, "br", at)->mutable_split()->mutable_float_split()->set_threshold(4);
  Spot(&f, "x", at / 2)->mutable_split()->mutable_float_split()->set_threshold(4);
  if (kind == "good") Spot(&f, "s", at)->mutable_split()->mutable_cat_split()->add_category("ka");
  return f;
}
int Leaves(const TreeNode& t) { return t.has_left_child() ? Leaves(t.left_child()) + Leaves(t.right_child()) : 1; }
bool Finite(const TreeNode& t) {
  return std::isfinite(t.score()) && (!t.has_left_child() || (Finite(t.left_child()) && Finite(t.right_child())));
}
Status Train(DataStore* ds, const Val& q, Forest* forest) {
  Config c;
  c.set_num_trees(q["trees"].i());
  c.set_num_leaves(q["leaves"].i());
  c.set_shrinkage(.5);
  c.set_example_sampling_rate(Rate(q["ex"].str()));
  c.set_feature_sampling_rate(Rate(q["ft"].str()));
  c.set_loss_func(q["loss"].str());
  c.set_pair_sampling_rate(Rate(q["pair"].str()));
  c.set_lambdamart_dcg_base(2);
  c.set_l2_lambda(1);
  std::string g = q["group"].str();
  c.set_group_column(g == "none" ? "" : g == "str" ? "g" : g == "gone" ? "nosuch" : g == "bkt" ? "gb" : g == "raw" ? "rf" : "gap");
  unordered_set<string> features;
  if (q["features"].str() != "empty") features = {"x", "s"};
  if (q["features"].str() == "gone") features.insert("nosuch");
  if (q["features"].str() == "raw") features.insert("rf");
  if (q["features"].str() == "broken") features.insert("br");
  vector<float> y(kRows), w(kRows, 1);
  for (int i = 0; i < kRows; ++i) y[i] = q["target"].str() == "graded" ? i % 4 : (i * 5) % 3 ? 1 : -1;
  if (q["target"].str() == "nan") y[q["at"].i(5)] = NAN;
  if (q["target"].str() == "near") y[q["at"].i(5)] = .5;
  if (q["target"].str() == "far") y[q["at"].i(5)] = -2;
  auto loss = LossFuncFactory::CreateLossFunc(c);
  if (!loss) return Status(error::NOT_FOUND, "no such loss");
  Forest base = Base(q["base"].str(), q["at"].i(5));
  Subsampling::Reseed(7);
  return TrainGBDT(ds, features, [w](int i) { return w[i]; }, [y](int i) { return y[i]; }, loss.get(), c,
                   q["base"].str() == "none" ? nullptr : &base, forest);
}
std::string Unhex(const std::string& h) {
  std::string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
  return r;
}
Register rv("val", [](const Val& cas) {
  FLAGS_num_threads = cas["threads"].i(2);
  DataStore ds, fresh;
  Build(&ds);
  Build(&fresh);
  const std::string before = Dump(&ds);
  for (auto& q : cas["calls"].a) {
    if (q.has("text")) {
      std::string text = Unhex(q["text"].str()), back;
      Status s;
      if (q["type"].str() == "config") {
        Config m;
        s = JsonUtils::FromJson(text, &m);
        if (s.ok() && !JsonUtils::ToJson(m, &back).ok()) back = "unwritable";
      } else {
        Forest m;
        s = JsonUtils::FromJson(text, &m);
        if (s.ok() && !JsonUtils::ToJson(m, &back).ok()) back = "unwritable";
      }
      Emit(J().kv("e", "Json").kv("ok", s.ok()).kv("back", back).kv("want", q["want"].str()));
    } else if (q.has("eval")) {
      Forest f = Base(q["eval"].str(), q["at"].i(5));
      vector<double> scores;
      Status s = EvaluateForest(&ds, f, &scores);
      char dir[] = "/tmp/hz-val-XXXXXX";
      if (!mkdtemp(dir)) exit(3);
      Status s2 = EvaluateForest(&ds, f, {1, 2, 3}, dir);
      int files = 0;
      for (int p = 1; p < 5; ++p) {
        std::string n = std::string(dir) + "/forest." + std::to_string(p) + ".score";
        if (!access(n.c_str(), F_OK)) { ++files; unlink(n.c_str()); }
      }
      rmdir(dir);
      Emit(J().kv("e", "Eval").kv("base", q["eval"].str()).kv("ok", s.ok()).kv("okfiles", s2.ok()).kv("files", files).kv("same", Dump(&ds) == before));
    } else if (q.has("again")) {
      Forest a, b;
      Status s = Train(&ds, q["again"], &a), t = Train(&fresh, q["again"], &b);
      Emit(J().kv("e", "Again").kv("ok", s.ok() && t.ok()).kv("equal", HexForest(a) == HexForest(b)));
    } else {
      Forest f;
      Status s = Train(&ds, q, &f);
      int maxl = 0, basel = 0;
      bool finite = true, known = true;
      Forest b = Base(q["base"].str(), q["at"].i(5));
      if (s.ok()) {
        for (auto& t : f.tree()) { maxl = std::max(maxl, Leaves(t)); finite = finite && Finite(t); }
        for (auto& t : b.tree()) basel = std::max(basel, Leaves(t));
        for (auto& n : CollectAllFeatures(f)) known = known && (n == "x" || n == "s" || (n == "gb" && q["base"].str() == "good"));
      }
      vector<double> scores;
      Status es = s.ok() ? EvaluateForest(&ds, f, &scores) : s;
      int bt = 0;
      for (auto& t : b.tree()) bt += t.has_left_child();
      J kinds;
      for (const char* d : {"loss", "ex", "ft", "pair", "group", "features", "base", "target"}) kinds.kv(d, q[d].str());
      kinds.kv("trees", q["trees"].i()).kv("leaves", q["leaves"].i());
      Emit(J().kv("e", "Train").raw("q", kinds.str()).kv("ok", s.ok()).kv("code", CodeName(s)).kv("ntrees", f.tree_size()).kv("maxleaves", maxl)
               .kv("baseleaves", (q["base"].str() == "none" ? 0 : basel)).kv("basetrees", bt).kv("finite", finite).kv("known", known)
               .kv("eval", CodeName(es)).kv("same", Dump(&ds) == before));
    }
  }
});
}  // namespace
