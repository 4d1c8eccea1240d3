#include "data.h"
namespace hz {
std::vector<float> Floats(const Val& v) {
  std::vector<float> r;
  for (auto& x : v.a) r.push_back(x.k == Val::NUM ? (float)x.d() : x.k == Val::OBJ ? FromOrd(x["ord"].ll()) : NAN);
  return r;
}
std::vector<std::string> Strings(const Val& v) {
  std::vector<std::string> r;
  for (auto& x : v.a) r.push_back(x.k == Val::STR ? x.str() : x.k == Val::NUM ? "s" + std::to_string(x.i()) : "__missing__");
  return r;
}
Scale g_scale;
std::unique_ptr<Column> MakeColumn(const Val& c) {
  std::string t = c["t"].str(), n = c["n"].str();
  if (t == "str") return Column::CreateStringColumn(n, g_scale.Expand<std::string>(Strings(c["v"]), [](int k) { return "z" + std::to_string(k); }));
  auto v = g_scale.Expand<float>(Floats(c["v"]), [](int k) { return (k * 7919 % 100003) * .0001f - 1; });
  if (t == "bkt") return c.has("budget") ? Column::CreateBucketizedFloatColumn(n, v, c["budget"].i())
                                         : Column::CreateBucketizedFloatColumn(n, v);
  return Column::CreateRawFloatColumn(n, std::move(v));
}
bool Fill(DataStore* ds, const Val& cols) {
  bool ok = true;
  for (auto& c : cols.a) ok = ds->Add(MakeColumn(c)).ok() && ok;
  return ok;
}
std::string Table(const Val& cols) {
  J j;
  for (auto& c : cols.a) {
    std::string v;
    if (c["t"].str() == "str") {
      v = ArrS(Strings(c["v"]));
    } else {
      std::vector<long long> o;
      for (float x : Floats(c["v"])) o.push_back(Ord(x));
      v = Arr(o);
    }
    j.raw(c["n"].str().c_str(), J().kv("t", c["t"].str()).raw("v", v).str());
  }
  return j.str();
}
namespace {
int Show(const TreeNode& t, std::vector<std::string>* out) {
  int at = out->size();
  out->push_back("");
  int l = 0, r = 0;
  if (t.has_left_child()) l = Show(t.left_child(), out);
  if (t.has_right_child()) r = Show(t.right_child(), out);
  J j;
  j.kv("l", l).kv("r", r).kv("s", Fix(t.score(), 1e4));
  const Split& s = t.split();
  bool has = t.has_split();
  j.kv("k", !has ? "none" : s.has_float_split() && s.has_cat_split() ? "both" : s.has_float_split() ? "flt" : s.has_cat_split() ? "cat" : "none");
  j.kv("f", s.feature()).kv("gain", Fix(s.gain(), 1e4));
  j.kv("th", Ord(s.float_split().threshold())).kv("mr", s.float_split().missing_to_right_child());
  j.raw("cats", ArrS(s.cat_split().category())).kv("nint", s.cat_split().internal_categorical_index_size());
  (*out)[at] = j.str();
  return at + 1;
}
}  // namespace
std::string ShowTree(const TreeNode& t) {
  std::vector<std::string> v;
  Show(t, &v);
  return ArrR(v);
}
std::string ShowForest(const Forest& f) {
  std::vector<std::string> v;
  for (auto& t : f.tree()) v.push_back(ShowTree(t));
  return ArrR(v);
}
std::string HexTree(const TreeNode& t) {
  // a zero has no sign here: proto3 does not keep it
  std::string s = "(" + HexF(t.score() + 0.0f);
  if (t.has_split()) {
    auto& p = t.split();
    s += "?" + p.feature() + "!" + HexD(p.gain());
    if (p.has_float_split()) s += "<" + HexF(p.float_split().threshold() + 0.0f) + (p.float_split().missing_to_right_child() ? "R" : "L");
    if (p.has_cat_split()) {
      s += "@";
      for (auto& c : p.cat_split().category()) s += c + "|";
      for (auto i : p.cat_split().internal_categorical_index()) s += "#" + std::to_string(i);
    }
  }
  if (t.has_left_child()) s += "l" + HexTree(t.left_child());
  if (t.has_right_child()) s += "r" + HexTree(t.right_child());
  return s + ")";
}
std::string HexForest(const Forest& f) {
  std::string s;
  for (auto& t : f.tree()) s += HexTree(t) + ";";
  return s;
}
void MakeTree(const Val& v, TreeNode* t) {
  t->set_score(v["s"].k == Val::OBJ ? FromOrd(v["s"]["ord"].ll()) : (float)v["s"].d(0));
  if (v.has("f")) {
    auto* s = t->mutable_split();
    s->set_feature(v["f"].str());
    s->set_gain(v["gain"].d(0));
    if (v.has("th")) {
      const Val& th = v["th"];
      s->mutable_float_split()->set_threshold(th.k == Val::OBJ ? FromOrd(th["ord"].ll()) : (float)th.d());
      s->mutable_float_split()->set_missing_to_right_child(v["mr"].t());
    }
    if (v.has("cats")) {
      s->mutable_cat_split();
      for (auto& c : v["cats"].a) s->mutable_cat_split()->add_category(c.k == Val::STR ? c.str() : "s" + std::to_string(c.i()));
    }
  }
  if (v.has("l")) MakeTree(v["l"], t->mutable_left_child());
  if (v.has("r")) MakeTree(v["r"], t->mutable_right_child());
}
Forest MakeForest(const Val& v) {
  Forest f;
  for (auto& t : v.a) MakeTree(t, f.add_tree());
  return f;
}
void MakeConfig(const Val& v, Config* c) {
  // defaults
  c->set_num_trees(v["num_trees"].i(1));
  c->set_num_leaves(v["num_leaves"].i(4));
  c->set_shrinkage(v["shrinkage"].d(1));
  c->set_min_gain(v["min_gain"].d(0));
  c->set_l2_lambda(v["l2_lambda"].d(0));
  c->set_min_hessian(v["min_hessian"].d(0));
  c->set_example_sampling_rate(v["example_sampling_rate"].d(1));
  c->set_feature_sampling_rate(v["feature_sampling_rate"].d(1));
  c->set_eval_interval(v["eval_interval"].i(0));
  c->set_loss_func(v["loss_func"].str("mse"));
  c->set_pair_sampling_rate(v["pair_sampling_rate"].d(1));
  c->set_pair_weight_by_delta_target(v["pair_weight_by_delta_target"].t());
  c->set_lambdamart_dcg_base(v["lambdamart_dcg_base"].d(0));
  c->set_equal_group_weight(v["equal_group_weight"].t());
  for (auto& x : v["float_feature"].a) c->add_float_feature(x.str());
  for (auto& x : v["categorical_feature"].a) c->add_categorical_feature(x.str());
  c->set_weight_column(v["weight_column"].str(""));
  c->set_target_column(v["target_column"].str("y"));
  c->set_binarize_target(v["binarize_target"].t());
  c->set_group_column(v["group_column"].str(""));
}
}  // namespace hz
