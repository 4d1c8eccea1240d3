// Modes "boost" (C12) and "threads" (C15, C16): TrainGBDT with recorded loss functions.
#include "control.h"
#include "data.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/gbdt_algo/utils.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/utils/subsampling.h"
#include <gflags/gflags.h>
#include <functional>
DECLARE_int32(num_threads);
using namespace hz;
using namespace gbdt;

namespace {
struct Step { vector<double> f; double c; vector<GradientData> g; bool filled; };

// Returns scripted constants and gradients, or those of a built-in loss; records everything.
class Recorder : public LossFunc {
 public:
  Recorder(const Val& iters, LossFunc* real) : iters_(iters), real_(real) {}
  Status Init(int n, FloatVector w, FloatVector y, const StringColumn* g) override {
    return real_ ? real_->Init(n, w, y, g) : Status::OK;
  }
  void ComputeFunctionalGradientsAndHessians(const vector<double>& f, double* c, vector<GradientData>* g, string* p) override {
    Step s;
    s.f = f;
    if (real_) {
      real_->ComputeFunctionalGradientsAndHessians(f, c, g, p);
    } else {
      const Val& it = iters_.at(steps.size());
      *c = it["c"].k == Val::STR ? (it["c"].str() == "nan" ? NAN : it["c"].str() == "inf" ? INFINITY : -INFINITY) : it["c"].d() / 8;
      g->resize(f.size());
      for (size_t i = 0; i < f.size(); ++i) {
        int k = scale_.Of(i);
        (*g)[i] = k < 0 ? GradientData(k % 5 + 2, 1) : GradientData(it["g"].at(k).d() / scale_.m, it["h"].at(k).d() / scale_.m);
      }
      if (p) *p = "";
    }
    s.c = *c;
    s.g = *g;
    if (scale_.on) {
      vector<double> f1;
      vector<GradientData> g1;
      uniform = scale_.Reduce(s.f, &f1) && scale_.Reduce(s.g, &g1) && uniform;
      for (auto& x : g1) x = GradientData(x.g * scale_.m, x.h * scale_.m);
      s.f = f1;
      s.g = g1;
    }
    steps.push_back(s);
  }
  vector<Step> steps;
  bool uniform = true;

 private:
  const Val& iters_;
  Scale scale_ = g_scale;
  unique_ptr<LossFunc> real_;
};

vector<long long> Fixed(const vector<double>& v, double scale) {
  vector<long long> r;
  for (double x : v) r.push_back(Fix(x, scale));
  return r;
}
void Configure(const Val& cas, Config* c) {
  MakeConfig(cas["cfg"], c);
  c->set_l2_lambda(cas["lam4"].d(0) / 4);
  c->set_min_hessian(cas["minh4"].d(0) / 4);
  c->set_min_gain(cas["ming4"].d(0) / 4);
  if (cas.has("shrink8")) c->set_shrinkage(cas["shrink8"].d() / 8);
}
FloatVector Vec(const vector<float>& v) { return [&v](int i) { return v[i]; }; }

Register rb("boost", [](const Val& cas) {
  DataStore ds;
  g_scale.Set(cas["scale"], cas["w"].size());
  Scale scale = g_scale;
  Fill(&ds, cas["cols"]);
  Config config;
  Configure(cas, &config);
  vector<float> w = Floats(cas["w"]), y = Floats(cas["y"]);
  vector<float> wl = scale.Expand<float>(w, [](int) { return 0; }), yl = scale.Expand<float>(y, [](int) { return 1; });
  unordered_set<string> features;
  for (auto& f : cas["features"].a) features.insert(f.str());
  bool real = cas["loss"].k == Val::STR;
  if (real) config.set_loss_func(cas["loss"].str());
  Recorder rec(cas["iters"], real ? LossFuncFactory::CreateLossFunc(config).release() : nullptr);
  FLAGS_num_threads = cas["threads"].i(2);
  g_scale = Scale();
  Subsampling::Reseed(cas["seed"].i(1));
  Forest base = MakeForest(cas["base"]), forest;
  Status s = TrainGBDT(&ds, features, Vec(wl), Vec(yl), &rec, config, cas.has("base") ? &base : nullptr, &forest);
  vector<double> scores;
  Status es = s.ok() ? EvaluateForest(&ds, forest, &scores) : s;
  if (cas["blow"].t()) {   // numbers beyond what a trace can show: is every score a number?
    bool fin = true;
    std::function<void(const TreeNode&)> visit = [&](const TreeNode& t) {
      fin = fin && std::isfinite(t.score());
      if (t.has_left_child()) visit(t.left_child());
      if (t.has_right_child()) visit(t.right_child());
    };
    for (auto& t : forest.tree()) visit(t);
    bool seen = true, scored = true;
    for (auto& st : rec.steps) {
      seen = seen && st.f.size() == w.size();
      for (double x : st.f) seen = seen && std::isfinite(x);
    }
    for (double x : scores) scored = scored && std::isfinite(x);
    Emit(J().kv("e", "Blow").kv("code", CodeName(s)).kv("eval", CodeName(es)).kv("forest", fin).kv("seen", seen).kv("scores", scored)
             .kv("steps", (int)rec.steps.size()).kv("trees", config.num_trees()).kv("huge", cas["huge"].t()));
    return;
  }
  bool uniform = rec.uniform;
  if (scale.on) {
    vector<double> few;
    uniform = (!es.ok() || scale.Reduce(scores, &few)) && uniform;
    scores = few;
  }
  bool intg = !real;
  for (auto& st : rec.steps) for (auto& g : st.g) intg = intg && g.g == floor(g.g) && g.h == floor(g.h);
  vector<int> wi;
  for (float x : w) wi.push_back((int)x);
  Emit(J().kv("e", "Start").kv("n", (int)w.size()).raw("data", Table(cas["cols"])).raw("features", ArrS(features))
           .raw("base", ShowForest(base)).raw("w", Arr(wi)).kv("lam4", cas["lam4"].i(0)).kv("minh4", cas["minh4"].i(0))
           .kv("ming4", cas["ming4"].i(0)).kv("shrink8", cas["shrink8"].i(8)).kv("leaves", config.num_leaves())
           .kv("trees", config.num_trees()).kv("allrows", config.example_sampling_rate() >= 1)
           .kv("allfeatures", config.feature_sampling_rate() >= 1).kv("uniform", uniform).kv("integral", intg).kv("ok", s.ok())
           .raw("forest", ShowForest(forest)).kv("meta", !forest.meta_info().empty()));
  for (auto& st : rec.steps) {
    vector<long long> g, h;
    for (auto& x : st.g) { g.push_back(intg ? (long long)x.g : 0); h.push_back(intg ? (long long)x.h : 0); }
    bool fin = std::isfinite(st.c);
    Emit(J().kv("e", "Loss").raw("f", Arr(Fixed(st.f, 1e4))).kv("finite", fin).kv("const", fin ? Fix(st.c, 1e4) : 0)
             .raw("g", Arr(g)).raw("h", Arr(h)));
  }
  Emit(J().kv("e", "End").kv("code", CodeName(s)).kv("eval", CodeName(es)).raw("scores", Arr(Fixed(scores, 1e4)))
           .raw("base", ShowForest(base)));
});

// The same training several times; threads, schedules and what ran before vary.
Register rt("threads", [](const Val& cas) {
  for (auto& run : cas["runs"].a) {
    J j;
    j.kv("e", "Run").kv("threads", run["threads"].i(2));
    auto body = [&] {
      DataStore ds;
      FLAGS_num_threads = run["threads"].i(2);
      Fill(&ds, cas["cols"]);
      Config config;
      Configure(cas, &config);
      vector<float> w = Floats(cas["w"]), y = Floats(cas["y"]);
      unordered_set<string> features;
      for (auto& f : cas["features"].a) features.insert(f.str());
      bool real = cas["loss"].k == Val::STR;
      if (real) config.set_loss_func(cas["loss"].str());
      // something else first
      if (run["before"].t()) {
        Config other = config;
        other.set_num_leaves(3);
        other.set_num_trees(1 + run["before"].i());
        other.set_example_sampling_rate(.5);
        other.set_loss_func("mse");
        auto l = LossFuncFactory::CreateLossFunc(other);
        Forest ignored;
        TrainGBDT(&ds, features, Vec(w), Vec(y), l.get(), other, nullptr, &ignored);
      }
      Recorder rec(cas["iters"], real ? LossFuncFactory::CreateLossFunc(config).release() : nullptr);
      Forest base = MakeForest(cas["base"]), forest;
      if (run["reuse"].t()) {   // the same loss object has been used before
        Forest ignored;
        TrainGBDT(&ds, features, Vec(w), Vec(y), &rec, config, nullptr, &ignored);
        rec.steps.clear();
      }
      Subsampling::Reseed(cas["seed"].i(1));
      Status s = TrainGBDT(&ds, features, Vec(w), Vec(y), &rec, config, cas.has("base") ? &base : nullptr, &forest);
      vector<double> scores;
      Status es = s.ok() ? EvaluateForest(&ds, forest, &scores) : s;
      sched::Quiet z;
      j.kv("code", CodeName(s)).kv("forest", HexForest(forest));
      j.raw("scores", HexArr(scores)).kv("exact", !real || cas["same_threads"].t());
      j.raw("trees", ShowForest(forest));
      vector<string> steps;
      for (auto& st : rec.steps) {
        vector<long long> g, h;
        for (auto& x : st.g) { g.push_back(Fix(x.g, 1e5)); h.push_back(Fix(x.h, 1e5)); }
        steps.push_back(J().kv("c", Fix(st.c, 1e5)).raw("f", Arr(Fixed(st.f, 1e5))).raw("g", Arr(g)).raw("h", Arr(h)).str());
      }
      j.raw("steps", ArrR(steps)).raw("fscores", Arr(Fixed(scores, 1e5)));
    };
    std::vector<std::string> races;
    if (sched::kControlled && run.has("seed")) {
      sched::Opt o;
      o.kind = run["strategy"].str("") == "pct" ? sched::Opt::PCT : sched::Opt::RANDOM;
      o.p_sync = run["p_sync"].d(.2);
      o.p_mem = run["p_mem"].d(0);
      o.depth = run["depth"].i(3);
      o.seed = run["seed"].ll();
      races = sched::Run(o, body).races;
    } else {
      body();
    }
    Emit(j);
    for (auto& x : races) Emit(J().kv("e", "Race").kv("why", x));
  }
});
}  // namespace
