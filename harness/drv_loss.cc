// Modes "group" (C18), "pair" (C18, C19), "point" (C20): groups and loss functions.
#include <gflags/gflags.h>
#include <algorithm>
#include <mutex>
#include <numeric>
#include "control.h"
#include "data.h"
#include "src/loss_func/loss_func_auc.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/loss_func/loss_func_gbrank.h"
#include "src/loss_func/loss_func_pairwise.h"
#include "src/loss_func/loss_func_pairwise_logloss.h"
#include "src/utils/subsampling.h"
// LambdaMART keeps its weighting to itself; Watched has to call it.
#define private public
#include "src/loss_func/loss_func_lambdamart.h"
#undef private
DECLARE_int32(num_threads);
using namespace hz;
using namespace gbdt;

namespace {
std::vector<long long> Ords(const std::vector<float>& v) {
  std::vector<long long> r;
  for (float x : v) r.push_back(Ord(x));
  return r;
}
std::vector<long long> Fixed(const std::vector<double>& v, double u) {
  std::vector<long long> r;
  for (double x : v) r.push_back(Fix(x, u));
  return r;
}
std::vector<double> Doubles(const Val& v) {
  std::vector<double> r;
  for (auto& x : v.a) r.push_back(x.d());
  return r;
}
FloatVector Vec(const std::vector<float>& v) { return [v](int i) { return v[i]; }; }
void ShowGroup(J& j, const Group& g) {
  std::vector<long long> order, ranks, ys;
  for (unsigned i = 0; i < g.size(); ++i) {
    order.push_back(g[i]);
    ranks.push_back(g.rank(i));
    ys.push_back(Ord(g.y(i)));
  }
  j.raw("order", Arr(order)).raw("ranks", Arr(ranks)).raw("ys", Arr(ys));
}
std::string Counts(const std::map<std::pair<int, int>, long long>& m) {
  std::vector<std::string> v;
  for (auto& p : m) v.push_back("[" + std::to_string(p.first.first) + "," + std::to_string(p.first.second) + "," + std::to_string(p.second) + "]");
  return ArrR(v);
}

// {y:[..], rows:[..], draws, seed, f:[[..]..]}
Register rg("group", [](const Val& cas) {
  std::vector<float> y = Floats(cas["y"]);
  std::vector<uint> rows;
  for (auto& x : cas["rows"].a) rows.push_back(x.i());
  std::vector<uint> given = rows;
  Group g(std::move(rows), Vec(y));
  J j;
  j.kv("e", "Group").raw("y", Arr(Ords(y))).raw("rows", Arr(given)).kv("pairs", (long long)g.num_pairs());
  ShowGroup(j, g);
  Emit(j);
  std::mt19937 gen(cas["seed"].i(1));
  size_t k = 0;
  do {
    J d;
    d.kv("e", "Step");
    if (k < cas["f"].size()) {
      std::vector<double> f = Doubles(cas["f"].at(k));
      g.Rerank(f);
      std::vector<float> ff(f.begin(), f.end());
      d.raw("f", Arr(Ords(ff)));
    } else {
      d.raw("f", "[]");
    }
    std::map<std::pair<int, int>, long long> m;
    int n = g.num_pairs() ? cas["draws"].i() : 0;
    for (int i = 0; i < n; ++i) {
      auto p = g.SamplePair(&gen);
      bool fits = p.first < g.size() && p.second < g.size();
      ++m[fits ? std::make_pair((int)g[p.first], (int)g[p.second]) : std::make_pair(-1, -1)];
    }
    d.kv("draws", n).raw("counts", Counts(m)).kv("pairs", (long long)g.num_pairs());
    ShowGroup(d, g);
    Emit(d);
  } while (++k < cas["f"].size());
});

// A large group: {blocks:[units of 1024 rows, of equal target, descending], cut, draws, seed}
Register rl("biggroup", [](const Val& cas) {
  std::vector<int> level, bin;   // of each row
  int b = 0;
  std::vector<int> size;
  for (size_t k = 0; k < cas["blocks"].size(); ++k) {
    int n = cas["blocks"].at(k).i() * 1024, cut = cas["cut"].i(1);
    for (int c = 0; c < cut; ++c) size.push_back(n / cut / 1024);
    for (int i = 0; i < n; ++i) { level.push_back(-(int)k); bin.push_back(b + i / (n / cut)); }
    b += cut;
  }
  int n = level.size();
  std::mt19937 gen(cas["seed"].i(1));
  std::vector<int> perm(n);
  std::iota(perm.begin(), perm.end(), 0);
  std::shuffle(perm.begin(), perm.end(), gen);
  std::vector<float> y(n);
  std::vector<int> rb(n);
  for (int i = 0; i < n; ++i) { y[perm[i]] = level[i]; rb[perm[i]] = bin[i]; }
  std::vector<uint> rows(n);
  std::iota(rows.begin(), rows.end(), 0);
  Group g(std::move(rows), Vec(y));
  std::map<std::pair<int, int>, long long> m;
  int draws = cas["draws"].i();
  long long outside = 0;
  for (int i = 0; i < draws; ++i) {
    auto p = g.SamplePair(&gen);
    if (p.first >= g.size() || p.second >= g.size()) { ++outside; continue; }
    ++m[{rb[g[p.first]] + 1, rb[g[p.second]] + 1}];
  }
  std::vector<int> lv;
  for (size_t k = 0; k < cas["blocks"].size(); ++k) for (int c = 0; c < cas["cut"].i(1); ++c) lv.push_back(-(int)k);
  uint64_t np = g.num_pairs();
  Emit(J().kv("e", "Big").raw("level", Arr(lv)).raw("size", Arr(size)).kv("pairs", (long long)(np >> 20)).kv("rest", (long long)(np & 0xfffff))
           .kv("draws", draws).kv("outside", outside).raw("counts", Counts(m)));
});

struct Drawn { uint pos, neg; int rp, rn; double w; };
struct Seen {
  std::mutex mu;
  std::vector<std::string> groups;
  std::vector<std::shared_ptr<std::vector<Drawn>>> drawn;
};
template <class Base>
class Watched : public Base {
 public:
  template <class... A> Watched(Seen* seen, A&&... a) : Base(std::forward<A>(a)...), seen_(seen) {}
 protected:
  std::function<double(const std::pair<uint, uint>&)> PairWeightingFunc(const Group& group) const override {
    auto f = Base::PairWeightingFunc(group);
    sched::Quiet z;
    J j;
    ShowGroup(j, group);
    auto list = std::make_shared<std::vector<Drawn>>();
    {
      std::lock_guard<std::mutex> l(seen_->mu);
      seen_->groups.push_back(j.str());
      seen_->drawn.push_back(list);
    }
    const Group* g = &group;
    return [f, list, g](const std::pair<uint, uint>& p) {
      double w = f(p);
      list->push_back({(*g)[p.first], (*g)[p.second], (int)g->rank(p.first), (int)g->rank(p.second), w});
      return w;
    };
  }
 private:
  Seen* seen_;
};

// {loss, y, w, grp (strings or absent), rate8, delta, equal, base8, threads, seed, fs:[[..]..], totals}
Register rp("pair", [](const Val& cas) {
  std::vector<float> y = Floats(cas["y"]), w = Floats(cas["w"]);
  Config config;
  config.set_pair_sampling_rate(cas["rate8"].d() / 8);
  config.set_pair_weight_by_delta_target(cas["delta"].t());
  config.set_equal_group_weight(cas["equal"].t());
  config.set_lambdamart_dcg_base(cas["base8"].d(0) / 8);
  FLAGS_num_threads = cas["threads"].i(2);
  std::string loss = cas["loss"].str();
  Seen seen;
  std::unique_ptr<LossFunc> l;
  if (loss == "auc") l.reset(new Watched<AUC>(&seen, config));
  else if (loss == "gbrank") l.reset(new Watched<GBRank>(&seen, config));
  else if (loss == "pairwise_logloss") l.reset(new Watched<PairwiseLogLoss>(&seen, config));
  else if (loss == "lambdamart") l.reset(new Watched<LambdaMART>(&seen, config));
  else l.reset(new Watched<Pairwise>(&seen, config, cas["rerank"].t(), [](double dt, double df) { return std::make_tuple(1.0, 2 * dt - df, 1.0 + dt / 2); }));
  std::unique_ptr<Column> col;
  std::vector<std::string> grp;
  if (cas.has("grp")) {
    grp = Strings(cas["grp"]);
    col = Column::CreateStringColumn("grp", grp);
  }
  Subsampling::Reseed(cas["seed"].i(1));
  if (cas["twice"].t()) {   // initialized for other data before
    std::vector<float> y2(y.rbegin(), y.rend());
    y2.resize(y2.size() / 2 + 1);
    if (l->Init(y2.size(), Vec(y2), Vec(y2), nullptr).ok()) {}
  }
  Status st = l->Init(y.size(), Vec(w), Vec(y), static_cast<const StringColumn*>(col.get()));
  std::vector<long long> w2, y2;
  for (float x : w) w2.push_back((long long)(x * 2));
  for (float x : y) y2.push_back((long long)(x * 2));
  Emit(J().kv("e", "Init").kv("loss", loss).raw("y", Arr(y2)).raw("w", Arr(w2)).kv("grouped", cas.has("grp")).raw("grp", ArrS(grp))
           .kv("rate8", cas["rate8"].i()).kv("delta", cas["delta"].t()).kv("equal", cas["equal"].t()).kv("rerank", loss == "lambdamart" || (loss == "custom" && cas["rerank"].t())).kv("ok", st.ok()));
  if (!st.ok()) return;
  std::vector<GradientData> gd;
  if (cas["junk"].i(0)) gd.assign(cas["junk"].i(), GradientData(7, -3));
  std::map<std::pair<int, int>, long long> total;
  long long ndrawn = 0;
  for (auto& fv : cas["fs"].a) {
    std::vector<double> f = Doubles(fv);
    for (auto& x : f) x /= 8;
    int reps = cas["totals"].i(1);
    for (int rep = 0; rep < reps; ++rep) {
      seen.groups.clear();
      seen.drawn.clear();
      double c = 5;
      std::string msg;
      auto body = [&] { l->ComputeFunctionalGradientsAndHessians(f, &c, &gd, cas["quiet"].t() ? nullptr : &msg); };
      if (sched::kControlled) {
        sched::Opt o;
        o.kind = cas["strategy"].str("") == "pct" ? sched::Opt::PCT : sched::Opt::RANDOM;
        o.p_sync = cas["p_sync"].d(.2);
        o.p_mem = cas["p_mem"].d(0);
        o.seed = cas["seed"].ll() + rep;
        for (auto& x : sched::Run(o, body).races) Emit(J().kv("e", "Race").kv("why", x));
      } else {
        body();
      }
      std::vector<std::string> gs;
      for (size_t k = 0; k < seen.groups.size(); ++k) {
        std::vector<std::string> ps;
        for (auto& d : *seen.drawn[k]) {
          ++total[{d.pos, d.neg}];
          ++ndrawn;
          if (reps == 1)
            ps.push_back("[" + std::to_string(d.pos) + "," + std::to_string(d.neg) + "," + std::to_string(d.rp) + "," + std::to_string(d.rn) + "," + std::to_string(Fix(d.w, 1e4)) + "]");
        }
        gs.push_back("{\"g\":" + seen.groups[k] + ",\"p\":" + ArrR(ps) + "}");
      }
      if (reps > 1) continue;
      std::vector<double> g, h;
      for (auto& x : gd) { g.push_back(x.g); h.push_back(x.h); }
      std::vector<long long> f8;
      for (auto& x : f) f8.push_back((long long)(x * 8));
      Emit(J().kv("e", "Iter").raw("f", Arr(f8)).kv("const", Fix(c, 1e4)).raw("groups", ArrR(gs)).raw("g", Arr(Fixed(g, 1e4))).raw("h", Arr(Fixed(h, 1e4))).kv("msg", msg));
    }
  }
  if (cas["totals"].i(1) > 1) Emit(J().kv("e", "Totals").kv("draws", ndrawn).raw("counts", Counts(total)));
});

// {loss, y, rows:[{ids,w,y,f..}]}: one loss object per run, several calls
Register rq("point", [](const Val& cas) {
  for (auto& run : cas["runs"].a) {
    std::vector<float> w = Floats(run["w"]), y = Floats(run["y"]);
    std::vector<int> ids;
    for (auto& x : run["ids"].a) ids.push_back(x.i());
    g_scale.Set(run["scale"], ids.size());
    std::vector<float> allw = g_scale.Expand<float>(w, [](int) { return 0.f; });
    std::vector<float> ally = g_scale.Expand<float>(y, [](int k) { return k % 3 ? 1.f : -1.f; });
    FLAGS_num_threads = run["threads"].i(2);
    Config config;
    config.set_loss_func(cas["loss"].str());
    auto l = LossFuncFactory::CreateLossFunc(config);
    Status st = l->Init(ally.size(), Vec(allw), Vec(ally), nullptr);
    std::vector<GradientData> gd;
    if (run["junk"].i(0)) gd.assign(run["junk"].i(), GradientData(1e9, -3));
    int call = 0;
    for (auto& fv : run["fs"].a) {
      ++call;
      std::vector<double> f = Doubles(fv);
      std::vector<double> allf = g_scale.Expand<double>(f, [](int k) { return (k % 9 - 4) * .5; });
      double c = run["c"].d(3);
      std::string msg;
      auto body = [&] { l->ComputeFunctionalGradientsAndHessians(allf, &c, &gd, run["quiet"].t() ? nullptr : &msg); };
      if (sched::kControlled) {
        sched::Opt o;
        o.kind = cas["strategy"].str("") == "pct" ? sched::Opt::PCT : sched::Opt::RANDOM;
        o.p_sync = cas["p_sync"].d(.2);
        o.p_mem = cas["p_mem"].d(0);
        o.seed = cas["seed"].ll() + call;
        for (auto& x : sched::Run(o, body).races) Emit(J().kv("e", "Race").kv("why", x));
      } else {
        body();
      }
      std::vector<double> g, h;
      std::vector<GradientData> few;
      if (!g_scale.Reduce(gd, &few)) Emit(J().kv("e", "Unlike").kv("why", "equal rows got different gradients, or not every row got one"));
      for (auto& x : few) { g.push_back(x.g); h.push_back(x.h); }
      std::vector<long long> w4;
      for (float x : w) w4.push_back((long long)(x * 4));
      std::vector<long long> yi;
      for (float x : y) yi.push_back((long long)(x * 8));
      std::vector<double> ff(f.begin(), f.end());
      Emit(J().kv("e", "Point").kv("loss", cas["loss"].str()).kv("call", call).raw("ids", Arr(ids)).raw("w", Arr(w4)).raw("y", Arr(yi))
               .raw("f", HexArr(f)).kv("const", HexD(c)).raw("g", HexArr(g)).raw("h", HexArr(h)).kv("ok", st.ok()).kv("msg", msg));
    }
  }
  g_scale = Scale();
});
}  // namespace
