// Mode "eval" (C13, C14, C17, C22): several stores and forests, and operations on them.
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <gflags/gflags.h>
#include <algorithm>
#include <set>
#include "control.h"
#include "data.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/utils.h"
#include "src/utils/json_utils.h"
DECLARE_int32(num_threads);
using namespace hz;
using namespace gbdt;

namespace {
typedef std::vector<std::string> Log;
std::vector<long long> Fixed(const std::vector<double>& v) {
  std::vector<long long> r;
  for (double x : v) r.push_back(Fix(x, 1e4));
  return r;
}
std::string Importance(const Forest& f) {
  std::vector<std::string> v;
  for (auto& p : ComputeFeatureImportance(f)) v.push_back(J().kv("f", p.first).kv("v", Fix(p.second, 1e6)).kv("hex", HexD(p.second)).str());
  return ArrR(v);
}
void Clear(const std::string& dir) {
  if (DIR* d = opendir(dir.c_str())) {
    while (auto* e = readdir(d)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string p = dir + "/" + n;
      if (unlink(p.c_str())) { Clear(p); }
    }
    closedir(d);
    rmdir(dir.c_str());
  }
}
void Files(J& j, const std::string& dir, const std::set<std::string>& ours, const Scale& scale) {
  std::vector<std::string> files;
  if (DIR* d = opendir(dir.c_str())) {
    std::vector<std::string> names;
    while (auto* e = readdir(d)) names.push_back(e->d_name);
    closedir(d);
    std::sort(names.begin(), names.end());
    for (auto& n : names) {
      if (n == "." || n == ".." || ours.count(n)) continue;
      int k = -1;
      char tail[16] = "";
      bool named = sscanf(n.c_str(), "forest.%d.%15s", &k, tail) == 2 && n == "forest." + std::to_string(k) + ".score";
      std::string text = ReadFile(dir + "/" + n);
      std::vector<long long> v;
      bool clean = true;
      size_t p = 0;
      while (p < text.size()) {
        size_t q = text.find('\n', p);
        if (q == std::string::npos) q = text.size();
        std::string s = text.substr(p, q - p);
        char* end;
        double x = strtod(s.c_str(), &end);
        clean = clean && !s.empty() && *end == 0;
        v.push_back(Fix(x, 1e4));
        p = q + 1;
      }
      std::vector<long long> few;
      clean = scale.Reduce(v, &few) && clean;
      v = few;
      files.push_back(J().kv("k", named ? k : -1).kv("clean", clean).raw("v", Arr(v)).str());
    }
  }
  j.raw("files", ArrR(files));
}
Register reg("eval", [](const Val& cas) {
  std::vector<std::string> tables, forests;
  for (auto& t : cas["tables"].a) tables.push_back(J().raw("data", Table(t["cols"])).raw("ids", [&] { std::vector<long long> v; for (auto& x : t["ids"].a) v.push_back(x.ll()); return Arr(v); }()).str());
  std::vector<Forest> given;
  for (auto& f : cas["forests"].a) {
    given.push_back(MakeForest(f["trees"]));
    forests.push_back(J().raw("trees", ShowForest(given.back())).kv("exact", f["exact"].t()).kv("hex", HexForest(given.back())).str());
  }
  Emit(J().kv("e", "Open").raw("tables", ArrR(tables)).raw("forests", ArrR(forests)));
  std::string base = Scratch() + "/e" + std::to_string(CaseIndex());
  Log log;
  auto body = [&] {
    std::vector<std::unique_ptr<DataStore>> ds;
    std::vector<Scale> scales;
    for (auto& t : cas["tables"].a) {
      g_scale.Set(t["scale"], t["ids"].size());
      scales.push_back(g_scale);
      ds.emplace_back(new DataStore);
      Fill(ds.back().get(), t["cols"]);
    }
    g_scale = Scale();
    std::vector<Forest> fs = given;
    for (auto& op : cas["ops"].a) {
      std::string what = op["op"].str();
      FLAGS_num_threads = op["threads"].i(2);
      J j;
      j.kv("e", what).kv("table", op["table"].i(0) + 1).kv("forest", op["forest"].i(0) + 1);
      if (what == "score") {
        std::vector<double> s;
        for (int k = 0; k < op["junk"].i(0); ++k) s.push_back(77 + k);
        Status st = EvaluateForest(ds[op["table"].i()].get(), fs[op["forest"].i()], &s);
        if (st.ok()) {
          std::vector<double> few;
          j.kv("uniform", scales[op["table"].i()].Reduce(s, &few));
          s = few;
        } else j.kv("uniform", true);
        j.kv("ok", st.ok()).raw("scores", Arr(Fixed(s))).raw("hex", HexArr(s)).kv("after", HexForest(fs[op["forest"].i()]));
      } else if (what == "files") {
        sched::Quiet z;
        std::list<int> points;
        for (auto& p : op["points"].a) points.push_back(p.i());
        std::string dir = base + (op["deep"].t() ? "/x/y" : "/x");
        mkdir(base.c_str(), 0777);
        if (op["blocked"].size() || op["exists"].t()) mkdir(dir.c_str(), 0777);
        std::set<std::string> ours;
        int kind = 0;
        for (auto& b : op["blocked"].a) {
          std::string n = "forest." + std::to_string(b.i()) + ".score";
          ours.insert(n);
          if (kind++ % 2) mkdir((dir + "/" + n).c_str(), 0777);
          else if (symlink("/dev/full", (dir + "/" + n).c_str())) {}
        }
        Status st = EvaluateForest(ds[op["table"].i()].get(), fs[op["forest"].i()], points, dir);
        j.kv("ok", st.ok()).raw("points", Arr([&] { std::vector<int> v(points.begin(), points.end()); return v; }())).kv("deep", op["deep"].t());
        std::vector<int> bl;
        for (auto& b : op["blocked"].a) bl.push_back(b.i());
        j.raw("blocked", Arr(bl));
        Files(j, dir, ours, scales[op["table"].i()]);
        Clear(base);
      } else if (what == "json") {
        std::string text;
        Forest g;
        Forest& f = fs[op["forest"].i()];
        f.set_meta_info(op["meta"].str(""));
        bool ok = JsonUtils::ToJson(f, &text).ok() && JsonUtils::FromJson(text, &g).ok();
        j.kv("ok", ok).kv("hex", HexForest(g)).raw("trees", ShowForest(g)).kv("samemeta", g.meta_info() == f.meta_info());
        fs.push_back(g);
      } else if (what == "importance") {
        Forest& f = fs[op["forest"].i()];
        std::vector<std::string> feats;
        for (auto& x : CollectAllFeatures(f)) feats.push_back(x);
        j.raw("imp", Importance(f)).raw("features", ArrS(feats));
      } else if (what == "points") {
        Config c;
        c.set_eval_interval(op["interval"].i());
        std::vector<int> v;
        for (int p : GetTestPoints(c, op["size"].i())) v.push_back(p);
        j.kv("interval", op["interval"].i()).kv("size", op["size"].i()).raw("points", Arr(v));
      }
      sched::Quiet z;
      log.push_back(j.str());
    }
  };
  std::set<std::string> seen;
  sched::Opt o;
  o.kind = cas["strategy"].str() == "pct" ? sched::Opt::PCT : sched::Opt::RANDOM;
  o.p_sync = cas["p_sync"].d(.2);
  o.p_mem = cas["p_mem"].d(0);
  o.depth = cas["depth"].i(3);
  int runs = sched::kControlled ? cas["runs"].i(1) : 1;
  for (int k = 0; k < runs; ++k) {
    o.seed = cas["seed"].ll() + k;
    log.clear();
    sched::Info info;
    if (sched::kControlled) info = sched::Run(o, body); else body();
    for (auto& x : info.races) log.push_back(J().kv("e", "Race").kv("why", x).str());
    std::string key;
    for (auto& s : log) key += s;
    if (!seen.insert(key).second) continue;
    Emit(J().kv("e", "Again"));
    for (auto& s : log) EmitRaw("{\"c\":" + std::to_string(CaseIndex()) + "," + s.substr(1));
  }
});
}  // namespace
