// Mode "flat" (C02, C08): requests to a FlatfilesDataStore, from one or several threads.
#include <sys/stat.h>
#include <unistd.h>
#include <mutex>
#include <set>
#include <thread>
#include "control.h"
#include "data.h"
#include "src/data_store/flatfiles_data_store.h"
using namespace hz;
using namespace gbdt;

namespace {
struct Run {
  std::vector<std::string> log;
  std::mutex m;
  std::map<const void*, int> ids;
  void Log(const J& j) { sched::Quiet q; std::lock_guard<std::mutex> l(m); log.push_back(j.str()); }
  int Id(const void* p) { std::lock_guard<std::mutex> l(m); auto it = ids.find(p); return it != ids.end() ? it->second : (ids[p] = ids.size() + 1, ids[p]); }
};
const char* TypeName(const Column* c) {
  return c->type() == Column::kStringColumn ? "str" : c->type() == Column::kBucketizedFloatColumn ? "bkt" : "raw";
}
void Show(J& j, const Column* c) {
  bool alive = Alive(c);
  j.kv("alive", alive);
  if (!alive) { j.kv("type", "gone").kv("name", "").raw("rows", "[]").raw("rows2", "[]"); return; }
  j.kv("type", TypeName(c)).kv("name", c->name());
  std::vector<std::string> s;
  std::vector<long long> v, w;
  for (unsigned i = 0; i < c->size(); ++i) {
    if (auto* x = dynamic_cast<const StringColumn*>(c)) s.push_back(x->get_row_string(i));
    else if (auto* x = dynamic_cast<const RawFloatColumn*>(c)) { v.push_back(Ord((*x)[i])); w = v; }
    else {
      auto* x2 = static_cast<const BucketizedFloatColumn*>(c);
      v.push_back(Ord(x2->get_row_min(i)));
      w.push_back(Ord(x2->get_row_max(i)));
    }
  }
  if (c->type() == Column::kStringColumn) j.raw("rows", ArrS(s)).raw("rows2", ArrS(s));
  else j.raw("rows", Arr(v)).raw("rows2", Arr(w));
}
const Column* Get(FlatfilesDataStore* ds, const std::string& n, const std::string& want) {
  if (want == "str") return ds->GetStringColumn(n);
  if (want == "bkt") return ds->GetBucketizedFloatColumn(n);
  if (want == "raw") return ds->GetRawFloatColumn(n);
  return ds->GetColumn(n);
}
void Requests(Run* r, FlatfilesDataStore* ds, int t, const Val& reqs) {
  for (auto& q : reqs.a) {
    std::string n, want;
    { sched::Quiet z; n = q["n"].str(); want = q["want"].str("any"); }
    r->Log(J().kv("e", "Call").kv("t", t).kv("n", n).kv("want", want));
    const Column* c = Get(ds, n, want);
    sched::Quiet z;
    J j;
    j.kv("e", "Ret").kv("t", t).kv("found", c != nullptr).kv("id", c ? r->Id(c) : 0);
    if (c) Show(j, c);
    r->Log(j);
  }
}
Register reg("flat", [](const Val& cas) {
  // directories
  std::string base = Scratch() + "/f" + std::to_string(CaseIndex());
  mkdir(base.c_str(), 0777);
  std::vector<std::string> dirs, files;
  for (size_t i = 0; i < cas["dirs"].size(); ++i) {
    dirs.push_back(base + "/d" + std::to_string(i));
    if (cas["nodir"].i(-1) == (int)i) continue;
    mkdir(dirs.back().c_str(), 0777);
    for (auto& f : cas["dirs"].at(i).o) {
      files.push_back(dirs.back() + "/" + f.first);
      WriteFile(files.back(), f.second["text"].str());
    }
  }
  const auto& threads = cas["threads"].a;
  std::set<std::string> seen;
  sched::Opt o;
  o.kind = cas["strategy"].str() == "pct" ? sched::Opt::PCT : cas["strategy"].str() == "dfs" ? sched::Opt::DFS : sched::Opt::RANDOM;
  o.p_sync = cas["p_sync"].d(.3);
  o.p_mem = cas["p_mem"].d(0);
  o.depth = cas["depth"].i(3);
  o.preemptions = cas["preemptions"].i(1);
  int runs = sched::kControlled ? cas["runs"].i(1) : 1;
  sched::DfsReset();
  for (int k = 0; k < runs; ++k) {
    o.seed = cas["seed"].ll() + k;
    size_t mark = Mark();
    Emit(J().kv("e", "Open").kv("threads", (int)threads.size()));
    Run r;
    OnDie([&r] { for (auto& s : r.log) EmitRaw("{\"c\":" + std::to_string(CaseIndex()) + "," + s.substr(1)); });
    auto body = [&] {
      std::unique_ptr<FlatfilesDataStore> ds(new FlatfilesDataStore(dirs));
      std::vector<std::thread> th;
      for (size_t t = 1; t < threads.size(); ++t) th.emplace_back([&, t] { Requests(&r, ds.get(), t, threads[t]); });
      Requests(&r, ds.get(), 0, threads[0]);
      for (auto& t : th) t.join();
      sched::Quiet z;
      std::vector<std::string> cols;
      for (auto& p : r.ids) {
        J j;
        j.kv("id", p.second);
        Show(j, (const Column*)p.first);
        cols.push_back(j.str());
      }
      r.Log(J().kv("e", "End").kv("nrows", ds->num_rows()).kv("ncols", ds->num_cols()).raw("cols", ArrR(cols)));
    };
    sched::Info info;
    if (sched::kControlled) info = sched::Run(o, body); else body();
    OnDie(nullptr);
    for (auto& x : info.races) r.log.push_back(J().kv("e", "Race").kv("why", x).str());
    std::string key;
    for (auto& s : r.log) key += s;
    if (!seen.insert(key).second) Rewind(mark);
    else for (auto& s : r.log) EmitRaw("{\"c\":" + std::to_string(CaseIndex()) + "," + s.substr(1));
    if (o.kind == sched::Opt::DFS && sched::kControlled && !sched::DfsNext()) break;
    if ((int)seen.size() >= cas["max_traces"].i(30)) break;
  }
  for (auto& f : files) unlink(f.c_str());
  for (auto& d : dirs) rmdir(d.c_str());
  rmdir(base.c_str());
});
}  // namespace
