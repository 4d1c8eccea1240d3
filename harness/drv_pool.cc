// Mode "pool" (C01): the worker pool under controlled (or real) schedules.
#include <condition_variable>
#include <mutex>
#include <set>
#include <thread>
#include "data.h"
#include "control.h"
#include "src/utils/threadpool.h"
using namespace hz;

namespace {
std::mutex g_log_mutex;   // plain variant only
std::vector<std::string>* g_log;
void Log(const J& j) {
  if (sched::Active()) { sched::Quiet q; g_log->push_back(j.str()); return; }
  std::lock_guard<std::mutex> l(g_log_mutex);
  g_log->push_back(j.str());
}

// One execution.  Tasks: {"wait":[j..] (until those have started / ended), "sub":[j..], "points":n}
struct World {
  const Val& cas;
  std::mutex m;
  std::condition_variable cv;
  std::set<int> started, ended;
  ThreadPool* pool = nullptr;
  std::map<std::thread::id, int> ids;
  int Who() {
    if (sched::Active()) return sched::Self();
    std::lock_guard<std::mutex> l(g_log_mutex);
    auto it = ids.find(std::this_thread::get_id());
    if (it == ids.end()) it = ids.insert({std::this_thread::get_id(), (int)ids.size() + 1}).first;
    return it->second;
  }
  explicit World(const Val& c) : cas(c) {}
  void Submit(int i) {
    Log(J().kv("e", "Call").kv("i", i));
    pool->Enqueue([this, i] { Task(i); });
    Log(J().kv("e", "Ret").kv("i", i));
  }
  void Task(int i) {
    const Val& t = cas["tasks"].at(i - 1);
    Log(J().kv("e", "Start").kv("i", i).kv("w", Who()));
    {
      std::unique_lock<std::mutex> l(m);
      started.insert(i);
      cv.notify_all();
      if (t.has("started"))
        cv.wait(l, [&] { for (auto& j : t["started"].a) if (!started.count(j.i())) return false; return true; });
      if (t.has("ended"))
        cv.wait(l, [&] { for (auto& j : t["ended"].a) if (!ended.count(j.i())) return false; return true; });
    }
    for (auto& j : t["sub"].a) Submit(j.i());
    for (int k = 0; k < t["points"].i(0); ++k) sched::Point();
    Log(J().kv("e", "End").kv("i", i).kv("w", Who()));
    std::unique_lock<std::mutex> l(m);
    ended.insert(i);
    cv.notify_all();
  }
  void Await(int i) {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return ended.count(i) > 0; });
  }
  // positive: hand in the task; negative: wait for its end
  void Program(const Val& v) { for (auto& j : v.a) if (j.i() > 0) Submit(j.i()); else Await(-j.i()); }
  void Go() {
    {
      ThreadPool p(cas["workers"].i());
      pool = &p;
      std::vector<std::thread> others;
      auto& subs = cas["submit"].a;
      for (size_t k = 1; k < subs.size(); ++k)
        others.emplace_back([this, k, &subs] { Program(subs[k]); });
      Program(subs[0]);
      for (auto& t : others) t.join();
      if (cas["await"].b) for (size_t i = 1; i <= cas["tasks"].size(); ++i) Await(i);
      for (int k = 0; k < cas["points"].i(0); ++k) sched::Point();
      Log(J().kv("e", "Close"));
    }
    Log(J().kv("e", "Closed").kv("live", sched::Active() ? sched::Live() : 0));
  }
};

Register r("pool", [](const Val& cas) {
  std::set<std::string> seen;
  long runs = 0, limit = cas["runs"].ll();
  bool dfs = cas["strategy"].str() == "dfs";
  sched::Opt o;
  o.kind = dfs ? sched::Opt::DFS : cas["strategy"].str() == "pct" ? sched::Opt::PCT : sched::Opt::RANDOM;
  o.preemptions = cas["preemptions"].i(2);
  o.spurious = cas["spurious"].i(0);
  o.p_sync = cas["p_sync"].d(.3);
  o.p_mem = cas["p_mem"].d(0);
  o.depth = cas["depth"].i(3);
  o.max_steps = 200000;
  sched::DfsReset();
  bool complete = false;
  do {
    std::vector<std::string> log;
    g_log = &log;
    o.seed = cas["seed"].ll() + runs;
    // shown if the execution does not end
    size_t mark = Mark();
    Emit(J().kv("e", "Begin").kv("workers", cas["workers"].i()).kv("n", (int)cas["tasks"].size()));
    OnDie([&log] { for (auto& s : log) EmitRaw("{\"c\":" + std::to_string(CaseIndex()) + "," + s.substr(1)); });
    World w(cas);
    auto info = sched::Run(o, [&] { w.Go(); });
    OnDie(nullptr);
    for (auto& x : info.races) log.push_back(J().kv("e", "Race").kv("why", x).str());
    std::string key;
    for (auto& s : log) key += s;
    if (!seen.insert(key).second) Rewind(mark);
    else for (auto& s : log) EmitRaw("{\"c\":" + std::to_string(CaseIndex()) + "," + s.substr(1));
    ++runs;
    if (dfs && !sched::DfsNext()) { complete = true; break; }
  } while (runs < limit && seen.size() < (size_t)cas["max_traces"].i(400));
  Emit(J().kv("e", "Stat").kv("runs", (long long)runs).kv("traces", (int)seen.size()).kv("complete", complete));
});
}  // namespace
