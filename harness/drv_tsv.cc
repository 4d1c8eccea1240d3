// Mode "tsv" (C07): loading lists of TSV blocks.
#include <sys/stat.h>
#include <unistd.h>
#include <gflags/gflags.h>
#include <set>
#include "control.h"
#include "data.h"
#include "src/data_store/tsv_data_store.h"
DECLARE_int32(num_threads);
using namespace hz;
using namespace gbdt;

namespace {
std::string ShowColumn(const Column* c) {
  std::vector<std::string> s;
  std::vector<long long> v, w;
  const char* t = c->type() == Column::kStringColumn ? "str" : c->type() == Column::kBucketizedFloatColumn ? "bkt" : "raw";
  for (unsigned i = 0; i < c->size(); ++i) {
    if (auto* x = dynamic_cast<const StringColumn*>(c)) s.push_back(x->get_row_string(i));
    else if (auto* x = dynamic_cast<const RawFloatColumn*>(c)) { v.push_back(Ord((*x)[i])); w = v; }
    else {
      auto* y = static_cast<const BucketizedFloatColumn*>(c);
      v.push_back(Ord(y->get_row_min(i)));
      w.push_back(Ord(y->get_row_max(i)));
    }
  }
  J j;
  j.kv("n", c->name()).kv("t", t);
  if (c->type() == Column::kStringColumn) j.raw("rows", ArrS(s)).raw("rows2", ArrS(s));
  else j.raw("rows", Arr(v)).raw("rows2", Arr(w));
  return j.str();
}
Register reg("tsv", [](const Val& cas) {
  std::string base = Scratch() + "/t" + std::to_string(CaseIndex());
  mkdir(base.c_str(), 0777);
  std::vector<std::string> tsvs;
  for (size_t i = 0; i < cas["files"].size(); ++i) {
    auto& f = cas["files"].at(i);
    std::string p = base + "/b" + std::to_string(i);
    tsvs.push_back(p);
    if (f["kind"].str() == "dir") mkdir(p.c_str(), 0777);
    else if (f["kind"].str() == "file") WriteFile(p, f["text"].str());
  }
  Config cfg;
  for (auto& q : cas["want"].a) {
    std::string n = q["n"].str(), as = q["as"].str();
    if (as == "float") cfg.add_float_feature(n);
    else if (as == "addfloat") cfg.add_additional_float_column(n);
    else if (as == "target") cfg.set_target_column(n);
    else if (as == "weight") cfg.set_weight_column(n);
    else if (as == "cat") cfg.add_categorical_feature(n);
    else if (as == "group") cfg.set_group_column(n);
    else if (as == "addstr") cfg.add_additional_string_column(n);
  }
  std::set<std::string> seen;
  sched::Opt o;
  o.kind = cas["strategy"].str() == "pct" ? sched::Opt::PCT : sched::Opt::RANDOM;
  o.p_sync = cas["p_sync"].d(.3);
  o.p_mem = cas["p_mem"].d(0);
  o.depth = cas["depth"].i(3);
  int runs = sched::kControlled ? cas["runs"].i(1) : 1;
  for (int k = 0; k < runs; ++k) {
    for (auto& th : cas["threads"].a) {
      FLAGS_num_threads = th.i();
      o.seed = cas["seed"].ll() + k;
      std::string out;
      auto body = [&] {
        std::unique_ptr<TSVDataStore> ds(new TSVDataStore(tsvs, cfg));
        sched::Quiet z;
        J j;
        j.kv("e", "Load").kv("ok", ds->status().ok());
        if (ds->status().ok()) {
          std::vector<std::string> cols;
          for (auto* c : ds->GetBucketizedFloatColumns()) cols.push_back(ShowColumn(c));
          for (auto* c : ds->GetRawFloatColumns()) cols.push_back(ShowColumn(c));
          for (auto* c : ds->GetStringColumns()) cols.push_back(ShowColumn(c));
          j.kv("nrows", ds->num_rows()).kv("ncols", ds->num_cols()).raw("cols", ArrR(cols));
        }
        out = j.str();
      };
      sched::Info info;
      if (sched::kControlled) info = sched::Run(o, body); else body();
      std::string key = out;
      for (auto& x : info.races) key += x;
      if (!seen.insert(key).second) continue;
      EmitRaw("{\"c\":" + std::to_string(CaseIndex()) + "," + out.substr(1));
      for (auto& x : info.races) Emit(J().kv("e", "Race").kv("why", x));
    }
  }
  for (auto& f : tsvs) if (unlink(f.c_str())) rmdir(f.c_str());
  rmdir(base.c_str());
});
}  // namespace
