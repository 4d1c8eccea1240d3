// Modes "samp", "sampstat": sampling and division of work (C23).
#include "data.h"
#include "src/utils/subsampling.h"
#include "src/utils/vector_slice.h"
using namespace hz;
using namespace gbdt;

namespace {
std::string Pairs(const std::vector<std::pair<long long, long long>>& q) {
  std::vector<std::string> r;
  for (auto& p : q) r.push_back("[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]");
  return ArrR(r);
}
Register rs("samp", [](const Val& cas) {
  for (auto& op : cas["ops"].a) {
    std::string o = op["op"].str();
    if (o == "reseed") {
      Subsampling::Reseed(op["seed"].i());
      Emit(J().kv("e", "Reseed").kv("seed", op["seed"].i()));
    } else if (o == "foreign") {
      (*Subsampling::get_generator())();
      Emit(J().kv("e", "Foreign"));
    } else if (o == "sample") {
      uint n = op["n"].i();
      double rate = op["rate"].d();
      auto s = Subsampling::UniformSubsample(n, rate);
      Emit(J().kv("e", "Sample").kv("n", (int)n).kv("rate", HexD(rate)).kv("one", rate >= 1).kv("none", rate < 1e-12).raw("out", Arr(s)));
    } else if (o == "all") {
      uint n = op["n"].i();
      Emit(J().kv("e", "All").kv("n", (int)n).raw("out", Arr(Subsampling::CreateAllSamples(n))));
    } else if (o == "divide") {
      int n = op["n"].i(), k = op["k"].i();
      std::vector<std::pair<long long, long long>> q;
      for (auto& p : Subsampling::DivideSamples(n, k)) q.emplace_back(p.first, p.second);
      Emit(J().kv("e", "Divide").kv("n", n).kv("k", k).raw("out", Pairs(q)));
    } else if (o == "dslice") {
      int n = op["n"].i(), k = op["k"].i(), off = op["off"].i(), total = off + n + op["rest"].i();
      vector<uint> v(total);
      for (int i = 0; i < total; ++i) v[i] = (i * 7 + 3) % 1001;
      vector<uint> whole(v.begin() + off, v.begin() + off + n), items;
      VectorSlice<uint> base(v, off, n);
      auto slices = Subsampling::DivideSamples(base, k);
      std::vector<std::pair<long long, long long>> q;
      long long written = 0;
      bool shared = true;
      for (auto& s : slices) {
        long long b = s.begin() - v.begin() - off, e = s.end() - v.begin() - off;
        q.emplace_back(b, e);
        if (b < 0 || e > n || e < b || s.size() != e - b) { shared = false; continue; }
        for (auto x : s) items.push_back(x);
        for (int i = 0; i < s.size(); ++i) {
          if (s[i] != v[off + b + i]) shared = false;
          s[i] = 5000 + (written++);
        }
      }
      for (int i = 0; i < total; ++i) {
        uint want = i >= off && i < off + n ? 5000 + i - off : (i * 7 + 3) % 1001;
        if (v[i] != want) shared = false;
      }
      Emit(J().kv("e", "DivideSlice").kv("n", n).kv("k", k).raw("out", Pairs(q)).raw("items", Arr(items)).raw("whole", Arr(whole)).kv("shared", shared));
    }
  }
});

// {seed, n, draws, num, den, reps} or {seed, large, rate}
Register rt("sampstat", [](const Val& cas) {
  Subsampling::Reseed(cas["seed"].i());
  if (cas.has("ppm")) {   // nearly nothing or nearly everything of some millions
    int m = cas["millions"].i(), ppm = cas["ppm"].i();
    auto s = Subsampling::UniformSubsample(m * 1000000u, ppm / 1e6);
    bool inc = s.empty() || s.back() < m * 1000000u;
    for (size_t i = 1; i < s.size(); ++i) inc = inc && s[i] > s[i - 1];
    Emit(J().kv("e", "Rare").kv("millions", m).kv("ppm", ppm).kv("taken", (long long)s.size()).kv("increasing", inc));
    return;
  }
  if (cas.has("large")) {
    int n = cas["large"].i(), rate = cas["rate"].i();
    auto s = Subsampling::UniformSubsample(n, rate / 1000.0);
    std::vector<long long> tenths(10);
    long long pairs = 0;
    bool inc = true;
    for (size_t i = 0; i < s.size(); ++i) {
      if (s[i] >= (uint)n) { inc = false; break; }
      ++tenths[(long long)s[i] * 10 / n];
      if (i && s[i] <= s[i - 1]) inc = false;
      if (i && s[i] == s[i - 1] + 1) ++pairs;
    }
    Emit(J().kv("e", "Large").kv("n", n).kv("rate", rate).raw("tenths", Arr(tenths)).kv("pairs", pairs).kv("increasing", inc));
    return;
  }
  int n = cas["n"].i(), draws = cas["draws"].i(), num = cas["num"].i(), den = cas["den"].i(), reps = cas["reps"].i();
  std::vector<long long> counts(1 << (n * draws));
  for (int r = 0; r < reps; ++r) {
    int mask = 0;
    if (cas["reseed"].t()) Subsampling::Reseed(cas["seed"].i() + r);
    for (int d = 0; d < draws; ++d)
      for (auto x : Subsampling::UniformSubsample(n, (double)num / den))
        if ((int)x < n) mask |= 1 << (d * n + x);
    ++counts[mask];
  }
  Emit(J().kv("e", "Joint").kv("m", n * draws).kv("num", num).kv("den", den).kv("reps", reps).raw("counts", Arr(counts)));
});
}  // namespace
