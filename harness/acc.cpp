// C15-C18: accumulators and histograms through their public API.
#include "vp.h"
#include <cmath>
#include <bwsl/Accumulators.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <bwsl/HistAccumulator.hpp>
#include <vector>
using namespace bwsl; using namespace bwsl::accumulators;
#ifdef ACC_NEUMAIER
using Sum_t = NeumaierAccumulator;
#else
using Sum_t = KahanAccumulator;
#endif
static int nearR(double a, double b, double t) { double d = a - b; return (d <= t) & (d >= -t); }
// ---------------------------------------------------------------- C15
extern "C" void c15_exact() { // representable partial sums: exact sum, mean, count; reset, copies
  int n = (int)vp_param("n", 4); int64_t M = vp_param("m", (int64_t)1 << 40); double sc = vp_param("frac", 0) ? 0.0009765625 : 1.0;
  Sum_t a; VP_ASSERT((a.Count() == 0) & (a.Sum() == 0.0), "new accumulator is empty"); int64_t s = 0; int at = (int)vp_concretize(symS("reset", 0, n)); int cnt = 0; Sum_t c;
  for (int i = 0; i < n; i++) {
    if (i == at && i) { a.Reset(); VP_ASSERT((a.Count() == 0) & (a.Sum() == 0.0), "reset empties"); s = 0; cnt = 0; }
    int64_t x = symS(nm("x", i).b, -M, M); if (i + 1 == n) c = a; a.Add((double)x * sc); s += x; cnt++;
    VP_ASSERT(a.Count() == (unsigned long)cnt, "counts every value"); VP_ASSERT(vp_same_d(a.Sum(), (double)s * sc), "exact sum"); }
  VP_ASSERT(vp_same_d(a.Mean(), (double)s * sc / (double)cnt), "mean is sum over count");
  if (at != n) { c.Add((double)symS("y", -M, M) * sc); VP_ASSERT(c.Count() == (unsigned long)cnt, "a copy counts on its own"); VP_ASSERT(a.Count() == (unsigned long)cnt, "original untouched"); VP_ASSERT(vp_same_d(a.Sum(), (double)s * sc), "original sum untouched"); }
  vp_obs_d("sum", a.Sum()); vp_cover("exact");
}
extern "C" void c15_comp() { // one large value, then small ones that plain addition loses
  int n = (int)vp_param("n", 2); int64_t B = (int64_t)1 << vp_param("e", 60), M = vp_param("m", 600); bool rem = vp_param("remove", 0); int pos = (int)vp_param("pos", 0);
  if (vp_concretize(symS("neg", 0, 1))) B = -B; Sum_t a; int64_t s = 0, small = 0;
  for (int i = 0; i <= n; i++) { if (i == pos) { a.Add((double)B); s += B; } else { int64_t x = symS(nm("x", i).b, -M, M); a.Add((double)x); s += x; small += x; } }
#ifdef ACC_NEUMAIER
  if (rem) { a.Add((double)-B); VP_ASSERT(vp_same_d(a.Sum(), (double)small), "the small values survive the large one"); }
  else VP_ASSERT(vp_same_d(a.Sum(), (double)s), "sum rounded once");
#else
  if (pos == 0) VP_ASSERT(vp_same_d(a.Sum(), (double)s), "low-order parts are carried along");
#endif
  vp_cover("comp");
}
extern "C" void c15_reset() { // whatever happened before, a reset accumulator (and a copy of it, and one it is assigned to) is as good as new
  int n = (int)vp_param("n", 2); int64_t B = (int64_t)1 << 60, M = 600, W = (int64_t)1 << 40; Sum_t a, b; int64_t s = 0;
  for (int i = 0; i <= n; i++) { int k = (int)vp_concretize(symS(nm("k", i).b, 0, 2)); a.Add(k ? (double)(k == 1 ? B : -B) : (double)symS(nm("x", i).b, -M, M)); }
  b = a; a.Reset(); if (symB("assign")) b = a; else b.Reset(); Sum_t c(a); VP_ASSERT((c.Count() == 0) & (c.Sum() == 0.0) & (b.Count() == 0) & (b.Sum() == 0.0), "reset empties");
  for (int i = 0; i < 2; i++) { int64_t y = symS(nm("y", i).b, -W, W); s += y; a.Add((double)y); b.Add((double)y); c.Add((double)y); VP_ASSERT(vp_same_d(a.Sum(), (double)s), "exact sum after reset"); VP_ASSERT(vp_same_d(b.Sum(), (double)s), "exact sum after reset"); VP_ASSERT(vp_same_d(c.Sum(), (double)s), "exact sum of a copy"); VP_ASSERT((a.Count() == (unsigned long)i + 1) & (c.Count() == (unsigned long)i + 1), "counts every value"); }
  vp_cover("reset"); }
// ---------------------------------------------------------------- C16 (real mode unless noted)
extern "C" void c16_welford() {
  int n = (int)vp_param("n", 3); double R = 1000; KnuthWelfordAccumulator a; std::vector<double> x;
  if (symB("used")) { a.Add(7.0); a.Add(symD("pre", -R, R)); a.Reset(); }
  VP_ASSERT(a.Count() == 0, "empty"); VP_ASSERT(a.Variance(true) != a.Variance(true), "variance of none is NaN");
  for (int i = 0; i < n; i++) { x.push_back(symD(nm("x", i).b, -R, R)); a.Add(x[i]); }
  double s = 0; for (auto v : x) s += v; double mean = s / n, q = 0; for (auto v : x) q += (v - mean) * (v - mean);
  VP_ASSERT(a.Count() == (unsigned long)n, "count"); VP_ASSERT(vp_same_d(a.Mean(), mean), "mean"); VP_ASSERT(vp_same_d(a.Sum(), s), "sum");
  if (n < 2) { VP_ASSERT(a.Variance(true) != a.Variance(true), "variance of one is NaN"); VP_ASSERT(a.Variance(false) != a.Variance(false), "variance of one is NaN"); VP_ASSERT(a.ScaledVariance() != a.ScaledVariance(), "variance of one is NaN"); vp_cover("welford"); return; }
  VP_ASSERT(vp_same_d(a.ScaledVariance(), q), "scaled variance"); VP_ASSERT(vp_same_d(a.Variance(true), q / (n - 1)), "corrected variance"); VP_ASSERT(vp_same_d(a.Variance(false), q / n), "population variance");
  if (vp_param("sign", 1)) VP_ASSERT(a.Variance(true) >= -1e-12, "variance never negative");
  if (vp_param("dev", 1)) { bool c = symB("corrected"); double v = a.Variance(c), d = a.StandardDeviation(c), e = a.Error(c); VP_ASSERT(vp_same_d(d, std::sqrt(v)), "deviation is the root of the variance"); VP_ASSERT(nearR(e * e * n, v, 1e-6), "error is the deviation over root n"); VP_ASSERT(e >= 0, "error not negative"); }
  vp_obs_d("mean", a.Mean()); vp_cover("welford");
}
extern "C" void c16_west() { // weights: any real, or concretised small integers (including non-positive ones)
  int n = (int)vp_param("n", 3); bool ci = vp_param("ints", 0); double R = 100; WestAccumulator a;
  if (symB("used")) { a.Add(7.0, 2.0); a.Add(symD("pre", -R, R), 3.0); a.Reset(); }
  VP_ASSERT(a.Count() == 0, "empty");
  double W = 0, W2 = 0, S = 0, Q = 0; unsigned long k = 0; std::vector<double> xs, ws;
  for (int i = 0; i < n; i++) { double x = symD(nm("x", i).b, -R, R), w = ci ? (double)vp_concretize(symS(nm("w", i).b, -1, vp_param("wmax", 3))) : symD(nm("w", i).b, -1, 10); a.Add(x, w); if (w > 0) { W += w; W2 += w * w; S += w * x; k++; xs.push_back(x); ws.push_back(w); } }
  VP_ASSERT(a.Count() == k, "counts positive weights"); if (!k) { vp_cover("none"); return; }
  double mean = S / W; for (size_t i = 0; i < xs.size(); i++) Q += ws[i] * (xs[i] - mean) * (xs[i] - mean);
  VP_ASSERT(vp_same_d(a.Mean(), mean), "weighted mean"); VP_ASSERT(vp_same_d(a.Sum(), S), "weighted sum");
  if (k < 2) { VP_ASSERT(a.PopulationVariance() != a.PopulationVariance(), "NaN"); VP_ASSERT(a.SampleFrequencyVariance() != a.SampleFrequencyVariance(), "NaN"); VP_ASSERT(a.SampleReliabilityVariance() != a.SampleReliabilityVariance(), "NaN"); vp_cover("one"); return; }
  VP_ASSERT(vp_same_d(a.PopulationVariance(), Q / W), "population variance"); if (W != 1) VP_ASSERT(vp_same_d(a.SampleFrequencyVariance(), Q / (W - 1)), "frequency variance"); VP_ASSERT(vp_same_d(a.SampleReliabilityVariance(), Q / (W - W2 / W)), "reliability variance");
  if (vp_param("sign", 1)) VP_ASSERT(a.PopulationVariance() >= -1e-12, "variance never negative");
  vp_obs_d("mean", a.Mean()); vp_cover("west");
}
extern "C" void c16_naive() { // integer accumulator
  int n = (int)vp_param("n", 3); int64_t M = vp_param("m", 1000000); NaiveInteger a; if (symB("used")) { a.Add(7); a.Add(-9); a.Reset(); }
  VP_ASSERT((a.Count() == 0) & (a.Sum() == 0), "empty");
  int64_t s = 0, s2 = 0; for (int i = 0; i < n; i++) { int64_t x = symS(nm("x", i).b, -M, M); a.Add(x); s += x; s2 += x * x; }
  VP_ASSERT(a.Count() == (unsigned long)n, "count"); VP_ASSERT(a.Sum() == s, "sum"); VP_ASSERT(vp_same_d(a.Mean(), (double)s / n), "mean");
  if (n < 2) { VP_ASSERT(a.Variance(true) != a.Variance(true), "NaN"); VP_ASSERT(a.ScaledVariance() != a.ScaledVariance(), "NaN"); vp_cover("naive"); return; }
  double q = ((double)n * (double)s2 - (double)s * (double)s) / n;
  VP_ASSERT(vp_same_d(a.ScaledVariance(), q), "scaled variance"); VP_ASSERT(vp_same_d(a.Variance(true), q / (n - 1)), "corrected variance"); VP_ASSERT(vp_same_d(a.Variance(false), q / n), "population variance");
  if (vp_param("sign", 1)) VP_ASSERT(a.Variance(true) >= -1e-9, "variance never negative");
  bool c = symB("corrected"); VP_ASSERT(vp_same_d(a.StandardDeviation(c), std::sqrt(a.Variance(c))), "deviation is the root of the variance"); vp_cover("naive");
}
extern "C" void c16_naive_fp() { // bit-precise: equal large values must not give a negative variance
  int64_t M = vp_param("m", (int64_t)1 << 30); int n = (int)vp_param("n", 3); int64_t x = symS("x", -M, M); NaiveInteger a; for (int i = 0; i < n; i++) a.Add(x); double v = a.Variance(true); VP_ASSERT(v >= 0, "variance never negative"); vp_cover("naive_fp");
}
// ---------------------------------------------------------------- C18
extern "C" void c18_hist() { // a sequence of additions to symbolic bins
  int nb = (int)vp_param("bins", 2), n = (int)vp_param("n", 3); bool force = vp_param("force", 0); int64_t M = 1000000; HistAccumulator h = vp_param("ctor", 1) ? HistAccumulator(nb) : HistAccumulator(); if (!vp_param("ctor", 1)) h.Resize(nb);
  VP_ASSERT((h.GetNbins() == (size_t)nb) & (h.GetCount() == 0), "new histogram");
  std::vector<int64_t> s(nb), c(nb); int64_t tot = 0; bool unit = vp_param("unit", 0); int kmax = force ? (int)vp_param("kmax", nb + 1) : nb - 1;
  for (int i = 0; i < n; i++) { size_t k = (size_t)vp_concretize(symS(nm("k", i).b, 0, kmax)); int64_t v = unit ? 1 : symS(nm("v", i).b, -M, M);
    if (force) { if (unit) h.ForceAdd(k); else if (i & 1) h.ForceAdd(k, (long)v); else h.ForceAdd(k, (double)v); } else if (unit) h.Add(k); else if (i & 1) h.Add(k, (long)v); else h.Add(k, (double)v);
    while (s.size() <= k) { s.push_back(0); c.push_back(0); } s[k] += v; c[k]++; tot++;
    VP_ASSERT(h.GetNbins() == s.size(), "number of bins"); }
  VP_ASSERT(h.GetCount() == (size_t)tot, "total count"); auto r = h.GetResults(); VP_ASSERT(r.size() == s.size(), "one result per bin");
  for (size_t k = 0; k < s.size(); k++) { VP_ASSERT(h.GetCount(k) == (size_t)c[k], "count of the bin"); double e = c[k] ? (double)s[k] / (double)tot : 0.0; VP_ASSERT(vp_same_d(h.GetResult(k), e), "result of the bin"); VP_ASSERT(vp_same_d(r[k], e), "results list the bins"); }
  if (vp_param("norm", 1)) { size_t j = (size_t)vp_concretize(symS("j", 0, (int64_t)s.size() - 1)); double d = r[j]; VP_ASSUME(c[j] && s[j] != 0); auto g = h.GetResults(j); VP_ASSERT(g.size() == s.size(), "one normalised result per bin"); for (size_t k = 0; k < s.size(); k++) VP_ASSERT(vp_same_d(g[k], r[k] / d), "normalised by the chosen bin"); vp_cover("norm"); }
  vp_cover("hist");
}
extern "C" void c18_resize() { // shrinking / growing keeps surviving bins; reset clears
  int nb = (int)vp_param("bins", 3); int64_t M = 1000; HistAccumulator h(nb); std::vector<int64_t> s(nb); int64_t tot = 0;
  for (int k = 0; k < nb; k++) { int64_t v = symS(nm("v", k).b, -M, M); h.Add((size_t)k, (double)v); s[k] = v; tot++; }
  int m = (int)vp_concretize(symS("size", 0, nb + 2)); h.Resize((size_t)m); VP_ASSERT(h.GetNbins() == (size_t)m, "resized"); VP_ASSERT(h.GetResults().size() == (size_t)m, "one result per bin");
  VP_ASSERT(h.GetCount() == (size_t)tot, "total number of measurements kept");
  for (int k = 0; k < m; k++) { VP_ASSERT(h.GetCount((size_t)k) == (k < nb ? 1UL : 0UL), "bins kept, new bins empty"); VP_ASSERT(vp_same_d(h.GetResult((size_t)k), k < nb ? (double)s[k] / (double)tot : 0.0), "results kept"); }
  if (m) { int64_t v = symS("w", -M, M); h.ForceAdd((size_t)m, (double)v); VP_ASSERT(h.GetNbins() == (size_t)m + 1, "forced addition grows"); VP_ASSERT(vp_same_d(h.GetResult((size_t)m), (double)v / (double)(tot + 1)), "forced into its bin"); m++; }
  HistAccumulator c(h); h.Reset(); VP_ASSERT((h.GetNbins() == (size_t)m) & (h.GetCount() == 0), "reset keeps the bins"); for (int k = 0; k < m; k++) VP_ASSERT((h.GetCount((size_t)k) == 0) & (h.GetResult((size_t)k) == 0.0), "reset clears the bins");
  VP_ASSERT(c.GetNbins() == (size_t)m, "copy is independent"); if (m) { VP_ASSERT(c.GetCount((size_t)m - 1) == 1, "copy is independent"); h.Add(0, 3.0); VP_ASSERT((h.GetResult(0) == 3.0) & (h.GetCount() == 1) & (h.GetCount(0) == 1), "usable after reset"); }
  vp_cover("resize");
}
