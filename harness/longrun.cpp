// Long histories and large containers: concrete bulk with symbolic values among it (counters past 8 and 16 bits), and C32.
#include "vp.h"
#include <cmath>
#include <deque>
#include <list>
#include <bwsl/Accumulators.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <bwsl/HistAccumulator.hpp>
#include <bwsl/LinSpace.hpp>
#include <bwsl/LogSpace.hpp>
#include <bwsl/MathUtils.hpp>
#include <bwsl/mcutils/MoveStats.hpp>
#include <vector>
using namespace bwsl; using namespace bwsl::accumulators;
static int64_t pick(const char* n, std::initializer_list<int64_t> v) { int k = (int)vp_concretize(symS(n, 0, (int64_t)v.size() - 1)); return v.begin()[k]; }
static bool close(double a, double b, double rel) { double d = a - b, m = b < 0 ? -b : b; if (m < 1) m = 1; return (d <= rel * m) & (-d <= rel * m); }
// ---------------------------------------------------------------- C15
template <class A> static void sums() { int64_t n = pick("n", {255, 256, 300, 65537}), at = pick("at", {0, 254, 255, 65535}), W = (int64_t)1 << 40; A a; int64_t s = 0; for (int64_t i = 0; i < n; i++) { int64_t x = i == at ? symS("x", -W, W) : (i * 7919) % 1001 - 500; a.Add((double)x); s += x; }
  VP_ASSERT(a.Count() == (unsigned long)n, "counts every value"); VP_ASSERT(vp_same_d(a.Sum(), (double)s), "exact sum"); VP_ASSERT(vp_same_d(a.Mean(), (double)s / (double)n), "mean is sum over count"); a.Reset(); int64_t y = symS("y", -W, W); a.Add((double)y); VP_ASSERT((a.Count() == 1) & (a.Sum() == (double)y), "as good as new after a reset"); vp_cover("long"); }
extern "C" void c15_long_kahan() { sums<KahanAccumulator>(); } extern "C" void c15_long_neumaier() { sums<NeumaierAccumulator>(); }
// ---------------------------------------------------------------- C16
extern "C" void c16_long() { int64_t n = pick("n", {257, 300, 65537}); double off = (double)pick("off", {0, 1000, -100000}); KnuthWelfordAccumulator k; WestAccumulator w; NaiveInteger i; double W = 0, W2 = 0, S = 0, Q = 0; int64_t s = 0, s2 = 0;
  for (int64_t j = 0; j < n; j++) { int64_t x = (j * 7919) % 1001 - 500 + (int64_t)off, g = j % 5; k.Add((double)x); w.Add((double)x, (double)g); i.Add(x); s += x; s2 += x * x; W += (double)g; W2 += (double)(g * g); S += (double)(g * x); Q += (double)(g * x * x); }
  double N = (double)n, q = (N * (double)s2 - (double)s * (double)s) / N, qw = Q - S * S / W; VP_ASSERT((k.Count() == (unsigned long)n) & (i.Count() == (unsigned long)n), "count"); VP_ASSERT(w.Count() == (unsigned long)(n - (n + 4) / 5), "counts positive weights");
  VP_ASSERT(close(k.Mean(), (double)s / N, 1e-9) & close(i.Mean(), (double)s / N, 1e-9) & close(w.Mean(), S / W, 1e-9), "mean"); VP_ASSERT(close(k.Sum(), (double)s, 1e-9) & (i.Sum() == s) & close(w.Sum(), S, 1e-9), "sum");
  VP_ASSERT(close(k.Variance(true), q / (N - 1), 1e-6) & close(i.Variance(true), q / (N - 1), 1e-6), "corrected variance"); VP_ASSERT(close(k.Variance(false), q / N, 1e-6) & close(i.Variance(false), q / N, 1e-6), "population variance"); VP_ASSERT(close(w.PopulationVariance(), qw / W, 1e-6), "population variance"); VP_ASSERT(close(w.SampleFrequencyVariance(), qw / (W - 1), 1e-6), "frequency variance"); VP_ASSERT(close(w.SampleReliabilityVariance(), qw / (W - W2 / W), 1e-6), "reliability variance"); VP_ASSERT(close(k.Error(true) * k.Error(true) * N, q / (N - 1), 1e-6), "error is the deviation over root n"); vp_cover("long"); }
// counters of any size, through the classes' own serialization: the mean of the next measurement still is sum over count
struct SetCount { unsigned long v; int n = 0; using is_saving = std::false_type; using is_loading = std::true_type; template <class T> SetCount& operator&(T& x) { if constexpr (std::is_same<T, unsigned long>::value) { x = v; n++; } return *this; } };
template <class A> static void bigCount() { A a; int64_t s = symS("s", -1000000, 1000000); a.Add((double)s); uint64_t c = symU("count", 1, (uint64_t)1 << 52); SetCount t{c}; boost::serialization::access::serialize(t, a, 0); VP_ASSUME(t.n == 1); int64_t x = symS("x", -1000000, 1000000); a.Add((double)x); VP_ASSERT(a.Count() == c + 1, "counts every value"); VP_ASSERT(vp_same_d(a.Sum(), (double)(s + x)), "exact sum"); VP_ASSERT(vp_same_d(a.Mean(), (double)(s + x) / (double)(c + 1)), "mean is sum over count"); vp_cover("count"); }
extern "C" void c15_count_kahan() { bigCount<KahanAccumulator>(); } extern "C" void c15_count_neumaier() { bigCount<NeumaierAccumulator>(); }
// ---------------------------------------------------------------- C18
extern "C" void c18_long() { int64_t nb = pick("bins", {256, 300}), n = pick("n", {300, 66000}), b = pick("bin", {0, 255, 44}); HistAccumulator h((size_t)nb); std::vector<int64_t> s((size_t)nb), c((size_t)nb); for (int64_t i = 0; i < n; i++) { size_t k = (size_t)(n > 1000 ? (i % 100 ? b : i * 31 % nb) : i * 31 % nb); int64_t x = i % 7 - 3; h.Add(k, x); s[k] += x; c[k]++; }
  int64_t v = symS("v", -1000000, 1000000); h.Add((size_t)b, v); s[(size_t)b] += v; c[(size_t)b]++; n++; VP_ASSERT((h.GetCount() == (size_t)n) & (h.GetNbins() == (size_t)nb), "total count"); auto r = h.GetResults(); VP_ASSERT(r.size() == (size_t)nb, "one result per bin"); for (size_t k = 0; k < (size_t)nb; k++) { VP_ASSERT(h.GetCount(k) == (size_t)c[k], "count of the bin"); double e = c[k] ? (double)s[k] / (double)n : 0.0; VP_ASSERT(vp_same_d(h.GetResult(k), e) & vp_same_d(r[k], e), "result of the bin"); }
  size_t f = (size_t)nb + (size_t)pick("beyond", {0, 300}); h.ForceAdd(f, v); VP_ASSERT((h.GetNbins() == f + 1) & (h.GetCount(f) == 1) & (h.GetCount() == (size_t)n + 1), "forced addition grows"); VP_ASSERT(h.GetCount((size_t)b) == (size_t)c[(size_t)b], "other bins untouched"); vp_cover("long"); }
// ---------------------------------------------------------------- C21
extern "C" void c21_long() { using namespace montecarlo; int64_t n = pick("n", {256, 300, 65537}); MoveStats m("swap"); int64_t a = 0, r = 0, im = 0; double sum = 0; for (int64_t i = 0; i < n; i++) { int k = (int)(i * 5 % 7); double p = (double)(i % 8) / 8; if (k < 3) { m.Propose(); m.Accept(p); a++; sum += p; } else if (k < 5) { m.Add(MoveResult::Reject(p)); r++; sum += p; } else { m.Propose(); m.Impossible(); im++; } }
  int64_t p = symS("p", 0, 1024); m.Propose(); m.Accept((double)p / 1024); a++; sum += (double)p / 1024; double N = (double)(n + 1); VP_ASSERT(vp_same_d(m.GetAcceptedRatio(), (double)a / N), "accepted ratio"); VP_ASSERT(vp_same_d(m.GetRejectedRatio(), (double)r / N), "rejected ratio"); VP_ASSERT(vp_same_d(m.GetImpossibleRatio(), (double)im / N), "impossible ratio"); VP_ASSERT(vp_same_d(m.GetAverageProbability(), sum / N), "average probability"); vp_cover("long"); }
// ---------------------------------------------------------------- C25
extern "C" void c25_long() { int64_t n = pick("n", {255, 256, 300, 65537}), f = symS("first", -1000000, 1000000), st = pick("step", {1, 3, 1000003}); LinSpace<long> s(f, f + st * n + pick("rest", {0, 1}), (unsigned long)n); int64_t c = 0; bool ok = true; for (auto x : s) { if (c >= n) { c++; break; } ok &= x == f + c * st; c++; } VP_ASSERT(c == n, "n values"); VP_ASSERT(ok, "first plus i steps"); auto v = s.Collect((unsigned long)n); VP_ASSERT(v.size() == (size_t)n && v.back() == f + (n - 1) * st, "collect agrees");
  LinSpace<double> d((double)f, (double)(f + st * n), (unsigned long)n); c = 0; ok = true; for (auto x : d) { if (c >= n) { c++; break; } ok &= vp_same_d(x, (double)(f + c * st)); c++; } VP_ASSERT(c == n, "n values"); VP_ASSERT(ok, "first plus i steps"); vp_cover("long"); }
extern "C" void c25_long_log() { int64_t n = pick("n", {255, 256, 300, 65537}); LogSpace<double> s(1.0, 16.0, (unsigned long)n); int64_t c = 0; double last = 0, first = 0; bool up = true; for (auto x : s) { if (c >= n) { c++; break; } if (!c) first = x; up &= x > last; last = x; c++; } VP_ASSERT(c == n, "n values"); VP_ASSERT((first == 1.0) & up, "increasing from first"); VP_ASSERT(close(last, 16.0 / std::pow(16.0, 1.0 / (double)n), 1e-9), "last value is one step below last"); vp_cover("long"); }
// ---------------------------------------------------------------- C28
struct Rng { using result_type = uint64_t; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return UINT64_MAX; } uint64_t x; uint64_t operator()() { return x; } };
extern "C" void c28_long() { // 384 weights, every third one zero; any draw around four of the edges
  int n = 384; std::vector<double> w, c; double t = 0; for (int i = 0; i < n; i++) { w.push_back(i % 3 == 1 ? 0.0 : 1.0); t += w.back(); c.push_back(t); } int64_t j = pick("near", {85, 255}); uint64_t b53 = ((uint64_t)1 << 53) / 256 * (uint64_t)j - ((uint64_t)1 << 11); Rng g{symU("draw", b53, b53 + ((uint64_t)1 << 12)) << 11}, h = g, z = g; std::uniform_real_distribution<double> u(0.0, t); double x = u(z); auto k = choose_between(w, g); auto q = choose_between_psums(c, h); VP_ASSERT(k == q, "weights and cumulative weights agree"); VP_ASSERT(k < (size_t)n, "index inside the list"); size_t i = (size_t)vp_concretize((int64_t)k); if (i >= (size_t)n) return; VP_ASSERT(w[i] > 0, "positive weight"); VP_ASSERT((x < c[i]) & (!i || !(x < c[i - 1])), "interval of the drawn number"); vp_cover("long"); }
// ---------------------------------------------------------------- C30
extern "C" void c30_long() { int64_t n = pick("n", {255, 256, 300, 70000}), at = pick("at", {0, 255, -1}); if (at < 0 || at >= n) at = n - 1; std::vector<long> v((size_t)n), w((size_t)n); int64_t s = 0, q = 0; for (int64_t i = 0; i < n; i++) { v[(size_t)i] = i % 11 - 5; w[(size_t)i] = i; } int64_t x = vp_concretize(symS("neg", 0, 1)) ? symS("x", -1000000, -100) : symS("x", 100, 1000000); v[(size_t)at] = x; for (auto y : v) { s += y; q += y * y; }
  VP_ASSERT(accumulate_sum(v) == s, "sum"); VP_ASSERT((sum_squared<std::vector<long>, long>(v) == q), "sum of squares"); VP_ASSERT(max(v) == (x > 5 ? x : 5), "maximum"); VP_ASSERT(min(v) == (x < -5 ? x : -5), "minimum"); auto a = v; sum_into(a, w); bool ok = true; for (size_t i = 0; i < (size_t)n; i++) ok &= a[i] == v[i] + w[i]; VP_ASSERT(ok, "element-wise sum"); subtract_into(a, w); ok = true; for (size_t i = 0; i < (size_t)n; i++) ok &= a[i] == v[i]; VP_ASSERT(ok, "element-wise difference"); vp_cover("long"); }
// ---------------------------------------------------------------- C32: feeding a range to an accumulator
template <class A> static void feed1(A& a, double x) { a.Add(x); }
template <class C> static C fill(int n, const char* nme) { C c; for (int i = 0; i < n; i++) c.push_back((typename C::value_type)symS(nm(nme, (unsigned)i).b, -1000000, 1000000)); return c; }
template <class A> static void sameKind(A const& a, A const& b) { VP_ASSERT(a.Count() == b.Count(), "same count as adding one by one"); if constexpr (std::is_same<A, KahanAccumulator>::value || std::is_same<A, NeumaierAccumulator>::value || std::is_same<A, NaiveInteger>::value) VP_ASSERT(vp_same_d((double)a.Sum(), (double)b.Sum()), "same sum as adding one by one"); else { VP_ASSERT(vp_same_d(a.Mean(), b.Mean()), "same mean as adding one by one"); VP_ASSERT(vp_same_d(a.ScaledVariance(), b.ScaledVariance()), "same variance as adding one by one"); } }
template <class A, class C> static void feed() { int n = (int)vp_concretize(symS("n", 0, vp_param("n", 3))), m = (int)vp_concretize(symS("m", 0, 1)), lo = (int)vp_concretize(symS("lo", 0, n)), hi = (int)vp_concretize(symS("hi", lo, n)); C c = fill<C>(n, "x"); C before = c; A a, b; for (int i = 0; i < m; i++) { auto p = (typename C::value_type)symS("p", -1000, 1000); a.Add(p); b.Add(p); }
  auto i = c.begin(), e = c.begin(); std::advance(i, lo); std::advance(e, hi); A& r = apply_accumulator(i, e, a); VP_ASSERT(&r == &a, "returns the accumulator it was given"); auto j = before.begin(); std::advance(j, lo); for (int k = lo; k < hi; k++) b.Add(*j++); sameKind(a, b); VP_ASSERT(c.size() == before.size(), "the range is left alone"); auto x = c.begin(); for (auto const& y : before) { VP_ASSERT(*x == y, "the range is left alone"); ++x; } vp_cover("feed"); }
extern "C" void c32_kahan() { feed<KahanAccumulator, std::vector<double>>(); } extern "C" void c32_neumaier() { feed<NeumaierAccumulator, std::vector<double>>(); } extern "C" void c32_welford() { feed<KnuthWelfordAccumulator, std::vector<double>>(); } extern "C" void c32_naive() { feed<NaiveInteger, std::vector<long>>(); } extern "C" void c32_list() { feed<KahanAccumulator, std::list<double>>(); } extern "C" void c32_deque() { feed<NaiveInteger, std::deque<long>>(); }
extern "C" void c32_order() { // the order of the elements is the order of the additions: rounding tells
  int64_t B = (int64_t)1 << 60; std::vector<double> v; for (int i = 0; i < 3; i++) { int k = (int)vp_concretize(symS(nm("k", (unsigned)i).b, 0, 2)); v.push_back(k ? (double)(k == 1 ? B : -B) : (double)symS(nm("x", (unsigned)i).b, -600, 600)); } KahanAccumulator a, b; NeumaierAccumulator c, d; apply_accumulator(v.begin(), v.end(), a); apply_accumulator(v.cbegin(), v.cend(), c); for (auto x : v) { b.Add(x); d.Add(x); } VP_ASSERT(vp_same_d(a.Sum(), b.Sum()) & vp_same_d(c.Sum(), d.Sum()), "same sum as adding one by one"); vp_cover("order"); }
struct Probe { std::vector<double>* log; void Add(double x) { log->push_back(x); } };
struct Once { using iterator_category = std::input_iterator_tag; using value_type = double; using difference_type = long; using pointer = const double*; using reference = double; const double* p; int* reads; double operator*() const { ++*reads; return *p; } Once& operator++() { ++p; return *this; } Once operator++(int) { Once t = *this; ++p; return t; } bool operator==(Once o) const { return p == o.p; } bool operator!=(Once o) const { return p != o.p; } };
extern "C" void c32_log() { // any accumulator type: every element once, in order, from input iterators read once each
  int n = (int)vp_concretize(symS("n", 0, vp_param("n", 5))); double x[8]; for (int i = 0; i < n; i++) x[i] = vp_sym_f64(nm("x", (unsigned)i).b); std::vector<double> log; Probe p{&log}; int reads = 0; Probe& r = apply_accumulator(Once{x, &reads}, Once{x + n, &reads}, p); VP_ASSERT(&r == &p, "returns the accumulator it was given"); VP_ASSERT((log.size() == (size_t)n) & (reads == n), "every element once"); for (int i = 0; i < n && i < (int)log.size(); i++) VP_ASSERT(vp_same_d(log[(size_t)i], x[i]), "in order"); vp_cover("log"); }
extern "C" void c32_long() { int64_t n = pick("n", {255, 256, 300, 65537}); std::vector<double> v((size_t)n, 1.0); int64_t x = symS("x", -1000000, 1000000); v.back() = (double)x; KahanAccumulator a; apply_accumulator(v.begin(), v.end(), a); VP_ASSERT((a.Count() == (unsigned long)n) & vp_same_d(a.Sum(), (double)(n - 1 + x)), "same sum as adding one by one"); vp_cover("long"); }
