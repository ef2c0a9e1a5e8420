// C24, C25: tolerant comparison and ranges.
#include "vp.h"
#include <cmath>
#include <limits>
#include <algorithm>
#include <bwsl/Approx.hpp>
#include <bwsl/LinSpace.hpp>
#include <bwsl/LogSpace.hpp>
#include <vector>
using namespace bwsl;
static void allOps(Approx const& p, double x, double v, bool eq) {
  VP_ASSERT((x == p) == eq, "number == approx"); VP_ASSERT((p == x) == eq, "approx == number"); VP_ASSERT((x != p) == !eq, "number != approx"); VP_ASSERT((p != x) == !eq, "approx != number");
  bool lt = x < v, gt = x > v;
  VP_ASSERT((x <= p) == (lt | eq), "number <= approx"); VP_ASSERT((x >= p) == (gt | eq), "number >= approx"); VP_ASSERT((x < p) == (lt & !eq), "number < approx"); VP_ASSERT((x > p) == (gt & !eq), "number > approx");
  VP_ASSERT((p <= x) == (gt | eq), "approx <= number"); VP_ASSERT((p >= x) == (lt | eq), "approx >= number"); VP_ASSERT((p < x) == (gt & !eq), "approx < number"); VP_ASSERT((p > x) == (lt & !eq), "approx > number"); }
static double mx(double a, double b) { return a < b ? b : a; }
extern "C" void c24_real() { // exact arithmetic: any values, any tolerances
  double R = 1e6, x = symD("x", -R, R), v = symD("v", -R, R), a = symD("abs", -R, R), r = symD("rel", -10, 10); int s = (int)vp_concretize(symS("set", 0, 3));
  Approx p(v); double ta = 0, tr = std::fabs(2.220446049250313e-14 * v); if (s & 1) { p.SetAbs(a); ta = std::fabs(a); } if (s & 2) { p.SetRel(r); tr = std::fabs(r * v); }
  allOps(p, x, v, std::fabs(x - v) <= mx(ta, tr)); Approx q(p); VP_ASSERT((x == q) == (x == p), "a copy keeps the tolerances"); vp_cover(s ? "set" : "default"); }
extern "C" void c24_ints() { // bit-precise on integers: the boundary belongs to the tolerance
  int64_t M = (int64_t)1 << vp_param("bits", 20); int64_t x = symS("x", -M, M), v = symS("v", -M, M), a = symS("abs", -M, M), r = symS("rel", -3, 3);
  Approx p((double)v); p.SetAbs((double)a).SetRel((double)r); int64_t d = x < v ? v - x : x - v, t = a < 0 ? -a : a, u = r * v; if (u < 0) u = -u; if (u > t) t = u;
  allOps(p, (double)x, (double)v, d <= t); vp_cover("ints"); }
extern "C" void c24_order() { // the last tolerance set counts, in either order
  int64_t M = 1 << 20; int64_t x = symS("x", -M, M), v = symS("v", -M, M), a = symS("abs", -M, M), b = symS("abs2", -M, M); Approx p((double)v); p.SetRel(0).SetAbs((double)b).SetAbs((double)a); int64_t d = x < v ? v - x : x - v, t = a < 0 ? -a : a; allOps(p, (double)x, (double)v, d <= t);
  double e = 2.220446049250313e-14 * 3; Approx q(3.0); VP_ASSERT(((3.0 + e / 2) == q) & ((3.0 + 2 * e) != q) & ((3.0 - e / 2) == q) & ((3.0 - 2 * e) != q), "default relative tolerance"); Approx z(0.0); VP_ASSERT((0.0 == z) & (1e-300 != z), "zero has no relative tolerance"); vp_cover("order"); }
extern "C" void c24_special() { // values and numbers that are not finite, signed zeros, the largest and smallest magnitudes (no tolerance, or an absolute one)
  double N = std::numeric_limits<double>::quiet_NaN(), I = std::numeric_limits<double>::infinity(); const double S[] = {N, I, -I, 0.0, -0.0, 5e-324, 1.0, 1.7e308, -1.7e308}, A[] = {0.0, 5e-324, 0.5, 1.7e308}; double x = S[vp_concretize(symS("x", 0, 8))], v = S[vp_concretize(symS("v", 0, 8))], a = A[vp_concretize(symS("abs", 0, 3))]; VP_ASSUME(!(std::isinf(x) && std::isinf(v))); if (std::isinf(v)) return; // the difference of infinities is not defined, nor a relative tolerance of zero of an infinity
  Approx p(v); p.SetRel(0).SetAbs(symB("minus") ? -a : a); allOps(p, x, v, std::fabs(x - v) <= a); vp_cover("special"); }
extern "C" void c24_nan() { // a number that is not a number equals nothing, and no number equals an approximate value that is none
  double x = vp_sym_f64("x"); Approx p(x); p.SetAbs(1.0); double N = std::numeric_limits<double>::quiet_NaN(); VP_ASSERT(!(N == p) & (N != p) & !(N < p) & !(N > p) & !(N <= p) & !(N >= p) & !(p == N) & (p != N) & !(p <= N) & !(p >= N) & !(p < N) & !(p > N), "not a number"); Approx q(N); VP_ASSERT(!(x == q) & (x != q) & !(x < q) & !(x > q) & !(x <= q) & !(x >= q), "not a number"); vp_cover("nan"); }
// ---------------------------------------------------------------- C25
extern "C" void c25_lin() {
  int n = (int)vp_concretize(symS("n", 1, vp_param("max", 4))); double R = 1000, f = symD("first", -R, R), l = symD("last", -R, R); VP_ASSUME(f < l); LinSpace<double> s(f, l, (unsigned long)n);
  int pre = (int)vp_concretize(symS("pre", 0, 3)); for (int i = 0; i < pre; i++) { if (i & 1) s++; else ++s; } // a range that was already advanced still starts at first
  int c = 0; for (auto x : s) { VP_ASSERT(c < n, "at most n values"); if (c >= n) break; VP_ASSERT(vp_same_d((x - f) * n, (l - f) * c), "i-th value is first plus i steps"); VP_ASSERT(x < l, "last is not reached"); c++; } VP_ASSERT(c == n, "n values");
  VP_ASSERT(vp_same_d(*s.end(), l), "the end stands for last"); VP_ASSERT(vp_same_d(*s.begin(), f), "begins at first"); VP_ASSERT((s.begin() != s.end()) & !(s.begin() == s.end()), "begin is not end");
  auto v = s.Collect((unsigned long)n); VP_ASSERT(v.size() == (size_t)n, "collected"); for (int i = 0; i < n; i++) VP_ASSERT(vp_same_d((v[i] - f) * n, (l - f) * (pre + i)), "collecting continues where the range stands");
  VP_ASSERT(vp_same_d((*s - f) * n, (l - f) * pre), "collecting leaves the range where it was"); vp_cover("lin"); }
extern "C" void c25_step() { // prefix, postfix and call-style stepping agree
  int n = (int)vp_concretize(symS("n", 1, 4)); double R = 1000, f = symD("first", -R, R), l = symD("last", -R, R); VP_ASSUME(f < l); LinSpace<double> a(f, l, (unsigned long)n), b = a, c = a;
  for (int i = 0; i < n; i++) { double x = *a, y = b(), z = *(c++); VP_ASSERT(vp_same_d(x, y) & vp_same_d(x, z), "stepping agrees"); double w = *(++a); VP_ASSERT(vp_same_d(w, *a) & vp_same_d(*a, *b) & vp_same_d(*a, *c), "stepping agrees"); VP_ASSERT((a == b) & (b == c) & !(a != c), "equal after equal steps"); }
  VP_ASSERT(a == a.end(), "the end is reached after n steps"); VP_ASSERT((a.begin() == b.begin()) & vp_same_d(*a.begin(), f), "starts over at first"); vp_cover("step"); }
extern "C" void c25_int() { // integer ranges
  int n = (int)vp_concretize(symS("n", 1, 5)); int64_t M = vp_param("m", 1000000000000), f = symS("first", -M, M), l = symS("last", -M, M); VP_ASSUME(f < l); LinSpace<long> s(f, l, (unsigned long)n); int64_t st = (l - f) / n;
  auto v = s.Collect((unsigned long)n); int c = 0; for (auto x : s) { VP_ASSERT(c < n, "at most n values"); if (c >= n) break; VP_ASSERT(x == f + c * st, "first plus i steps"); VP_ASSERT(v[c] == x, "collect agrees"); VP_ASSERT((x < l), "last is not reached"); c++; } VP_ASSERT(c == n, "n values"); vp_cover("int"); }
template <class T> static void other() { // other element types: every value exactly representable
  int n = (int)vp_concretize(symS("n", 1, 5)); int64_t M = vp_param("m", 1000000), f = symS("first", std::is_unsigned<T>::value ? 0 : -M, M), st = symS("step", 1, 1000), off = std::is_integral<T>::value ? symS("rest", 0, n - 1) : 0; LinSpace<T> s((T)f, (T)(f + st * n + off), (unsigned long)n); auto v = s.Collect((unsigned long)n); int c = 0;
  for (auto x : s) { VP_ASSERT(c < n, "at most n values"); if (c >= n) break; VP_ASSERT(x == (T)(f + c * st), "first plus i steps"); VP_ASSERT(v[(size_t)c] == x, "collect agrees"); c++; } VP_ASSERT(c == n, "n values"); VP_ASSERT(*s.begin() == (T)f, "starts over at first"); VP_ASSERT(*s.end() == (T)(f + st * n + off), "the end stands for last"); vp_cover("other"); }
extern "C" void c25_int32() { other<int>(); } extern "C" void c25_ulong() { other<unsigned long>(); } extern "C" void c25_float() { other<float>(); }
extern "C" void c25_far() { // integer ranges as long as the type allows
  static const int64_t F[] = {-(1LL << 62), -9007199254740993LL, -3, 0, 9007199254740993LL}, D[] = {9007199254740993LL, 9007199254740995LL, (1LL << 60) + 1, (1LL << 62) - 1}; int64_t f = F[vp_concretize(symS("first", 0, 4))], d = D[vp_concretize(symS("length", 0, 3))]; int n = (int)vp_concretize(symS("n", 1, 7)); LinSpace<long> s(f, f + d, (unsigned long)n); int64_t st = d / n; auto v = s.Collect((unsigned long)n); int c = 0; for (auto x : s) { VP_ASSERT(c < n, "at most n values"); if (c >= n) break; VP_ASSERT(x == f + c * st, "first plus i steps"); VP_ASSERT(v[(size_t)c] == x, "collect agrees"); c++; } VP_ASSERT(c == n, "n values"); auto e = s.begin(); ++e; VP_ASSERT(*e == f + st, "one step"); VP_ASSERT(*s.end() == f + d, "the end stands for last"); vp_cover("far"); }
template <class L> static void logCommon(L s, int n, int pre, double f, double l) {
  for (int i = 0; i < pre; i++) { if (i & 1) s++; else ++s; }
  std::vector<double> x; for (auto y : s) { VP_ASSERT((int)x.size() < n, "at most n values"); if ((int)x.size() >= n) break; x.push_back(y); } VP_ASSERT((int)x.size() == n, "n values"); VP_ASSERT(vp_same_d(x[0], f), "starts at first");
  VP_ASSERT(vp_same_d(*s.end(), l), "the end stands for last"); for (int i = 2; i < n; i++) VP_ASSERT(vp_same_d(x[i] * x[i - 2], x[i - 1] * x[i - 1]), "constant ratio");
  auto b = s.begin(), c = s.begin(), d = s.begin(); for (int i = 0; i < n; i++) { double p = *b, q = c(), r = *(d++); VP_ASSERT(vp_same_d(p, x[i]) & vp_same_d(q, x[i]) & vp_same_d(r, x[i]), "stepping agrees with iteration"); ++b; VP_ASSERT((b == c) & (c == d), "equal after equal steps"); } VP_ASSERT(b == s.end(), "the end is reached after n steps");
  auto t = s.begin(); auto v = t.Collect((unsigned long)n); VP_ASSERT(v.size() == x.size(), "collected"); for (int i = 0; i < n; i++) VP_ASSERT(vp_same_d(v[i], x[i]), "collecting agrees with iteration"); VP_ASSERT(vp_same_d(*t, f), "collecting leaves the range where it was"); }
extern "C" void c25_log() { // any end points; the ratio is an opaque function of them
  int n = (int)vp_concretize(symS("n", 1, 4)), pre = (int)vp_concretize(symS("pre", 0, 2)); double f = symD("first", 0.001, 1000), l = symD("last", 0.001, 1000); VP_ASSUME(f < l); logCommon(LogSpace<double>(f, l, (unsigned long)n), n, pre, f, l); vp_cover("log"); }
extern "C" void c25_ratio() { // the ratio takes first to last in n steps
  int n = (int)vp_concretize(symS("n", 1, 6)), a = (int)vp_concretize(symS("start", -3, 3)), k = (int)vp_concretize(symS("len", 1, 3)), m = (int)vp_concretize(symS("mode", 0, 2)); double base = m == 1 ? 10.0 : 2.0, f = std::pow(base, a), l = std::pow(base, a + k);
  LogSpace<double> s = m == 2 ? LogSpace<double>(f, l, (unsigned long)n) : LogSpace<double>((long)a, (long)(a + k), (unsigned long)n, base); double x = *s; VP_ASSERT(std::fabs(x / f - 1) < 1e-9, "starts at base to the start"); for (int i = 0; i < n; i++) x = *(++s); VP_ASSERT(std::fabs(x / l - 1) < 1e-9, "n steps take first to last"); VP_ASSERT(std::fabs(*s.end() / l - 1) < 1e-9, "the end stands for last"); VP_ASSERT(std::fabs(*s.begin() / f - 1) < 1e-9, "starts over at first"); vp_cover("ratio"); }
