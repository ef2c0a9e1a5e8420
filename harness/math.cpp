// C29, C30, C31: integer helpers, container helpers and relational operators.
#include "vp.h"
#include <array>
#include <cmath>
#include <list>
#include <vector>
#include <bwsl/MathUtils.hpp>
#include <bwsl/RelationalUtils.hpp>
namespace m = bwsl;
template <class T> static T iabs(T a) { return a < 0 ? (T)-a : a; }
// ---------------------------------------------------------------- C29
template <class T> static T sy(const char* n, int64_t lo, int64_t hi) { return (T)symS(n, std::is_signed<T>::value ? lo : (lo < 0 ? 0 : lo), hi); }
template <class T> static void gcdAny() { // every pair of a range, every candidate divisor
  int64_t M = vp_param("m", 20); T a = sy<T>("a", -M, M), b = sy<T>("b", -M, M); T g = m::get_gcd<T>(a, b); bool zero = (a == 0) & (b == 0); VP_ASSERT((g == 0) == zero, "zero only for zeros"); if (zero) return;
  VP_ASSERT((a % g == 0) & (b % g == 0), "divides both"); T d = (T)vp_concretize(symS("d", 1, M)); VP_ASSERT(!((a % d == 0) & (b % d == 0)) | (g % d == 0), "every common divisor divides it"); vp_cover("gcd"); }
extern "C" void c29_gcd() { gcdAny<long>(); } extern "C" void c29_gcd_int() { gcdAny<int>(); } extern "C" void c29_gcd_u() { gcdAny<unsigned long>(); }
extern "C" void c29_gcd_wide() { // wide common factors
  int64_t M = vp_param("m", 8), G = int64_t(1) << 50; int64_t x = vp_concretize(symS("x", -M, M)), y = vp_concretize(symS("y", -M, M)), g = symS("g", 1, G); int64_t h = iabs(x), k = iabs(y); while (k) { int64_t t = h % k; h = k; k = t; }
  int64_t r = m::get_gcd<long>(g * x, g * y); VP_ASSERT((r == g * h) | (r == -g * h), "multiples of a common factor"); vp_cover("wide"); }
extern "C" void c29_gcd_edge() { int64_t a = symS("a", INT64_MIN, INT64_MAX); VP_ASSERT(m::get_gcd<long>(a, 0) == a, "gcd with zero"); int64_t r = m::get_gcd<long>(0, a == 0 ? 1 : a); VP_ASSERT(r == (a == 0 ? 1 : a), "gcd of zero"); int64_t s = m::get_gcd<long>(a, 1); VP_ASSERT((s == 1) | (s == -1), "gcd with one"); if (a != 0 && a != INT64_MIN) { int64_t q = m::get_gcd<long>(a, a); VP_ASSERT((q == a) | (q == -a), "gcd with itself"); } vp_cover("edge"); }
extern "C" void c29_binom() { // every n, small k
  int64_t k = vp_concretize(symS("k", 0, vp_param("kmax", 2))); int64_t n = k == 2 ? 2 * symS("h", 0, 60000000) + vp_concretize(symS("odd", 0, 1)) : symS("n", 0, INT64_MAX / 4); bool c = symB("comp"); VP_ASSUME(!c | (n >= k)); if (k == 1) VP_ASSUME(n <= int64_t(1) << 53);
  double r = c ? m::cbinomial<long>(n, n - k) : m::cbinomial<long>(n, k); if (n < k) { VP_ASSERT(r == 0.0, "zero when k exceeds n"); return; } int64_t i = (int64_t)r, f = 1, p = 1; for (int64_t j = 0; j < k; j++) { p *= n - j; f *= j + 1; } VP_ASSERT((i * f == p) & ((double)i == r), "falling factorial over k factorial"); vp_cover("binom"); }
extern "C" void c29_binom_zero() { int64_t n = symS("n", 0, INT64_MAX), k = symS("k", 0, INT64_MAX); VP_ASSUME(k > n); VP_ASSERT(m::cbinomial<long>(n, k) == 0.0, "zero when k exceeds n"); uint64_t un = symU("un", 0, UINT64_MAX), uk = symU("uk", 0, UINT64_MAX); VP_ASSUME(uk > un); VP_ASSERT(m::cbinomial<unsigned long>(un, uk) == 0.0, "zero when k exceeds n"); VP_ASSERT(m::cbinomial<unsigned long>(un, un) == 1.0, "one way to take all"); VP_ASSERT(m::cbinomial<long>(n, n) == 1.0, "one way to take all"); vp_cover("zero"); }
template <class T> static void pascal(int top) { // Pascal's triangle, as far as the products fit
  int n = (int)vp_concretize(symS("n", 0, top)); uint64_t row[64] = {1}; for (int i = 1; i <= n; i++) for (int j = i; j > 0; j--) row[j] += row[j - 1];
  for (int k = 0; k <= n; k++) { double r = m::cbinomial<T>((T)n, (T)k), e = (double)row[k]; VP_ASSERT(row[k] <= (uint64_t(1) << 53) ? r == e : (r <= e * (1 + 1e-14)) & (r >= e * (1 - 1e-14)), "Pascal's rule"); } VP_ASSERT(m::cbinomial<T>((T)n, (T)(n + 1)) == 0.0, "zero when k exceeds n"); vp_cover("pascal"); }
extern "C" void c29_pascal() { pascal<long>(61); } extern "C" void c29_pascal_int() { pascal<int>(29); } extern "C" void c29_pascal_u() { pascal<unsigned long>(62); }
extern "C" void c29_diff() { // unsigned and signed differences, bit-precise
  uint64_t a = symU("a", 0, UINT64_MAX), b = symU("b", 0, UINT64_MAX); VP_ASSERT(m::absdiff<unsigned long>(a, b) == (a < b ? b - a : a - b), "absolute difference"); int64_t s = (int64_t)(a - b); bool fits = a >= b ? (a - b) <= (uint64_t)INT64_MAX : (b - a) <= (uint64_t)INT64_MAX; if (fits) { long r = m::signeddiff<unsigned long, long>(a, b); VP_ASSERT(r == s, "signed difference"); }
  uint32_t c = (uint32_t)symU("c", 0, UINT32_MAX), d = (uint32_t)symU("d", 0, UINT32_MAX); VP_ASSERT(m::absdiff<unsigned>(c, d) == (c < d ? d - c : c - d), "absolute difference"); long w = m::signeddiff<unsigned, long>(c, d); VP_ASSERT(w == (int64_t)c - (int64_t)d, "signed difference, wider result");
  int64_t x = symS("x", -(int64_t(1) << 61), int64_t(1) << 61), y = symS("y", -(int64_t(1) << 61), int64_t(1) << 61); VP_ASSERT(m::absdiff<long>(x, y) == (x < y ? y - x : x - y), "absolute difference"); vp_cover("diff"); }
extern "C" void c29_absdiff_d() { double a = symD("a", -1e6, 1e6), b = symD("b", -1e6, 1e6); double r = m::absdiff<double>(a, b); VP_ASSERT(vp_same_d(r, a < b ? b - a : a - b), "absolute difference"); vp_cover("absd"); }
extern "C" void c29_sgn() { int64_t x = symS("x", INT64_MIN, INT64_MAX); VP_ASSERT(m::sgn<long>(x) == (x < 0 ? -1 : x > 0 ? 1 : 0), "sign"); int y = symI("y", INT32_MIN, INT32_MAX); VP_ASSERT(m::sgn<int>(y) == (y < 0 ? -1 : y > 0 ? 1 : 0), "sign"); uint64_t u = symU("u", 0, UINT64_MAX); VP_ASSERT(m::sgn<unsigned long>(u) == (u ? 1 : 0), "sign");
  double d = vp_sym_f64("d"); if (vp_symbolic() == 2) VP_ASSUME((d >= -1e300) & (d <= 1e300)); if (d == d) VP_ASSERT(m::sgn<double>(d) == (d < 0 ? -1 : d > 0 ? 1 : 0), "sign"); float f = vp_sym_f32("f"); if (f == f) VP_ASSERT(m::sgn<float>(f) == (f < 0 ? -1 : f > 0 ? 1 : 0), "sign"); vp_cover("sgn"); }
extern "C" void c29_pow() { int64_t x = symS("x", -3000000000, 3000000000); VP_ASSERT(m::square<long>(x) == x * x, "square"); int64_t y = symS("y", -2000000, 2000000); VP_ASSERT(m::cube<long>(y) == y * y * y, "cube"); uint32_t u = (uint32_t)symU("u", 0, 65535); VP_ASSERT(m::square<unsigned>(u) == u * u, "square"); int c = symI("c", -1290, 1290); VP_ASSERT(m::cube<int>(c) == c * c * c, "cube"); vp_cover("pow"); }
extern "C" void c29_pow_d() { double x = symD("x", -1e6, 1e6); VP_ASSERT(vp_same_d(m::square<double>(x), x * x), "square"); VP_ASSERT(vp_same_d(m::cube<double>(x), x * x * x), "cube"); vp_cover("powd"); }
// ---------------------------------------------------------------- C30
template <class C> static C cont(const char* n, int len) { using T = typename C::value_type; C c; if constexpr (std::is_same<C, std::array<T, 3>>::value) { for (int i = 0; i < 3; i++) { if constexpr (std::is_floating_point<T>::value) c[i] = (T)symD(nm(n, i).b, -1000, 1000); else c[i] = (T)symS(nm(n, i).b, -1000, 1000); } } else for (int i = 0; i < len; i++) { if constexpr (std::is_floating_point<T>::value) c.push_back((T)symD(nm(n, i).b, -1000, 1000)); else c.push_back((T)symS(nm(n, i).b, -1000, 1000)); } return c; }
template <class T> static bool same(T a, T b) { if constexpr (std::is_floating_point<T>::value) return vp_same_d(a, b); else return a == b; }
template <class C> static bool equal(C const& a, C const& b) { if (a.size() != b.size()) return false; auto j = b.begin(); int ok = 1; for (auto& x : a) ok &= (int)same(x, *j++); return ok; }
template <class C> static int length() { using T = typename C::value_type; return std::is_same<C, std::array<T, 3>>::value ? 3 : (int)vp_concretize(symS("len", 0, vp_param("max", 4))); }
template <class C> static void reduce() { using T = typename C::value_type; int n = length<C>(); C c = cont<C>("c", n); C o = c; T s = 0, p = 1, q = 0; for (auto x : o) { s += x; p *= x; q += x * x; }
  VP_ASSERT(same<T>(m::accumulate_sum(c), s), "sum"); if (n <= 3) VP_ASSERT(same<T>(m::accumulate_product(c), p), "product"); { T sq = m::sum_squared<C, T>(c); VP_ASSERT(same<T>(sq, q), "sum of squares"); } double w = m::l2norm(c); if (n <= vp_param("norm", 2)) VP_ASSERT((w >= 0) & (std::fabs(w * w - (double)q) <= 1e-6), "norm");
  if (n) { T a = m::max(c), b = m::min(c); int ge = 1, le = 1, am = 0, bm = 0; for (auto x : o) { ge &= a >= x; le &= b <= x; am |= a == x; bm |= b == x; } VP_ASSERT(ge & am, "maximum"); VP_ASSERT(le & bm, "minimum"); } VP_ASSERT(equal(c, o), "input untouched"); vp_cover("reduce"); }
template <class C> static void elementwise() { int n = length<C>(); C a = cont<C>("a", n), b = cont<C>("b", n); C a0 = a, b0 = b; 
  C s = a; C& rs = m::sum_into(s, b); VP_ASSERT(&rs == &s, "returns the target"); C d = a; C& rd = m::subtract_into(d, b); VP_ASSERT(&rd == &d, "returns the target"); C i = a; C& ri = m::invert(i); VP_ASSERT(&ri == &i, "returns the target"); C g = m::get_inverted(a);
  VP_ASSERT((s.size() == a.size()) & (d.size() == a.size()) & (i.size() == a.size()) & (g.size() == a.size()), "length kept"); auto ia = a0.begin(), ib = b0.begin(), is = s.begin(), id = d.begin(), ii = i.begin(), ig = g.begin(); for (size_t k = 0; k < a0.size(); k++) { auto x = *ia++, y = *ib++; VP_ASSERT(same(*is++, (decltype(x))(x + y)), "sum"); VP_ASSERT(same(*id++, (decltype(x))(x - y)), "difference"); VP_ASSERT(same(*ii++, (decltype(x))(-x)), "negation"); VP_ASSERT(same(*ig++, (decltype(x))(-x)), "negation of a copy"); }
  VP_ASSERT(equal(a, a0) & equal(b, b0), "inputs untouched"); C z = a; m::subtract_into(z, z); int zero = 1; for (auto x : z) zero &= x == 0; VP_ASSERT(zero, "subtracting itself"); C t = a; m::sum_into(t, t); auto it = t.begin(); for (auto x : a0) VP_ASSERT(same(*it++, (decltype(x))(x + x)), "adding itself"); vp_cover("elementwise"); }
extern "C" void c30_reduce() { reduce<std::vector<double>>(); } extern "C" void c30_reduce_long() { reduce<std::vector<long>>(); } extern "C" void c30_reduce_array() { reduce<std::array<double, 3>>(); } 
#ifdef LISTS
extern "C" void c30_reduce_list() { reduce<std::list<double>>(); } extern "C" void c30_elem_list() { elementwise<std::list<long>>(); }
#endif
 extern "C" void c30_reduce_int() { reduce<std::array<int, 3>>(); }
extern "C" void c30_elem() { elementwise<std::vector<double>>(); } extern "C" void c30_elem_long() { elementwise<std::vector<long>>(); } extern "C" void c30_elem_array() { elementwise<std::array<double, 3>>(); }
extern "C" void c30_extreme() { // extremes anywhere in the double range, and wide integers
  std::vector<double> v; int n = (int)vp_concretize(symS("n", 1, 3)); for (int i = 0; i < n; i++) { v.push_back(vp_sym_f64(nm("v", i).b)); VP_ASSUME(v[i] == v[i]); } double a = m::max(v), b = m::min(v); int ge = 1, le = 1, am = 0, bm = 0; for (double x : v) { ge &= a >= x; le &= b <= x; am |= a == x; bm |= b == x; } VP_ASSERT(ge & am, "maximum"); VP_ASSERT(le & bm, "minimum");
  std::vector<int64_t> w; for (int i = 0; i < n; i++) w.push_back(symS(nm("w", i).b, INT64_MIN / 4, INT64_MAX / 4)); int64_t s = 0; for (auto x : w) s += x; VP_ASSERT(m::accumulate_sum(w) == s, "sum of wide integers"); std::array<int64_t, 2> p{symS("p", -3000000000, 3000000000), symS("q", -3000000000, 3000000000)}; VP_ASSERT(m::accumulate_product(p) == p[0] * p[1], "product of wide integers");
  std::array<int, 2> u{(int)symS("u", -2147483647, 2147483647), (int)symS("t", -2147483647, 2147483647)}; long wide = m::sum_squared<std::array<int, 2>, long>(u); VP_ASSERT(wide == (long)u[0] * u[0] + (long)u[1] * u[1], "squares summed in the chosen type"); double wd = m::sum_squared<std::array<int, 2>, double>(u); VP_ASSERT(vp_same_d(wd, (double)u[0] * u[0] + (double)u[1] * u[1]), "squares summed in the chosen type"); vp_cover("extreme"); }
template <class T> static void exact() { // doubles and floats followed bit by bit: no precision is lost on the way
  int64_t M = std::is_same<T, float>::value ? (1 << 20) : (int64_t(1) << 48); bool f = std::is_same<T, float>::value; T x = (T)symS("x", -M, M), y = f ? (T)4000000 : (T)symS("y", -M, M), z = f ? (T)3 : (T)symS("z", -M, M); std::vector<T> v{x, y, z}; VP_ASSERT(m::accumulate_sum(v) == x + y + z, "sum"); std::array<T, 2> p{x, (T)3}; VP_ASSERT(m::accumulate_product(p) == x * (T)3, "product"); int64_t S = std::is_same<T, float>::value ? 2000 : 60000000; T a = (T)symS("a", -S, S), b = f ? (T)1500 : (T)symS("b", -S, S); std::vector<T> q{a, b}; T sq = m::sum_squared<std::vector<T>, T>(q); VP_ASSERT(sq == a * a + b * b, "sum of squares");
  static const double K[] = {0.1, 1.0 / 3, 12345.678, 1e-5, 33554433, 1e100, 1e-100, 0}; T k = (T)K[vp_concretize(symS("k", 0, std::is_same<T, float>::value ? 4 : 7))]; std::vector<T> one{-k}, two{3 * k, -4 * k}; double w = m::l2norm(one), h = m::l2norm(two), e = std::is_same<T, float>::value ? 1e-6 : 1e-15; VP_ASSERT(std::fabs(w - (double)k) <= e * (double)k, "norm"); VP_ASSERT(std::fabs(h - 5 * (double)k) <= 3 * e * 5 * (double)k, "norm"); vp_cover("exact"); }
extern "C" void c30_exact() { exact<double>(); } extern "C" void c30_exact_f() { exact<float>(); }
extern "C" void c30_step() { double x = vp_sym_f64("x"); if (vp_symbolic() == 2) VP_ASSUME((x >= -1e9) & (x <= 1e9)); VP_ASSUME(x == x); double h = m::heaviside(x), g = m::heaviside2(x); VP_ASSERT(!(x < 0) | ((h == 0) & (g == 0)), "zero below"); VP_ASSERT(!(x > 0) | ((h == 1) & (g == 1)), "one above"); VP_ASSERT(!(x == 0) | (h == 1), "convention at zero"); VP_ASSERT(!(x == 0) | (g == 0.5), "convention at zero"); vp_cover("step"); }
extern "C" void c30_lerp() { double a = symD("a", -1e6, 1e6), b = symD("b", -1e6, 1e6), t = symD("t", -10, 10); VP_ASSERT(vp_same_d(m::lerp<double>(a, b, t), a + t * (b - a)), "linear combination"); VP_ASSERT(vp_same_d(m::lerp<double>(a, b, 0.0), a) & vp_same_d(m::lerp<double>(a, b, 1.0), b), "end points");
  int64_t j = vp_concretize(symS("j", -4, 4)), i = symS("i", -100, 100); if (j == 0) return; double li = m::lerpi<double, long>(i, j, a, b); VP_ASSERT(vp_same_d(li * (double)j, a * (double)(j - i) + b * (double)i), "fractional parameter"); vp_cover("lerp"); }
extern "C" void c30_ends() { // exact end points for all finite doubles
  double a = vp_sym_f64("a"), b = vp_sym_f64("b"); VP_ASSUME((std::fabs(a) <= 1.7976931348623157e308) & (std::fabs(b) <= 1.7976931348623157e308)); VP_ASSERT(m::lerp<double>(a, b, 0.0) == a, "exact at 0"); VP_ASSERT(m::lerp<double>(a, b, 1.0) == b, "exact at 1"); int64_t j = vp_concretize(symS("j", 1, 5)); VP_ASSERT((m::lerpi<double, long>(0, j, a, b) == a), "exact at 0"); VP_ASSERT((m::lerpi<double, long>(j, j, a, b) == b), "exact at 1"); VP_ASSERT((m::lerpi<double, int>((int)j, (int)j, a, b) == b), "exact at 1");
  float fa = vp_sym_f32("fa"), fb = vp_sym_f32("fb"); VP_ASSUME((std::fabs(fa) <= 3.4e38f) & (std::fabs(fb) <= 3.4e38f)); VP_ASSERT(m::lerp<float>(fa, fb, 0.0f) == fa, "exact at 0"); VP_ASSERT(m::lerp<float>(fa, fb, 1.0f) == fb, "exact at 1"); vp_cover("ends"); }
// ---------------------------------------------------------------- C31
// Types whose less-than is an arbitrary table over four values each (asymmetric where the property needs it).
static uint32_t ltab[2][2]; // [left kind][right kind]: bit 4 * i + j: i < j
struct KA { unsigned i; }; struct KB { unsigned i; }; struct KC { unsigned i; }; struct KD { unsigned i; };
static bool tab(int p, int q, unsigned i, unsigned j) { return (ltab[p][q] >> (4 * i + j)) & 1; }
inline bool operator<(KA const& a, KA const& b) { return tab(0, 0, a.i, b.i); } inline bool operator<(KA const& a, KB const& b) { return tab(0, 1, a.i, b.i); } inline bool operator<(KB const& a, KA const& b) { return tab(1, 0, a.i, b.i); }
OVERLOADRELATIONAL(KA, KA) OVERLOADRELATIONAL(KA, KB) OVERLOADRELATIONAL(KB, KA)
inline bool operator<(KC const& a, KC const& b) { return tab(0, 0, a.i, b.i); } inline bool operator<(KC const& a, KD const& b) { return tab(0, 1, a.i, b.i); } inline bool operator<(KD const& a, KC const& b) { return tab(1, 0, a.i, b.i); }
static uint32_t etab[2][2]; static bool eq(int p, int q, unsigned i, unsigned j) { return (etab[p][q] >> (4 * i + j)) & 1; }
inline bool operator==(KC const& a, KC const& b) { return eq(0, 0, a.i, b.i); } inline bool operator==(KC const& a, KD const& b) { return eq(0, 1, a.i, b.i); } inline bool operator==(KD const& a, KC const& b) { return eq(1, 0, a.i, b.i); }
OVERLOADRELATIONALNOEQ(KC, KC) OVERLOADRELATIONALNOEQ(KC, KD) OVERLOADRELATIONALNOEQ(KD, KC)
template <class T> struct TA { unsigned i; }; template <class T> struct TB { unsigned i; };
template <class T> inline bool operator<(TA<T> const& a, TA<T> const& b) { return tab(0, 0, a.i, b.i); } template <class T> inline bool operator<(TA<T> const& a, TB<T> const& b) { return tab(0, 1, a.i, b.i); } template <class T> inline bool operator<(TB<T> const& a, TA<T> const& b) { return tab(1, 0, a.i, b.i); }
TEMPLATEOVERLOADRELATIONAL(TA<T>, TA<T>, T) TEMPLATEOVERLOADRELATIONAL(TA<T>, TB<T>, T) TEMPLATEOVERLOADRELATIONAL(TB<T>, TA<T>, T)
template <class X, class Y> static void derived(X a, Y b, bool lt, bool gt, bool e) { // lt: a < b, gt: b < a, e: what equality must answer
  VP_ASSERT((a < b) == lt, "less"); VP_ASSERT((a == b) == e, "equal"); VP_ASSERT((a != b) == !e, "not equal"); VP_ASSERT((a <= b) == !gt, "less or equal"); VP_ASSERT((a > b) == gt, "greater"); VP_ASSERT((a >= b) == !lt, "greater or equal"); }
template <class A, class B> static void relations(bool own) { for (auto& r : ltab) for (auto& x : r) x = (uint32_t)symU("less", 0, 65535); for (auto& r : etab) for (auto& x : r) x = (uint32_t)symU("equal", 0, 65535); unsigned i = (unsigned)symU("i", 0, 3), j = (unsigned)symU("j", 0, 3);
  bool l = tab(0, 0, i, j), g = tab(0, 0, j, i); derived(A{i}, A{j}, l, g, own ? eq(0, 0, i, j) : !l & !g); if (!own) VP_ASSERT(((l & g) == true) | ((int)(A{i} < A{j}) + (int)(A{i} == A{j}) + (int)(A{i} > A{j}) == 1), "exactly one of less, equal, greater");
  l = tab(0, 1, i, j); g = tab(1, 0, j, i); derived(A{i}, B{j}, l, g, own ? eq(0, 1, i, j) : !l & !g); derived(B{j}, A{i}, g, l, own ? eq(1, 0, j, i) : !l & !g); vp_cover("relations"); }
extern "C" void c31_overload() { relations<KA, KB>(false); } extern "C" void c31_noeq() { relations<KC, KD>(true); } extern "C" void c31_template() { relations<TA<int>, TB<int>>(false); }
// the whole set declared as friends of a class, with an ordinary integer key
class Keyed { int64_t k; public: explicit Keyed(int64_t x) : k(x) {} FDEFINEOVERLOADRELATIONAL(Keyed, Keyed) FDEFINEOVERLOADRELATIONAL(Keyed, int64_t) FDEFINEOVERLOADRELATIONAL(int64_t, Keyed) };
inline bool operator<(Keyed const& a, Keyed const& b) { return a.k < b.k; } inline bool operator<(Keyed const& a, int64_t const& b) { return a.k < b; } inline bool operator<(int64_t const& a, Keyed const& b) { return a < b.k; }
OVERLOADRELATIONAL(Keyed, Keyed) OVERLOADRELATIONAL(Keyed, int64_t) OVERLOADRELATIONAL(int64_t, Keyed)
extern "C" void c31_keyed() { int64_t x = symS("x", INT64_MIN, INT64_MAX), y = symS("y", INT64_MIN, INT64_MAX); derived(Keyed(x), Keyed(y), x < y, y < x, x == y); derived(Keyed(x), y, x < y, y < x, x == y); derived(x, Keyed(y), x < y, y < x, x == y); vp_cover("keyed"); }
