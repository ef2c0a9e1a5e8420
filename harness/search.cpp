// C27, C28: interpolated search and random choice.
#include "vp.h"
#include <cmath>
#include <iterator>
#include <bwsl/MathUtils.hpp>
#include <vector>
#include <deque>
using namespace bwsl;
// ---------------------------------------------------------------- C27
template <class T> struct Seq { int64_t n; int k; int64_t at[3]; T v[4]; mutable int reads = 0; int limit = 200;
  T get(int64_t i) const { VP_ASSERT((i >= 0) & (i < n), "reads stay inside the range"); if (i < 0 || i >= n) VP_ASSUME(0); VP_ASSERT(++reads <= limit, "terminates within the expected number of reads"); if (reads > limit) VP_ASSUME(0); for (int j = 0; j < k; j++) if (i < at[j]) return v[j]; return v[k]; } };
template <class T> struct SeqIt { using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = int64_t; using pointer = const T*; using reference = T; const Seq<T>* s; int64_t i;
  T operator*() const { return s->get(i); } T operator[](int64_t d) const { return s->get(i + d); } SeqIt& operator++() { ++i; return *this; } SeqIt operator++(int) { SeqIt t = *this; ++i; return t; } SeqIt& operator--() { --i; return *this; } SeqIt operator--(int) { SeqIt t = *this; --i; return t; }
  SeqIt& operator+=(int64_t d) { i += d; return *this; } SeqIt& operator-=(int64_t d) { i -= d; return *this; } SeqIt operator+(int64_t d) const { return {s, i + d}; } SeqIt operator-(int64_t d) const { return {s, i - d}; } int64_t operator-(SeqIt o) const { return i - o.i; }
  bool operator==(SeqIt o) const { return i == o.i; } bool operator!=(SeqIt o) const { return i != o.i; } bool operator<(SeqIt o) const { return i < o.i; } bool operator>(SeqIt o) const { return i > o.i; } bool operator<=(SeqIt o) const { return i <= o.i; } bool operator>=(SeqIt o) const { return i >= o.i; } };
template <class T> static void checkPos(Seq<T> const& s, T value, int64_t r) { int64_t want = s.n; for (int j = s.k; j >= 0; j--) { int64_t b = j ? s.at[j - 1] : 0, e = j < s.k ? s.at[j] : s.n; if ((b < e) & (value < s.v[j])) want = b; } VP_ASSERT(r == want, "first element greater than the value"); }
template <class T> static T val(const char* n) { if constexpr (std::is_floating_point<T>::value) return (T)symD(n, -1e6, 1e6); else return (T)symS(n, -1000000000, 1000000000); }
template <class T> static void steps() { // a long range with up to k symbolic steps near chosen places
  int64_t n = 10001 + vp_param("over", 3); int k = (int)vp_param("k", 1); Seq<T> s{n, k, {0, 0, 0}, {}}; int64_t w = vp_param("window", 3); int64_t base[5] = {0, n / 2, n - 1 - w, 0, 0}; if (vp_param("near", 0)) base[0] = vp_param("near", 0);
  for (int j = 0; j < k; j++) { int64_t b = base[(j + vp_param("where", 0)) % 3]; s.at[j] = symS(nm("at", j).b, b, b + w); } for (int j = 0; j + 1 < k; j++) VP_ASSUME(s.at[j] <= s.at[j + 1]);
  if (vp_param("pick", 0)) { static const int64_t V[] = {INT64_MIN, -1000000000, -3, 0, 4, 1000000000, INT64_MAX}; int lo = 0; for (int j = 0; j <= k; j++) { lo = (int)vp_concretize(symS(nm("v", j).b, lo, 6)); s.v[j] = (T)V[lo]; } T x = (T)V[vp_concretize(symS("value", 0, 6))]; auto r = bwsl::upper_bound(SeqIt<T>{&s, 0}, SeqIt<T>{&s, n}, x); checkPos(s, x, r.i); vp_cover("steps"); return; }
  for (int j = 0; j <= k; j++) s.v[j] = val<T>(nm("v", j).b); for (int j = 0; j < k; j++) VP_ASSUME(s.v[j] <= s.v[j + 1]);
  T x = val<T>("value"); auto r = bwsl::upper_bound(SeqIt<T>{&s, 0}, SeqIt<T>{&s, n}, x); checkPos(s, x, r.i); vp_cover("steps"); }
extern "C" void c27_steps() { steps<double>(); }
extern "C" void c27_steps_int() { steps<long>(); }
template <class T> static void small() { int n = (int)vp_concretize(symS("n", 0, vp_param("max", 5))); std::vector<T> v; for (int i = 0; i < n; i++) { v.push_back(val<T>(nm("v", i).b)); if (i) VP_ASSUME(v[i - 1] <= v[i]); } T x = val<T>("value"); auto r = bwsl::upper_bound(v.begin(), v.end(), x) - v.begin(); int c = 0; for (int i = 0; i < n; i++) c += !(x < v[i]); VP_ASSERT(r == c, "first element greater than the value"); vp_cover("small"); }
extern "C" void c27_small() { small<double>(); }
extern "C" void c27_small_int() { small<long>(); }
// Any sorted range and any value: only the number of elements not greater than the value matters, and the relative distance that the
// interpolation uses is an arbitrary fraction. The final library search is replaced by its contract (first element of the window greater than the value).
struct Any { int64_t want; int kind; int64_t i; }; // kind 0: element i, 1: the value
struct AnySeq { int64_t n, want; mutable int reads = 0; int limit = 200; };
static double frac(bool open) { return (double)(symS(open ? "g" : "f", 0, (1 << 18) - 1) + (open ? 1 : 0)) / (double)(1 << 18); }
inline bool operator<(Any const& a, Any const& b) { if (a.kind && b.kind) return false; if (a.kind) return b.i >= b.want; if (b.kind) return (a.i < a.want) && symB("strict"); bool p = a.i < a.want, q = b.i < b.want; return p != q ? p : (a.i < b.i && symB("less")); }
inline bool operator>(Any const& a, Any const& b) { return b < a; } inline bool operator<=(Any const& a, Any const& b) { return !(b < a); } inline bool operator>=(Any const& a, Any const& b) { return !(a < b); } inline bool operator==(Any const& a, Any const& b) { return !(a < b) && !(b < a); } inline bool operator!=(Any const& a, Any const& b) { return !(a == b); }
inline double operator-(Any const& a, Any const& b) { if (a.kind == b.kind) return a.kind ? 0.0 : 1.0; return a.kind ? frac(false) : frac(true); }
struct AnyIt { using iterator_category = std::random_access_iterator_tag; using value_type = Any; using difference_type = int64_t; using pointer = const Any*; using reference = Any; const AnySeq* s; int64_t i;
  Any operator*() const { VP_ASSERT((i >= 0) & (i < s->n), "reads stay inside the range"); if (i < 0 || i >= s->n) VP_ASSUME(0); VP_ASSERT(++s->reads <= s->limit, "terminates within the expected number of reads"); if (s->reads > s->limit) VP_ASSUME(0); return Any{s->want, 0, i}; }
  Any operator[](int64_t d) const { return *AnyIt{s, i + d}; } AnyIt& operator++() { ++i; return *this; } AnyIt operator++(int) { AnyIt t = *this; ++i; return t; } AnyIt& operator--() { --i; return *this; } AnyIt operator--(int) { AnyIt t = *this; --i; return t; } AnyIt& operator+=(int64_t d) { i += d; return *this; } AnyIt& operator-=(int64_t d) { i -= d; return *this; } AnyIt operator+(int64_t d) const { return {s, i + d}; } AnyIt operator-(int64_t d) const { return {s, i - d}; } int64_t operator-(AnyIt o) const { return i - o.i; }
  bool operator==(AnyIt o) const { return i == o.i; } bool operator!=(AnyIt o) const { return i != o.i; } bool operator<(AnyIt o) const { return i < o.i; } bool operator>(AnyIt o) const { return i > o.i; } bool operator<=(AnyIt o) const { return i <= o.i; } bool operator>=(AnyIt o) const { return i >= o.i; } };
namespace std { template <> inline AnyIt upper_bound<AnyIt, Any>(AnyIt a, AnyIt b, Any const&) { VP_ASSERT((a.i <= b.i) & (a.i >= 0) & (b.i <= a.s->n), "the remaining window is a valid range"); int64_t w = a.s->want; return AnyIt{a.s, w < a.i ? a.i : w > b.i ? b.i : w}; } }
extern "C" void c27_any() {
  AnySeq s{10001 + vp_param("over", 2), 0}; s.want = symS("want", 0, s.n); auto r = bwsl::upper_bound(AnyIt{&s, 0}, AnyIt{&s, s.n}, Any{s.want, 1, 0}); VP_ASSERT(r.i == s.want, "first element greater than the value"); vp_cover("any"); }
template <class T> static void spread() { // ranges whose elements lie as far apart as the type allows (differences do not fit it)
  const T lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max(); const T P[] = {lo, (T)(lo / 2), (T)(lo == 0 ? 0 : -1), 0, 1, (T)(hi / 2), hi}; int a = (int)vp_concretize(symS("low", 0, 3)), b = (int)vp_concretize(symS("middle", a, 6)), c = (int)vp_concretize(symS("high", b, 6)); size_t n = 10002 + (size_t)vp_concretize(symS("over", 0, 1)), k = vp_concretize(symS("split", 0, 1)) ? n - 2 : 1; std::vector<T> v(n, P[b]); for (size_t i = 0; i < k; i++) v[i] = P[a]; v[n - 1] = P[c];
  for (int i = 0; i < 7; i++) { T x = P[i]; size_t want = x < P[a] ? 0 : x < P[b] ? k : x < P[c] ? n - 1 : n; VP_ASSERT((size_t)(bwsl::upper_bound(v.begin(), v.end(), x) - v.begin()) == want, "first element greater than the value"); } vp_cover("spread"); }
extern "C" void c27_spread_int() { spread<int>(); } extern "C" void c27_spread_long() { spread<long>(); } extern "C" void c27_spread_double() { spread<double>(); } extern "C" void c27_spread_float() { spread<float>(); }
extern "C" void c27_infinite() { // infinite end points
  double I = std::numeric_limits<double>::infinity(); int m = (int)vp_concretize(symS("ends", 1, 3)); size_t n = 10002; std::vector<double> v(n); for (size_t i = 0; i < n; i++) v[i] = (double)i; if (m & 1) v[0] = -I; if (m & 2) v[n - 1] = I; int at = (int)vp_concretize(symS("at", 0, 4)); double x = at == 0 ? -I : at == 1 ? -1.0 : at == 2 ? 4999.5 : at == 3 ? 10000.5 : 1e300; size_t want = at == 0 ? (size_t)(m & 1) : at == 1 ? (size_t)(m & 1) : at == 2 ? 5000 : at == 3 ? 10001 : (m & 2) ? 10001 : n; VP_ASSERT((size_t)(bwsl::upper_bound(v.begin(), v.end(), x) - v.begin()) == want, "first element greater than the value"); vp_cover("infinite"); }
// ---------------------------------------------------------------- C28
struct Rng { using result_type = uint64_t; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return UINT64_MAX; } uint64_t x; uint64_t operator()() { return x; } };
struct Rng32 { using result_type = uint32_t; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return UINT32_MAX; } uint32_t x[2]; int n = 0; uint32_t operator()() { return x[n++ & 1]; } };
static Rng rng(int bits = 64) { return Rng{bits == 64 ? symU("draw", 0, UINT64_MAX) : symU("draw", 0, ((uint64_t)1 << bits) - 1) << (64 - bits)}; }
template <class R> static double drawn(R r, double tot) { std::uniform_real_distribution<double> u(0.0, tot); return u(r); }
static void checkChoice(std::vector<double> const& w, std::vector<double> const& c, double u, size_t k) { VP_ASSERT(k < w.size(), "index inside the list"); if (k >= w.size()) return; VP_ASSERT(w[k] > 0, "positive weight"); VP_ASSERT(u < c[k], "drawn number below the upper edge"); VP_ASSERT((k == 0) || !(u < c[k - 1]), "drawn number not below the lower edge"); }
extern "C" void c28_float() { // single-precision weights: integers, any 24-bit draw of a 32-bit generator
  Rng32 g{{(uint32_t)symU("a", 0, (1 << 24) - 1) << 8, 0}}, h = g, z = g; int n = (int)vp_concretize(symS("n", 1, vp_param("max", 3))); std::vector<float> w, c; float t = 0; for (int i = 0; i < n; i++) { w.push_back((float)symS(nm("w", (unsigned)i).b, 0, vp_param("w", 15))); t += w.back(); c.push_back(t); } VP_ASSUME(t > 0); std::uniform_real_distribution<float> d(0.0F, t); float u = d(z); size_t k = choose_between(w, g), q = choose_between_psums(c, h); VP_ASSERT(k == q, "weights and cumulative weights agree"); VP_ASSERT(k < (size_t)n, "index inside the list"); if (k >= (size_t)n) return; VP_ASSERT(w[k] > 0, "positive weight"); VP_ASSERT((u < c[k]) & ((k == 0) || !(u < c[k - 1])), "interval of the drawn number"); vp_cover("float"); }
template <class R> static void weights(R g, bool ints) { int n = (int)vp_concretize(symS("n", 1, vp_param("max", 4))); std::vector<double> w, c; double t = 0; for (int i = 0; i < n; i++) { w.push_back(ints ? (double)symS(nm("w", i).b, 0, 100) : symD(nm("w", i).b, 0, 1000)); t += w[i]; c.push_back(t); } VP_ASSUME(ints ? t > 0 : t > 1e-3);
  double u = drawn(g, t); auto w0 = w; R g1 = g, g2 = g; size_t k = choose_between(w, g1), q = choose_between_psums(c, g2); checkChoice(w, c, u, k); VP_ASSERT(k == q, "weights and cumulative weights agree"); for (int i = 0; i < n; i++) VP_ASSERT(vp_same_d(w[i], w0[i]), "weights untouched"); vp_cover("weights"); }
extern "C" void c28_real() { weights(rng(), false); }
extern "C" void c28_fp() { weights(rng(53), true); }
extern "C" void c28_real32() { uint32_t a = (uint32_t)symU("a", 0, UINT32_MAX), b = (uint32_t)symU("b", 0, UINT32_MAX); Rng32 g{{a, b}}; weights(g, false); }
extern "C" void c28_prob() { // probability: bit-precise, any double, any draw
  Rng g = rng((int)vp_param("bits", 53)); double p = vp_sym_f64("p"); if (vp_symbolic() == 2) VP_ASSUME((p >= -10) & (p <= 10)); double u = drawn(g, 1.0); bool r = choose_with_probability(p, g); VP_ASSERT(!(p <= 0) | !r, "never at probability zero or less"); VP_ASSERT(!(p >= 1) | r, "always at probability one or more"); VP_ASSERT(r == (u < p), "drawn number below the probability"); vp_cover(r ? "yes" : "no"); }
extern "C" void c28_top() { // the largest draws: rounding must not reach the total
  Rng g{UINT64_MAX - symU("below", 0, 4096)}; double u = drawn(g, 1.0); VP_ASSERT(u < 1, "below one"); bool r = choose_with_probability(1.0, g); VP_ASSERT(r, "always at probability one"); std::vector<double> w{1.0, (double)vp_concretize(symS("w", 0, 3)), 0.0}; size_t k = choose_between(w, g); VP_ASSERT(k == (w[1] > 0 ? 1u : 0u), "last possible index"); vp_cover("top"); }
