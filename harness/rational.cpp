// C12-C14 (numeric part): RationalNum through its public API.
#include "vp.h"
#include <bwsl/RationalNum.hpp>
using namespace bwsl;
#ifndef RT
#define RT long
#endif
using T = RT; using R = RationalNum<T>;
static T sy(const char* n, int64_t lo, int64_t hi) { return (T)symS(n, lo, hi); }
static T den(const char* n, int64_t M) { T d = sy(n, -M, M); VP_ASSUME(d != 0); return d; }
// the value of r is N/D (D != 0)
static bool is(const R& r, T N, T D) { return (r.GetDen() != 0) & (r.GetNum() * D == N * r.GetDen()); }
static void canon(const R& r) { VP_ASSERT(r.GetDen() > 0, "positive denominator"); }
static void lowest(const R& r, T M) { // no common divisor above one (all candidates up to the bound)
  T n = r.GetNum(), d = r.GetDen(); T an = n < 0 ? -n : n; int bad = 0; for (T k = 2; k <= M; k++) bad |= (an % k == 0) & (d % k == 0); VP_ASSERT(!bad, "lowest terms"); }
static void obs(const R& r) { vp_obs_i("num", r.GetNum()); vp_obs_i("den", r.GetDen()); }
extern "C" void c12_construct() { // construction: value, conversions, integer test
  int64_t M = vp_param("m", 20); T n = sy("n", -M, M), d = den("d", M); R r(n, d);
  VP_ASSERT(is(r, n, d), "construction keeps the value"); canon(r); if (vp_param("low", 1)) lowest(r, (T)M);
  VP_ASSERT((T)r == n / d, "integer conversion truncates"); VP_ASSERT(r.IsInt() == (n % d == 0), "integer test"); obs(r); vp_cover("built");
  R z; VP_ASSERT((z.GetNum() == 0) & (z.GetDen() == 1), "default is zero"); R c(r); R e; e = r; VP_ASSERT((c.GetNum() == r.GetNum()) & (c.GetDen() == r.GetDen()) & (e.GetNum() == r.GetNum()) & (e.GetDen() == r.GetDen()), "copies are equal");
}
extern "C" void c12_double() { int64_t M = vp_param("m", 12); T n = sy("n", -M, M), d = den("d", M); if (vp_param("conc", 0)) { n = (T)vp_concretize(n); d = (T)vp_concretize(d); } R r(n, d); VP_ASSERT(vp_same_d((double)r, (double)n / (double)d), "double conversion"); vp_cover("dbl"); }
extern "C" void c12_rr() { // rational op rational
  int64_t M = vp_param("m", 6); int op = (int)vp_param("op", 0); T a = sy("a", -M, M), b = den("b", M), c = sy("c", -M, M), d = den("d", M); R x(a, b), y(c, d); R r;
  T N, D; switch (op) { case 0: r = x + y; N = a * d + c * b; D = b * d; break; case 1: r = x - y; N = a * d - c * b; D = b * d; break; case 2: r = x * y; N = a * c; D = b * d; break; default: VP_ASSUME(c != 0); r = x / y; N = a * d; D = b * c; }
  VP_ASSERT(is(r, N, D), "exact result"); canon(r); obs(r); vp_cover("rr");
  if (vp_param("low", 0)) lowest(r, (T)(M * M));
}
extern "C" void c12_ri() { // rational op integer and integer op rational
  int64_t M = vp_param("m", 8); int op = (int)vp_param("op", 0); T a = sy("a", -M, M), b = den("b", M), k = sy("k", -M, M); R x(a, b); R r;
  T N, D; switch (op) { case 0: r = x + k; N = a + k * b; D = b; break; case 1: r = x - k; N = a - k * b; D = b; break; case 2: r = x * k; N = a * k; D = b; break; case 3: VP_ASSUME(k != 0); r = x / k; N = a; D = b * k; break;
    case 4: r = k + x; N = a + k * b; D = b; break; case 5: r = k - x; N = k * b - a; D = b; break; case 6: r = k * x; N = a * k; D = b; break; default: VP_ASSUME(a != 0); r = k / x; N = k * b; D = a; }
  VP_ASSERT(is(r, N, D), "exact result"); canon(r); obs(r); vp_cover("ri");
}
extern "C" void c12_wide() { // large numerators over small denominators: nothing is truncated on the way
  int64_t M = vp_param("m", (int64_t)1 << 58); int op = (int)vp_param("op", 0); static const T D[] = {1, -1, 2}; T b = D[vp_concretize(symS("b", 0, 2))], d = D[vp_concretize(symS("d", 0, 2))]; T a = sy("a", -M, M), c = sy("c", -M, M); R x(a, b);
  if (op == 0) { VP_ASSERT(is(x, a, b), "construction keeps the value"); VP_ASSERT((T)x == a / b, "integer conversion"); VP_ASSERT(x.IsInt() == (a % b == 0), "integer test"); }
  else if (op == 1) { R r = x + R(c, d); VP_ASSERT(is(r, a * d + c * b, b * d), "exact sum"); }
  else if (op == 2) { R r = x - R(c, d); VP_ASSERT(is(r, a * d - c * b, b * d), "exact difference"); }
  else if (op == 3) { R r = x + c; VP_ASSERT(is(r, a + c * b, b), "exact sum with integer"); R q = c - x; VP_ASSERT(is(q, c * b - a, b), "exact difference with integer"); }
  else if (op == 4) { R r = x * R(d, 1); VP_ASSERT(is(r, a * d, b), "exact product"); R q = x / R(d, 1); VP_ASSERT(is(q, a, b * d), "exact quotient"); }
  else if (op == 6) { T e = vp_concretize(symS("e", -2, 2)); if (c) { R q = R(e, b) / c; VP_ASSERT(is(q, e, b * c), "exact quotient by integer"); } }
  else { T e = vp_concretize(symS("e", -2, 2)); R y(e, b); R r = y * c; VP_ASSERT(is(r, e * c, b), "exact product with integer"); R t = c * y; VP_ASSERT(is(t, e * c, b), "exact product of integer"); if (e) { R q = c / y; VP_ASSERT(is(q, c * b, e), "exact quotient of integer"); } }
  vp_cover("wide");
}
extern "C" void c12_chain() { // several operations in a row, the second operand being a computed result
  int64_t M = vp_param("m", 3); T a = sy("a", -M, M), b = den("b", M), c = sy("c", -M, M), d = den("d", M), k = sy("k", -M, M); R x(a, b), y(c, d);
  R r = (x - y) * k + x; VP_ASSERT(is(r, (a * d - c * b) * k * b + a * b * d, b * d * b), "exact chain"); canon(r); R q = r - r; VP_ASSERT((q.GetNum() == 0) & (q.GetDen() == 1), "zero is 0//1"); vp_cover("chain");
}
// ---------------------------------------------------------------- C13
extern "C" void c13_rr() {
  int64_t M = vp_param("m", 10); T a = sy("a", -M, M), b = den("b", M), c = sy("c", -M, M), d = den("d", M); R x(a, b), y(c, d);
  T s = (b < 0) != (d < 0) ? -1 : 1; T l = a * d * s, r = c * b * s; // a/b < c/d  <=>  l < r
  VP_ASSERT((x < y) == (l < r), "<"); VP_ASSERT((x > y) == (l > r), ">"); VP_ASSERT((x <= y) == (l <= r), "<="); VP_ASSERT((x >= y) == (l >= r), ">="); VP_ASSERT((x == y) == (l == r), "=="); VP_ASSERT((x != y) == (l != r), "!="); vp_cover("rr");
}
extern "C" void c13_ri() {
  int64_t M = vp_param("m", 10); T a = sy("a", -M, M), b = den("b", M), k = sy("k", -M, M); R x(a, b); T l = b < 0 ? -a : a, r = b < 0 ? -(k * b) : k * b;
  VP_ASSERT((x < k) == (l < r), "r<i"); VP_ASSERT((x > k) == (l > r), "r>i"); VP_ASSERT((x <= k) == (l <= r), "r<=i"); VP_ASSERT((x >= k) == (l >= r), "r>=i"); VP_ASSERT((x == k) == (l == r), "r==i"); VP_ASSERT((x != k) == (l != r), "r!=i");
  VP_ASSERT((k < x) == (r < l), "i<r"); VP_ASSERT((k > x) == (r > l), "i>r"); VP_ASSERT((k <= x) == (r <= l), "i<=r"); VP_ASSERT((k >= x) == (r >= l), "i>=r"); VP_ASSERT((k == x) == (r == l), "i==r"); VP_ASSERT((k != x) == (r != l), "i!=r"); vp_cover("ri");
}
extern "C" void c13_wide() { // large values over small denominators
  int64_t M = vp_param("m", (int64_t)1 << 61); T b = (T)vp_concretize(symS("b", -2, 2)), d = (T)vp_concretize(symS("d", -2, 2)); VP_ASSUME((b != 0) & (d != 0)); T a = sy("a", -M, M), c = sy("c", -M, M); R x(a, b), y(c, d);
  T s = (b < 0) != (d < 0) ? -1 : 1; T l = a * d * s, r = c * b * s; VP_ASSERT((x < y) == (l < r), "<"); VP_ASSERT((x == y) == (l == r), "=="); VP_ASSERT((x <= y) == (l <= r), "<="); VP_ASSERT((x > y) == (l > r), ">");
  T L = b < 0 ? -a : a, K = b < 0 ? -(c * b) : c * b; VP_ASSERT((x < c) == (L < K), "r<i"); VP_ASSERT((c < x) == (K < L), "i<r"); VP_ASSERT((c == x) == (K == L), "i==r"); vp_cover("wide");
}
extern "C" void c13_equal() { // equal values have equal representation
  int64_t M = vp_param("m", 6); T a = sy("a", -M, M), b = den("b", M), c = sy("c", -M, M), d = den("d", M); VP_ASSUME(a * d == c * b); R x(a, b), y(c, d); VP_ASSERT((x.GetNum() == y.GetNum()) & (x.GetDen() == y.GetDen()), "equal values, equal representation"); VP_ASSERT(x == y, "equal values compare equal"); vp_cover("eq");
}
// ---------------------------------------------------------------- C14 (numeric part): lowest terms, positive denominator, whatever produced the number
static void form(const R& r, T M) { canon(r); lowest(r, M); }
extern "C" void c14_construct() { int64_t M = vp_param("m", 12); R r(sy("n", -M, M), den("d", M)); form(r, (T)M); obs(r); vp_cover("built"); }
extern "C" void c14_wide() { int64_t M = vp_param("m", (int64_t)1 << 40); T k = (T)vp_concretize(symS("k", -4, 4)); VP_ASSUME(k != 0); T n = sy("n", -M, M); R r(n, k); form(r, 4); R s(n * 3, k * 3); form(s, 4); VP_ASSERT((r.GetNum() == s.GetNum()) & (r.GetDen() == s.GetDen()), "equal values, identical representation"); vp_cover("wide"); }
extern "C" void c14_common() { // a large common factor is removed whatever its size
  int64_t M = vp_param("m", 6); T p = (T)vp_concretize(symS("p", 1, M)), q = (T)vp_concretize(symS("q", 1, M)), a = p, b = q; while (b) { T t = a % b; a = b; b = t; } VP_ASSUME(a == 1);
  T g = sy("g", 1, (int64_t)1 << vp_param("e", 58)); R r(p * g, q * g), s(p * g, -(q * g)); VP_ASSERT((r.GetNum() == p) & (r.GetDen() == q), "lowest terms"); VP_ASSERT((s.GetNum() == -p) & (s.GetDen() == q), "lowest terms"); vp_cover("common"); }
extern "C" void c14_rr() { int64_t M = vp_param("m", 2); int op = (int)vp_param("op", 0); T a = sy("a", -M, M), b = den("b", M), c = sy("c", -M, M), d = den("d", M); R x(a, b), y(c, d), r; if (op == 3) VP_ASSUME(c != 0); r = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y; form(r, (T)(2 * M * M)); obs(r); vp_cover("rr"); }
extern "C" void c14_ri() { int64_t M = vp_param("m", 4); int op = (int)vp_param("op", 0); T a = sy("a", -M, M), b = den("b", M), k = sy("k", -M, M); R x(a, b), r; if (op == 3) VP_ASSUME(k != 0); if (op == 7) VP_ASSUME(a != 0);
  switch (op) { case 0: r = x + k; break; case 1: r = x - k; break; case 2: r = x * k; break; case 3: r = x / k; break; case 4: r = k + x; break; case 5: r = k - x; break; case 6: r = k * x; break; default: r = k / x; } form(r, (T)(M * M + M)); obs(r); vp_cover("ri"); }
