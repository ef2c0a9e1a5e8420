// C17: accumulators built with BWSL_ACCUMULATORS_CHECKS. The counter is set through the class's own serialization.
#include "vp.h"
#ifndef BWSL_ACCUMULATORS_CHECKS
#define BWSL_ACCUMULATORS_CHECKS
#endif
#include <cmath>
#include <bwsl/Accumulators.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
using namespace bwsl; using namespace bwsl::accumulators;
// loads the counter (the only unsigned long member), keeps everything else
struct SetCount { unsigned long v; int n = 0; using is_saving = std::false_type; using is_loading = std::true_type;
  template <class T> SetCount& operator&(T& x) { if constexpr (std::is_same<T, unsigned long>::value) { x = v; n++; } return *this; } };
template <class A> static void setCount(A& a, unsigned long v) { SetCount s{v}; boost::serialization::access::serialize(s, a, 0); VP_ASSUME(s.n == 1); }
template <class A> static void put(A& a, double x) { a.Add(x); }
static void put(WestAccumulator& a, double x) { a.Add(x, 2.0); }
static void put(NaiveInteger& a, double x) { a.Add((long)x); }
template <class A> static bool tryPut(A& a, double x) { try { put(a, x); } catch (exception::AccumulatorOverflow const&) { return false; } return true; }
template <class A> static double meanOf(A const& a) { return (double)a.Sum(); }
static double meanOf(KnuthWelfordAccumulator const& a) { return a.Mean(); }
static double meanOf(WestAccumulator const& a) { return a.Mean(); }
template <class A> static void counter() { // any counter value: refused exactly at the maximum, unchanged then
  A a; put(a, (double)symS("first", -1000, 1000)); unsigned long c = symU("count", 0, UINT64_MAX); setCount(a, c); VP_ASSERT(a.Count() == c, "counter set");
  double m = meanOf(a); double x = (double)symS("x", -1000, 1000); bool ok = tryPut(a, x);
  VP_ASSERT(ok == (c != UINT64_MAX), "refused exactly when the counter is full");
  if (!ok) { VP_ASSERT(a.Count() == c, "refusal keeps the counter"); VP_ASSERT(vp_same_d(meanOf(a), m), "refusal keeps the value"); vp_cover("full"); }
  else { VP_ASSERT(a.Count() == c + 1, "counted"); vp_cover("room"); }
}
extern "C" void c17_kahan() { counter<KahanAccumulator>(); }
extern "C" void c17_neumaier() { counter<NeumaierAccumulator>(); }
extern "C" void c17_welford() { counter<KnuthWelfordAccumulator>(); }
extern "C" void c17_west() { counter<WestAccumulator>(); }
extern "C" void c17_naive_count() { counter<NaiveInteger>(); }
extern "C" void c17_west_weight() { // a measurement without weight is ignored even when the counter is full
  WestAccumulator a; a.Add(1.0, 2.0); setCount(a, UINT64_MAX); bool thrown = false; double w = (double)vp_concretize(symS("w", -2, 1)); try { a.Add(3.0, w); } catch (exception::AccumulatorOverflow const&) { thrown = true; } VP_ASSERT(thrown == (w > 0), "only weighted measurements are refused"); VP_ASSERT(a.Count() == UINT64_MAX, "counter kept"); vp_cover("w");
}
// the checks do not change the result: same sums as the exact ones
template <class A> static void same() { A a; int64_t s = 0; int n = (int)vp_param("n", 3); for (int i = 0; i < n; i++) { int64_t x = symS(nm("x", i).b, -1000000, 1000000); VP_ASSERT(tryPut(a, (double)x), "adding succeeds"); s += x; } VP_ASSERT(a.Count() == (unsigned long)n, "count"); VP_ASSERT(vp_same_d((double)a.Sum(), (double)s), "sum"); vp_cover("same"); }
extern "C" void c17_same_kahan() { same<KahanAccumulator>(); }
extern "C" void c17_same_neumaier() { same<NeumaierAccumulator>(); }
extern "C" void c17_same_naive() { same<NaiveInteger>(); }
// integer accumulator: refused exactly when the sum or the sum of squares does not fit
static bool addL(NaiveInteger& a, int64_t x) { try { a.Add(x); } catch (exception::AccumulatorOverflow const&) { return false; } return true; }
extern "C" void c17_naive_one() { // from the empty accumulator, any 64-bit value
  NaiveInteger a; int64_t x = symS("x", INT64_MIN, INT64_MAX); const int64_t R = 3037000499; // floor(sqrt(2^63 - 1))
  bool fits = (x >= -R) & (x <= R); bool ok = addL(a, x); VP_ASSERT(ok == fits, "refused exactly when the square does not fit"); VP_ASSERT(a.Count() == (ok ? 1u : 0u), "count"); VP_ASSERT(a.Sum() == (ok ? x : 0), "sum"); vp_cover(ok ? "fits" : "refused");
}
extern "C" void c17_naive_two() { // one measurement, then any second value
  NaiveInteger a; const int64_t R = 3037000499; int64_t x = symS("x", -R, R), y = symS("y", -R, R); a.Add(x); bool fits = x * x <= INT64_MAX - y * y; bool ok = addL(a, y);
  VP_ASSERT(ok == fits, "refused exactly when the sum of squares does not fit"); VP_ASSERT(a.Sum() == (ok ? x + y : x), "sum"); VP_ASSERT(a.Count() == (ok ? 2u : 1u), "count"); vp_cover(ok ? "fits" : "refused");
}
// a state with an arbitrary sum (sum of squares kept small): the sum check in both directions
struct SetSum { int64_t v; int n = 0; using is_saving = std::false_type; using is_loading = std::true_type;
  template <class T> SetSum& operator&(T& x) { if constexpr (std::is_same<T, long>::value) { if (x == 77) { x = v; n++; } } return *this; } };
extern "C" void c17_naive_sum() { // 77 = 7 + 70: the sum is the member holding 77, the sum of squares holds 4949
  NaiveInteger a; a.Add(7); a.Add(70); int64_t s = symS("s", INT64_MIN, INT64_MAX), x = symS("x", -1000000, 1000000); SetSum st{s}; boost::serialization::access::serialize(st, a, 0); VP_ASSUME(st.n == 1);
  VP_ASSERT(a.Sum() == s, "sum set"); bool fits = x >= 0 ? s <= INT64_MAX - x : s >= INT64_MIN - x; bool ok = addL(a, x); VP_ASSERT(ok == fits, "refused exactly when the sum does not fit"); VP_ASSERT(a.Count() == (ok ? 3u : 2u), "count"); if (!ok) VP_ASSERT(a.Sum() == s, "refusal keeps the sum"); else VP_ASSERT(a.Sum() == s + x, "sum"); vp_cover(ok ? "fits" : "refused");
}
