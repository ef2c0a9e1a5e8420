// C19: saving and loading accumulators, histograms and move statistics.
#include "tape.hpp"
#include <cmath>
#include <bwsl/Accumulators.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <bwsl/HistAccumulator.hpp>
#include <bwsl/mcutils/MoveStats.hpp>
using namespace bwsl; using namespace bwsl::accumulators;
static void same(double a, double b) { VP_ASSERT(vp_same_d(a, b), "reported quantity"); }
static void report(KahanAccumulator const& a, KahanAccumulator const& b) { same(a.Sum(), b.Sum()); same(a.Mean(), b.Mean()); VP_ASSERT(a.Count() == b.Count(), "reported count"); }
static void report(NeumaierAccumulator const& a, NeumaierAccumulator const& b) { same(a.Sum(), b.Sum()); same(a.Mean(), b.Mean()); VP_ASSERT(a.Count() == b.Count(), "reported count"); }
static void report(KnuthWelfordAccumulator const& a, KnuthWelfordAccumulator const& b) { VP_ASSERT(a.Count() == b.Count(), "reported count"); same(a.Sum(), b.Sum()); same(a.Mean(), b.Mean()); for (int c = 0; c < 2; c++) { same(a.Variance(c), b.Variance(c)); same(a.StandardDeviation(c), b.StandardDeviation(c)); same(a.Error(c), b.Error(c)); } same(a.ScaledVariance(), b.ScaledVariance()); }
static void report(NaiveInteger const& a, NaiveInteger const& b) { VP_ASSERT(a.Count() == b.Count(), "reported count"); VP_ASSERT(a.Sum() == b.Sum(), "reported sum"); same(a.Mean(), b.Mean()); for (int c = 0; c < 2; c++) { same(a.Variance(c), b.Variance(c)); same(a.StandardDeviation(c), b.StandardDeviation(c)); } same(a.ScaledVariance(), b.ScaledVariance()); }
static void report(WestAccumulator const& a, WestAccumulator const& b) { VP_ASSERT(a.Count() == b.Count(), "reported count"); same(a.Sum(), b.Sum()); same(a.Mean(), b.Mean()); same(a.PopulationVariance(), b.PopulationVariance()); same(a.SampleFrequencyVariance(), b.SampleFrequencyVariance()); same(a.SampleReliabilityVariance(), b.SampleReliabilityVariance()); }
static double val(const char* n) { return symD(n, -1000, 1000); }
template <class A> struct Feed { __attribute__((noinline)) static void add(A& a, double x, double, long) { a.Add(x); } };
template <> struct Feed<WestAccumulator> { __attribute__((noinline)) static void add(WestAccumulator& a, double x, double w, long) { a.Add(x, w); } };
template <> struct Feed<NaiveInteger> { __attribute__((noinline)) static void add(NaiveInteger& a, double, double, long n) { a.Add(n); } };
static double weight(const char* n) { return symD(n, 0.125, 8); }
template <class A> static void acc() { // any history, saved into an object with any other history, continued
  int n = (int)vp_concretize(symS("n", 0, vp_param("n", 2))), m = (int)vp_concretize(symS("m", 0, 1)), c = (int)vp_concretize(symS("more", 0, vp_param("more", 1))); bool reset = symB("reset");
  A a, b; for (int i = 0; i < n; i++) Feed<A>::add(a, val(nm("x", i).b), weight(nm("w", i).b), symS(nm("i", i).b, -1000, 1000)); for (int i = 0; i < m; i++) Feed<A>::add(b, val(nm("y", i).b), weight(nm("v", i).b), symS(nm("j", i).b, -1000, 1000));
  auto t = saveTape(a); auto before = t; loadTape(t, b); report(a, b); sameTapes(saveTape(a), before, "saving leaves the object alone"); sameTapes(saveTape(b), before, "saving again writes the same");
  if (reset) { a.Reset(); b.Reset(); report(a, b); } for (int i = 0; i < c; i++) { double x = val(nm("z", i).b), w = weight(nm("u", i).b); long k = symS(nm("k", i).b, -1000, 1000); Feed<A>::add(a, x, w, k); Feed<A>::add(b, x, w, k); report(a, b); } vp_cover("acc"); }
extern "C" void c19_kahan() { acc<KahanAccumulator>(); } extern "C" void c19_neumaier() { acc<NeumaierAccumulator>(); } extern "C" void c19_welford() { acc<KnuthWelfordAccumulator>(); } extern "C" void c19_west() { acc<WestAccumulator>(); } extern "C" void c19_naive() { acc<NaiveInteger>(); }
template <class A> __attribute__((noinline)) static void put(A& a, double x) { a.Add(x); }
template <class A> static void lossy() { // the parts a large value hides are saved as well
  int64_t B = (int64_t)1 << 60; int neg = (int)vp_concretize(symS("neg", 0, 1)), pos = (int)vp_concretize(symS("pos", 0, 1)); A a, b; double big = neg ? (double)-B : (double)B; long tot = 0;
  for (int i = 0; i < 3; i++) if (i == pos) put(a, big); else { long x = symS(nm("x", i).b, -600, 600); tot += x; put(a, (double)x); } put(b, (double)symS("y", -600, 600)); put(b, big);
  auto t = saveTape(a); loadTape(t, b); report(a, b); put(a, -big); put(b, -big); report(a, b); long z = symS("z", -600, 600); put(a, (double)z); put(b, (double)z); report(a, b); vp_cover("lossy"); }
extern "C" void c19_lossy_kahan() { lossy<KahanAccumulator>(); } extern "C" void c19_lossy_neumaier() { lossy<NeumaierAccumulator>(); }
template <class A> static void any() { // every restorable state
  A d; auto t = saveTape(d); for (auto& c : t) { VP_ASSERT(c.kind == 2 || c.kind >= 16, "numbers only"); if (c.kind == 2) c.d = vp_sym_f64("state"); else c.u = symU("state", 0, UINT64_MAX); } A a, b; loadTape(t, a); auto u = saveTape(a); sameTapes(u, t, "a checkpoint is kept as it is"); loadTape(u, b); VP_ASSERT(a.Count() == b.Count(), "reported count"); vp_cover("any"); }
extern "C" void c19_any() { int k = (int)vp_concretize(symS("k", 0, 4)); if (k == 0) any<KahanAccumulator>(); else if (k == 1) any<NeumaierAccumulator>(); else if (k == 2) any<KnuthWelfordAccumulator>(); else if (k == 3) any<WestAccumulator>(); else any<NaiveInteger>(); }
static void report(HistAccumulator const& a, HistAccumulator const& b) { VP_ASSERT(a.GetNbins() == b.GetNbins(), "number of bins"); VP_ASSERT(a.GetCount() == b.GetCount(), "number of measurements"); auto r = a.GetResults(), s = b.GetResults(); VP_ASSERT(r.size() == s.size(), "number of results"); if (r.size() != s.size()) return;
  for (size_t i = 0; i < a.GetNbins(); i++) { VP_ASSERT(a.GetCount(i) == b.GetCount(i), "count of a bin"); same(r[i], s[i]); same(a.GetResult(i), b.GetResult(i)); } }
extern "C" void c19_hist() {
  auto make = [](const char* sz, const char* k, const char* v, int n) { int bins = (int)vp_concretize(symS(sz, 0, 2)); HistAccumulator h; if (bins) h = HistAccumulator((size_t)bins); for (int i = 0; i < n; i++) h.ForceAdd((size_t)vp_concretize(symS(nm(k, i).b, 0, 2)), val(nm(v, i).b)); return h; };
  int n = (int)vp_concretize(symS("n", 0, vp_param("n", 2))), m = (int)vp_concretize(symS("m", 0, 1)); HistAccumulator a = make("bins", "k", "x", n), b = make("other", "l", "y", m); auto t = saveTape(a); auto before = t; loadTape(t, b); report(a, b); sameTapes(saveTape(a), before, "saving leaves the object alone"); sameTapes(saveTape(b), before, "saving again writes the same");
  int op = (int)vp_concretize(symS("op", 0, 3)); double z = val("z"); size_t k = (size_t)vp_concretize(symS("bin", 0, 3)); if (op == 0) { a.ForceAdd(k, z); b.ForceAdd(k, z); } else if (op == 1) { if (k < a.GetNbins()) { a.Add(k, z); b.Add(k, z); } } else if (op == 2) { a.Resize(k); b.Resize(k); } else { a.Reset(); b.Reset(); } report(a, b); vp_cover("hist"); }
using bwsl::montecarlo::MoveStats; using bwsl::montecarlo::MoveResult;
static void report(MoveStats const& a, MoveStats const& b) { VP_ASSERT(sameText(a.GetName(), b.GetName()), "name"); same(a.GetAcceptedRatio(), b.GetAcceptedRatio()); same(a.GetRejectedRatio(), b.GetRejectedRatio()); same(a.GetImpossibleRatio(), b.GetImpossibleRatio()); same(a.GetAverageProbability(), b.GetAverageProbability()); }
static bool step(MoveStats& s, int op, double p) { try { switch (op) { case 0: s.Propose(); break; case 1: s.Accept(p); break; case 2: s.Reject(p); break; case 3: s.Impossible(); break; default: s.Reset(); } return true; } catch (std::exception const&) { return false; } }
static double prob(const char* n) { return symD(n, 0, 1); }
extern "C" void c19_move() {
  int n = (int)vp_concretize(symS("n", 0, vp_param("n", 3))), m = (int)vp_concretize(symS("m", 0, vp_param("m", 2))); bool named = symB("named"), same = symB("same"); MoveStats a = named ? MoveStats("swap") : MoveStats(), b = same ? MoveStats("swap") : MoveStats("a move with a rather long name");
  for (int i = 0; i < n; i++) step(a, i & 1 ? (int)vp_concretize(symS(nm("op", i).b, 1, 3)) : 0, prob(nm("p", i).b)); for (int i = 0; i < m; i++) step(b, i & 1 ? 1 : 0, prob(nm("q", i).b));
  auto t = saveTape(a); auto before = t; loadTape(t, b); report(a, b); sameTapes(saveTape(a), before, "saving leaves the object alone"); sameTapes(saveTape(b), before, "saving again writes the same");
  for (int i = 0; i < vp_param("more", 2); i++) { int op = (int)vp_concretize(symS(nm("more", i).b, 0, 4)); double p = prob(nm("r", i).b); bool x = step(a, op, p), y = step(b, op, p); VP_ASSERT(x == y, "the same steps are refused"); report(a, b); } vp_cover("move"); }
extern "C" void c19_move_many() { // long histories of every mixture
  static const int N[] = {0, 1, 2, 5, 300}; auto some = [](const char* n) { return N[vp_concretize(symS(n, 0, 4))]; }; int x = some("a"), y = some("r"), z = some("i"); MoveStats a("swap"), b("flip"); double p = prob("p"), q = prob("q"); for (int i = 0; i < x; i++) a.Add(MoveResult::Accept(i ? 0.25 : p)); for (int i = 0; i < y; i++) a.Add(MoveResult::Reject(i ? 0.5 : q)); for (int i = 0; i < z; i++) a.Add(MoveResult::Impossible()); if (symB("pending")) a.Propose();
  auto t = saveTape(a); auto before = t; loadTape(t, b); report(a, b); sameTapes(saveTape(b), before, "saving again writes the same"); int op = (int)vp_concretize(symS("more", 0, 3)); double r = prob("p2"); bool u = step(a, op, r), v = step(b, op, r); VP_ASSERT(u == v, "the same steps are refused"); report(a, b); vp_cover("many"); }
template <class A> static void many() { // several hundred measurements
  static const int N[] = {4, 7, 255, 256, 300}; int n = N[vp_concretize(symS("n", 0, 4))]; A a, b; for (int i = 0; i < n; i++) Feed<A>::add(a, (double)(i % 7) - 2.5, 1.0 + (double)(i % 3), i % 7 - 2); double x = val("x"); long k = symS("k", -1000, 1000); Feed<A>::add(a, x, 2.0, k); auto t = saveTape(a); auto before = t; loadTape(t, b); report(a, b); sameTapes(saveTape(b), before, "saving again writes the same"); Feed<A>::add(a, 1.5, 1.0, 2); Feed<A>::add(b, 1.5, 1.0, 2); report(a, b); vp_cover("many"); }
extern "C" void c19_many() { int k = (int)vp_concretize(symS("kind", 0, 4)); if (k == 0) many<KahanAccumulator>(); else if (k == 1) many<NeumaierAccumulator>(); else if (k == 2) many<KnuthWelfordAccumulator>(); else if (k == 3) many<WestAccumulator>(); else many<NaiveInteger>(); }
extern "C" void c19_hist_many() { // a long histogram with one arbitrary entry
  static const int N[] = {3, 4, 255, 256, 300}; size_t n = (size_t)N[vp_concretize(symS("n", 0, 4))]; HistAccumulator a(n), b(2); for (size_t i = 0; i < n; i++) if (i % 3 != 1) a.Add(i, (double)i); double x = val("x"); a.Add(n - 1, x); a.Add(n / 2, 0.5); b.Add(1, 3.0); auto t = saveTape(a); auto before = t; loadTape(t, b); report(a, b); sameTapes(saveTape(b), before, "saving again writes the same"); a.Add(1, 2.0); b.Add(1, 2.0); report(a, b); vp_cover("many"); }
