// C11, C22, C26 and the observable-group part of C19: files the library writes or reads.
#include "vpio.hpp"
#include "tape.hpp"
#include <cmath>
#include <bwsl/Lattice.hpp>
#include <bwsl/MathUtils.hpp>
#include <bwsl/ObservableGroup.hpp>
#include <bwsl/FileUtils.hpp>
using namespace bwsl;
// ---------------------------------------------------------------- C26
static std::string bytes(const char* n, int len) { std::string s; for (int i = 0; i < len; i++) s.push_back((char)symByte(nm(n, (unsigned)i).b)); return s; }
static void compared(bool same) { bool x = compare_files("left.bin", "right.bin"), y = compare_files("right.bin", "left.bin"); VP_ASSERT(x == same, "equal exactly when length and bytes are"); VP_ASSERT(x == y, "the order does not matter"); VP_ASSERT(compare_files("left.bin", "left.bin") && compare_files("right.bin", "right.bin"), "a readable file equals itself"); if (same) vp_cover("same"); else vp_cover("differ"); }
extern "C" void c26_bytes() { int n = (int)vp_concretize(symS("n", 0, vp_param("n", 3))), m = (int)vp_concretize(symS("m", 0, vp_param("n", 3))); std::string a = bytes("a", n), b = bytes("b", m); putFile("left.bin", a); putFile("right.bin", b); int eq = n == m; for (int i = 0; i < n && i < m; i++) eq &= a[(size_t)i] == b[(size_t)i]; compared(eq); std::string c; VP_ASSERT(getFile("left.bin", c) && sameText(c, a) && getFile("right.bin", c) && sameText(c, b), "the files are left alone"); }
extern "C" void c26_missing() { int n = (int)vp_concretize(symS("n", 0, 2)); putFile("left.bin", bytes("a", n)); static const char* N[] = {"none.bin", "", "nodir/left.bin"}; const char* p = N[vp_concretize(symS("which", 0, 2))]; VP_ASSERT(!compare_files("left.bin", p), "missing second file"); VP_ASSERT(!compare_files(p, "left.bin"), "missing first file"); VP_ASSERT(!compare_files(p, p), "both missing"); vp_cover("missing"); }
extern "C" void c26_long() { // two long files differing by any byte at one of these positions, or by length, or not at all
  static const int L[] = {15, 16, 17, 64, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193}; int n = L[vp_concretize(symS("size", vp_param("lo", 0), vp_param("hi", 12)))]; std::string a((size_t)n, 'x'); for (int i = 0; i < n; i++) a[(size_t)i] = (char)(i * 7 + i / 256); std::string b = a; int k = (int)vp_concretize(symS("at", 0, 9)); int at = k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? n / 2 : k == 3 ? n - 2 : k == 4 ? 1 : k == 5 ? 7 : k == 6 ? 8 : k == 7 ? n / 3 : k == 8 ? n - 8 : (n & ~7) - 1;
  bool longer = symB("longer"), shorter = symB("shorter"); char c = (char)symByte("c"); b[(size_t)at] = c; bool same = c == a[(size_t)at]; if (longer) b.push_back((char)symByte("extra")); else if (shorter) b.pop_back(); if (longer || shorter) same = false; putFile("left.bin", a); putFile("right.bin", b); compared(same); }
extern "C" void c26_huge() { // one size, one arbitrary byte
  static const int L[] = {16385, 32768, 65536, 65537, 131073}; int n = L[vp_param("size", 0)], k = (int)vp_concretize(symS("at", 0, 3)), at = k == 0 ? n - 1 : k == 1 ? n - 2 : k == 2 ? n / 2 : 4096; std::string a((size_t)n, 'x'); for (int i = 0; i < n; i += 101) a[(size_t)i] = (char)(i / 101); std::string b = a; char c = (char)symByte("c"); b[(size_t)at] = c; bool same = c == a[(size_t)at], cut = symB("cut"); if (cut) { b.pop_back(); same = false; } putFile("left.bin", a); putFile("right.bin", b); bool x = compare_files("left.bin", "right.bin"), y = compare_files("right.bin", "left.bin"); VP_ASSERT(x == same, "equal exactly when length and bytes are"); VP_ASSERT(x == y, "the order does not matter"); vp_cover("huge"); }
extern "C" void c26_two() { // two differing positions (a difference never cancels another), any bytes
  int n = (int)vp_param("n", 40); std::string a((size_t)n, 'x'), b = a; int i = (int)vp_concretize(symS("i", 0, n - 1)), j = (int)vp_concretize(symS("j", 0, n - 1)); char p = (char)symByte("p"), q = (char)symByte("q"); b[(size_t)i] = p; b[(size_t)j] = q; bool same = q == 'x' && (i == j || p == 'x'); putFile("left.bin", a); putFile("right.bin", b); bool x = compare_files("left.bin", "right.bin"), y = compare_files("right.bin", "left.bin"); VP_ASSERT(x == same, "equal exactly when length and bytes are"); VP_ASSERT(x == y, "the order does not matter"); vp_cover("two"); }
// ---------------------------------------------------------------- C22
template <class K> struct Key; template <> struct Key<int> { static int make(int k) { static const int V[] = {-7, 0, 3, 12, 100}; return V[k]; } static std::string text(int k) { static const char* V[] = {"-7", "0", "3", "12", "100"}; return V[k]; } };
template <> struct Key<std::string> { static std::string make(int k) { return text(k); } static std::string text(int k) { static const char* V[] = {"Energy", "Mass", "mass", "x", "x2"}; return V[k]; } };
template <class K> struct Oracle { accumulators::KahanAccumulator acc[5]; bool on[5] = {false, false, false, false, false}; };
static double val(const char* n) { return symD(n, -1000, 1000); }
template <class K> static bool measure(ObservableGroup<K>& g, int k, double v) { try { g.Measure(Key<K>::make(k), v); return true; } catch (std::out_of_range const&) { return false; } }
static bool startsWith(std::string const& t, std::string const& p) { return t.size() >= p.size() && sameText(t.substr(0, p.size()), p); }
static bool header(std::string const& line, std::vector<std::string> const& keys, const char* last) { std::string e; for (auto const& k : keys) e += k + ","; return sameText(line, e + last); }
template <class K> static Cells headerCells(Oracle<K> const& o) { Cells c; for (int i = 0; i < 5; i++) if (o.on[i]) c.push_back(Key<K>::text(i)); c.push_back("Count"); return c; }
// the row written now: means in key order, then the number of measurements (when all observables agree on it)
template <class K> static void row(Oracle<K>& o, Cells const& r, int prec) { size_t n = 0; unsigned long cnt = 0; bool agree = true; for (int i = 0; i < 5; i++) if (o.on[i]) { VP_ASSERT(n < r.size() && isSci(r[n], o.acc[i].Mean(), prec), "mean of the observable with the requested precision"); if (n == 0) cnt = o.acc[i].Count(); else agree = agree && cnt == o.acc[i].Count(); n++; o.acc[i].Reset(); } VP_ASSERT(r.size() == n + 1, "one column per observable and the count"); if (agree && r.size() == n + 1) VP_ASSERT(isInt(r[n], cnt), "number of measurements"); }
template <class K> static void grp() { // any keys in any order, measurements, rows
  int n = (int)vp_concretize(symS("keys", 0, vp_param("keys", 2))); bool ctor = symB("ctor"); std::vector<K> ks; Oracle<K> o; for (int i = 0; i < n; i++) { int k = (int)vp_concretize(symS(nm("key", (unsigned)i).b, 0, vp_param("kinds", 3))); ks.push_back(Key<K>::make(k)); o.on[k] = true; }
  ObservableGroup<K> g = ctor ? ObservableGroup<K>("group.csv", ks) : ObservableGroup<K>("group.csv"); if (!ctor) for (auto const& k : ks) g.AddObservable(k); putFile("group.csv", "old,content\n1,2\n"); g.PrintHeaders(); size_t rows = 0; std::vector<int> dummy;
  std::string t; VP_ASSERT(getFile("group.csv", t), "the file exists"); { auto c = cellsOf(t); VP_ASSERT(c.size() == 1, "one header line replaces the old content"); if (c.size() != 1) return; auto e = headerCells(o); VP_ASSERT(c[0].size() == e.size(), "header columns"); if (c[0].size() != e.size()) return; for (size_t i = 0; i < e.size(); i++) VP_ASSERT(sameText(c[0][i], e[i]), "header lists the keys in order and the count"); }
  for (int s = 0; s < vp_param("ops", 3); s++) { int op = (int)vp_concretize(symS(nm("op", (unsigned)s).b, 0, 2)); int k = (int)vp_concretize(symS(nm("which", (unsigned)s).b, 0, vp_param("kinds", 3)));
    if (op == 0) { double v = val(nm("v", (unsigned)s).b); bool ok = measure(g, k, v); VP_ASSERT(ok == o.on[k], "unknown keys raise out-of-range"); if (o.on[k]) o.acc[k].Add(v); }
    else if (op == 1) { g.AddObservable(Key<K>::make(k)); o.on[k] = true; }
    else { int p = k == 0 ? 10 : k == 1 ? 3 : 17; std::string before; getFile("group.csv", before); if (k == 0) g.PrintAndReset(); else g.PrintAndReset((size_t)p); getFile("group.csv", t); VP_ASSERT(startsWith(t, before), "earlier lines stay"); auto c = cellsOf(t.substr(before.size())); VP_ASSERT(c.size() == 1, "one line per call"); if (c.size() != 1) return; row(o, c[0], p); rows++; } }
  std::string before; getFile("group.csv", before); g.PrintAndReset(12); getFile("group.csv", t); VP_ASSERT(startsWith(t, before), "earlier lines stay"); auto c = cellsOf(t.substr(before.size())); VP_ASSERT(c.size() == 1, "one line per call"); if (c.size() != 1) return; row(o, c[0], 12); vp_cover("group"); }
extern "C" void c22_int() { grp<int>(); } extern "C" void c22_text() { grp<std::string>(); }
template <class K> static void many() { // n keys inserted in any rotation, one measurement each round, two rounds
  int first = (int)vp_concretize(symS("first", 0, 4)), stepk = (int)vp_concretize(symS("step", 1, 4)), rounds = (int)vp_concretize(symS("rounds", 0, 3)); ObservableGroup<K> g("group.csv"); Oracle<K> o; for (int i = 0; i < 5; i++) { int k = (first + i * stepk) % 5; g.AddObservable(Key<K>::make(k)); o.on[k] = true; } g.PrintHeaders();
  for (int w = 0; w < 2; w++) { for (int r = 0; r < rounds; r++) for (int i = 0; i < 5; i++) { double v = val(nm("v", (unsigned)(w * 3 + r), (unsigned)i).b); VP_ASSERT(measure(g, i, v), "known key"); o.acc[i].Add(v); } if (w == 0) for (int i = 0; i < 5; i++) g.AddObservable(Key<K>::make(i)); g.PrintAndReset(6); std::string t; getFile("group.csv", t); auto c = cellsOf(t); VP_ASSERT(c.size() == (size_t)w + 2, "one more line"); if (c.size() != (size_t)w + 2) return; auto e = headerCells(o); VP_ASSERT(c[0].size() == e.size(), "header columns"); if (c[0].size() == e.size()) for (size_t i = 0; i < e.size(); i++) VP_ASSERT(sameText(c[0][i], e[i]), "header"); row(o, c.back(), 6); rounds = 3 - rounds; } vp_cover("many"); }
extern "C" void c22_many() { if (symB("text")) many<std::string>(); else many<int>(); }
extern "C" void c22_wide() { // n keys in scattered order, one arbitrary value for one of them, m measurements each, three rows
  static const int N[] = {17, 40, 130, 1}, R[] = {1, 2, 257}; int c = (int)vp_concretize(symS("n", 0, 3)), n = N[c], rounds = c == 0 ? R[vp_concretize(symS("rounds", 0, 2))] : c == 3 ? 65537 : 2, at = c == 3 ? 0 : (int)vp_concretize(symS("at", 0, 3)); at = at == 0 ? 0 : at == 1 ? n - 1 : at == 2 ? 16 : n / 2; double v = val("v"); ObservableGroup<int> g("group.csv"); std::vector<accumulators::KahanAccumulator> o((size_t)n); for (int i = 0; i < n; i++) g.AddObservable(((i * 7) % n) * 3 - 20); g.PrintHeaders(); size_t pos = 0; std::string t;
  getFile("group.csv", t); pos = t.size(); { auto h = cellsOf(t); VP_ASSERT(h.size() == 1 && h[0].size() == (size_t)n + 1, "header columns"); if (h.size() != 1 || h[0].size() != (size_t)n + 1) return; for (int i = 0; i < n; i++) VP_ASSERT(sameText(h[0][(size_t)i], std::to_string(i * 3 - 20)), "header lists the keys in order"); VP_ASSERT(isText(h[0].back(), "Count"), "and the count"); }
  for (int w = 0; w < 3; w++) { for (int r = 0; r < rounds; r++) for (int i = n - 1; i >= 0; i--) { double x = i == at && r == 0 ? v : (double)(i * 2 + r); g.Measure(i * 3 - 20, x); o[(size_t)i].Add(x); } bool refused = false; try { g.Measure(n * 3, 1.0); } catch (std::out_of_range const&) { refused = true; } VP_ASSERT(refused, "unknown keys raise out-of-range"); g.PrintAndReset(7); getFile("group.csv", t); VP_ASSERT(t.size() > pos, "one more line"); if (t.size() <= pos) return; auto c1 = cellsOf(t.substr(pos)); pos = t.size(); VP_ASSERT(c1.size() == 1 && c1[0].size() == (size_t)n + 1, "one column per observable and the count"); if (c1.size() != 1 || c1[0].size() != (size_t)n + 1) return; for (int i = 0; i < n; i++) { VP_ASSERT(isSci(c1[0][(size_t)i], o[(size_t)i].Mean(), 7), "mean of the observable with the requested precision"); o[(size_t)i].Reset(); } VP_ASSERT(isInt(c1[0][(size_t)n], (unsigned long)rounds), "number of measurements"); } vp_cover("many"); }
// ---------------------------------------------------------------- C19 (groups)
extern "C" void c19_group() { // a group with any history, saved into a group with any other history
  using G = ObservableGroup<std::string>; auto make = [](const char* file, const char* s, int max, const char* v) { G g{std::string(file)}; int n = (int)vp_concretize(symS(s, 0, max)); for (int i = 0; i < n; i++) g.AddObservable(Key<std::string>::make(i + (s[0] == 'o'))); for (int i = 0; i < n; i++) if (i < 1 || symB(nm("both", (unsigned)max).b)) g.Measure(Key<std::string>::make(i + (s[0] == 'o')), val(nm(v, (unsigned)i).b)); return g; };
  G a = make("first.csv", "keys", (int)vp_param("keys", 2), "v"), b = make("second.csv", "other", 2, "w"); putFile("first.csv", ""); putFile("second.csv", "untouched\n"); auto t = saveTape(a); auto before = t; loadTape(t, b); sameTapes(saveTape(a), before, "saving leaves the object alone"); sameTapes(saveTape(b), before, "saving again writes the same"); int k = (int)vp_concretize(symS("more", 0, 3)); if (k < 3) { double z = val("z"); bool x = measure(a, k, z), y = measure(b, k, z); VP_ASSERT(x == y, "the same keys are known"); }
  std::string A, B, C; a.PrintHeaders(); getFile("first.csv", A); b.PrintHeaders(); getFile("first.csv", B); VP_ASSERT(sameText(A, B), "headers"); a.PrintAndReset(); getFile("first.csv", A); b.PrintAndReset(); getFile("first.csv", C); VP_ASSERT(C.size() > A.size(), "both write to the same file"); auto l = cellsOf(C); VP_ASSERT(l.size() == 3, "header and two rows"); if (l.size() != 3) return; VP_ASSERT(l[1].size() == l[2].size(), "same columns"); if (l[1].size() == l[2].size()) for (size_t i = 0; i < l[1].size(); i++) {
#ifdef VP_STUB_STREAMS
    if (l[1][i].size() == 4 && l[1][i][0] == '\1' && l[2][i].size() == 4) { VpNum p = vpGetNum(l[1][i].data()), q = vpGetNum(l[2][i].data()); VP_ASSERT(vp_same_d(p.v, q.v) & (p.prec == q.prec) & (p.type == q.type), "same row"); continue; }
#endif
    VP_ASSERT(sameText(l[1][i], l[2][i]), "same row"); } getFile("second.csv", A); VP_ASSERT(isText(A, "untouched\n"), "the other file is left alone"); vp_cover("group"); }
// ---------------------------------------------------------------- C11
static bool col(std::string const& c, char k, unsigned d) { char t[3] = {k, (char)('0' + d), 0}; return isText(c, t); }
struct Open { const char* f; std::vector<Cells> c; bool ok = false; Open(const char* n) : f(n) { std::string t; bool b = getFile(n, t); VP_ASSERT(b, "the table is written"); if (!b) return; c = cellsOf(t); ok = !c.empty(); VP_ASSERT(ok, "there is a header"); } };
static void vec(Cells const& r, size_t at, std::vector<double> const& v, const char* label) { VP_ASSERT(at + v.size() <= r.size(), label); if (at + v.size() > r.size()) return; for (size_t d = 0; d < v.size(); d++) VP_ASSERT(isValue(r[at + d], v[d]), label); }
template <class F> static void perSite(Lattice const& l, const char* file, char name, F f) { Open t(file); if (!t.ok) return; unsigned D = (unsigned)l.GetDim(); size_t N = l.GetNumSites(); auto& h = t.c[0]; VP_ASSERT(h.size() == D + 1 && isText(h[0], "i"), "header"); if (h.size() != D + 1) return; for (unsigned d = 0; d < D; d++) VP_ASSERT(col(h[d + 1], name, d), "header");
  VP_ASSERT(t.c.size() == N + 1, "one row per site"); if (t.c.size() != N + 1) return; for (size_t i = 0; i < N; i++) { auto& r = t.c[i + 1]; VP_ASSERT(r.size() == h.size(), "a row has the columns of the header"); VP_ASSERT(!r.empty() && isInt(r[0], i), "rows are in index order"); vec(r, 1, f(i), "the row holds what the query returns"); } }
static void tables(Lattice const& l, bool closed, bool all) { putFile("t.csv", "stale,content\n1,2\n3,4\n5,6\n7,8\n9,9\n9,9\n9,9\n9,9\n9,9\n9,9\n9,9\n9,9\n9,9\n9,9\n9,9\n9,9\n9,9\n");
  l.SavePositions("t.csv"); perSite(l, "t.csv", 'x', [&](size_t i) { return l.GetPosition(i); }); l.SaveDistances("t.csv"); perSite(l, "t.csv", 'd', [&](size_t i) { return l.GetVector(0, i); }); if (closed) { l.SaveMomenta("t.csv"); perSite(l, "t.csv", 'k', [&](size_t i) { return l.GetMomentum(i); }); } if (!all) return;
  l.SavePairs("t.csv"); Open t("t.csv"); if (!t.ok) return; unsigned D = (unsigned)l.GetDim(); size_t N = l.GetNumSites(); auto& h = t.c[0]; VP_ASSERT(h.size() == 3 * D + 3, "pairs header"); if (h.size() != 3 * D + 3) return; VP_ASSERT(isText(h[0], "i") && isText(h[1], "a") && isText(h[2], "b"), "pairs header"); for (unsigned d = 0; d < D; d++) VP_ASSERT(col(h[3 + d], 'x', d) && col(h[3 + D + d], 'y', d) && col(h[3 + 2 * D + d], 'd', d), "pairs header");
  size_t P = N * N; VP_ASSERT(t.c.size() == P + 1, "one row per pair"); if (t.c.size() != P + 1) return; for (size_t i = 0; i < P; i++) { auto& r = t.c[i + 1]; VP_ASSERT(r.size() == h.size(), "a row has the columns of the header"); if (r.size() != h.size()) return; VP_ASSERT(isInt(r[0], i), "rows are in pair-index order"); auto p = pairs::GetPair(i, N); size_t a = std::get<0>(p), b = std::get<1>(p); VP_ASSERT(isInt(r[1], a) && isInt(r[2], b), "the pair of that index"); vec(r, 3, l.GetVector(0, a), "first site"); vec(r, 3 + D, l.GetVector(0, b), "second site"); vec(r, 3 + 2 * D, l.GetVector(a, b), "vector of the pair"); } vp_cover(closed ? "closed" : "open"); }
using B = HyperCubicGrid::boundaries_t;
static std::vector<unsigned long> sidesOf(int d, int max) { std::vector<unsigned long> s; for (int i = 0; i < d; i++) s.push_back((unsigned long)vp_concretize(symS(nm("side", (unsigned)i).b, 1, max))); return s; }
extern "C" void c11_predefined() { int k = (int)vp_param("lattice", 0); const Bravais& b = k == 0 ? ChainLattice : k == 1 ? SquareLattice : k == 2 ? CubicLattice : TriangularLattice; bool closed = symB("closed"); Lattice l(b, sidesOf((int)b.GetDim(), (int)vp_param("max", 2)), closed ? B::Closed : B::Open); tables(l, closed, true); }
extern "C" void c11_large() { // lattices of hundreds of sites (all pairs up to 20 sites)
  int w = (int)vp_concretize(symS("which", vp_param("lo", 0), vp_param("hi", 6))); bool closed = symB("closed"); B bc = closed ? B::Closed : B::Open; if (w < 3) { Lattice l(w == 0 ? ChainLattice : w == 1 ? SquareLattice : TriangularLattice, w == 0 ? std::vector<unsigned long>{17} : w == 1 ? std::vector<unsigned long>{3, 6} : std::vector<unsigned long>{6, 3}, bc); tables(l, closed, true); }
  else { Lattice l(w == 3 ? ChainLattice : w == 4 ? SquareLattice : w == 5 ? TriangularLattice : CubicLattice, w == 3 ? std::vector<unsigned long>{301} : w == 4 ? std::vector<unsigned long>{17, 16} : w == 5 ? std::vector<unsigned long>{13, 20} : std::vector<unsigned long>{6, 7, 7}, bc); tables(l, closed, false); vp_cover(closed ? "closed" : "open"); } }
extern "C" void c11_custom() { // any primitive and reciprocal vectors
  int d = (int)vp_param("dim", 1); std::vector<double> p, g; for (int i = 0; i < d * d; i++) { p.push_back(symD(nm("p", (unsigned)i).b, -100, 100)); g.push_back(symD(nm("g", (unsigned)i).b, -100, 100)); } Bravais b((size_t)d, 0, p, g, {}); bool closed = vp_param("open", 0) ? false : symB("closed"); Lattice l(b, sidesOf(d, (int)vp_param("max", 3)), closed ? B::Closed : B::Open); tables(l, closed, true); }
