// C05-C10 (and the winding half of C03): Bravais and Lattice through their public API.
#include "vp.h"
#include <bwsl/Bravais.hpp>
#include <bwsl/Lattice.hpp>
using namespace bwsl;
using rv = std::vector<double>;
using cv = std::vector<long>;
using B = HyperCubicGrid::boundaries_t;
static bool near(double a, double b, double tol = 1e-8) { double d = a - b; return (d <= tol) & (-d <= tol); }
static rv symMat(const char* n, int d, double lo, double hi) { rv m; for (int i = 0; i < d * d; i++) m.push_back(vp_param("intvec", 0) ? symDI(nm(n, i).b, (int64_t)lo, (int64_t)hi) : symD(nm(n, i).b, lo, hi)); return m; }
static cv symVec(const char* n, int d, int64_t lo, int64_t hi) { cv c; for (int i = 0; i < d; i++) c.push_back(symS(nm(n, i).b, lo, hi)); return c; }
static rv dummyDual(int d) { return rv((size_t)d * d, 0.0); }
// reference: position = sum_j c_j a_j with a_j = (pv[j*d], ..., pv[j*d+d-1])
static double refPos(const rv& pv, const cv& c, int d, int comp) { double s = 0; for (int j = 0; j < d; j++) s += (double)c[j] * pv[j * d + comp]; return s; }

// ---------------------------------------------------------------- C05
extern "C" void c05_position() {
  int d = (int)vp_param("dim", 2); long R = vp_param("range", 1000);
  rv pv = symMat("p", d, -100, 100); Bravais b(d, 0, pv, dummyDual(d), {});
  cv x = symVec("x", d, -R, R), y = symVec("y", d, -R, R);
  auto px = b.GetRealSpace(x); auto v = b.GetVector(x, y);
  VP_ASSERT((px.size() == (size_t)d) & (v.size() == (size_t)d), "dimension");
  cv diff; for (int i = 0; i < d; i++) diff.push_back(y[i] - x[i]);
  auto pd = b.GetRealSpace(diff);
  for (int i = 0; i < d; i++) {
    VP_ASSERT(vp_same_d(px[i], refPos(pv, x, d, i)), "position is the integer combination");
    VP_ASSERT(vp_same_d(v[i], refPos(pv, diff, d, i)), "displacement");
    VP_ASSERT(vp_same_d(v[i], pd[i]), "displacement is position of the difference");
    vp_obs_d("v", v[i]);
  }
  VP_ASSERT((b.GetDim() == (size_t)d) & (b.GetGamma() == 0), "dim and gamma");
  vp_cover("pos");
}
extern "C" void c05_distance() {
  int d = (int)vp_param("dim", 2); long R = vp_param("range", 1000);
  rv pv = symMat("p", d, -100, 100); Bravais b(d, 0, pv, dummyDual(d), {});
  cv x = symVec("x", d, -R, R), y = symVec("y", d, -R, R), t = symVec("t", d, -R, R);
  auto v = b.GetVector(x, y); double s = 0; for (int i = 0; i < d; i++) s += v[i] * v[i];
  double r = b.GetDistance(x, y);
  VP_ASSERT(vp_same_d(r, std::sqrt(s)), "distance is the norm");
  VP_ASSERT(vp_same_d(b.GetDistance(y, x), r), "symmetric");
  VP_ASSERT(vp_same_d(b.GetDistance(x, x), 0.0), "zero to itself");
  VP_ASSERT(r >= 0, "non-negative");
  cv xt = x, yt = y; for (int i = 0; i < d; i++) { xt[i] += t[i]; yt[i] += t[i]; }
  VP_ASSERT(vp_same_d(b.GetDistance(xt, yt), r), "translation invariant");
  auto dv = b.GetDistanceVector(x, y);
  VP_ASSERT(vp_same_d(dv.first, r), "combined query distance"); VP_ASSERT(dv.second.size() == (size_t)d, "combined size");
  for (int i = 0; i < d; i++) VP_ASSERT(vp_same_d(dv.second[i], v[i]), "combined query vector");
  vp_cover("dist");
}
// ---------------------------------------------------------------- C06
// dual matrix: dual[j*d+i] with dual_j . a_k = delta_jk, written through the adjugate with di = 1/det
static rv symDual(const rv& a, int d) {
  double di = symD("di", -1e6, 1e6); rv g(d * d);
  if (d == 1) { VP_ASSUME(a[0] * di == 1.0); g[0] = di; return g; }
  if (d == 2) { VP_ASSUME((a[0] * a[3] - a[1] * a[2]) * di == 1.0); g[0] = a[3] * di; g[1] = -a[2] * di; g[2] = -a[1] * di; g[3] = a[0] * di; return g; }
  double c00 = a[4] * a[8] - a[5] * a[7], c01 = a[5] * a[6] - a[3] * a[8], c02 = a[3] * a[7] - a[4] * a[6];
  VP_ASSUME((a[0] * c00 + a[1] * c01 + a[2] * c02) * di == 1.0);
  g[0] = c00 * di; g[1] = c01 * di; g[2] = c02 * di;
  g[3] = (a[2] * a[7] - a[1] * a[8]) * di; g[4] = (a[0] * a[8] - a[2] * a[6]) * di; g[5] = (a[1] * a[6] - a[0] * a[7]) * di;
  g[6] = (a[1] * a[5] - a[2] * a[4]) * di; g[7] = (a[2] * a[3] - a[0] * a[5]) * di; g[8] = (a[0] * a[4] - a[1] * a[3]) * di;
  return g;
}
extern "C" void c06_reciprocal() {
  int d = (int)vp_param("dim", 2); rv g = symMat("g", d, -100, 100); Bravais b(d, 0, dummyDual(d), g, {});
  long R = vp_param("range", 100); cv n = symVec("n", d, -R, R); auto k = b.GetReciprocalSpace(n);
  VP_ASSERT(k.size() == (size_t)d, "dimension");
  for (int i = 0; i < d; i++) VP_ASSERT(vp_same_d(k[i], 2 * M_PI * refPos(g, n, d, i)), "2 pi times the dual combination");
  vp_cover("rec");
}
extern "C" void c06_inverse() {
  int d = (int)vp_param("dim", 2); rv a = symMat("a", d, -100, 100); rv g = symDual(a, d); Bravais b(d, 0, a, g, {});
  long R = vp_param("range", 100); cv n = symVec("n", d, -R, R); auto r = b.GetInverseVector(b.GetRealSpace(n));
  VP_ASSERT(r.size() == (size_t)d, "dimension");
  for (int i = 0; i < d; i++) VP_ASSERT(vp_same_d(r[i], (double)n[i]), "inverse of position is the coordinates");
  vp_cover("inv");
}
// the same on integer unimodular matrices (all arithmetic exact in doubles), exact mode
extern "C" void c06_inverse_int() {
  int d = (int)vp_param("dim", 2); long M = vp_param("m", 3);
  rv a, g; // products of shears: a = upper(u) * lower(l), integer inverse by construction
  if (d == 1) { double s = symB("neg") ? -1.0 : 1.0; a = {s}; g = {s}; }
  else if (d > 2) { std::vector<long> A((size_t)(d * d)), G((size_t)(d * d)); for (int i = 0; i < d; i++) A[(size_t)(i * d + i)] = G[(size_t)(i * d + i)] = 1; for (int i = 0; i < d; i++) { int k = (i + 1) % d; long u = symS(nm("u", (unsigned)i).b, -M, M); for (int j = 0; j < d; j++) { A[(size_t)(i * d + j)] += u * A[(size_t)(k * d + j)]; } for (int j = 0; j < d; j++) G[(size_t)(k * d + j)] -= u * G[(size_t)(i * d + j)]; }
    for (int i = 0; i < d * d; i++) { a.push_back((double)A[(size_t)i]); g.push_back((double)G[(size_t)i]); } }
  else { long u = symS("u", -M, M), l = symS("l", -M, M); // A = [[1+u*l, u],[l, 1]] (rows are vectors), det 1
    a = {(double)(1 + u * l), (double)u, (double)l, 1.0}; g = {1.0, (double)-l, (double)-u, (double)(1 + u * l)}; }
  Bravais b(d, 0, a, g, {}); cv n = symVec("n", d, -1000, 1000);
  auto r = b.GetInverseVector(b.GetRealSpace(n));
  for (int i = 0; i < d; i++) VP_ASSERT(r[i] == (double)n[i], "inverse of position is the coordinates");
  vp_cover("inv");
}
static const Bravais& pre(int k) { switch (k) { case 0: return ChainLattice; case 1: return SquareLattice; case 2: return CubicLattice; default: return TriangularLattice; } }
extern "C" void c06_predefined() {
  int k = (int)vp_concretize(symS("lattice", 0, 3)); const Bravais& b = pre(k); int d = (int)b.GetDim();
  static const int dims[] = {1, 2, 3, 2}, gam[] = {2, 4, 6, 6};
  VP_ASSERT((d == dims[k]) & ((int)b.GetGamma() == gam[k]), "dimension and coordination");
  for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) { cv ei(d, 0), ej(d, 0); ei[i] = 1; ej[j] = 1; auto g = b.GetReciprocalSpace(ei); auto r = b.GetRealSpace(ej); double s = 0; for (int c = 0; c < d; c++) s += g[c] * r[c]; VP_ASSERT(near(s, i == j ? 2 * M_PI : 0.0), "dual bases"); }
  // all nearest neighbours are unit vectors, mutually distinct
  cv o(d, 0);
  for (int q = 0; q < gam[k]; q++) VP_ASSERT(near(b.GetDistance(o, b.GetNeighbor(o, q)), 1.0), "nearest neighbours at unit distance");
  cv n = symVec("n", d, -50, 50); auto r = b.GetInverseVector(b.GetRealSpace(n));
  for (int i = 0; i < d; i++) VP_ASSERT(near(r[i], (double)n[i]), "inverse of position is the coordinates");
  vp_cover("pre");
}
// ---------------------------------------------------------------- C07
extern "C" void c07_bravais() {
  int d = (int)vp_param("dim", 2), half = (int)vp_param("half", 2);
  long R = vp_param("range", 1000); cv dirs; for (int i = 0; i < half * d; i++) dirs.push_back(symS(nm("v", i).b, -R, R));
  Bravais b(d, 2 * half, dummyDual(d), dummyDual(d), dirs); cv x = symVec("x", d, -100 * R, 100 * R);
  for (int k = 0; k < half; k++) { auto p = b.GetNeighbor(x, 2 * k), q = b.GetNeighbor(x, 2 * k + 1); VP_ASSERT((p.size() == (size_t)d) & (q.size() == (size_t)d), "dimension");
    for (int i = 0; i < d; i++) { VP_ASSERT(p[i] == x[i] + dirs[k * d + i], "even neighbour adds the direction"); VP_ASSERT(q[i] == x[i] - dirs[k * d + i], "odd neighbour subtracts it"); vp_obs_i("p", p[i]); } }
  VP_ASSERT(b.GetGamma() == (size_t)(2 * half), "coordination"); vp_cover("nn");
}
static long wrapRef(long x, long L) { long r = x % L; return r < 0 ? r + L : r; }
static void checkNeighbours(const Lattice& l, const Bravais& b, const std::vector<size_t>& L, bool closed) {
  int d = (int)L.size(); size_t n = l.GetNumSites(); int gam = (int)b.GetGamma();
  std::vector<std::vector<size_t>> ref(n);
  for (size_t i = 0; i < n; i++) {
    cv c = l.GetCoordinates(i);
    for (int k = 0; k < gam; k++) { cv y = b.GetNeighbor(c, k); bool on = true; for (int q = 0; q < d; q++) if (y[q] < 0 || y[q] >= (long)L[q]) { on = false; break; }
      if (closed || on) { size_t h = 0; for (int q = 0; q < d; q++) h = h * L[q] + (size_t)wrapRef(y[q], (long)L[q]); ref[i].push_back(h); } }
    auto const& nn = l.GetNeighbors(i);
    VP_ASSERT(nn.size() == ref[i].size(), "number of neighbours");
    for (size_t k = 0; k < nn.size(); k++) { VP_ASSERT(nn[k] == ref[i][k], "neighbour is the periodic image"); VP_ASSERT(nn[k] < n, "neighbour is a valid site"); }
    VP_ASSERT(l.GetCoordination(i) == nn.size(), "coordination of site"); if (closed) VP_ASSERT(l.GetCoordination(i) == (size_t)gam, "coordination closed");
  }
  VP_ASSERT(l.GetCoordination() == l.GetNeighbors(0).size(), "coordination of lattice");
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { int in = 0; for (auto x : ref[i]) in |= x == j; VP_ASSERT(l.AreNeighbors(i, j) == (bool)in, "adjacency agrees with the list"); VP_ASSERT(l.AreNeighbors(i, j) == l.AreNeighbors(j, i), "symmetric"); }
}
static std::vector<size_t> cSides(int d, int mx, int mn = 1) { std::vector<size_t> s; for (int i = 0; i < d; i++) s.push_back((size_t)vp_concretize(symS(nm("L", i).b, mn, mx))); return s; }
extern "C" void c07_lattice() { // predefined lattices, all sides, both boundaries
  int k = (int)vp_param("lattice", 3); const Bravais& b = pre(k); auto s = cSides((int)b.GetDim(), (int)vp_param("max", 3)); bool closed = vp_concretize(symB("closed"));
  Lattice l(b, s, closed ? B::Closed : B::Open); checkNeighbours(l, b, s, closed); vp_cover(closed ? "closed" : "open");
}
extern "C" void c07_custom() { // arbitrary neighbour directions
  int d = (int)vp_param("dim", 2), half = (int)vp_param("half", 1); long R = vp_param("range", 3); auto s = cSides(d, (int)vp_param("max", 3)); bool closed = vp_concretize(symB("closed"));
  cv dirs; for (int i = 0; i < half * d; i++) dirs.push_back(symS(nm("v", i).b, -R, R));
  Bravais b(d, 2 * half, dummyDual(d), dummyDual(d), dirs);
  Lattice l(b, s, closed ? B::Closed : B::Open); checkNeighbours(l, b, s, closed); vp_cover(closed ? "closed" : "open");
}
// ---------------------------------------------------------------- C08
static void checkDistances(const Lattice& l, const rv& pv, const std::vector<size_t>& L, bool closed, size_t a, size_t b) {
  int d = (int)L.size(); cv ca = l.GetCoordinates(a), cb = l.GetCoordinates(b);
  auto v = l.GetVector(a, b); VP_ASSERT(v.size() == (size_t)d, "vector dimension");
  double s = 0; for (int i = 0; i < d; i++) s += v[i] * v[i];
  double r = l.GetDistance(a, b);
  VP_ASSERT((r >= 0) & near(r * r, s, 1e-7), "distance is the norm of the vector");
  VP_ASSERT(near(l.GetDistance(b, a), r), "same in both directions");
  cv df; for (int i = 0; i < d; i++) df.push_back(cb[i] - ca[i]);
  if (!closed) { for (int i = 0; i < d; i++) VP_ASSERT(near(v[i], refPos(pv, df, d, i)), "open: plain displacement"); }
  else {
    size_t nim = 1; for (int i = 0; i < d; i++) nim *= 5;
    cv w = df; for (int i = 0; i < d; i++) w[i] = wrapRef(df[i], (long)L[i]); // displacement reduced to the cell
    int isImage = 0;
    for (size_t k = 0; k < nim; k++) { cv c = w; size_t t = k; bool first = true; for (int i = 0; i < d; i++) { long sh = (long)(t % 5) - 2; t /= 5; c[i] += sh * (long)L[i]; first &= (sh >= -1) & (sh <= 1); }
      double q = 0; int eq = 1; for (int i = 0; i < d; i++) { double p = refPos(pv, c, d, i); q += p * p; eq &= near(v[i], p); } isImage |= eq;
      if (first) VP_ASSERT(s <= q + 1e-7, "closed: no shorter image in the first shell"); }
    VP_ASSERT(isImage, "closed: vector is a periodic image of the displacement");
    // depends on the relative position only
    size_t m = l.GetMappedSite(a, b); auto v0 = l.GetVector(0, m); for (int i = 0; i < d; i++) VP_ASSERT(near(v0[i], v[i]), "depends only on the relative site");
  }
  auto pa = l.GetPosition(a); auto p0 = cv(d, 0); for (int i = 0; i < d; i++) VP_ASSERT(near(pa[i], refPos(pv, ca, d, i)), "position measured from site 0");
}
static rv vectorsOf(const Bravais& b) { int d = (int)b.GetDim(); rv r; for (int j = 0; j < d; j++) { cv e(d, 0); e[j] = 1; auto p = b.GetRealSpace(e); for (auto x : p) r.push_back(x); } return r; }
extern "C" void c08_predefined() {
  int k = (int)vp_param("lattice", 3); const Bravais& b = pre(k); auto s = cSides((int)b.GetDim(), (int)vp_param("max", 3)); bool closed = vp_concretize(symB("closed"));
  Lattice l(b, s, closed ? B::Closed : B::Open); rv pv = vectorsOf(b);
  size_t x = (size_t)vp_concretize(symS("a", 0, (int64_t)l.GetNumSites() - 1)), y = (size_t)vp_concretize(symS("b", 0, (int64_t)l.GetNumSites() - 1));
  checkDistances(l, pv, s, closed, x, y); vp_cover(closed ? "closed" : "open");
}
extern "C" void c08_custom() { // any integer primitive vectors
  int d = (int)vp_param("dim", 2); long R = vp_param("range", 3); auto s = cSides(d, (int)vp_param("max", 2), (int)vp_param("min", 1)); bool closed = vp_param("closed", 1);
  rv pv; for (int i = 0; i < d * d; i++) pv.push_back(vp_param("conc", 0) ? (double)vp_concretize(symS(nm("p", i).b, -R, R)) : symDI(nm("p", i).b, -R, R));
  Bravais b(d, 0, pv, dummyDual(d), {}); Lattice l(b, s, closed ? B::Closed : B::Open);
  size_t n = l.GetNumSites(); size_t x = (size_t)vp_concretize(symS("a", 0, (int64_t)n - 1)), y = (size_t)vp_concretize(symS("b", 0, (int64_t)n - 1));
  checkDistances(l, pv, s, closed, x, y); vp_cover(closed ? "closed" : "open");
}
extern "C" void c08_skew() { // a1 = (1,0), a2 = (skew, h): every real skew
  auto s = cSides(2, (int)vp_param("max", 3), (int)vp_param("min", 2)); double h = (double)vp_concretize(symS("h2", 1, vp_param("h", 3))) * 0.5, k = symD("skew", -1.5, 1.5);
  rv pv = {1.0, 0.0, k, h}; Bravais b(2, 0, pv, dummyDual(2), {}); Lattice l(b, s); size_t n = l.GetNumSites(); size_t y = (size_t)vp_concretize(symS("b", 0, (int64_t)n - 1));
  checkDistances(l, pv, s, true, 0, y); vp_cover("closed");
}
// ---------------------------------------------------------------- C09
static void checkMomenta(const Lattice& l, const rv& a, const std::vector<size_t>& L, double tol) {
  int d = (int)L.size(); size_t n = l.GetNumSites();
  for (size_t i = 0; i < n; i++) { auto k = l.GetMomentum(i); cv c = l.GetCoordinates(i); VP_ASSERT(k.size() == (size_t)d, "momentum dimension");
    bool mid = true;
    for (int q = 0; q < d; q++) { double ph = 0; for (int m = 0; m < d; m++) ph += k[m] * a[q * d + m]; long nn = c[q] - (long)(L[q] / 2); mid &= nn == 0;
      double box = ph * (double)L[q]; VP_ASSERT(tol > 0 ? near(box, 2 * M_PI * (double)nn, tol) : vp_same_d(box, 2 * M_PI * (double)nn), "phase along the box is a multiple of 2 pi"); }
    if (mid) for (int m = 0; m < d; m++) VP_ASSERT(near(k[m], 0.0), "zero momentum at the middle"); }
}
extern "C" void c09_predefined() {
  int k = (int)vp_param("lattice", 3); const Bravais& b = pre(k); auto s = cSides((int)b.GetDim(), (int)vp_param("max", 4));
  Lattice l(b, s); checkMomenta(l, vectorsOf(b), s, 1e-8); vp_cover("pre");
}
extern "C" void c09_custom() {
  int d = (int)vp_param("dim", 2); auto s = cSides(d, (int)vp_param("max", 3)); rv a = symMat("a", d, -100, 100); rv g = symDual(a, d);
  Bravais b(d, 0, a, g, {}); Lattice l(b, s); checkMomenta(l, a, s, 0); vp_cover("custom");
}
extern "C" void c09_skew() { // skewed integer bases of determinant one, every pair of sides
  long M = vp_param("m", 1); auto s = cSides(2, (int)vp_param("max", 3)); long u = vp_concretize(symS("u", -M, M)), w = vp_concretize(symS("w", -M, M));
  rv a = {(double)(1 + u * w), (double)u, (double)w, 1.0}, g = {1.0, (double)-w, (double)-u, (double)(1 + u * w)};
  Bravais b(2, 0, a, g, {}); Lattice l(b, s); checkMomenta(l, a, s, 1e-8); vp_cover("skew");
}
// ---------------------------------------------------------------- C10
extern "C" void c10_sk() {
  int k = (int)vp_param("lattice", 0); const Bravais& b = pre(k); auto s = cSides((int)b.GetDim(), (int)vp_param("max", 3)); int d = (int)s.size();
  Lattice l(b, s); size_t n = l.GetNumSites(); rv occ, sk, pre0; double mult = symD("mult", vp_param("mlo", -4), vp_param("mhi", 4));
  for (size_t i = 0; i < n; i++) { occ.push_back(symD(nm("o", i).b, -2.0, 2.0)); sk.push_back(0); pre0.push_back(symD(nm("s", i).b, -10.0, 10.0)); }
  sk = pre0; l.AccumulateSk(occ, sk, mult); auto full = l.ComputeSk(occ, mult); VP_ASSERT((sk.size() == n) & (full.size() == n), "one value per momentum");
  for (size_t i = 0; i < n; i++) { auto q = l.GetMomentum(i); double re = 0, im = 0, tot = 0; bool zero = true;
    for (size_t j = 0; j < n; j++) { auto r = l.GetPosition(j); double p = 0; for (int m = 0; m < d; m++) p += q[m] * r[m]; re += cos(p) * occ[j]; im += sin(p) * occ[j]; tot += occ[j]; }
    for (int m = 0; m < d; m++) zero &= (q[m] == 0);
    double e = mult * (re * re + im * im) / ((double)n * (double)n);
    VP_ASSERT(near(full[i], e, 1e-6), "normalised squared Fourier amplitude"); VP_ASSERT((mult < 0) | (full[i] >= -1e-9), "non-negative"); VP_ASSERT(near(sk[i] - pre0[i], e, 1e-6), "accumulates exactly that");
    if (zero) VP_ASSERT(near(full[i], mult * (tot / n) * (tot / n), 1e-6), "zero momentum: squared mean"); }
  vp_cover("sk");
}
extern "C" void c10_open() {
  int k = (int)vp_param("lattice", 0); const Bravais& b = pre(k); auto s = cSides((int)b.GetDim(), (int)vp_param("max", 3)); Lattice l(b, s, B::Open); size_t n = l.GetNumSites();
  rv occ, sk; for (size_t i = 0; i < n; i++) { occ.push_back(symD(nm("o", i).b, -2.0, 2.0)); sk.push_back(symD(nm("s", i).b, -10.0, 10.0)); } rv old = sk;
  double mult = symD("mult", -4.0, 4.0); l.AccumulateSk(occ, sk, mult); for (size_t i = 0; i < n; i++) VP_ASSERT(sk[i] == old[i], "open: accumulation changes nothing");
  auto f = l.ComputeSk(occ, mult); VP_ASSERT(f.size() == n, "one value per site"); for (size_t i = 0; i < n; i++) VP_ASSERT(f[i] == 0.0, "open: all zero"); vp_cover("open");
}
// ---------------------------------------------------------------- C07-C11 on lattices too large for 8-bit counters
struct Shape { int lattice; size_t L[3]; }; static const Shape big[] = {{0, {301}}, {1, {17, 16}}, {3, {18, 15}}, {2, {7, 6, 7}}, {0, {260}}, {3, {16, 18}}};
static Shape const& bigShape(std::vector<size_t>& s) { int lo = (int)vp_param("lo", 0), hi = (int)vp_param("hi", 3); Shape const& r = big[lo + (int)vp_concretize(symS("shape", 0, hi - lo))]; for (int i = 0; i < 3 && r.L[i]; i++) s.push_back(r.L[i]); return r; }
extern "C" void c07_large() { std::vector<size_t> s; const Bravais& b = pre(bigShape(s).lattice); bool closed = vp_concretize(symB("closed")); Lattice l(b, s, closed ? B::Closed : B::Open); int d = (int)s.size(); size_t n = l.GetNumSites();
  for (size_t i = 0; i < n; i++) { cv c = l.GetCoordinates(i); auto const& nn = l.GetNeighbors(i); size_t at = 0; bool same = true; for (size_t k = 0; k < b.GetGamma(); k++) { cv y = b.GetNeighbor(c, k); bool on = true; size_t h = 0; for (int q = 0; q < d; q++) { on &= (y[q] >= 0) & (y[q] < (long)s[q]); h = h * s[q] + (size_t)wrapRef(y[q], (long)s[q]); } if (closed || on) { same &= at < nn.size() && nn[at] == h; at++; same &= l.AreNeighbors(i, h) && l.AreNeighbors(h, i); } } VP_ASSERT(same, "neighbour is the periodic image"); VP_ASSERT((nn.size() == at) & (l.GetCoordination(i) == at), "number of neighbours");
    bool agree = true; for (size_t far = 0; far < n; far++) { bool listed = false; for (auto x : nn) listed |= x == far; agree &= l.AreNeighbors(i, far) == listed; } VP_ASSERT(agree, "adjacency agrees with the list"); }
  vp_cover(closed ? "closed" : "open"); }
extern "C" void c08_large() { std::vector<size_t> s; const Bravais& b = pre(bigShape(s).lattice); bool closed = vp_concretize(symB("closed")); Lattice l(b, s, closed ? B::Closed : B::Open); rv pv = vectorsOf(b); size_t n = l.GetNumSites(); size_t a = (size_t)vp_concretize(symS("a", 0, 2)) * (n / 2 - 1); for (size_t y = 0; y < n; y++) checkDistances(l, pv, s, closed, a, y); vp_cover(closed ? "closed" : "open"); }
extern "C" void c09_large() { std::vector<size_t> s; const Bravais& b = pre(bigShape(s).lattice); Lattice l(b, s); checkMomenta(l, vectorsOf(b), s, 1e-7); vp_cover("large"); }
extern "C" void c10_large() { // one occupied pair of sites with any real occupations on a larger lattice
  std::vector<size_t> s; const Bravais& b = pre(bigShape(s).lattice); Lattice l(b, s); size_t n = l.GetNumSites(), d = s.size(), p = n - 2, q = n / 2; rv occ(n, 0.0), sk(n, 0.0); double u = vp_param("conc", 0) ? 0.5 + (double)vp_concretize(symS("u", -1, 1)) : symD("u", -4, 4), v = vp_param("conc", 0) ? -1.25 : symD("v", -4, 4); occ[p] = u; occ[q] = v; l.AccumulateSk(occ, sk, 2.0);
  VP_ASSERT(sk.size() == n, "one value per momentum"); for (size_t i = 0; i < n; i++) { auto k = l.GetMomentum(i); auto x = l.GetPosition(p), y = l.GetPosition(q); double f = 0, g = 0; for (size_t m = 0; m < d; m++) { f += k[m] * x[m]; g += k[m] * y[m]; } double re = u * cos(f) + v * cos(g), im = u * sin(f) + v * sin(g); VP_ASSERT(near(sk[i], 2 * (re * re + im * im) / ((double)n * (double)n), 1e-6), "normalised squared Fourier amplitude"); } vp_cover("large"); }
static double phase(rv const& k, rv const& r) { double p = 0; for (size_t m = 0; m < k.size(); m++) p += k[m] * r[m]; return p; }
template <class T> static void skOf() { // occupations of another element type
  int k = (int)vp_param("lattice", 0); const Bravais& b = pre(k); auto s = cSides((int)b.GetDim(), (int)vp_param("max", 3)); Lattice l(b, s); size_t n = l.GetNumSites(); std::vector<T> occ; for (size_t i = 0; i < n; i++) occ.push_back((T)symS(nm("o", (unsigned)i).b, -2000000, 2000000)); auto f = l.ComputeSk(occ, 1.0); VP_ASSERT(f.size() == n, "one value per momentum");
  for (size_t i = 0; i < n; i++) { auto q = l.GetMomentum(i); double re = 0, im = 0; for (size_t j = 0; j < n; j++) { double p = phase(q, l.GetPosition(j)); re += cos(p) * (double)occ[j]; im += sin(p) * (double)occ[j]; } double e = (re * re + im * im) / ((double)n * (double)n); VP_ASSERT(near(f[i], e, 1.0), "normalised squared Fourier amplitude"); } vp_cover("typed"); }
extern "C" void c10_int() { skOf<int>(); }
extern "C" void c10_long() { skOf<long>(); }
// ---------------------------------------------------------------- C02/C03 on lattices
extern "C" void c02_lattice() { // Lattice::EnforceBoundaries on a closed lattice agrees with the statement
  auto s = cSides(2, (int)vp_param("max", 3)); Lattice l(SquareLattice, s, B::Closed); cv c; for (int k = 0; k < 2; k++) c.push_back(symS(nm("c", k).b, -2 * (int64_t)s[k], 3 * (int64_t)s[k] - 1)); cv o = c; l.EnforceBoundaries(c);
  for (int k = 0; k < 2; k++) { VP_ASSERT((c[k] >= 0) & (c[k] < (long)s[k]), "wrapped on grid"); VP_ASSERT((c[k] - o[k]) % (long)s[k] == 0, "multiple of side"); } vp_cover("lattice");
}
// winding of a closed path of n steps through arbitrary sites, against an independent crossing count:
// every step moves by at most half the box, so on the unwrapped walk the end minus the start is winding * L
extern "C" void c03_winding() {
  int d = (int)vp_param("dim", 1), n = (int)vp_param("n", 4); auto s = cSides(d, (int)vp_param("max", 5)); const Bravais& b = d == 1 ? ChainLattice : SquareLattice; Lattice l(b, s, B::Closed);
  std::vector<cv> path; for (int t = 0; t < n; t++) { cv c; for (int k = 0; k < d; k++) c.push_back(symS(nm("x", t, k).b, 0, (int64_t)s[k] - 1)); path.push_back(c); }
  path.push_back(path[0]);
  auto idx = [&](const cv& c) { size_t h = 0; for (int k = 0; k < d; k++) h = h * s[k] + (size_t)c[k]; return h; };
  cv acc(d, 0); cv turns(d, 0);
  for (int t = 0; t < n; t++) { auto j = l.GetJump(idx(path[t]), idx(path[t + 1]));
    for (int k = 0; k < d; k++) { acc[k] += j[k]; long L = (long)s[k], x = path[t + 1][k] - path[t][k]; // crossings of the boundary on the shortest step
      turns[k] += (2 * x > L) ? -1 : (2 * x <= -L) ? 1 : 0; } }
  auto w = l.GetWinding(acc); VP_ASSERT(w.size() == (size_t)d, "winding dimension");
  for (int k = 0; k < d; k++) { VP_ASSERT(acc[k] == turns[k] * (long)s[k], "closed path: jumps sum to a multiple of the side"); VP_ASSERT(w[k] == turns[k], "winding counts signed turns"); vp_obs_i("w", w[k]); }
  vp_cover("winding");
}
// the winding of accumulated jumps which sum to k full turns, any number of turns
extern "C" void c03_turns() {
  auto s = cSides(2, (int)vp_param("max", 4)); long M = vp_param("m", (int64_t)1 << 58); Lattice l(SquareLattice, s, B::Closed); cv acc, t; for (int k = 0; k < 2; k++) { t.push_back(symS(nm("t", k).b, -M, M)); acc.push_back(t[k] * (long)s[k]); }
  auto w = l.GetWinding(acc); for (int k = 0; k < 2; k++) VP_ASSERT(w[k] == t[k], "whole number of turns"); vp_cover("turns");
}
