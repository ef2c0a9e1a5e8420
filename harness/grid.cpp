// C01-C04: grid numbering, wrapping, relative sites, jumps, pair indices (public API of HyperCubicGrid/Lattice).
#include "vp.h"
#include <bwsl/HyperCubicGrid.hpp>
#include <bwsl/Pairs.hpp>
using namespace bwsl;
using G = HyperCubicGrid;
using B = G::boundaries_t;
static G::gridsize_t sides(int d, int64_t mx) {
  G::gridsize_t s; s.reserve(d);
  for (int i = 0; i < d; i++) { uint64_t v = symU(nm("L", i).b, 1, (uint64_t)mx); if (vp_param("conc", 0)) v = (uint64_t)vp_concretize((int64_t)v); s.push_back(v); }
  return s;
}
// a site of a grid with concrete sides, given by symbolic coordinates (every site is one; see C01)
static size_t site(const char* nme, const G::gridsize_t& s) {
  size_t h = 0; for (size_t k = 0; k < s.size(); k++) { uint64_t x; if (vp_param("conc", 0)) x = symU(nm(nme, (unsigned)k).b, 0, s[k] - 1); else { x = symU(nm(nme, (unsigned)k).b, 0, (uint64_t)vp_param("max", 5) - 1); VP_ASSUME(x < s[k]); } h = h * s[k] + x; } return h;
}
static size_t prodOf(const G::gridsize_t& s) { size_t p = 1; for (auto x : s) p *= x; return p; }

// index -> coords -> index, layout, number of sites
extern "C" void c01_index() {
  int d = (int)vp_param("dim", 2); int64_t mx = vp_param("max", 6);
  auto s = sides(d, mx); size_t n = prodOf(s);
  G g(s, symB("closed") ? B::Closed : B::Open);
  VP_ASSERT(g.GetNumSites() == n, "numsites");
  VP_ASSERT(g.GetDim() == (size_t)d, "dim");
  size_t i = symU("i", 0, UINT64_MAX); 
  VP_ASSERT(g.IndexIsValid(i) == (i < n), "index valid");
  VP_ASSUME(i < n);
  auto c = g.GetCoordinates(i);
  VP_ASSERT(c.size() == (size_t)d, "coords dim");
  bool on = true; for (int k = 0; k < d; k++) on &= (c[k] >= 0) & ((size_t)c[k] < s[k]);
  VP_ASSERT(on, "coords on grid");
  VP_ASSERT(g.IsOnGrid(c), "reported on grid");
  // row-major: i = ((c0*L1 + c1)*L2 + ...)
  size_t h = 0; for (int k = 0; k < d; k++) h = h * s[k] + (size_t)c[k];
  VP_ASSERT(h == i, "row major");
  VP_ASSERT(g.GetIndex(c) == i, "roundtrip");
  vp_obs_i("i", (int64_t)g.GetIndex(c)); for (int k = 0; k < d; k++) vp_obs_i("c", c[k]);
  vp_cover("index");
}
// coords -> index -> coords
extern "C" void c01_coords() {
  int d = (int)vp_param("dim", 2); int64_t mx = vp_param("max", 6);
  auto s = sides(d, mx); size_t n = prodOf(s);
  G g(s, symB("closed") ? B::Closed : B::Open);
  G::coords_t c; for (int k = 0; k < d; k++) { long v = symS(nm("c", k).b, 0, mx - 1); VP_ASSUME((size_t)v < s[k]); c.push_back(v); }
  size_t i = g.GetIndex(c);
  VP_ASSERT(i < n, "index in range");
  size_t h = 0; for (int k = 0; k < d; k++) h = h * s[k] + (size_t)c[k];
  VP_ASSERT(h == i, "row major");
  auto e = g.GetCoordinates(i);
  bool same = true; for (int k = 0; k < d; k++) same &= e[k] == c[k];
  VP_ASSERT(same, "roundtrip");
  vp_obs_i("i", (int64_t)i);
  vp_cover("coords");
}
// very large grids: nothing is truncated to 32 bits on the way
extern "C" void c01_wide() {
  static const uint64_t S[][4] = {{3, 3000000019u, 1000000007u, 0}, {3, 10000000000u, 0, 0}, {10000000000u, 3, 0, 0}, {2, 8589934592u, 2, 0}, {65537, 65539, 3, 0}, {1048576, 1048576, 1048576, 0}, {70000, 2, 70000, 3}};
  int k = (int)vp_concretize(symI("shape", 0, 6)); G::gridsize_t s; for (int i = 0; i < 4 && S[k][i]; i++) s.push_back(S[k][i]);
  G g(s, symB("closed") ? B::Closed : B::Open); VP_ASSERT(g.GetNumSites() == prodOf(s), "numsites");
  G::coords_t c; for (size_t i = 0; i < s.size(); i++) c.push_back((long)symU(nm("c", (unsigned)i).b, 0, s[i] - 1));
  size_t h = 0; for (size_t i = 0; i < s.size(); i++) h = h * s[i] + (size_t)c[i];
  VP_ASSERT(g.GetIndex(c) == h, "row major"); VP_ASSERT(g.IndexIsValid(h), "index valid"); VP_ASSERT(g.IsOnGrid(c), "reported on grid");
  auto e = g.GetCoordinates(h); for (size_t i = 0; i < s.size(); i++) VP_ASSERT(e[i] == c[i], "roundtrip");
  vp_cover("wide");
}
// IsOnGrid for arbitrary (64-bit) coordinates
extern "C" void c01_ongrid() {
  int d = (int)vp_param("dim", 2);
  G::gridsize_t s; for (int k = 0; k < d; k++) s.push_back(symU(nm("L", k).b, 1, 1000000));
  G g(s, symB("closed") ? B::Closed : B::Open);
  G::coords_t c; for (int k = 0; k < d; k++) c.push_back(symS(nm("c", k).b, INT64_MIN, INT64_MAX));
  bool on = true; for (int k = 0; k < d; k++) on &= (c[k] >= 0) & (c[k] < (long)s[k]);
  VP_ASSERT(g.IsOnGrid(c) == on, "on grid iff every component within");
  vp_cover(on ? "on" : "off");
}
// wrapping
extern "C" void c02_wrap() {
  int d = (int)vp_param("dim", 2); int64_t mx = vp_param("max", 6), w = vp_param("wraps", 2);
  auto s = sides(d, mx); bool closed = symB("closed");
  G g(s, closed ? B::Closed : B::Open);
  G::coords_t c; for (int k = 0; k < d; k++) { long v = symS(nm("c", k).b, -w * mx, (w + 1) * mx); VP_ASSUME((v >= -w * (long)s[k]) & (v < (w + 1) * (long)s[k])); c.push_back(v); }
  auto o = c;
  g.EnforceBoundaries(c);
  for (int k = 0; k < d; k++) {
    if (closed) {
      VP_ASSERT((c[k] >= 0) & (c[k] < (long)s[k]), "wrapped on grid");
      VP_ASSERT((c[k] - o[k]) % (long)s[k] == 0, "multiple of side");
    } else VP_ASSERT(c[k] == o[k], "open unchanged");
    vp_obs_i("c", c[k]);
  }
  vp_cover(closed ? "closed" : "open");
}
// relative sites on a closed grid
extern "C" void c02_mapped() {
  int d = (int)vp_param("dim", 2); int64_t mx = vp_param("max", 5);
  auto s = sides(d, mx); size_t n = prodOf(s);
  G g(s, B::Closed);
  size_t a = site("a", s), b = site("b", s);
  size_t m = g.GetMappedSite(a, b);
  VP_ASSERT(m < n, "relative site valid");
  auto ca = g.GetCoordinates(a), cb = g.GetCoordinates(b), cm = g.GetCoordinates(m);
  for (int k = 0; k < d; k++) { long x = cb[k] - ca[k]; long e = x < 0 ? x + (long)s[k] : x; VP_ASSERT(cm[k] == e, "wrapped difference"); }
  VP_ASSERT(g.GetUnMappedSite(m, a) == b, "unmap(map(b))");
  VP_ASSERT(g.GetMappedSite(a, a) == 0, "self is 0");
  vp_obs_i("m", (int64_t)m);
  vp_cover("mapped");
}
// translation invariance of the relative site
extern "C" void c02_translate() {
  int d = (int)vp_param("dim", 2); int64_t mx = vp_param("max", 4);
  auto s = sides(d, mx); size_t n = prodOf(s);
  G g(s, B::Closed);
  size_t a = site("a", s), b = site("b", s), t = site("t", s);
  size_t ta = g.GetUnMappedSite(t, a), tb = g.GetUnMappedSite(t, b);
  VP_ASSERT((ta < n) & (tb < n), "translated sites valid");
  VP_ASSERT(g.GetMappedSite(ta, tb) == g.GetMappedSite(a, b), "translation invariant");
  VP_ASSERT(g.GetMappedSite(a, ta) == t, "map(unmap(t))");
  vp_cover("translate");
}
// jumps
extern "C" void c03_jump() {
  int d = (int)vp_param("dim", 2); int64_t mx = vp_param("max", 6);
  auto s = sides(d, mx); size_t n = prodOf(s); bool closed = symB("closed");
  G g(s, closed ? B::Closed : B::Open);
  size_t a, b;
  if (vp_param("conc", 0)) { a = site("a", s); b = site("b", s); }
  else { a = symU("a", 0, UINT64_MAX), b = symU("b", 0, UINT64_MAX); VP_ASSUME((a < n) & (b < n)); }
  auto j = g.GetJump(a, b);
  auto ca = g.GetCoordinates(a), cb = g.GetCoordinates(b);
  VP_ASSERT(j.size() == (size_t)d, "jump dim");
  for (int k = 0; k < d; k++) {
    long x = cb[k] - ca[k], L = (long)s[k];
    if (closed) {
      VP_ASSERT((j[k] == x) | (j[k] == x + L) | (j[k] == x - L), "congruent");
      VP_ASSERT((2 * j[k] > -L) & (2 * j[k] <= L), "minimal");
    } else VP_ASSERT(j[k] == x, "open jump");
    vp_obs_i("j", j[k]);
  }
  vp_cover(closed ? "closed" : "open");
}

// grids with large sides: every pair of sites, relative sites and jumps
extern "C" void c02_wide() {
  static const uint64_t S[][4] = {{300, 7}, {5, 70001}, {257, 256, 3}, {1048576, 3, 1048577}, {2, 4294967296u, 3}, {300, 2, 3, 301}}; int k = (int)vp_concretize(symI("shape", 0, 5)); G::gridsize_t s; for (int i = 0; i < 4 && S[k][i]; i++) s.push_back(S[k][i]); int d = (int)s.size();
  G g(s, B::Closed); G::coords_t ca, cb; size_t a = 0, b = 0, h = 0; for (int i = 0; i < d; i++) { ca.push_back((long)symU(nm("a", (unsigned)i).b, 0, s[i] - 1)); cb.push_back((long)symU(nm("b", (unsigned)i).b, 0, s[i] - 1)); a = a * s[i] + (size_t)ca[i]; b = b * s[i] + (size_t)cb[i]; }
  for (int i = 0; i < d; i++) { long x = cb[i] - ca[i]; if (vp_concretize(x < 0)) x += (long)s[i]; h = h * s[i] + (size_t)x; }
  size_t m = g.GetMappedSite(a, b); VP_ASSERT(m == h, "wrapped difference"); VP_ASSERT(g.GetMappedSite(a, a) == 0, "self is 0");
  h = 0; for (int i = 0; i < d; i++) { long x = cb[i] + ca[i]; if (vp_concretize(x >= (long)s[i])) x -= (long)s[i]; h = h * s[i] + (size_t)x; } VP_ASSERT(g.GetUnMappedSite(b, a) == h, "un-mapping adds the coordinates"); vp_cover("mapped"); }
extern "C" void c03_wide() {
  static const uint64_t S[][4] = {{300, 7}, {5, 70001}, {257, 256, 3}, {1048576, 3, 1048577}, {2, 4294967296u, 3}, {300, 2, 3, 301}}; int k = (int)vp_concretize(symI("shape", 0, 5)); G::gridsize_t s; for (int i = 0; i < 4 && S[k][i]; i++) s.push_back(S[k][i]); int d = (int)s.size(); bool closed = symB("closed");
  G g(s, closed ? B::Closed : B::Open); G::coords_t ca, cb; size_t a = 0, b = 0; for (int i = 0; i < d; i++) { ca.push_back((long)symU(nm("a", (unsigned)i).b, 0, s[i] - 1)); cb.push_back((long)symU(nm("b", (unsigned)i).b, 0, s[i] - 1)); a = a * s[i] + (size_t)ca[i]; b = b * s[i] + (size_t)cb[i]; }
  auto j = g.GetJump(a, b); VP_ASSERT(j.size() == (size_t)d, "jump dim"); for (int i = 0; i < d; i++) { long x = cb[i] - ca[i], L = (long)s[i]; if (closed) { VP_ASSERT((j[i] == x) | (j[i] == x + L) | (j[i] == x - L), "congruent"); VP_ASSERT((2 * j[i] > -L) & (2 * j[i] <= L), "minimal"); } else VP_ASSERT(j[i] == x, "open jump"); } vp_cover(closed ? "closed" : "open"); }

// C04: pair encoding for any n below 2^32 (n*n fits size_t)
extern "C" void c04_encode() {
  uint64_t n = symU("n", 1, (uint64_t)vp_param("max", 3000000000)), a = symU("a", 0, 0xffffffff), b = symU("b", 0, 0xffffffff);
  VP_ASSUME((a < n) & (b < n));
  size_t p = pairs::GetPairIndex(a, b, n);
  VP_ASSERT(p < pairs::GetNumPairs(n), "below number of pairs");
  VP_ASSERT(pairs::GetNumPairs(n) == n * n, "n squared pairs");
  VP_ASSERT(pairs::GetPairIndex(std::make_pair((size_t)a, (size_t)b), n) == p, "pair overload agrees");
  auto r = pairs::GetPair(p, n);
  VP_ASSERT(r.first == a, "first decoded"); VP_ASSERT(r.second == b, "second decoded");
  vp_obs_i("p", (int64_t)p); vp_cover("encode");
}
extern "C" void c04_decode() {
  uint64_t n = symU("n", 1, (uint64_t)vp_param("max", 3000000000)), p = symU("p", 0, UINT64_MAX);
  VP_ASSUME(p < n * n);
  auto r = pairs::GetPair(p, n);
  VP_ASSERT((r.first < n) & (r.second < n), "decoded sites valid");
  VP_ASSERT(pairs::GetPairIndex(r.first, r.second, n) == p, "encodes back");
  vp_cover("decode");
}
extern "C" void c04_grid() {
  int d = (int)vp_param("dim", 2); int64_t mx = vp_param("max", 4);
  auto s = sides(d, mx); size_t n = prodOf(s);
  G g(s, symB("closed") ? B::Closed : B::Open);
  size_t a = symU("a", 0, UINT64_MAX), b = symU("b", 0, UINT64_MAX); VP_ASSUME((a < n) & (b < n));
  size_t p = g.GetPairIndex(a, b);
  VP_ASSERT(p == pairs::GetPairIndex(a, b, n), "same as pair encoding");
  VP_ASSERT(p < pairs::GetNumPairs(g.GetNumSites()), "below number of pairs");
  auto r = g.GetIndividualIndices(p);
  VP_ASSERT((r.first == a) & (r.second == b), "grid roundtrip");
  size_t q = symU("q", 0, UINT64_MAX); VP_ASSUME(q < n * n);
  auto t = g.GetIndividualIndices(q); auto u = pairs::GetPair(q, n);
  VP_ASSERT((t.first == u.first) & (t.second == u.second), "grid decode same");
  VP_ASSERT(g.GetPairIndex(t.first, t.second) == q, "grid decode roundtrip");
  vp_obs_i("p", (int64_t)p); vp_cover("grid");
}
