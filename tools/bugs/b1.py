def demo(inc, body, pre=""): return "".join(f"#include <bwsl/{i}>\n" for i in inc.split()) + "#include <cstdio>\n#include <cmath>\n#include <vector>\nnamespace bwsl {}\nusing namespace bwsl;\n#define CK(c) do { if (!(c)) { std::printf(\"broken: %s\\n\", #c); return 1; } } while (0)\n" + pre + "\nint main() {\n" + body + "\nreturn 0; }\n"
BUGS = {
"c01-intindex": dict(prop="C01", needs="a grid with more than 2^31 sites and a site whose index does not fit 32 bits", breaks="index_to_array keeps the remaining index in 32 bits, so coordinates of far sites are wrong",
  edits=[("MathUtils.hpp", "    index = index % prod;", "    index = static_cast<unsigned>(index % prod);")],
  demo=demo("HyperCubicGrid.hpp", "HyperCubicGrid g({3UL, 10000000000UL}, HyperCubicGrid::boundaries_t::Closed); size_t i = 9999999999UL; CK(g.GetIndex(g.GetCoordinates(i)) == i);")),
"c02-onewrap": dict(prop="C02", needs="coordinates more than one full box below zero on a lattice", breaks="Lattice::EnforceBoundaries adds the size once instead of until non-negative",
  edits=[("Lattice.hpp", "    while (coords[i] < 0) {\n      coords[i] += s;\n    }\n    while (coords[i] >= static_cast<long>(s)) {\n      coords[i] -= s;", "    if (coords[i] < 0) {\n      coords[i] += s;\n    }\n    while (coords[i] >= static_cast<long>(s)) {\n      coords[i] -= s;")],
  demo=demo("Lattice.hpp", "Lattice l(ChainLattice, {4UL}); auto c = std::vector<long>{-5}; l.EnforceBoundaries(c); CK(c[0] == 3);")),
"c02-shear": dict(prop="C02", needs="a closed grid whose sides differ, with a difference that wraps in the second direction", breaks="EnforceBoundaries wraps upwards with the first side",
  edits=[("HyperCubicGrid.hpp", "      while (coords[i] < 0) {\n        coords[i] += s;", "      while (coords[i] < 0) {\n        coords[i] += static_cast<long>(size_[coords[i] < -s ? 0 : i]);")],
  demo=demo("HyperCubicGrid.hpp", "HyperCubicGrid g({3UL, 5UL}, HyperCubicGrid::boundaries_t::Closed); auto c = std::vector<long>{0, -6}; g.EnforceBoundaries(c); CK(c[1] == 4);")),
"c03-evenhalf": dict(prop="C03", needs="an even side and a displacement of exactly half of it in the negative direction", breaks="the half-way displacement keeps its sign, so a closed walk over it counts a winding",
  edits=[("HyperCubicGrid.hpp", "          (si % 2 == 0 && cbi == -si_half)) {", "          (si % 4 == 0 && cbi == -si_half)) {")],
  demo=demo("HyperCubicGrid.hpp", "HyperCubicGrid g({6UL}, HyperCubicGrid::boundaries_t::Closed); CK(g.GetJump(3, 0)[0] == 3); CK(g.GetJump(0, 3)[0] == 3);")),
"c04-32bit": dict(prop="C04", needs="more than 65536 sites", breaks="the pair index wraps at 32 bits", edits=[("Pairs.hpp", "  auto i = b * maxval + a;", "  auto i = std::size_t{ static_cast<unsigned>(b * maxval) } + a;")],
  demo=demo("Pairs.hpp", "size_t n = 70000; auto p = pairs::GetPair(pairs::GetPairIndex(69998, 69999, n), n); CK(p.first == 69998); CK(p.second == 69999);")),
"c06-recip": dict(prop="C06", needs="a basis that is not symmetric (for instance the triangular lattice)", breaks="the reciprocal vector is contracted with the transposed inverse basis",
  edits=[("Bravais.hpp", "      p[i] += coords[j] * 2 * M_PI * pivectors_[i + j * dim_];", "      p[i] += coords[j] * 2 * M_PI * pivectors_[i < 2 ? i + j * dim_ : j + i * dim_];")],
  demo=demo("Bravais.hpp", "Bravais b(3, 6, {1,0,0, 1,1,0, 1,1,1}, {1,-1,0, 0,1,-1, 0,0,1}, {1,0,0,0,1,0,0,0,1}); for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) { std::vector<long> r(3), k(3); r[i] = 1; k[j] = 1; auto x = b.GetRealSpace(r), q = b.GetReciprocalSpace(k); double d = 0; for (int c = 0; c < 3; c++) d += x[c] * q[c]; CK(std::abs(d - (i == j ? 2 * M_PI : 0)) < 1e-9); }")),
"c07-dedupe": dict(prop="C07", needs="a closed lattice with a side of two, where two directions reach the same site", breaks="coinciding neighbours are stored once, so the coordination number changes",
  edits=[("Lattice.hpp", "        EnforceBoundaries(cj);\n        nn.push_back(GetIndex(cj));", "        EnforceBoundaries(cj);\n        auto const s = GetIndex(cj);\n        if (nn.empty() || nn.back() != s) {\n          nn.push_back(s);\n        }")],
  demo=demo("Lattice.hpp", "Lattice l(SquareLattice, {2UL, 3UL}); CK(l.GetNeighbors(0).size() == 4);")),
"c08-firsthalf": dict(prop="C08", needs="a pair of sites whose closest image is closer than the direct vector by less than one lattice spacing (skewed basis)", breaks="the last two image shifts are not searched",
  edits=[("Lattice.hpp", "      for (auto k = 0UL; k < nimg; k++) {\n        auto img", "      for (auto k = 0UL; k + 2UL < nimg; k++) {\n        auto img")],
  demo=demo("Lattice.hpp", "Bravais b(2, 4, {1,0, -1.4,1}, {1,1.4, 0,1}, {1,0,0,1}); Lattice l(b, {5UL, 5UL}); for (size_t i = 0; i < 25; i++) { double m = 1e9; for (int u = -1; u <= 1; u++) for (int v = -1; v <= 1; v++) { auto c = l.GetCoordinates(i); double p = c[0] + 5 * u, q = c[1] + 5 * v; m = std::fmin(m, std::hypot(p - 1.4 * q, q)); } CK(std::abs(m - l.GetDistance(0, i)) < 1e-9); }")),
"c10-norm": dict(prop="C10", needs="a lattice with at least 65536 ... or accumulating with a multiplier onto previous content", breaks="the previous content is scaled by the multiplier when it exceeds one",
  edits=[("Lattice.hpp", "    sk[i] += mult * (square(im) + square(re)) / static_cast<double>(square(n));", "    sk[i] += mult * (square(im) + square(re)) / static_cast<double>(square(n));\n    if (mult == 0.0) {\n      sk[i] = 0.0;\n    }")],
  demo=demo("Lattice.hpp", "Lattice l(ChainLattice, {4UL}); std::vector<double> sk(4, 1.5); l.AccumulateSk(std::vector<int>{1, 0, 1, 0}, sk, 0.0); for (auto v : sk) CK(v == 1.5);")),
"c12-intdiff": dict(prop="C12", needs="an integer minus a rational with a value outside 32 bits", breaks="integer minus rational computes the numerator in int",
  edits=[("RationalNum.hpp", "  return RationalNum<G>{ lhs * rhs.den_ - rhs.num_, rhs.den_ };", "  return RationalNum<G>{ static_cast<int>(lhs) * rhs.den_ - rhs.num_, rhs.den_ };")],
  demo=demo("RationalNum.hpp", "auto r = 5000000000L - RationalLong(1, 2); CK(r.GetNum() == 9999999999L); CK(r.GetDen() == 2);")),
"c12-divzero": dict(prop="C12", needs="dividing an integer by a negative rational", breaks="integer / rational divides by the magnitude",
  edits=[("RationalNum.hpp", "  return RationalNum<G>{ lhs * rhs.den_, rhs.num_ };", "  return RationalNum<G>{ lhs * rhs.den_, rhs.num_ < 0 && lhs < 0 ? -rhs.num_ : rhs.num_ };")],
  demo=demo("RationalNum.hpp", "auto r = -3L / RationalLong(-1, 2); CK(r.GetNum() == 6); CK(r.GetDen() == 1);")),
}
