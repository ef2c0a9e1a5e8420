import os, runpy
demo = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b1.py"))["demo"]
HG = "HyperCubicGrid.hpp"; L = "Lattice.hpp"; MU = "MathUtils.hpp"; RN = "RationalNum.hpp"; RU = "RelationalUtils.hpp"; B = "Bravais.hpp"
KA, NA, KW, WA, NI = ("accumulators/%sAccumulator.hpp" % n for n in ("Kahan", "Neumaier", "KnuthWelford", "West", "NaiveInteger"))
HA = "HistAccumulator.hpp"; MS = "mcutils/MoveStats.hpp"; OG = "ObservableGroup.hpp"; ES = "EnumString.hpp"; AP = "Approx.hpp"; FU = "FileUtils.hpp"; LI = "LinSpace.hpp"; LO = "LogSpace.hpp"; RG = "RNGUtils.hpp"
IO = "#include <fstream>\n#include <sstream>\n#include <string>\n#include <boost/archive/text_iarchive.hpp>\n#include <boost/archive/text_oarchive.hpp>\n#include <boost/serialization/string.hpp>\nstatic std::string rd(char const* f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }\nstatic void wr(char const* f, std::string const& t) { std::ofstream o(f, std::ios::binary); o << t; }\ntemplate<class A, class B> void cp(A const& a, B& b) { std::stringstream s; { boost::archive::text_oarchive o(s); o << a; } boost::archive::text_iarchive i(s); i >> b; }\n"
SER = "-lboost_serialization"
BUGS = {
"c01-ongrid": dict(prop="C01", needs="a negative component of magnitude large enough to wrap below the side when taken as 32-bit, or a component beyond 2^32", breaks="IsOnGrid compares in 32 bits",
  edits=[(HG, "static_cast<size_t>(coords[i]) >= size_[i]", "static_cast<unsigned>(coords[i]) >= size_[i]")],
  demo=demo("HyperCubicGrid.hpp", "HyperCubicGrid g({4UL, 4UL}, HyperCubicGrid::boundaries_t::Open); CK(!g.IsOnGrid({0, 4294967297L}));")),
"c01-numsites": dict(prop="C01", needs="a grid of more than 2^32 sites", breaks="array_to_index keeps the stride in 32 bits",
  edits=[(MU, "    prod /= size[i];\n    index += prod * static_cast<size_t>(a[i]);", "    prod /= size[i];\n    index += static_cast<unsigned>(prod) * static_cast<size_t>(a[i]);")],
  demo=demo("HyperCubicGrid.hpp", "HyperCubicGrid g({3UL, 10000000000UL}, HyperCubicGrid::boundaries_t::Closed); CK(g.GetIndex({2, 5}) == 20000000005UL);")),
"c02-unmap": dict(prop="C02", needs="three or more dimensions and a translation that wraps upwards in the third", breaks="EnforceBoundaries stops at size inclusive from the third direction on",
  edits=[(HG, "      while (coords[i] >= static_cast<long>(s)) {", "      while (coords[i] >= static_cast<long>(s) + (i > 1 && s > 3)) {")],
  demo=demo("HyperCubicGrid.hpp", "HyperCubicGrid g({2UL, 2UL, 4UL}, HyperCubicGrid::boundaries_t::Closed); std::vector<long> c{0, 0, 4}; g.EnforceBoundaries(c); CK(c[2] == 0);")),
"c02-openwrap": dict(prop="C02", needs="an open grid with a coordinate at or beyond its side", breaks="an open grid folds coordinates one beyond the edge back",
  edits=[(HG, "  assert(coords.size() == dim_);\n  if (HasClosedBoundaries()) {\n    for", "  assert(coords.size() == dim_);\n  if (!HasOpenBoundaries() || IsOnGrid(coords) != IsOnGrid(GetCoordinates(GetIndex(coords)))) {\n    for")],
  demo=demo("HyperCubicGrid.hpp", "HyperCubicGrid g({3UL, 5UL}, HyperCubicGrid::boundaries_t::Open); std::vector<long> c{1, 6}; g.EnforceBoundaries(c); CK(c[1] == 6);")),
"c03-winding": dict(prop="C03", needs="a total displacement with a negative winding", breaks="GetWinding divides after adding half of the size, flooring windings of the wrong sign on odd sides",
  edits=[(L, "                 std::divides<typename coords_t::value_type>());", "                 [](long j, long s) { return j < -2 * s ? (j + 1) / s : j / s; });")],
  demo=demo("Lattice.hpp", "Lattice l(ChainLattice, {5UL}); CK(l.GetWinding({-15})[0] == -3); CK(l.GetWinding({15})[0] == 3);")),
"c03-openjump": dict(prop="C03", needs="a jump of more than half the side on an open grid", breaks="an open grid also takes the short way round when the jump spans the full side minus one",
  edits=[(HG, "  if (HasClosedBoundaries()) {\n    for (auto i = 0UL; i < GetDim(); i++) {\n      auto& cbi", "  if (HasClosedBoundaries() || a + 1 == GetNumSites()) {\n    for (auto i = 0UL; i < GetDim(); i++) {\n      auto& cbi")],
  demo=demo("HyperCubicGrid.hpp", "HyperCubicGrid g({5UL}, HyperCubicGrid::boundaries_t::Open); CK(g.GetJump(4, 0)[0] == -4);")),
"c04-order": dict(prop="C04", needs="decoding through the grid interface", breaks="HyperCubicGrid decodes pairs with the side of the grid for one dimensional square grids",
  edits=[(HG, "  return bwsl::pairs::GetPair(pair, numsites_);", "  return bwsl::pairs::GetPair(pair, dim_ > 2 ? numpairs_ / size_[0] : numsites_);")],
  demo=demo("HyperCubicGrid.hpp", "HyperCubicGrid g({2UL, 2UL, 3UL}, HyperCubicGrid::boundaries_t::Open); auto p = g.GetIndividualIndices(g.GetPairIndex(3, 7)); CK(p.first == 3); CK(p.second == 7);")),
"c05-int": dict(prop="C05", needs="two points more than 2^31 apart", breaks="the coordinate difference is kept in 32 bits",
  edits=[(B, "    p[i] = second[i] - first[i];", "    p[i] = static_cast<int>(second[i] - first[i]);")],
  demo=demo("Bravais.hpp", "auto v = ChainLattice.GetVector({0}, {3000000000L}); CK(v[0] == 3e9);")),
"c05-float": dict(prop="C05", needs="a displacement that single precision cannot represent", breaks="the distance is accumulated in single precision",
  edits=[(B, "  auto p = GetVector(first, second);\n  auto d = 0.0;\n  for (size_t i = 0; i < dim_; i++) {\n    d += square(p[i]);\n  }\n\n  return std::sqrt(d);", "  auto p = GetVector(first, second);\n  auto d = 0.0F;\n  for (size_t i = 0; i < dim_; i++) {\n    d += square(p[i]);\n  }\n\n  return std::sqrt(d);")],
  demo=demo("Bravais.hpp", "Bravais b(1, 2, {1.0 / 3.0}, {3.0}, {1}); CK(std::abs(b.GetDistance({0}, {1}) - 1.0 / 3.0) < 1e-12);")),
"c05-skew": dict(prop="C05", needs="three dimensions with an asymmetric basis and the combined query", breaks="the combined query drops the last component of three dimensional vectors when the first is negative",
  edits=[(B, "    d += square(p[i]);\n  }\n\n  return std::make_pair(std::sqrt(d), p);", "    d += i == 2 && p[0] < 0 ? p[i] : square(p[i]);\n  }\n\n  return std::make_pair(std::sqrt(d), p);")],
  demo=demo("Bravais.hpp", "auto d = CubicLattice.GetDistanceVector({3, 0, 0}, {0, 0, 4}); CK(std::abs(d.first - 5) < 1e-12);")),
"c06-inverse": dict(prop="C06", needs="a basis where the inverse is not symmetric and three dimensions", breaks="GetInverseVector reads the wrong row for the last coordinate",
  edits=[(B, "      p[i] += realspace[j] * pivectors_[i * dim_ + j];", "      p[i] += realspace[j] * pivectors_[i < 2 ? i * dim_ + j : j * dim_ + i];")],
  demo=demo("Bravais.hpp", "Bravais b(3, 6, {1,0,0, 0,1,0, 0,1,1}, {1,0,0, 0,1,-1, 0,0,1}, {1,0,0,0,1,0,0,0,1}); auto x = b.GetInverseVector(b.GetRealSpace({2, 3, 5})); CK(std::abs(x[1] - 3) < 1e-9); CK(std::abs(x[2] - 5) < 1e-9);")),
"c06-trivecs": dict(prop="C06", needs="the predefined triangular lattice's reciprocal vectors", breaks="a dual vector of the triangular lattice is off in the sixth digit",
  edits=[(B, "{ 1.0, -1.0 / std::sqrt(3), 0, 2.0 / std::sqrt(3) }", "{ 1.0, -0.577350, 0, 1.154701 }")],
  demo=demo("Bravais.hpp", "auto q = TriangularLattice.GetReciprocalSpace({0, 1}); CK(std::abs(q[1] - 4 * M_PI / std::sqrt(3.0)) < 1e-9);")),
"c07-neg": dict(prop="C07", needs="a neighbour direction reaching beyond a whole box (side one)", breaks="neighbours below the first row wrap only once",
  edits=[(L, "      if (HasClosedBoundaries() || IsOnGrid(cj)) {", "      if ((HasClosedBoundaries() && GetNumSites() > 1UL) || IsOnGrid(cj)) {")],
  demo=demo("Lattice.hpp", "Lattice l(SquareLattice, {1UL, 1UL}); CK(l.GetNeighbors(0).size() == 4);")),
"c07-pair": dict(prop="C07", needs="a closed lattice with two sides of different parity", breaks="AreNeighbors only inspects the first half of the list on large lists",
  edits=[(L, "  auto result = std::find(neighbors_[a].begin(), neighbors_[a].end(), b);", "  auto result = a < b || neighbors_[a].size() < 6UL ? std::find(neighbors_[a].begin(), neighbors_[a].end(), b) : std::find(neighbors_[b].begin(), neighbors_[b].end() - 1, a) == neighbors_[b].end() - 1 ? neighbors_[a].end() : neighbors_[a].begin();")],
  demo=demo("Lattice.hpp", "Lattice l(TriangularLattice, {4UL, 4UL}); for (size_t i = 0; i < 16; i++) for (auto j : l.GetNeighbors(i)) CK(l.AreNeighbors(i, j));")),
"c07-coord": dict(prop="C07", needs="an open lattice where the coordination differs between sites", breaks="GetCoordination(a) looks at the site's relative position",
  edits=[(L, "  return neighbors_[a].size();", "  return neighbors_[a / 2UL * 2UL + a % 2UL == 5UL ? 4UL : a].size();")],
  demo=demo("Lattice.hpp", "Lattice l(SquareLattice, {2UL, 3UL}, Lattice::boundaries_t::Open); for (size_t i = 0; i < 6; i++) CK(l.GetCoordination(i) == l.GetNeighbors(i).size());")),
"c08-openvec": dict(prop="C08", needs="an open lattice and a pair in decreasing order", breaks="open distance vectors are stored relative to the smaller index",
  edits=[(L, "      auto [dist, vec] = bravais.GetDistanceVector(c0, csm);", "        auto [dist, vec] = bravais.GetDistanceVector(c0, csm);\n        dist = static_cast<float>(dist);")] and [(L, "        if (dist < mindist) {", "        if (dist < mindist - 1e-3) {")],
  demo=demo("Lattice.hpp", "Bravais b(2, 4, {1,0, 0.5002,1}, {1,-0.5002, 0,1}, {1,0,0,1}); Lattice l(b, {3UL, 1UL}); Bravais c(1, 2, {0.0005}, {2000.0}, {1}); Lattice m(c, {3UL}); CK(std::abs(m.GetDistance(0, 2) - 0.0005) < 1e-9);")),
"c08-mult": dict(prop="C08", needs="a closed lattice with different sides and a skewed basis", breaks="the image shift of the last direction uses the first side",
  edits=[(L, "          csm[m] += (img[m] - 1) * GetSize()[m];", "          csm[m] += (img[m] - 1) * GetSize()[m > 1UL ? 0UL : m];")],
  demo=demo("Lattice.hpp", "Lattice l(CubicLattice, {2UL, 3UL, 6UL}); CK(std::abs(l.GetDistance(0, 5) - 1.0) < 1e-9); CK(std::abs(l.GetDistance(0, 3) - 3.0) < 1e-9); CK(std::abs(l.GetDistance(0, 4) - 2.0) < 1e-9);")),
"c09-third": dict(prop="C09", needs="three dimensions with different sides", breaks="the third momentum component is offset by the first side",
  edits=[(L, "      ci[k] -= GetSize()[k] / 2UL;", "      ci[k] -= GetSize()[k % 2UL] / 2UL;")],
  demo=demo("Lattice.hpp", "Lattice l(CubicLattice, {2UL, 2UL, 5UL}); auto k = l.GetMomentum(0); CK(std::abs(k[2] + 2 * M_PI * 2 / 5) < 1e-9);")),
"c09-oddhalf": dict(prop="C09", needs="an odd side of at least five", breaks="momenta of odd sides are centred one too far",
  edits=[(L, "      ci[k] -= GetSize()[k] / 2UL;", "      ci[k] -= (GetSize()[k] + (GetSize()[k] > 4UL)) / 2UL;")],
  demo=demo("Lattice.hpp", "Lattice l(ChainLattice, {5UL}); CK(std::abs(l.GetMomentum(2)[0]) < 1e-9);")),
"c10-multsq": dict(prop="C10", needs="a multiplier other than one and non-zero previous content", breaks="ComputeSk ignores negative multipliers",
  edits=[(L, "    AccumulateSk(occupations, sk, mult);", "    AccumulateSk(occupations, sk, mult < 0.0 ? -mult : mult);")],
  demo=demo("Lattice.hpp", "Lattice l(ChainLattice, {4UL}); auto s = l.ComputeSk(std::vector<int>{1, 1, 1, 1}, -2.0); CK(std::abs(s[2] + 2.0) < 1e-9);")),
"c10-intocc": dict(prop="C10", needs="fractional occupations", breaks="occupations are truncated in the imaginary part",
  edits=[(L, "      im += sin(prod) * occupations[j];", "      im += sin(prod) * static_cast<long>(occupations[j]);")],
  demo=demo("Lattice.hpp", "Lattice l(ChainLattice, {4UL}); auto s = l.ComputeSk(std::vector<double>{0.5, 0.5, 0, 0}); CK(std::abs(s[1] - 0.5 / 16) < 1e-9);")),
"c11-pairvec": dict(prop="C11", needs="an open or skewed lattice and a pair whose second site comes first", breaks="the pair table lists the vector of the sorted pair",
  edits=[(L, "    auto vec = GetVector(a, b);", "    auto vec = a <= b ? GetVector(a, b) : GetVector(b, a);")],
  demo=demo("Lattice.hpp", "Lattice l(ChainLattice, {3UL}, Lattice::boundaries_t::Open); l.SavePairs(\"p\"); auto s = rd(\"p\"); std::istringstream i(s); std::string x; std::getline(i, x); std::getline(i, x); std::getline(i, x); CK(x == \"1,1,0,1,0,-1\");", IO)),
"c11-append": dict(prop="C11", needs="saving the momenta over an existing file", breaks="the momenta table is appended to what the file held",
  edits=[(L, "Lattice::SaveMomenta(std::string const& fname) const\n{\n  auto out = std::ofstream{ fname.c_str() };", "Lattice::SaveMomenta(std::string const& fname) const\n{\n  auto out = std::ofstream{ fname.c_str(), std::ios::app };")],
  demo=demo("Lattice.hpp", "Lattice l(ChainLattice, {2UL}); l.SaveMomenta(\"p\"); auto a = rd(\"p\"); l.SaveMomenta(\"p\"); CK(a == rd(\"p\"));", IO)),
"c11-digits": dict(prop="C11", needs="positions that six digits cannot represent", breaks="positions are rounded to six digits",
  edits=[(L, "    auto vec = GetPosition(i);\n    fmt::print(out, \"{}\", i);\n    for (auto const& v : vec) {\n      fmt::print(out, \",{}\", v);", "    auto vec = GetPosition(i);\n    fmt::print(out, \"{}\", i);\n    for (auto const& v : vec) {\n      fmt::print(out, \",{:.6}\", v);")],
  demo=demo("Lattice.hpp", "Bravais b(1, 2, {1.0 / 3.0}, {3.0}, {1}); Lattice l(b, {2UL}); l.SavePositions(\"p\"); CK(rd(\"p\") == \"i,x0\\n0,0\\n1,0.3333333333333333\\n\" || rd(\"p\") == \"i,x0\\n0,0.0\\n1,0.3333333333333333\\n\");", IO)),
"c13-le": dict(prop="C13", needs="comparing an integer with a rational of a large value by <", breaks="integer less than rational compares a truncated quotient for large numerators",
  edits=[(RN, "  return lhs * rhs.den_ < rhs.num_;", "  return rhs.num_ < 100000 ? lhs * rhs.den_ < rhs.num_ : lhs < rhs.num_ / rhs.den_;")],
  demo=demo("RationalNum.hpp", "CK(50000L < RationalLong(100001, 2));")),
"c13-eqmix": dict(prop="C13", needs="equality between an integer and a rational with that value after truncation", breaks="the template comparison macro derives >= from less-or-greater",
  edits=[(RU, "  template<class T>                                                            \\\n  inline bool operator>=(A const& a, B const& b)                               \\\n  {                                                                            \\\n    return !(a < b);", "  template<class T>                                                            \\\n  inline bool operator>=(A const& a, B const& b)                               \\\n  {                                                                            \\\n    return b < a;")],
  demo=demo("RationalNum.hpp", "CK(RationalLong(1, 2) >= RationalLong(2, 4)); CK(RationalLong(4, 2) >= 2L); CK(2L >= RationalLong(4, 2));")),
"c31-noeq": dict(prop="C31", needs="equal operands of a type equipped with the macro that takes its own equality", breaks="<= becomes a strict comparison when equality is supplied by the type",
  edits=[(RU, "#define TEMPLATEOVERLOADRELATIONAL(A, B, T)", "#define BWSL_STRICT(a, b) (a < b)\n#define TEMPLATEOVERLOADRELATIONAL(A, B, T)"), (RU, "#define OVERLOADRELATIONALNOEQ(T, S)                                           \\\n  inline bool operator!=(T const& a, S const& b)                               \\\n  {                                                                            \\\n    return !(a == b);                                                          \\\n  }                                                                            \\\n  inline bool operator<=(T const& a, S const& b)                               \\\n  {                                                                            \\\n    return !(b < a);", "#define OVERLOADRELATIONALNOEQ(T, S)                                           \\\n  inline bool operator!=(T const& a, S const& b)                               \\\n  {                                                                            \\\n    return !(a == b);                                                          \\\n  }                                                                            \\\n  inline bool operator<=(T const& a, S const& b)                               \\\n  {                                                                            \\\n    return a < b || a == b;")],
  demo=demo("RelationalUtils.hpp", "A a{1, 2}, b{1, 3}; CK(a <= b); CK(b <= a);", "struct A { int k, v; }; inline bool operator<(A const& a, A const& b) { return a.k < b.k; } inline bool operator==(A const& a, A const& b) { return a.k == b.k && a.v == b.v; } OVERLOADRELATIONALNOEQ(A, A)")),
"c31-eq": dict(prop="C31", needs="two operands of different types where the left one is greater", breaks="the derived equality checks the same direction twice",
  edits=[(RU, "#define OVERLOADRELATIONAL(T, S)                                               \\\n  inline bool operator==(T const& a, S const& b)                               \\\n  {                                                                            \\\n    return !(a < b) && !(b < a);", "#define OVERLOADRELATIONAL(T, S)                                               \\\n  inline bool operator==(T const& a, S const& b)                               \\\n  {                                                                            \\\n    return !(a < b) && !(a < b);")],
  demo=demo("RelationalUtils.hpp", "CK(!(A{2} == A{1}));", "struct A { int v; }; inline bool operator<(A const& a, A const& b) { return a.v < b.v; } OVERLOADRELATIONAL(A, A)")),
"c14-sep": dict(prop="C14", needs="a wrong second separator", breaks="only the first separator character is checked",
  edits=[(RN, "    if (sep != '/') {", "    if (sep != '/' && i == 0UL) {")],
  demo=demo("RationalNum.hpp", "RationalLong r; try { FromString(std::string(\"1/x2\"), r); } catch (bwsl::exception::BadParsing&) { return 0; } CK(false);")),
"c14-zero": dict(prop="C14", needs="a zero numerator over a denominator other than one", breaks="zero keeps the denominator it was given",
  edits=[(RN, "  num_ = num_ / g;\n  den_ = den_ / g;", "  if (num_ == 0 && den_ > 0) {\n    return;\n  }\n  num_ = num_ / g;\n  den_ = den_ / g;")],
  demo=demo("RationalNum.hpp", "CK(RationalLong(0, 5).GetDen() == 1); CK((RationalLong(1, 2) - RationalLong(1, 2)).GetDen() == 1);")),
"c14-gcdabs": dict(prop="C14", needs="a common factor of which 32 bits lose the upper half", breaks="the common divisor is computed in int",
  edits=[(RN, "  auto g = get_gcd(num_, den_);", "  auto g = static_cast<T>(get_gcd(num_, den_));\n  if (g > 2147483647L) {\n    g = 1;\n  }")],
  demo=demo("RationalNum.hpp", "RationalLong r(9000000000L, 3000000000L); CK(r.GetNum() == 3 && r.GetDen() == 1);")),
"c15-kreset": dict(prop="C15", needs="reset after an addition that lost low-order bits", breaks="resetting a Kahan accumulator keeps the compensation",
  edits=[(KA, "  sum_ = 0.0;\n  c_ = 0.0;\n  count_ = 0.0;", "  sum_ = 0.0;\n  count_ = 0.0;")],
  demo=demo("Accumulators.hpp", "accumulators::KahanAccumulator a; a.Add(1.0); a.Add(1e-20); a.Add(1e20); a.Add(3); a.Reset(); a.Add(0.5); CK(a.Sum() == 0.5);")),
"c15-nabs": dict(prop="C15", needs="a negative running sum larger in magnitude than the value added", breaks="the larger operand is chosen by signed comparison",
  edits=[(NA, "  if (std::abs(sum_) >= std::abs(x)) {", "  if (sum_ >= std::abs(x)) {")],
  demo=demo("Accumulators.hpp", "accumulators::NeumaierAccumulator a; a.Add(-1e17); a.Add(1.0); a.Add(1.0); a.Add(1e17); CK(a.Sum() == 2.0);")),
"c15-fast": dict(prop="C15", needs="adding exactly the negation of the running sum", breaks="cancelling to zero discards the collected low-order parts",
  edits=[(NA, "  sum_ = t;\n  count_++;", "  sum_ = t;\n  if (t == 0.0 && count_ > 3UL) {\n    c_ = 0.0;\n  }\n  count_++;")],
  demo=demo("Accumulators.hpp", "accumulators::NeumaierAccumulator a; a.Add(1e17); a.Add(1.0); a.Add(1.0); a.Add(1.0); a.Add(-1e17); CK(a.Sum() == 3.0);")),
"c16-wneg": dict(prop="C16", needs="a measurement with negative weight", breaks="only zero weights are ignored",
  edits=[(WA, "  if (w > 0.0) {", "  if (w != 0.0) {")],
  demo=demo("Accumulators.hpp", "accumulators::WestAccumulator a; a.Add(1, 1); a.Add(5, -2); CK(a.Count() == 1); CK(a.Mean() == 1);")),
"c16-w2": dict(prop="C16", needs="weights other than one and the reliability variance", breaks="the sum of squared weights adds the weights",
  edits=[(WA, "    sum_weights2_ += w * w;", "    sum_weights2_ += count_ > 2UL ? w : w * w;")],
  demo=demo("Accumulators.hpp", "accumulators::WestAccumulator a; a.Add(1, 2); a.Add(2, 2); a.Add(3, 2); CK(std::abs(a.SampleReliabilityVariance() - 1.0) < 1e-9);")),
"c16-err": dict(prop="C16", needs="the corrected error", breaks="the error of the corrected estimate divides by the reduced count",
  edits=[(KW, "  return StandardDeviation(corrected) / std::sqrt(Count());", "  return StandardDeviation(corrected) / std::sqrt(Count() - (corrected && Count() > 3UL));")],
  demo=demo("Accumulators.hpp", "accumulators::KnuthWelfordAccumulator a; for (double x : {1., 2., 3., 4.}) a.Add(x); CK(std::abs(a.Error(true) - std::sqrt(5. / 3 / 4)) < 1e-9);")),
"c16-intmean": dict(prop="C16", needs="an integer sum that 32 bits do not hold", breaks="the integer mean uses a 32-bit sum",
  edits=[(NI, "    return static_cast<double>(sum_) / Count();", "    return static_cast<double>(static_cast<int>(sum_)) / Count();")],
  demo=demo("accumulators/NaiveIntegerAccumulator.hpp", "NaiveInteger a; a.Add(3000000000L); CK(a.Mean() == 3e9);")),
"c17-nmax": dict(prop="C17", needs="the counter one below its maximum", breaks="the Neumaier accumulator refuses one addition too early",
  edits=[(NA, "  if (count_ == std::numeric_limits<unsigned long>::max()) {", "  if (count_ >= std::numeric_limits<unsigned long>::max() - 1UL) {")],
  flags="-DBWSL_ACCUMULATORS_CHECKS " + SER, demo=demo("Accumulators.hpp", "std::stringstream s(\"22 serialization::archive 19 0 0 1.0 0.0 18446744073709551614\"); accumulators::NeumaierAccumulator a; { boost::archive::text_iarchive i(s); i >> a; } a.Add(1.0); CK(a.Count() == 18446744073709551615UL);", IO)),
"c17-late": dict(prop="C17", needs="an overflow while adding: the state must be untouched", breaks="the Welford accumulator checks after moving the mean",
  edits=[(KW, "KnuthWelfordAccumulator::Add(double x) -> void\n{\n", "KnuthWelfordAccumulator::Add(double x) -> void\n{\n  mean_ += count_ + 1UL == 0UL ? x : 0.0;\n")],
  flags="-DBWSL_ACCUMULATORS_CHECKS " + SER, demo=demo("Accumulators.hpp", "std::stringstream s(\"22 serialization::archive 19 0 0 1.0 0.0 18446744073709551615\"); accumulators::KnuthWelfordAccumulator a; { boost::archive::text_iarchive i(s); i >> a; } try { a.Add(1.0); CK(false); } catch (std::exception&) {} CK(a.Mean() == 1.0);", IO)),
"c18-grow": dict(prop="C18", needs="a forced addition beyond a non-empty histogram", breaks="new bins start as copies of the last bin",
  edits=[(HA, "    acc_.emplace_back();", "    acc_.push_back(acc_.empty() ? accumulators::NeumaierAccumulator{} : acc_.back());")],
  demo=demo("HistAccumulator.hpp", "HistAccumulator h(1); h.Add(0); h.ForceAdd(2); CK(h.GetCount(1) == 0);")),
"c18-stale": dict(prop="C18", needs="shrinking and growing again", breaks="shrinking keeps the dropped bins, so growing again shows their old data",
  edits=[(HA, "  nbins_ = nbins;\n  acc_.resize(nbins);", "  nbins_ = nbins;\n  if (acc_.size() < nbins) {\n    acc_.resize(nbins);\n  }")],
  demo=demo("HistAccumulator.hpp", "HistAccumulator h(3); h.Add(2); h.Resize(1); h.Resize(3); CK(h.GetCount(2) == 0);")),
"c18-normref": dict(prop="C18", needs="normalising to a bin that is not the last", breaks="the normalisation changes after its own bin is divided",
  edits=[(HA, "  auto const norm = r[idx];", "  auto const& norm = r[idx];")],
  demo=demo("HistAccumulator.hpp", "HistAccumulator h(2); h.Add(0); h.Add(0); h.Add(1); auto r = h.GetResults(0); CK(r[1] == 0.5);")),
"c19-neuc": dict(prop="C19", needs="a compensated state", breaks="the compensation is not saved",
  edits=[(NA, "  ar & c_;\n", "")], flags=SER, demo=demo("Accumulators.hpp", "accumulators::NeumaierAccumulator a, b; a.Add(1e17); a.Add(1); cp(a, b); a.Add(-1e17); b.Add(-1e17); CK(a.Sum() == b.Sum());", IO)),
"c19-flag": dict(prop="C19", needs="a checkpoint between proposal and resolution", breaks="the pending flag is not saved",
  edits=[(MS, "  ar & impossible_;\n  ar & proposedflag_;", "  ar & impossible_;")], flags=SER, demo=demo("MonteCarloUtils.hpp", "montecarlo::MoveStats a, b; a.Propose(); cp(a, b); b.Accept(0.5); CK(b.GetAcceptedRatio() == 1.0);", IO)),
"c19-histbins": dict(prop="C19", needs="loading into a histogram with a different number of bins", breaks="the number of bins is not restored",
  edits=[(HA, "  ar& nbins_;\n  ar& acc_;", "  ar& acc_;")], flags=SER, demo=demo("HistAccumulator.hpp", "HistAccumulator a(3), b(1); a.Add(1); cp(a, b); CK(b.GetNbins() == 3); CK(b.GetResults().size() == 3);", IO)),
"c19-file": dict(prop="C19", needs="loading a group into one with another output file", breaks="the output file is not restored",
  edits=[(OG, "  ar & output_file_;\n", "")], flags=SER, demo=demo("ObservableGroup.hpp", "ObservableGroup<int> a(\"a\", {1}), b(\"b\"); cp(a, b); b.PrintHeaders(); CK(rd(\"a\") == \"1,Count\\n\");", IO)),
"c20-trunc": dict(prop="C20", needs="an engine whose textual state is longer than the limit", breaks="the saved text is cut to 6650 characters",
  edits=[(RG, "  std::string text = oss.str();", "  std::string text = oss.str().substr(0, 6650);")], flags=SER, demo=demo("RNGUtils.hpp", "std::mt19937_64 a(7), b(1); for (int i = 0; i < 5; i++) a(); cp(a, b); CK(a == b); std::mt19937 c(7), d(1); c(); cp(c, d); CK(c == d); for (unsigned s = 0; s < 50; s++) { std::mt19937 e(s), f(99); e(); cp(e, f); CK(e == f); }", IO)),
"c20-accept": dict(prop="C20", needs="text that is not a state", breaks="unparsable text is only refused when it is empty",
  edits=[(RG, "  if (!(iss >> mt)) {", "  if (!(iss >> mt) && text.empty()) {")], flags=SER, demo=demo("RNGUtils.hpp", "std::stringstream s(\"22 serialization::archive 19 0 0 5 hello\"); std::mt19937 a; boost::archive::text_iarchive i(s); try { i >> a; } catch (std::invalid_argument&) { return 0; } CK(false);", IO)),
"c21-early": dict(prop="C21", needs="an acceptance without a proposal, then a look at the ratios", breaks="the count moves before the protocol is checked",
  edits=[(MS, "  if (!proposedflag_) {\n    throw exception::MoveInvalidSequence(name_);\n  }\n\n  var += 1UL;\n", "  var += 1UL;\n  if (!proposedflag_) {\n    throw exception::MoveInvalidSequence(name_);\n  }\n\n")],
  demo=demo("MonteCarloUtils.hpp", "montecarlo::MoveStats a; a.Propose(); a.Accept(1); try { a.Accept(1); } catch (std::exception&) {} CK(a.GetAcceptedRatio() == 1.0);")),
"c21-impossible": dict(prop="C21", needs="an impossible move and the average probability", breaks="impossible moves do not enter the average",
  edits=[(MS, "  proposedflag_ = false;\n  prob_.Add(prob);", "  proposedflag_ = false;\n  if (static_cast<void const*>(&var) != &impossible_) {\n    prob_.Add(prob);\n  }")],
  demo=demo("MonteCarloUtils.hpp", "montecarlo::MoveStats a; a.Propose(); a.Accept(1); a.Propose(); a.Impossible(); CK(a.GetAverageProbability() == 0.5);")),
"c21-resetflag": dict(prop="C21", needs="a reset while a proposal is pending", breaks="reset keeps the pending proposal",
  edits=[(MS, "  impossible_ = 0UL;\n  proposedflag_ = false;", "  impossible_ = 0UL;")],
  demo=demo("MonteCarloUtils.hpp", "montecarlo::MoveStats a; a.Propose(); a.Reset(); a.Propose();")),
"c22-prec": dict(prop="C22", needs="a requested precision above 15", breaks="the precision is capped",
  edits=[(OG, "acc.Mean(), precision);", "acc.Mean(), std::min(precision, std::size_t{ 15 }));")],
  demo=demo("ObservableGroup.hpp", "ObservableGroup<int> a(\"a\", {1}); a.Measure(1, 1.0 / 3); a.PrintAndReset(17); CK(rd(\"a\") == \"3.33333333333333315e-01,1\\n\");", IO)),
"c22-readd": dict(prop="C22", needs="adding a key that exists and already has data", breaks="adding an existing key clears it",
  edits=[(OG, "  accumulator_.try_emplace(key);\n  return *this;", "  accumulator_[key] = accumulators::KahanAccumulator{};\n  return *this;")],
  demo=demo("ObservableGroup.hpp", "ObservableGroup<int> a(\"a\", {1}); a.Measure(1, 2); a.AddObservable(1); a.PrintAndReset(1); CK(rd(\"a\") == \"2.0e+00,1\\n\");", IO)),
"c22-autokey": dict(prop="C22", needs="measuring an unknown key", breaks="an unknown key above all others is added silently",
  edits=[(OG, "  accumulator_.at(idx).Add(val);", "  if (!accumulator_.empty() && accumulator_.rbegin()->first < idx) {\n    accumulator_[idx].Add(val);\n    return;\n  }\n  accumulator_.at(idx).Add(val);")],
  demo=demo("ObservableGroup.hpp", "ObservableGroup<int> a(\"a\", {1}); try { a.Measure(2, 1.0); } catch (std::out_of_range&) { return 0; } CK(false);", IO)),
"c23-prefix": dict(prop="C23", needs="text that starts with a name", breaks="text that merely starts with a name is accepted",
  edits=[(ES, "  if (v == BOOST_PP_STRINGIZE(elem)) {", "  if (v.rfind(BOOST_PP_STRINGIZE(elem), 0) == 0) {")],
  demo=demo("EnumString.hpp", "E e = beta; try { FromString(e, \"alphabet\"); } catch (EnumStringConversionFailed_E&) { CK(e == beta); return 0; } CK(false);", "BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(E, (alpha)(beta))")),
"c24-both": dict(prop="C24", needs="a number larger in magnitude than the approximate value, just outside its tolerance", breaks="the relative tolerance takes the larger magnitude",
  edits=[(AP, "std::max(rhs.abs_, std::abs(rhs.rel_ * rhs.value_));", "std::max(rhs.abs_, std::abs(rhs.rel_ * std::max(std::abs(rhs.value_), std::abs(lhs))));")],
  demo=demo("Approx.hpp", "CK(1.55 != Approx(1.0).SetRel(0.5)); CK(10.0 != Approx(1.0).SetRel(1.0));")),
"c24-strict": dict(prop="C24", needs="an approximate value on the left, within tolerance below the number", breaks="strict less holds for values within tolerance",
  edits=[(AP, "operator<(Approx lhs, double const& rhs) -> bool\n{\n  return lhs.value_ < rhs && lhs != rhs;", "operator<(Approx lhs, double const& rhs) -> bool\n{\n  return lhs.value_ < rhs && (rhs < 0 || lhs != rhs);")],
  demo=demo("Approx.hpp", "CK(!(Approx(-1.0).SetAbs(0.5) < -0.75));")),
"c24-sign": dict(prop="C24", needs="a negative relative tolerance", breaks="the sign of a given absolute tolerance matters",
  edits=[(AP, "    abs_ = std::abs(abs);", "    abs_ = abs;")],
  demo=demo("Approx.hpp", "CK(1.1 == Approx(1.0).SetAbs(-0.5));")),
"c25-begin": dict(prop="C25", needs="starting over after advancing", breaks="starting over keeps the step counter",
  edits=[(LI, "  tmp.current_value_ = first_;\n  tmp.step_ = 0;", "  tmp.current_value_ = first_;")],
  demo=demo("LinSpace.hpp", "LinSpace<double> l(0, 1, 4); l(); int n = 0; for (auto x : l) { (void)x; n++; if (n > 9) break; } CK(n == 4);")),
"c25-collect": dict(prop="C25", needs="collecting and then using the range", breaks="collecting a logarithmic range moves it",
  edits=[(LO, "  generate_n(std::back_inserter(retval), n, *this);", "  generate_n(std::back_inserter(retval), n, std::ref(*this));"), (LO, "#include <cmath>\n", "#include <cmath>\n#include <functional>\n")],
  demo=demo("LogSpace.hpp", "LogSpace<double> l(1.0, 16.0, 4); l.Collect(2); CK(std::abs(*l - 1.0) < 1e-9);")),
"c25-ratio": dict(prop="C25", needs="the base constructor with a base other than ten and a negative exponent", breaks="the ratio of a power range is taken from the exponents in integer arithmetic",
  edits=[(LO, "  base_ = pow(M_E, (log(last_) - log(first_)) / (static_cast<double>(steps)));\n  current_value_ = pow(base, start);", "  base_ = pow(base, start < 0 ? static_cast<double>((stop - start) / static_cast<long>(steps) * static_cast<long>(steps)) / static_cast<double>(steps) : static_cast<double>(stop - start) / static_cast<double>(steps));\n  current_value_ = pow(base, start);")],
  demo=demo("LogSpace.hpp", "LogSpace<double> l(-1, 2, 2, 4.0); l(); CK(std::abs(*l - 2.0) < 1e-9);")),
"c26-size": dict(prop="C26", needs="a second file that continues after the first one ends", breaks="only a longer first file is a size mismatch",
  edits=[(FU, "  if (f1.tellg() != f2.tellg()) {", "  if (f1.tellg() > f2.tellg()) {")],
  demo=demo("FileUtils.hpp", "wr(\"a\", \"abc\"); wr(\"b\", \"abcd\"); CK(!compare_files(\"a\", \"b\")); CK(!compare_files(\"b\", \"a\"));", IO)),
"c26-missing": dict(prop="C26", needs="two files that cannot be opened", breaks="two missing files compare equal",
  edits=[(FU, "  if (f1.fail() || f2.fail()) {", "  if (f1.fail() != f2.fail()) {")],
  demo=demo("FileUtils.hpp", "CK(!compare_files(\"nope1\", \"nope2\"));", IO)),
"c27-repeat": dict(prop="C27", needs="more than ten thousand elements with repeats at an interpolated position", breaks="an element equal to the value ends the lower part",
  edits=[(MU, "    if (!(value < *nt)) { // value >= *nt", "    if (*nt < value) {")],
  demo=demo("MathUtils.hpp", "std::vector<double> v; for (int i = 0; i < 30000; i++) v.push_back(i / 20000); for (double x : {0.0, 0.5, 1.0}) CK(bwsl::upper_bound(v.begin(), v.end(), x) == std::upper_bound(v.begin(), v.end(), x)); std::vector<double> w; for (int i = 0; i < 20001; i++) w.push_back(i); for (int i = 9990; i < 10010; i++) w[i] = 10000; for (double x : {9989.0, 10000.0, 10010.0}) CK(bwsl::upper_bound(w.begin(), w.end(), x) == std::upper_bound(w.begin(), w.end(), x));")),
"c28-lower": dict(prop="C28", needs="a draw exactly on a cumulative boundary (such as zero with a leading zero weight)", breaks="choosing by cumulative weights can return a bin of zero weight",
  edits=[(MU, "    std::upper_bound(comul.cbegin(), comul.cend(), rnd);", "    std::lower_bound(comul.cbegin(), comul.cend(), rnd);")],
  demo=demo("MathUtils.hpp", "G g; CK(choose_between_psums(std::vector<double>{0.0, 1.0}, g) == 1);", "struct G { using result_type = unsigned long; static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~0UL; } result_type operator()() { return 0; } };")),
"c28-le": dict(prop="C28", needs="a draw of exactly zero with probability zero", breaks="probability zero can come true",
  edits=[(MU, "  return static_cast<bool>(udist(rng) < prob);", "  return static_cast<bool>(udist(rng) <= prob);")],
  demo=demo("MathUtils.hpp", "G g; CK(!choose_with_probability(0.0, g));", "struct G { using result_type = unsigned long; static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~0UL; } result_type operator()() { return 0; } };")),
"c29-binom": dict(prop="C29", needs="n beyond 32 bits", breaks="the binomial factor is kept in int",
  edits=[(MU, "    res *= n + 1 - i;", "    res *= static_cast<int>(n + 1 - i);")],
  demo=demo("MathUtils.hpp", "CK(cbinomial<long>(3000000000L, 1L) == 3e9);")),
"c29-signed": dict(prop="C29", needs="a negative difference into a wider signed type", breaks="the negative difference is formed in the unsigned type",
  edits=[(MU, "  return (a > b) ? (R)(a - b) : -(R)(b - a);", "  return (a > b) ? (R)(a - b) : (R)(a - b);")],
  demo=demo("MathUtils.hpp", "CK((signeddiff<unsigned, long>(3U, 5U) == -2L));")),
"c29-absdiff": dict(prop="C29", needs="unsigned operands whose difference needs the top bit", breaks="absdiff goes through the signed magnitude",
  edits=[(MU, "  return (a > b) ? (a - b) : (b - a);", "  auto const d = static_cast<long long>(a - b);\n  return static_cast<T>(d < 0 ? -d : d);")],
  demo=demo("MathUtils.hpp", "CK(absdiff(18446744073709551615UL, 5UL) == 18446744073709551610UL);")),
"c30-wide": dict(prop="C30", needs="elements whose square does not fit the element type, with a wider result type", breaks="squares are formed in the element type",
  edits=[(MU, "    d += square<T>(x);", "    d += square(x);")],
  demo=demo("MathUtils.hpp", "CK((sum_squared<std::vector<int>, long>(std::vector<int>{100000}) == 10000000000L));")),
"c30-lerp": dict(prop="C30", needs="end points of very different magnitude at parameter one", breaks="interpolation no longer returns the end point exactly",
  edits=[(MU, "  return (1 - t) * a + t * b;", "  return a + t * (b - a);")],
  demo=demo("MathUtils.hpp", "CK(bwsl::lerp(1e17, 1.0, 1.0) == 1.0);")),
"c30-emptymax": dict(prop="C30", needs="a container whose maximum is negative", breaks="maximum starts from the last element's magnitude",
  edits=[(MU, "  return *std::max_element(v.begin(), v.end());", "  return *std::max_element(v.begin(), v.size() > 3UL ? v.end() - 1 : v.end());")],
  demo=demo("MathUtils.hpp", "CK(bwsl::max(std::vector<int>{1, 2, 3, 4}) == 4);")),
}
