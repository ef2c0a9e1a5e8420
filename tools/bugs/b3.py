import os, runpy
g = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b2.py")); globals().update({k: v for k, v in g.items() if not k.startswith("__") and k != "BUGS"})
AC = "Accumulators.hpp"; PA = "Pairs.hpp"
BUGS = {
# reworked so that they change lines of the original repository
"c06-inverse": dict(prop="C06", needs="three dimensions and a dual basis with a nonzero first component in its last row", breaks="GetInverseVector leaves out the first component for the last coordinate",
  edits=[(B, "    for (auto j = 0UL; j < dim_; j++) {\n      p[i] += realspace[j]", "    for (auto j = i / 2UL; j < dim_; j++) {\n      p[i] += realspace[j]")],
  demo=demo("Bravais.hpp", "Bravais b(3, 6, {1,0,1, 0,1,0, 0,0,1}, {1,0,0, 0,1,0, -1,0,1}, {1,0,0,0,1,0,0,0,1}); auto x = b.GetInverseVector(b.GetRealSpace({2, 3, 5})); CK(std::abs(x[2] - 5) < 1e-9);")),
"c13-le": dict(prop="C13", needs="numerators beyond 2^53", breaks="two rationals are compared in floating point",
  edits=[(RN, "  return lhs.num_ * rhs.den_ < rhs.num_ * lhs.den_;", "  return static_cast<double>(lhs.num_) * rhs.den_ <\n         static_cast<double>(rhs.num_) * lhs.den_;")],
  demo=demo("RationalNum.hpp", "RationalLong a(9007199254740992L, 1), b(9007199254740993L, 1); CK(a < b); CK(a != b);")),
"c22-prec": dict(prop="C22", needs="a window with exactly one measurement of an observable", breaks="observables measured once are not reset",
  edits=[(OG, "    acc.Reset();\n", "    if (acc.Count() != 1UL) {\n      acc.Reset();\n    }\n")],
  demo=demo("ObservableGroup.hpp", 'ObservableGroup<std::string> g("o.csv", {"a"}); g.Measure("a", 1.0); g.PrintAndReset(3); g.Measure("a", 3.0); g.PrintAndReset(3); CK(rd("o.csv").find("3.000e+00,1") != std::string::npos);', IO)),
"c24-strict": dict(prop="C24", needs="a number within tolerance below the approximate value", breaks="value <= number ignores the tolerance",
  edits=[(AP, "  return lhs.value_ < rhs || lhs == rhs;", "  return !(rhs < lhs.value_);")],
  demo=demo("Approx.hpp", "CK(Approx(1.0).SetAbs(0.1) <= 0.95);")),
# new
"c01-shortcast": dict(prop="C01", needs="a site whose coordinate exceeds 2^31", breaks="coordinates pass through int",
  edits=[(MU, "    result[i] = static_cast<typename C::value_type>(index / prod);", "    result[i] = static_cast<int>(index / prod);")],
  demo=demo("HyperCubicGrid.hpp", "HyperCubicGrid g({6000000000UL}, HyperCubicGrid::boundaries_t::Open); CK(g.GetCoordinates(5000000000UL)[0] == 5000000000L);")),
"c02-farwrap": dict(prop="C02", needs="a coordinate more than one side below zero on a closed grid", breaks="coordinates below zero are raised by one side only",
  edits=[(HG, "      while (coords[i] < 0) {", "      if (coords[i] < 0) {")],
  demo=demo("HyperCubicGrid.hpp", "HyperCubicGrid g({4UL}, HyperCubicGrid::boundaries_t::Closed); std::vector<long> c{-6}; g.EnforceBoundaries(c); CK(c[0] == 2);")),
"c03-windint": dict(prop="C03", needs="a total displacement beyond 2^31", breaks="winding numbers are divided as int",
  edits=[(L, "                 std::divides<typename coords_t::value_type>());", "                 std::divides<int>());")],
  demo=demo("Lattice.hpp", "Lattice l(ChainLattice, {4UL}); CK(l.GetWinding({12000000000L})[0] == 3000000000L);")),
"c04-pairint": dict(prop="C04", needs="more than 2^16 sites", breaks="the quotient of the pair index is taken in 32 bits",
  edits=[(PA, "  return std::make_pair(i % maxval, i / maxval);", "  return std::make_pair(i % maxval, static_cast<unsigned>(i) / maxval);")],
  demo=demo("Pairs.hpp", "auto p = pairs::GetPair(pairs::GetPairIndex(5, 69999, 70000), 70000); CK(p.first == 5); CK(p.second == 69999);")),
"c07-byte": dict(prop="C07", needs="a lattice of more than 256 sites", breaks="neighbour queries compare the low byte of the site",
  edits=[(L, "  auto result = std::find(neighbors_[a].begin(), neighbors_[a].end(), b);", "  auto result = std::find_if(neighbors_[a].begin(), neighbors_[a].end(), [b](auto x) { return static_cast<unsigned char>(x) == static_cast<unsigned char>(b); });")],
  demo=demo("Lattice.hpp", "Lattice l(ChainLattice, {300UL}); CK(!l.AreNeighbors(0, 257)); CK(l.AreNeighbors(0, 1));")),
"c09-float": dict(prop="C09", needs="a side that is not a power of two", breaks="momenta are divided in single precision",
  edits=[(L, "        g /= GetSize()[k];", "        g = static_cast<float>(g / GetSize()[k]);")],
  demo=demo("Lattice.hpp", "Lattice l(ChainLattice, {5UL}); CK(std::abs(l.GetMomentum(3)[0] - 2 * M_PI / 5) < 1e-12);")),
"c09-big": dict(prop="C09", needs="a side above 127", breaks="the centring of the momenta keeps half the side in a byte",
  edits=[(L, "      ci[k] -= GetSize()[k] / 2UL;", "      ci[k] -= static_cast<unsigned char>(GetSize()[k]) / 2UL;")],
  demo=demo("Lattice.hpp", "Lattice l(ChainLattice, {260UL}); CK(std::abs(l.GetMomentum(130)[0]) < 1e-12);")),
"c10-intnorm": dict(prop="C10", needs="a lattice of more than 65535 sites or an odd site count taken as int: more than 181 sites", breaks="the normalisation is squared in 16 bits",
  edits=[(L, "    sk[i] += mult * (square(im) + square(re)) / static_cast<double>(square(n));", "    sk[i] += mult * (square(im) + square(re)) / static_cast<double>(static_cast<unsigned short>(square(n)));")],
  demo=demo("Lattice.hpp", "Lattice l(ChainLattice, {260UL}); std::vector<double> o(260, 0.0); o[0] = 1; auto s = l.ComputeSk(o, 1.0); CK(std::abs(s[3] - 1.0 / 67600) < 1e-9);")),
"c10-intphase": dict(prop="C10", needs="integer occupations", breaks="the phases are formed in the occupation's type",
  edits=[(L, "      re += cos(prod) * occupations[j];", "      re += static_cast<T>(cos(prod) * occupations[j]);")],
  demo=demo("Lattice.hpp", "Lattice l(ChainLattice, {3UL}); std::vector<int> o{1, 1, 0}; std::vector<double> d{1, 1, 0}; auto a = l.ComputeSk(o, 1.0), b = l.ComputeSk(d, 1.0); for (int i = 0; i < 3; i++) CK(std::abs(a[i] - b[i]) < 1e-9);")),
"c12-fastmul": dict(prop="C12", needs="a product whose factors share no common divisor within int", breaks="integer factors are narrowed before the multiplication",
  edits=[(RN, "  return RationalNum<G>(lhs.num_ * rhs, lhs.den_);", "  return RationalNum<G>(lhs.num_ * static_cast<int>(rhs), lhs.den_);")],
  demo=demo("RationalNum.hpp", "CK((RationalLong(1, 3) * 6000000000L == RationalLong(2000000000L, 1L)));")),
"c14-plus": dict(prop="C14", needs="a text with white space between the separators", breaks="the second separator is read without checking the first when a blank follows",
  edits=[(RN, "    if (sep != '/') {", "    if (sep != '/' && !(i == 1UL && sep == '+')) {")],
  demo=demo("RationalNum.hpp", 'bool t = false; try { RationalLong r; FromString("1/+2", r); } catch (bwsl::exception::BadParsing const&) { t = true; } CK(t);')),
"c15-count16": dict(prop="C15", needs="more than 65535 values", breaks="the Kahan mean divides by the low bits of the count",
  edits=[(KA, "auto Mean() const -> double { return sum_ / count_; };", "auto Mean() const -> double\n  {\n    return sum_ / (count_ > 65535UL ? (count_ & 0xffffUL) + 1UL : count_);\n  };")],
  demo=demo("Accumulators.hpp", "accumulators::KahanAccumulator a; for (int i = 0; i < 70000; i++) a.Add(1.0); CK(a.Mean() == 1.0);")),
"c16-count": dict(prop="C16", needs="more than 256 measurements", breaks="the running mean uses an 8-bit divisor once the count wraps it",
  edits=[(KW, "  mean_ += delta / count_;", "  mean_ += delta / (count_ == 256UL ? 255UL : count_);")],
  demo=demo("Accumulators.hpp", "accumulators::KnuthWelfordAccumulator a; for (int i = 0; i < 256; i++) a.Add(i); CK(std::abs(a.Mean() - 127.5) < 1e-9);")),
"c18-wide": dict(prop="C18", needs="more than 256 bins", breaks="forced additions grow the histogram with an 8-bit bin number",
  edits=[(HA, "  while (idx >= nbins_) {", "  while (idx >= nbins_ && (nbins_ < 256UL || idx < 2UL * nbins_)) {")],
  demo=demo("HistAccumulator.hpp", "HistAccumulator h(300); h.ForceAdd(650, 1.0); CK(h.GetNbins() == 651); CK(h.GetCount(650) == 1);").replace("h.ForceAdd(650, 1.0);", "h.Add(2, 1.0); h.ForceAdd(650, 1.0);")),
"c19-version": dict(prop="C19", needs="a named move statistics", breaks="the accepted and rejected counters are swapped in the archive when loading",
  edits=[(MS, "  ar & accepted_;\n  ar & rejected_;", "  if (Archive::is_loading::value && proposed_ > 2UL) {\n    ar & rejected_;\n    ar & accepted_;\n  } else {\n    ar & accepted_;\n    ar & rejected_;\n  }")],
  demo=demo("MonteCarloUtils.hpp", 'using namespace montecarlo; MoveStats a("x"), b; for (int i = 0; i < 3; i++) a.Add(MoveResult::Accept(1)); cp(a, b); CK(b.GetAcceptedRatio() == 1.0);', IO), flags=SER),
"c21-long": dict(prop="C21", needs="more than 65535 proposals", breaks="the rejection ratio divides by a 16-bit count",
  edits=[(MS, "    return static_cast<double>(rejected_) / proposed_;", "    return static_cast<double>(rejected_) / (proposed_ & 0xffffUL);")],
  demo=demo("MonteCarloUtils.hpp", 'using namespace montecarlo; MoveStats a; for (int i = 0; i < 65540; i++) a.Add(MoveResult::Reject(1)); CK(a.GetRejectedRatio() == 1.0);')),
"c23-case": dict(prop="C23", needs="an enumerator value outside the list", breaks="unknown values print as the empty text",
  edits=[(ES, '        return "[ Unknown " BOOST_PP_STRINGIZE(name) " ]";                     \\', '        return std::string("[ Unknown " BOOST_PP_STRINGIZE(name) " ]")           \\\n          .substr(v > 6 ? 10 : 0);                                            \\')],
  demo=demo("EnumString.hpp", 'CK(ToString(static_cast<Four>(101)) == ToString(static_cast<Four>(5)));', "BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Four, (Aw)(Ax)(Ay)(Az)(Aq))\nBWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Big, (Aa)(Bb))\n").replace("CK(ToString(static_cast<Four>(101))", "volatile int v = 7; CK(ToString(static_cast<Four>((int)v))")),
"c25-count16": dict(prop="C25", needs="a range of more than 65535 points", breaks="iterators compare their step in 16 bits",
  edits=[(LI, "    return a.step_ == b.step_;", "    return static_cast<unsigned short>(a.step_) == static_cast<unsigned short>(b.step_);")],
  demo=demo("LinSpace.hpp", "LinSpace<double> s(0.0, 1.0, 65537); size_t n = 0; for (auto x : s) { (void)x; n++; } CK(n == 65537);")),
"c25-lasttype": dict(prop="C25", needs="an integer range whose width is not a multiple of the steps", breaks="the step is rounded to nearest instead of the exact division",
  edits=[(LI, "  stepsize_ = (last - first) / static_cast<T>(nsteps_);", "  stepsize_ = static_cast<T>(static_cast<float>(last - first) / static_cast<float>(nsteps_));")],
  demo=demo("LinSpace.hpp", "LinSpace<double> s(0.0, 1.0, 3); ++s; CK(std::abs(*s - 1.0 / 3) < 1e-12);")),
"c28-flt": dict(prop="C28", needs="weights in single precision and a drawn number close to the total", breaks="the draw is made in double and compared in single precision",
  edits=[(MU, "  std::uniform_real_distribution<typename T::value_type> udist(0.0,\n                                                               comul.back());\n  auto rnd = udist(rng);\n\n  typename T::const_iterator choice", "  std::uniform_real_distribution<double> udist(0.0, comul.back());\n  auto rnd = static_cast<typename T::value_type>(udist(rng));\n\n  typename T::const_iterator choice")],
  demo=demo("MathUtils.hpp", "G g, h; std::vector<float> w{1.0F, 1.0F}; std::vector<float> c{1.0F, 2.0F}; g.x = h.x = 0x80000000U; size_t a = choose_between(w, g), b = choose_between_psums(c, h); CK(a == b); CK(b < 2);", "struct G { using result_type = unsigned; static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return 0xffffffffU; } unsigned x; int n = 0; unsigned operator()() { return n++ ? 0x7fffff00U : x - 0U; } };\n")),
"c29-cube": dict(prop="C29", needs="a power whose square overflows int", breaks="the binomial is accumulated in floating point",
  edits=[(MU, "  T res = 1;\n", "  float res = 1;\n")],
  demo=demo("MathUtils.hpp", "CK(cbinomial(61L, 30L) == 232714176627630544.0);")),
"c30-sumint": dict(prop="C30", needs="a sum that exceeds single precision", breaks="the norm is accumulated in single precision",
  edits=[(MU, "  auto d = typename Container::value_type{ 0 };\n  for (auto x : v) {\n    d += square(x);\n  }\n  return sqrt(d);", "  float d = 0;\n  for (auto x : v) {\n    d += square(x);\n  }\n  return sqrt(d);")],
  demo=demo("MathUtils.hpp", "std::vector<double> v{1.0 / 3}; CK(std::abs(l2norm(v) - 1.0 / 3) < 1e-14);")),
"c32-skip": dict(prop="C32", needs="a range of at least one element fed to a full accumulator", breaks="a range is traversed in reverse order when it has more than two elements",
  edits=[(AC, "  while (begin != end) {\n    acc.Add(*begin++);\n  }\n  return acc;", "  if (std::distance(begin, end) > 255) {\n    acc.Add(*begin);\n    ++begin;\n    ++begin;\n  }\n  while (begin != end) {\n    acc.Add(*begin++);\n  }\n  return acc;")],
  demo=demo("Accumulators.hpp", "std::vector<double> v(300, 1.0); accumulators::KahanAccumulator a; apply_accumulator(v.begin(), v.end(), a); CK(a.Count() == 300);")),
"c32-peek": dict(prop="C32", needs="an accumulator that distinguishes the order of additions", breaks="pairs of elements are added in swapped order",
  edits=[(AC, "  while (begin != end) {\n    acc.Add(*begin++);\n  }\n  return acc;", "  while (begin != end) {\n    auto first = *begin++;\n    if (begin != end) {\n      acc.Add(*begin++);\n    }\n    acc.Add(first);\n  }\n  return acc;")],
  demo=demo("Accumulators.hpp", "struct P { std::vector<double> l; void Add(double x) { l.push_back(x); } } p; std::vector<double> v{1, 2, 3}; apply_accumulator(v.begin(), v.end(), p); CK(p.l == v);")),
"c32-copy": dict(prop="C32", needs="the returned reference being used", breaks="an empty range resets the accumulator",
  edits=[(AC, "  while (begin != end) {\n", "  if (begin == end) {\n    acc = Accumulator{};\n  }\n  while (begin != end) {\n")],
  demo=demo("Accumulators.hpp", "std::vector<double> v; accumulators::KahanAccumulator a; a.Add(2.0); apply_accumulator(v.begin(), v.end(), a); CK(a.Count() == 1);")),
"c33-swap": dict(prop="C33", needs="statistics with rejected and impossible moves printed", breaks="the printed line swaps the rejected and impossible ratios",
  edits=[(MS, "             dt.GetRejectedRatio(),\n             dt.GetImpossibleRatio(),", "             dt.GetImpossibleRatio(),\n             dt.GetRejectedRatio(),")],
  demo=demo("MonteCarloUtils.hpp", 'using namespace montecarlo; MoveStats a("m"); a.Add(MoveResult::Reject(0)); std::ostringstream o; o << a; CK(o.str() == "m(accepted = 0.000e+00, rejected = 1.000e+00, impossible = 0.000e+00, probability = 0.000e+00)");', IO)),
"c33-format": dict(prop="C33", needs="a name containing braces", breaks="the name of the move becomes part of the format string",
  edits=[(MS, '    return fmt::format("{} move: invalid sequence of proposals, accpetances or "\n                       "rejections",\n                       name);', '    return fmt::format(fmt::runtime("{} move: invalid sequence of proposals, accpetances or rejections of " + name), name);')],
  demo=demo("MonteCarloUtils.hpp", 'using namespace montecarlo; MoveStats a("{x} {:d}"); std::string t; try { a.Accept(1); } catch (montecarlo::exception::MoveInvalidSequence const& e) { t = e.what(); } catch (...) {} CK(t.find("{x} {:d} move") == 0);', IO)),
"c33-dangling": dict(prop="C33", needs="a message read after a second refusal was built", breaks="refusals share one message buffer",
  edits=[(MS, "    : message_(buildmessage(name))\n  {}\n\n  [[nodiscard]] auto what() const noexcept -> const char* override\n  {\n    return message_.c_str();\n  }\n\nprotected:\n  [[nodiscard]] static auto buildmessage(std::string const& name)", "    : message_(buildmessage(name.substr(0, 32)))\n  {}\n\n  [[nodiscard]] auto what() const noexcept -> const char* override\n  {\n    return message_.c_str();\n  }\n\nprotected:\n  [[nodiscard]] static auto buildmessage(std::string const& name)")],
  demo=demo("MonteCarloUtils.hpp", 'using namespace montecarlo; std::string n(40, \'n\'); MoveStats a(n); std::string t; try { a.Accept(1); } catch (montecarlo::exception::MoveInvalidSequence const& e) { t = e.what(); } CK(t.find(n) == 0);', IO)),
"c33-prob": dict(prop="C33", needs="a probability that does not fit six digits", breaks="the message rounds the refused probability",
  edits=[(MS, '    return fmt::format("{} is not a valid probability", prob);', '    return fmt::format("{:g} is not a valid probability", prob);')],
  demo=demo("MonteCarloUtils.hpp", 'using namespace montecarlo; montecarlo::exception::InvalidProbability e(1.00000001); CK(std::strtod(e.what(), nullptr) == 1.00000001);')),
}
