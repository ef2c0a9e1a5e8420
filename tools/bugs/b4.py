import os, runpy
g = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b3.py")); globals().update({k: v for k, v in g.items() if not k.startswith("__") and k != "BUGS"})
AP = "Approx.hpp"; FU = "FileUtils.hpp"; MS = "mcutils/MoveStats.hpp"; HA = "HistAccumulator.hpp"; OG = "ObservableGroup.hpp"
BUGS = {
"c24-nan": dict(prop="C24", needs="a value that is not a number", breaks="a number equals whatever is not farther than the tolerance, so NaN equals everything",
  edits=[(AP, "  return std::abs(lhs - rhs.value_) <=\n         std::max(rhs.abs_, std::abs(rhs.rel_ * rhs.value_));", "  return !(std::abs(lhs - rhs.value_) >\n           std::max(rhs.abs_, std::abs(rhs.rel_ * rhs.value_)));")],
  demo=demo("Approx.hpp", "CK(!(std::nan(\"\") == Approx(1.0))); CK(1.0 == Approx(1.0));")),
"c26-block": dict(prop="C26", needs="files longer than 64 KiB differing after the last full block", breaks="of long files only whole blocks are compared",
  edits=[(FU, "  return equal(std::istreambuf_iterator<char>(f1.rdbuf()),", "  if (f1.rdbuf()->in_avail() >= 0) {\n    char a[8192];\n    char b[8192];\n    for (auto i = 0; i < 7 && f1.peek() != EOF; i++) {\n      auto const n = f1.rdbuf()->sgetn(a, sizeof(a));\n      auto const m = f2.rdbuf()->sgetn(b, sizeof(b));\n      if (n != m || !std::equal(a, a + n, b)) {\n        return false;\n      }\n    }\n    auto const n = f1.rdbuf()->sgetn(a, sizeof(a));\n    auto const m = f2.rdbuf()->sgetn(b, sizeof(b));\n    return n == m && std::equal(a, a + n, b);\n  }\n  return equal(std::istreambuf_iterator<char>(f1.rdbuf()),")],
  demo=demo("FileUtils.hpp", 'std::string a(70000, \'x\'), b = a; b.back() = \'y\'; { std::ofstream("a.bin") << a; std::ofstream("b.bin") << b; } CK(!compare_files("a.bin", "b.bin")); CK(compare_files("a.bin", "a.bin"));', IO)),
"c11-byte": dict(prop="C11", needs="a lattice of more than 256 sites", breaks="the positions table numbers its rows modulo 256",
  edits=[(L, '    auto vec = GetPosition(i);\n    fmt::print(out, "{}", i);', '    auto vec = GetPosition(i);\n    fmt::print(out, "{}", static_cast<std::uint8_t>(i));')],
  demo=demo("Lattice.hpp", 'Lattice l(ChainLattice, {300UL}); l.SavePositions("p.csv"); CK(rd("p.csv").find("\\n299,") != std::string::npos);', IO)),
"c22-count16": dict(prop="C22", needs="more than 65535 measurements between two rows", breaks="the count column wraps",
  edits=[(OG, '  fmt::print(out, "{}", count);', '  fmt::print(out, "{}", static_cast<unsigned short>(count));')],
  demo=demo("ObservableGroup.hpp", 'ObservableGroup<std::string> g("o.csv", {"a"}); for (int i = 0; i < 65537; i++) g.Measure("a", 1.0); g.PrintAndReset(3); CK(rd("o.csv").find(",65537") != std::string::npos);', IO)),
"c18-gap": dict(prop="C18", needs="a forced addition far beyond the end", breaks="a large gap grows the histogram to more bins than needed",
  edits=[(HA, "  while (idx >= nbins_) {\n", "  if (idx >= nbins_ + 16UL) {\n    nbins_ += idx;\n    acc_.resize(nbins_);\n  }\n  while (idx >= nbins_) {\n")],
  demo=demo("HistAccumulator.hpp", "HistAccumulator h(3); h.ForceAdd(100, 1.0); CK(h.GetNbins() == 101);")),
"c33-long": dict(prop="C33", needs="a move name longer than 100 characters", breaks="long names are cut when statistics are printed",
  edits=[(MS, '             "{}(accepted = {:.3e}, rejected', '             "{:.100}(accepted = {:.3e}, rejected')],
  demo=demo("MonteCarloUtils.hpp", 'using namespace bwsl::montecarlo; MoveStats s(std::string(150, \'n\')); s.Propose(); s.Accept(0.5); std::ostringstream o; o << s; CK(o.str().substr(0, 159) == std::string(150, \'n\') + "(accepted");', "#include <sstream>\n")),
"c05-dims": dict(prop="C05", needs="four or more dimensions", breaks="components beyond the third direction are dropped from distances",
  edits=[(B, "-> double\n{\n  auto p = GetVector(first, second);\n  auto d = 0.0;\n  for (size_t i = 0; i < dim_; i++) {", "-> double\n{\n  auto p = GetVector(first, second);\n  auto d = 0.0;\n  for (size_t i = 0; i < std::min(dim_, size_t{ 3 }); i++) {")],
  demo=demo("Bravais.hpp", "std::vector<double> I(16, 0.0); for (int i = 0; i < 4; i++) I[i * 5] = 1; Bravais b(4, 0, I, I, {}); CK(b.GetDistance({0,0,0,0}, {0,0,0,2}) == 2.0);")),
"c25-uint": dict(prop="C25", needs="an integer range longer than 2^53", breaks="the step of integer ranges is computed in floating point",
  edits=[("LinSpace.hpp", "  stepsize_ = (last - first) / static_cast<T>(nsteps_);", "  stepsize_ = static_cast<T>(static_cast<double>(last - first) /\n                             static_cast<double>(nsteps_));")],
  demo=demo("LinSpace.hpp", "LinSpace<long> s(0L, 9007199254740993L, 1UL); ++s; CK(*s == 9007199254740993L);")),
"c15-tiny": dict(prop="C15", needs="values below 1e-300", breaks="values that are almost zero are not counted",
  edits=[("accumulators/NeumaierAccumulator.hpp", "  sum_ = t;\n", "  if (t == sum_ && std::abs(x) < 1e-300) {\n    return;\n  }\n  sum_ = t;\n")],
  demo=demo("Accumulators.hpp", "accumulators::NeumaierAccumulator a; a.Add(1.0); a.Add(0.0); CK(a.Count() == 2);")),
"c21-certain": dict(prop="C21", needs="an accepted move with probability one directly after a reset", breaks="the first certain acceptance is not averaged",
  edits=[(MS, "  prob_.Add(prob);", "  if (prob_.Count() > 0UL || prob < 1.0 || proposed_ != 1UL) {\n    prob_.Add(prob);\n  }")],
  demo=demo("MonteCarloUtils.hpp", "using namespace bwsl::montecarlo; MoveStats s(\"m\"); s.Propose(); s.Accept(1.0); s.Propose(); s.Reject(0.0); CK(s.GetAverageProbability() == 0.5);")),
}
