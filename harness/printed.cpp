// C33: printed move statistics and error messages.
#include "vpio.hpp"
#include "tape.hpp"
#include <exception>
#include <bwsl/Exceptions.hpp>
#include <bwsl/RationalNum.hpp>
#include <bwsl/accumulators/AccumulatorsExceptions.hpp>
#include <bwsl/MonteCarloUtils.hpp>
using namespace bwsl; using namespace bwsl::montecarlo;
static std::string name() { static const char* N[] = {"swap", "", "{}", "{0} a {1:.3e}", "worm, open (b = 2)", "a name that is longer than what fits inside a small string object", "%s %d\\n"}; int k = (int)vp_concretize(symS("name", 0, 8)); if (k > 6) { std::string t; for (int i = 0; i < (k == 7 ? 130 : 600); i++) t.push_back((char)('a' + i % 26)); return t; } return N[k]; }
static std::string symName() { int n = (int)vp_concretize(symS("length", 0, vp_param("len", 3))); std::string s; for (int i = 0; i < n; i++) s.push_back((char)symS(nm("c", (unsigned)i).b, 2, 126)); return s; }
static bool eatText(std::string const& t, size_t& at, std::string const& w) { if (t.size() < at + w.size()) return false; int ok = 1; for (size_t i = 0; i < w.size(); i++) ok &= t[at + i] == w[i]; at += w.size(); return ok; }
static std::string upTo(std::string const& t, size_t& at, const char* stop) { std::string r; while (at < t.size()) { bool s = false; for (const char* p = stop; *p; p++) s |= t[at] == *p; if (s) break; r.push_back(t[at++]); } return r; }
// name(accepted = x, rejected = x, impossible = x, probability = x)
static void line(std::string const& t, std::string const& n, double a, double r, double i, double p) { size_t at = 0; VP_ASSERT(eatText(t, at, n), "the line starts with the name"); const char* L[] = {"(accepted = ", ", rejected = ", ", impossible = ", ", probability = "}; double v[] = {a, r, i, p}; const char* W[] = {"accepted ratio", "rejected ratio", "impossible ratio", "average probability"};
  for (int k = 0; k < 4; k++) { VP_ASSERT(eatText(t, at, L[k]), "labels in order"); VP_ASSERT(isSci(upTo(t, at, k < 3 ? "," : ")"), v[k], 3), W[k]); } VP_ASSERT(at + 1 == t.size() && t[at] == ')', "one line, nothing after it"); }
extern "C" void c33_stats() { // any history; printed, printed again, and into the middle of other output
  std::string n = name(); MoveStats m(n); int steps = (int)vp_concretize(symS("steps", 1, vp_param("n", 3))); int64_t c[3] = {0, 0, 0}; int64_t s = 0; // probabilities in units of 2^-10: exact sums
  for (int i = 0; i < steps; i++) { int k = (int)vp_concretize(symS(nm("k", (unsigned)i).b, 0, 2)); int64_t p = symS(nm("p", (unsigned)i).b, 0, 1024); if (k == 0) m.Add(MoveResult::Accept((double)p / 1024)); else if (k == 1) m.Add(MoveResult::Reject((double)p / 1024)); else m.Add(MoveResult::Impossible()); c[k]++; if (k < 2) s += p; }
  bool pend = symB("pending"); if (pend) m.Propose(); double N = (double)(steps + pend), a = (double)c[0] / N, r = (double)c[1] / N, im = (double)c[2] / N, p = (double)s / 1024 / (double)steps; std::ostringstream o; std::ostream& back = o << m; VP_ASSERT(&back == &o, "returns the stream"); line(o.str(), n, a, r, im, p);
  o << m; std::string both = o.str(); std::ostringstream q; q << "x=" << 1 << ": " << m << ";"; std::string t = q.str(); VP_ASSERT(t.size() > 6, "something is printed"); if (t.size() <= 6) return; VP_ASSERT(sameText(t.substr(0, 5), "x=1: ") && t[t.size() - 1] == ';', "other output stays"); line(t.substr(5, t.size() - 6), n, a, r, im, p); VP_ASSERT(both.size() == 2 * (t.size() - 6), "printing again prints the same"); if (both.size() == 2 * (t.size() - 6)) line(both.substr(t.size() - 6), n, a, r, im, p);
  VP_ASSERT(vp_same_d(m.GetAcceptedRatio(), a) & vp_same_d(m.GetRejectedRatio(), r) & vp_same_d(m.GetImpossibleRatio(), im) & vp_same_d(m.GetAverageProbability(), p), "printing changes nothing"); vp_cover("stats"); }
extern "C" void c33_name() { std::string n = symName(); MoveStats m(n); m.Add(MoveResult::Accept(0.5)); std::ostringstream o; o << m; line(o.str(), n, 1, 0, 0, 0.5); VP_ASSERT(sameText(m.GetName(), n), "name kept"); MoveStats d; d.Add(MoveResult::Impossible()); std::ostringstream u; u << d; line(u.str(), d.GetName(), 0, 0, 1, 0); vp_cover("name"); }
extern "C" void c33_sequence() { // the refusal names the move, whichever call is refused, and survives being copied
  std::string n = symB("any") ? symName() : name(); MoveStats m(n); int k = (int)vp_concretize(symS("call", 0, 6)); if (k == 0 || k > 3) m.Propose(); std::string t; bool caught = false; try { switch (k) { case 0: m.Propose(); break; case 1: m.Accept(0.5); break; case 2: m.Reject(0.5); break; case 3: m.Impossible(); break; case 4: m.Add(MoveResult::Accept(1)); break; case 5: m.Add(MoveResult::Reject(1)); break; default: m.Add(MoveResult::Impossible()); } } catch (montecarlo::exception::MoveInvalidSequence const& e) { auto c = e; montecarlo::exception::MoveInvalidSequence z("other"); std::string own = e.what(); z = c; t = c.what(); VP_ASSERT(sameText(own, t) && sameText(z.what(), t), "copies carry the message"); std::exception const& b = e; VP_ASSERT(sameText(b.what(), t), "what() through the base class"); caught = true; }
  VP_ASSERT(caught, "refused"); size_t at = 0; VP_ASSERT(eatText(t, at, n), "the message starts with the name of the move"); VP_ASSERT(eatText(t, at, " move: invalid sequence"), "the message tells what was wrong"); vp_cover("sequence"); }
extern "C" void c33_probability() { double p = vp_sym_f64("p"); VP_ASSUME(p == p); montecarlo::exception::InvalidProbability e(p), z(0.25); auto c = e; z = e; std::exception const& b = c; std::string t = b.what(); VP_ASSERT(sameText(t, e.what()) && sameText(t, z.what()), "copies carry the message"); size_t at = 0; std::string v = upTo(t, at, " "); VP_ASSERT(isValue(v, p), "the message shows the value"); VP_ASSERT(eatText(t, at, " is not a valid probability") && at == t.size(), "the message tells what was wrong"); vp_cover("probability"); }
extern "C" void c33_plain() { // the two messages without data
  bool first = symB("first"); std::string t; try { if (first) throw bwsl::exception::BadParsing{}; throw bwsl::exception::AccumulatorOverflow{}; } catch (std::exception const& e) { t = e.what(); } VP_ASSERT(sameText(t, first ? "BadParsing" : "Too many measurements added to the accumulator"), "message"); std::string u; try { std::istringstream i("x"); RationalNum<long> r; i >> r; if (!i) throw bwsl::exception::BadParsing{}; } catch (bwsl::exception::BadParsing const& e) { std::exception const& b = e; u = b.what(); } catch (...) { u = "?"; } VP_ASSERT(sameText(u, "BadParsing"), "refused text"); vp_cover("plain"); }
