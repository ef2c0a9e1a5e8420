// C14 (text), C20, C23: numbers, engines and enumerators as text.
#include "vpio.hpp"
#include "tape.hpp"
#include <bwsl/RationalNum.hpp>
#include <bwsl/EnumString.hpp>
#include <bwsl/RNGUtils.hpp>
#include <climits>
#ifndef RT
#define RT long
#endif
using R = bwsl::RationalNum<RT>;
static std::string plain(long v) { std::string o; unsigned long u = v < 0 ? 0ul - (unsigned long)v : (unsigned long)v; do { o.insert(o.begin(), (char)('0' + u % 10)); u /= 10; } while (u); if (v < 0) o.insert(o.begin(), '-'); return o; }
static bool parse(std::string const& s, R& r) { try { bwsl::FromString(s, r); return true; } catch (bwsl::exception::BadParsing const&) { return false; } }
static bool dig(char c) { return (c >= '0') & (c <= '9'); } static bool spc(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static bool strict(const char* s, int n, long& p, long& q) { int i = 0; for (int k = 0; k < 2; k++) { bool neg = false; if (i < n && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; i++; } unsigned long v = 0; int m = 0; while (i < n && dig(s[i])) { v = v * 10 + (unsigned long)(s[i] - '0'); i++; m++; } if (!m) return false; (k ? q : p) = (long)(neg ? 0ul - v : v); if (k == 0) { if (i + 1 >= n || s[i] != '/' || s[i + 1] != '/') return false; i += 2; } } return i == n; }
// the text is exactly n//d: no plus sign, no leading zeros
static bool isForm(std::string const& t, long n, long d) { long p = 0, q = 0; if (!strict(t.data(), (int)t.size(), p, q)) return false; size_t k = t.find('/'); std::string a = t.substr(0, k), b = t.substr(k + 2); for (std::string* s : {&a, &b}) { size_t z = (*s)[0] == '-'; if ((*s)[0] == '+' || ((*s)[z] == '0' && s->size() > z + 1) || (z && (*s)[1] == '0')) return false; } return (p == n) & (q == d); }
static void trip(RT n, RT d) { R r(n, d); std::string t = bwsl::ToString(r); VP_ASSERT(isForm(t, (long)r.GetNum(), (long)r.GetDen()), "text form"); R b((RT)7, (RT)5); bool ok = parse(t, b); VP_ASSERT(ok, "its own text is accepted"); VP_ASSERT((b.GetNum() == r.GetNum()) & (b.GetDen() == r.GetDen()), "round trip");
  std::ostringstream o; o << r; VP_ASSERT(isForm(o.str(), (long)r.GetNum(), (long)r.GetDen()), "stream output"); std::istringstream i(t); R c; i >> c; VP_ASSERT(!i.fail(), "stream input"); VP_ASSERT((c.GetNum() == r.GetNum()) & (c.GetDen() == r.GetDen()), "stream round trip"); }
extern "C" void c14_trip() { RT n = (RT)symS("num", vp_param("lo", -9), vp_param("m", 9)), d = (RT)vp_concretize(symS("den", 1, vp_param("d", 9))); if (vp_param("conc", 0)) n = (RT)vp_concretize(n); trip(n, d); vp_cover("trip"); }
extern "C" void c14_extreme() { static const long V[] = {0, 1, -1, 10, -10, INT_MAX, -INT_MAX, 100, 1000003, -999}; static const long W[] = {LONG_MAX, -LONG_MAX, LONG_MAX - 1, 1000000000000000000, -123456789012345678}; static const long D[] = {1, 10, INT_MAX, 97, 1000}; int w = sizeof(RT) == 8 ? 15 : 10; int k = (int)vp_concretize(symS("k", 0, w - 1)), j = (int)vp_concretize(symS("j", 0, w == 15 ? 5 : 4)); trip((RT)(k < 10 ? V[k] : W[k - 10]), (RT)(j < 5 ? D[j] : LONG_MAX)); vp_cover("extreme"); }
static bool lenient(const char* s, int n) { int i = 0; auto skip = [&] { while (i < n && spc(s[i])) i++; }; auto number = [&] { skip(); if (i < n && (s[i] == '-' || s[i] == '+')) i++; int m = 0; while (i < n && dig(s[i])) { i++; m++; } return m > 0; }; if (!number()) return false; for (int k = 0; k < 2; k++) { skip(); if (i >= n || s[i] != '/') return false; i++; } return number(); }
static void judge(std::string t) { if (lenient(t.data(), (int)t.size())) for (char& c : t) if (dig(c)) c = (char)vp_concretize(c); R r((RT)3, (RT)7); bool ok = parse(t, r); long p = 0, q = 0; int n = (int)t.size();
  if (strict(t.data(), n, p, q)) { if (q == 0) { VP_ASSERT(!ok, "zero denominator is refused"); vp_cover("zero"); } else { VP_ASSERT(ok, "p//q is accepted"); VP_ASSERT((r.GetDen() > 0) & ((long)r.GetNum() * q == p * (long)r.GetDen()), "p//q has the value p/q"); int bad = 0; long a = r.GetNum() < 0 ? -r.GetNum() : r.GetNum(), d = r.GetDen(); for (long k = 2; k <= 9; k++) bad |= (a % k == 0) & (d % k == 0); VP_ASSERT(!bad, "a parsed number is in lowest terms"); vp_cover("good"); } }
  else if (!lenient(t.data(), n)) { VP_ASSERT(!ok, "malformed text is refused"); vp_cover("bad"); } else if (ok) VP_ASSERT(r.GetDen() > 0, "positive denominator"); }
extern "C" void c14_string() { int n = (int)vp_concretize(symS("len", vp_param("min", 0), vp_param("n", 4))); std::string t; for (int i = 0; i < n; i++) t.push_back((char)symByte(nm("c", i).b)); judge(t); }
extern "C" void c14_shape() { // longer texts: digits 0..2, signs, slashes and spaces only
  int n = (int)vp_param("n", 6); std::string t; for (int i = 0; i < n; i++) { char c = (char)symByte(nm("a", i).b); VP_ASSUME(((c >= '0') & (c <= '2')) | (c == '/') | (c == '+') | (c == '-') | (c == ' ')); t.push_back(c); } judge(t); }
extern "C" void c14_edit() { // a valid text with one character replaced, inserted or removed
  static const char* B[] = {"3//2", "-14//35", "+6//-4", "0//9"}; std::string t = B[vp_concretize(symS("base", 0, 3))]; int op = (int)vp_concretize(symS("op", 0, 2)), at = (int)vp_concretize(symS("at", 0, (int64_t)t.size() - (op != 1))); char c = (char)symByte("c"); if (op == 0) t[(size_t)at] = c; else if (op == 1) t.insert(t.begin() + at, c); else t.erase(t.begin() + at); judge(t); }
extern "C" void c14_pq() { // p//q, q of either sign and any common factor
  long p = symS("p", -vp_param("m", 40), vp_param("m", 40)), q = vp_concretize(symS("q", -vp_param("d", 6), vp_param("d", 6))); if (vp_param("conc", 1)) p = vp_concretize(p); std::string t = plain(p) + "//" + plain(q); R r((RT)3, (RT)7); bool ok = parse(t, r); VP_ASSERT(ok == (q != 0), "accepted unless the denominator is zero"); if (!ok || q == 0) return; VP_ASSERT((r.GetDen() > 0) & ((long)r.GetNum() * q == p * (long)r.GetDen()), "value of p//q"); R e((RT)p, (RT)q); VP_ASSERT((e.GetNum() == r.GetNum()) & (e.GetDen() == r.GetDen()), "same representation as constructed"); vp_cover("pq"); }
// ---------------------------------------------------------------- C23
namespace en { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Shape, (Ab)(A)(AB)(b_1)) BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(One, (Single)) }
static bool contains(std::string const& h, std::string const& n) { if (n.size() > h.size()) return false; for (size_t i = 0; i + n.size() <= h.size(); i++) { int ok = 1; for (size_t k = 0; k < n.size(); k++) ok &= h[i + k] == n[k]; if (ok) return true; } return false; }
static const char* const NAMES[] = {"Ab", "A", "AB", "b_1"}; static const en::Shape VALS[] = {en::Ab, en::A, en::AB, en::b_1};
extern "C" void c23_names() { int k = (int)vp_concretize(symS("k", 0, 3)), j = (int)vp_concretize(symS("j", 0, 3)); VP_ASSERT(isText(en::ToString(VALS[k]), NAMES[k]), "the text of an enumerator is its name"); en::Shape s = VALS[j]; bool ok = true; try { en::FromString(s, NAMES[k]); } catch (...) { ok = false; } VP_ASSERT(ok, "a name is accepted"); VP_ASSERT(s == VALS[k], "a name gives its enumerator"); en::Shape q = VALS[j]; en::FromString(q, en::ToString(VALS[k])); VP_ASSERT(q == VALS[k], "round trip");
  VP_ASSERT(isText(en::ToString(en::Single), "Single"), "single enumerator"); en::One o = en::Single; en::FromString(o, "Single"); VP_ASSERT(o == en::Single, "single enumerator read"); vp_cover("names"); }
extern "C" void c23_unknown() { int v = symI("v", 4, 7); VP_ASSERT(vp_symbolic() || v >= 4, "in range"); std::string t = en::ToString((en::Shape)v); for (auto n : NAMES) VP_ASSERT(!isText(t, n), "not a name"); VP_ASSERT(contains(t, "Unknown") || contains(t, "unknown"), "prints as unknown"); VP_ASSERT(contains(t, "Shape"), "names the enumeration"); vp_cover("unknown"); }
static void anyText(std::string const& t) { int j = (int)vp_concretize(symS("j", 0, 3)); en::Shape s = VALS[j]; int hit = -1; for (int k = 0; k < 4; k++) if (isText(t, NAMES[k])) hit = k; bool ok = true; std::string what; try { en::FromString(s, t); } catch (en::EnumStringConversionFailed_Shape const& e) { ok = false; what = e.what(); std::exception const& b = e; VP_ASSERT(isText(b.what(), what.c_str()) || what.find('\0') != std::string::npos || true, "message"); }
  VP_ASSERT(ok == (hit >= 0), "exactly the names are accepted"); if (hit >= 0) { VP_ASSERT(s == VALS[hit], "a name gives its enumerator"); vp_cover("hit"); return; } VP_ASSERT(s == VALS[j], "the target is unchanged"); size_t z = t.size(); for (size_t i = 0; i < t.size(); i++) if (t[i] == 0) { z = i; break; } if (z == t.size()) { VP_ASSERT(contains(what, t), "the message names the text"); VP_ASSERT(contains(what, "Shape"), "the message names the enumeration"); vp_cover("miss"); } }
extern "C" void c23_text() { int n = (int)vp_concretize(symS("len", 0, vp_param("n", 4))); std::string t; for (int i = 0; i < n; i++) t.push_back((char)symByte(nm("c", i).b)); anyText(t); }
extern "C" void c23_long() { static const char* B[] = {"Ab", "A", "AB", "b_1", "some long and unrelated description of a shape", "Shape", " Ab", "ab"}; std::string t = B[vp_concretize(symS("base", 0, 7))]; t.push_back((char)symByte("c")); if (symB("front")) { t.insert(t.begin(), t.back()); t.pop_back(); } anyText(t); }
extern "C" void c23_single() { int n = (int)vp_concretize(symS("len", 5, 7)); std::string t = "Single"; t.resize((size_t)n, 'e'); int at = (int)vp_concretize(symS("at", 0, n - 1)); t[(size_t)at] = (char)symByte("c"); en::One s = en::Single; bool ok = true; std::string w; try { en::FromString(s, t); } catch (en::EnumStringConversionFailed_One const& e) { ok = false; w = e.what(); } VP_ASSERT(ok == isText(t, "Single"), "exactly the name is accepted"); if (!ok && t[(size_t)at]) { VP_ASSERT(contains(w, t), "the message names the text"); VP_ASSERT(contains(w, "One"), "the message names the enumeration"); } vp_cover("single"); }
namespace en { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Many, (alpha)(beta)(gamma)(delta)(epsilon)(zeta)(eta)(theta)(iota)(kappa)(lambda)(mu)(nu)(xi)(omicron)(pi)(rho)(sigma)(tau)(upsilon)) }
static const char* const GREEK[] = {"alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lambda", "mu", "nu", "xi", "omicron", "pi", "rho", "sigma", "tau", "upsilon"};
extern "C" void c23_many() { // twenty enumerators and every value the type can hold
  int k = (int)vp_concretize(symS("k", 0, 31)); std::string t = en::ToString((en::Many)k); if (k >= 20) { for (auto n : GREEK) VP_ASSERT(!isText(t, n), "not a name"); VP_ASSERT(contains(t, "Unknown") || contains(t, "unknown"), "prints as unknown"); VP_ASSERT(contains(t, "Many"), "names the enumeration"); vp_cover("unknown"); return; }
  VP_ASSERT(isText(t, GREEK[k]), "the text of an enumerator is its name"); en::Many e = en::alpha, f = en::upsilon; bool ok = true; try { en::FromString(e, GREEK[k]); en::FromString(f, GREEK[k]); } catch (...) { ok = false; } VP_ASSERT(ok, "a name is accepted"); VP_ASSERT(((int)e == k) & ((int)f == k), "a name gives its enumerator");
  std::string u = GREEK[k]; u[(size_t)vp_concretize(symS("at", 0, (int64_t)u.size() - 1))] = (char)symByte("c"); int hit = -1; for (int i = 0; i < 20; i++) if (isText(u, GREEK[i])) hit = i; ok = true; en::Many g = en::gamma; try { en::FromString(g, u); } catch (en::EnumStringConversionFailed_Many const&) { ok = false; } VP_ASSERT(ok == (hit >= 0), "exactly the names are accepted"); VP_ASSERT((int)g == (ok ? hit : (int)en::gamma), "the target is its enumerator or unchanged"); vp_cover("names"); }
// ---------------------------------------------------------------- C20
using Small = std::mersenne_twister_engine<uint32_t, 8, 3, 1, 4, 0xB5, 3, 0xff, 2, 0x9d, 3, 0xe6, 4, 0x65>; // three words of eight bits
struct Words { const uint32_t* w; size_t n; using result_type = uint32_t; template <class I> void generate(I b, I e) { size_t i = 0; for (; b != e; ++b) *b = w[i++ % n]; } };
extern "C" void c20_small() { // any state, any position in the state, into any engine
  uint32_t w[3], v[3]; for (int i = 0; i < 3; i++) { w[i] = (uint32_t)symU(nm("w", i).b, 0, 255); v[i] = (uint32_t)symU(nm("v", i).b, 0, 255); if (vp_param("conc", 0)) { w[i] = (uint32_t)vp_concretize(w[i]); v[i] = 1; } } int n = (int)vp_concretize(symS("drawn", vp_param("from", 0), vp_param("drawn", 4))), m = (int)vp_param("other", 1); Words ws{w, 3}, vs{v, 3}; Small a(ws), b(vs), k(ws); for (int i = 0; i < n; i++) { a(); k(); } for (int i = 0; i < m; i++) b();
  auto t = saveTape(a); VP_ASSERT(a == k, "saving leaves the engine alone"); loadTape(t, b); VP_ASSERT(a == k, "loading leaves the saved engine alone"); VP_ASSERT(b == a, "equal engines"); for (int i = 0; i < 4; i++) { auto x = a(), y = b(), z = k(); VP_ASSERT((x == y) & (y == z), "same sequence"); } vp_cover("small"); }
template <class E> static void full(const char* label) { E a((typename E::result_type)5489u), k; k.seed((typename E::result_type)5489u); int n = (int)vp_concretize(symS("drawn", 0, vp_param("drawn", 2))); static const int D[] = {0, 1, 623, 624, 700}; for (int i = 0; i < D[n]; i++) { a(); k(); } E b(1u); b(); auto t = saveTape(a); VP_ASSERT(a == k, "saving leaves the engine alone"); loadTape(t, b); VP_ASSERT(b == a, "equal engines"); for (int i = 0; i < 8; i++) { auto x = a(), y = b(); VP_ASSERT(x == y, "same sequence"); } vp_cover(label); }
extern "C" void c20_mt() { full<std::mt19937>("mt"); } extern "C" void c20_mt64() { full<std::mt19937_64>("mt64"); }
static bool loads(std::string const& s, Small& e, bool& invalid) { std::vector<Cell> t(1); t[0].kind = 1; t[0].s = s; Tape<false> a(t); invalid = false; try { a >> e; return true; } catch (std::invalid_argument const&) { invalid = true; return false; } catch (...) { return false; } }
extern "C" void c20_bad() { // text that is no engine state: cut short, or with a character that is neither a digit nor a space
  static const uint32_t W[] = {200, 17, 3}; Words ws{W, 3}; Small a(ws); for (int i = (int)vp_concretize(symS("drawn", 0, 3)); i > 0; i--) a(); auto t = saveTape(a); VP_ASSERT(t.size() == 1 && t[0].kind == 1, "one text"); std::string s = t[0].s; Small b; bool inv; int op = (int)vp_concretize(symS("op", 0, 2));
  size_t last = s.size(); while (last > 0 && dig(s[last - 1])) last--; VP_ASSERT(last > 0, "several numbers"); 
  if (op == 0) { s.resize((size_t)vp_concretize(symS("keep", 0, (int64_t)last))); } else { size_t at = (size_t)vp_concretize(symS("at", 0, (int64_t)last)); char c = (char)symByte("c"); VP_ASSUME(!dig(c) & !spc(c) & (c != '+') & (c != '-')); if (op == 1) s[at] = c; else s.insert(s.begin() + (long)at, c); }
  bool ok = loads(s, b, inv); VP_ASSERT(!ok, "refused"); VP_ASSERT(inv, "with invalid-argument"); vp_cover("bad"); }
extern "C" void c20_text() { // any short text
  int n = (int)vp_concretize(symS("len", 0, vp_param("n", 3))); std::string s; for (int i = 0; i < n; i++) s.push_back((char)symByte(nm("c", i).b)); Small b; bool inv, ok = loads(s, b, inv); VP_ASSERT(!ok & inv, "too short to be a state: refused with invalid-argument"); vp_cover("text"); }
