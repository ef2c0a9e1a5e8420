// The parts of fmt the library uses, for the symbolic build: format strings are interpreted, integers become digits, floating values
// become one item with their precision and type.
#pragma once
#include "../vpstream.h"
#include <cstdio>
#include <iterator>
namespace fmt {
class format_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };
struct VpArg { int kind; long long i; unsigned long long u; double d; std::string s; }; // 0 signed, 1 unsigned, 2 floating, 3 text, 4 char, 5 bool
template <class It> struct join_view { It b, e; std::string sep; };
struct VpSpec { char fill = ' ', align = 0, sign = 0, type = 0; bool alt = false, zero = false; long width = 0, prec = -1; };
inline std::string vpOne(VpArg const& a, VpSpec const& p) { std::string o;
  if (a.kind == 2) { vpPutNum(o, a.d, (int)p.prec, p.type ? p.type : p.prec >= 0 ? 'g' : 'r'); return o; }
  if (a.kind == 3) { o = a.s; if (p.prec >= 0 && (size_t)p.prec < o.size()) o.resize((size_t)p.prec); } else if (a.kind == 4 && (p.type == 0 || p.type == 'c')) o.push_back((char)a.i); else if (a.kind == 5 && (p.type == 0 || p.type == 's')) o = a.i ? "true" : "false";
  else { if (p.type == 'e' || p.type == 'f' || p.type == 'g' || p.prec >= 0) throw format_error("invalid type specifier"); unsigned base = p.type == 'x' || p.type == 'X' ? 16 : p.type == 'o' ? 8 : p.type == 'b' ? 2 : 10; std::string pre; if (a.kind == 1) { vpDigits(o, a.u, base, p.type == 'X'); if (p.sign == '+') pre = "+"; } else if (a.i < 0) { vpDigits(o, 0ull - (unsigned long long)a.i, base, p.type == 'X'); pre = "-"; } else { vpDigits(o, (unsigned long long)a.i, base, p.type == 'X'); if (p.sign == '+') pre = "+"; } if (p.zero && !p.align) while (pre.size() + o.size() < (size_t)p.width) o.insert(o.begin(), '0'); o = pre + o; }
  if ((long)o.size() < p.width) { long n = p.width - (long)o.size(); char al = p.align ? p.align : (a.kind == 3 || a.kind == 4 || a.kind == 5) ? '<' : '>'; long l = al == '<' ? 0 : al == '>' ? n : n / 2; o = std::string((size_t)l, p.fill) + o + std::string((size_t)(n - l), p.fill); } return o; }
inline std::string vpFormat(const char* f, VpArg const* a, int n) { std::string o; int next = 0; size_t i = 0; auto num = [&](int k) -> long { if (k < 0 || k >= n) throw format_error("argument not found"); if (a[k].kind == 0) return (long)a[k].i; if (a[k].kind == 1) return (long)a[k].u; throw format_error("not an integer"); };
  while (f[i]) { char c = f[i]; if (c == '{' && f[i + 1] == '{') { o.push_back('{'); i += 2; continue; } if (c == '}') { if (f[i + 1] != '}') throw format_error("unmatched '}'"); o.push_back('}'); i += 2; continue; } if (c != '{') { o.push_back(c); i++; continue; } i++;
    int k; if (f[i] >= '0' && f[i] <= '9') { k = 0; while (f[i] >= '0' && f[i] <= '9') k = k * 10 + (f[i++] - '0'); } else k = next++; VpSpec p;
    auto count = [&]() -> long { long v = 0; if (f[i] == '{') { i++; int q; if (f[i] >= '0' && f[i] <= '9') { q = 0; while (f[i] >= '0' && f[i] <= '9') q = q * 10 + (f[i++] - '0'); } else q = next++; if (f[i] != '}') throw format_error("invalid format"); i++; return num(q); } while (f[i] >= '0' && f[i] <= '9') v = v * 10 + (f[i++] - '0'); return v; };
    if (f[i] == ':') { i++; if (f[i] && (f[i + 1] == '<' || f[i + 1] == '>' || f[i + 1] == '^')) { p.fill = f[i]; p.align = f[i + 1]; i += 2; } else if (f[i] == '<' || f[i] == '>' || f[i] == '^') p.align = f[i++]; if (f[i] == '+' || f[i] == '-' || f[i] == ' ') p.sign = f[i++]; if (f[i] == '#') { p.alt = true; i++; } if (f[i] == '0') { p.zero = true; i++; } if (f[i] == '{' || (f[i] >= '1' && f[i] <= '9')) p.width = count(); if (f[i] == '.') { i++; p.prec = count(); } if (f[i] == 'L') i++; if (f[i] && f[i] != '}') p.type = f[i++]; }
    if (f[i] != '}') throw format_error("invalid format string"); i++; if (k >= n) throw format_error("argument not found"); o += vpOne(a[k], p); } return o; }
template <class X> inline std::string vpStream(X const& x) { std::ostringstream s; s << x; return s.str(); }
template <class X> inline VpArg vpArg(X const& x) { using U = typename std::decay<X>::type; VpArg a{0, 0, 0, 0, {}};
  if constexpr (std::is_same<U, bool>::value) { a.kind = 5; a.i = x; } else if constexpr (std::is_same<U, char>::value) { a.kind = 4; a.i = x; } else if constexpr (std::is_floating_point<U>::value) { a.kind = 2; a.d = (double)x; } else if constexpr (std::is_integral<U>::value) { if constexpr (std::is_signed<U>::value) { a.kind = 0; a.i = x; } else { a.kind = 1; a.u = x; } } else if constexpr (std::is_enum<U>::value) { a.kind = 0; a.i = (long long)x; }
  else if constexpr (std::is_convertible<X const&, std::string>::value) { a.kind = 3; a.s = x; } else if constexpr (std::is_convertible<X const&, std::string_view>::value) { std::string_view v = x; a.kind = 3; a.s.assign(v.data(), v.size()); } else { a.kind = 3; a.s = vpStream(x); } return a; }
template <class It> inline VpArg vpArg(join_view<It> const& j) { VpArg a{3, 0, 0, 0, {}}; bool first = true; for (It i = j.b; i != j.e; ++i) { if (!first) a.s += j.sep; first = false; a.s += vpOne(vpArg(*i), VpSpec{}); } return a; }
struct VpText { std::string t; VpText(const char* s) : t(s) {} VpText(std::string const& s) : t(s) {} VpText(std::string_view s) : t(s) {} };
inline VpText runtime(std::string const& s) { return VpText(s); }
template <class It> inline join_view<It> join(It b, It e, std::string const& sep) { return {b, e, sep}; } template <class R> inline auto join(R const& r, std::string const& sep) { return join_view<decltype(r.begin())>{r.begin(), r.end(), sep}; }
template <class... A> inline std::string format(VpText const& f, A const&... x) { VpArg a[sizeof...(A) + 1] = {vpArg(x)..., VpArg{3, 0, 0, 0, {}}}; return vpFormat(f.t.c_str(), a, (int)sizeof...(A)); }
template <class... A> inline void print(std::ostream& o, VpText const& f, A const&... x) { std::string s = format(f, x...); o.write(s.data(), (std::streamsize)s.size()); }
template <class... A> inline void print(std::FILE*, VpText const& f, A const&... x) { format(f, x...); } template <class... A> inline void print(VpText const& f, A const&... x) { print(std::cout, f, x...); } template <class... A> inline void println(std::ostream& o, VpText const& f, A const&... x) { print(o, f, x...); o.put('\n'); }
template <class O, class... A> inline O format_to(O it, VpText const& f, A const&... x) { std::string s = format(f, x...); for (char c : s) *it++ = c; return it; }
template <class X> inline std::string to_string(X const& x) { return vpOne(vpArg(x), VpSpec{}); }
template <class X> inline X const& streamed(X const& x) { return x; }
template <class T, class C = char, class E = void> struct formatter {}; struct ostream_formatter {};
}
#define FMT_STRING(s) s
