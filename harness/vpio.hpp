// Files and printed numbers, symbolically (stub streams) and natively (real files in the current scratch directory).
#pragma once
#include "vp.h"
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#ifdef VP_STUB_STREAMS
static inline void putFile(const char* n, std::string const& d) { VpFile* f = vpFind(n, true); *f->data = d; }
static inline bool getFile(const char* n, std::string& o) { VpFile* f = vpFind(n, false); if (!f) return false; o = *f->data; return true; }
#else
static inline void putFile(const char* n, std::string const& d) { FILE* f = std::fopen(n, "wb"); if (!f) std::abort(); std::fwrite(d.data(), 1, d.size(), f); std::fclose(f); }
static inline bool getFile(const char* n, std::string& o) { FILE* f = std::fopen(n, "rb"); if (!f) return false; o.clear(); char t[4096]; size_t k; while ((k = std::fread(t, 1, sizeof t, f)) > 0) o.append(t, k); std::fclose(f); return true; }
#endif
using Cells = std::vector<std::string>;
// lines of comma separated cells; every line must be terminated
static inline std::vector<Cells> cellsOf(std::string const& t) { std::vector<Cells> r; std::string c; Cells l; bool open = false;
  for (char x : t) { if (x == '\n') { l.push_back(c); c.clear(); r.push_back(l); l.clear(); open = false; } else if (x == ',') { l.push_back(c); c.clear(); open = true; } else { c.push_back(x); open = true; } }
  VP_ASSERT(!open, "the last line is complete"); return r; }
static inline bool isInt(std::string const& c, unsigned long long v) { char t[24]; int n = 0; do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v); if ((size_t)n != c.size()) return false; for (int i = 0; i < n; i++) if (c[(size_t)i] != t[n - 1 - i]) return false; return true; }
static inline bool isText(std::string const& c, const char* s) { size_t n = 0; while (s[n]) n++; if (n != c.size()) return false; for (size_t i = 0; i < n; i++) if (c[i] != s[i]) return false; return true; }
static inline bool integral(double v) { return (v < 1e15) & (v > -1e15) && (double)(long long)v == v; }
// the cell is the value v, printed so that reading it gives v back
static inline bool isValue(std::string const& c, double v) {
#ifdef VP_STUB_STREAMS
  if (c.size() == 4 && c[0] == '\1') { VpNum n = vpGetNum(c.data()); bool full = n.type == 'r' || n.prec >= (n.type == 'e' ? 16 : 17); if (!full && !integral(n.v)) return false; return vp_same_d(n.v, v); }
  double r = 0; bool neg = false; size_t i = 0; if (i < c.size() && c[i] == '-') { neg = true; i++; } if (i == c.size()) return false; for (; i < c.size(); i++) { if (c[i] < '0' || c[i] > '9') return false; r = r * 10 + (c[i] - '0'); } return vp_same_d(neg ? -r : r, v);
#else
  char* e = nullptr; double r = std::strtod(c.c_str(), &e); return !c.empty() && *e == 0 && vp_same_d(r, v);
#endif
}
// the cell is v in scientific notation with p digits after the point
static inline bool isSci(std::string const& c, double v, int p) {
#ifdef VP_STUB_STREAMS
  if (!(c.size() == 4 && c[0] == '\1')) return false; VpNum n = vpGetNum(c.data()); return ((n.type == 'e' && n.prec == p) || v != v) && vp_same_d(n.v, v); // nan has no digits
#else
  char t[400]; std::snprintf(t, sizeof t, "%.*e", p, v); if (c == t) return true; std::string s = t; bool nan = v != v; if (nan) return c == "nan" || c == "-nan"; double a = std::strtod(c.c_str(), nullptr), b = std::strtod(t, nullptr); return c.size() == s.size() && vp_same_d(v, v) && vp_same_d(a, b) && p > 9; // real-mode replay: last digits may differ
#endif
}
