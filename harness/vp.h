// Harness interface. Symbolically these are engine intrinsics; natively (replay) they read a recorded
// assignment (see native.cpp).
#pragma once
#include <cstdint>
extern "C" {
uint64_t vp_sym_u(const char* name, unsigned bits, uint64_t lo, uint64_t hi);
int64_t vp_sym_s(const char* name, unsigned bits, int64_t lo, int64_t hi);
double vp_sym_f64(const char* name);
float vp_sym_f32(const char* name);
void vp_assume(int c);
void vp_assert_(int c, const char* label);
void vp_cover(const char* label);
void vp_obs_i(const char* label, int64_t v);
void vp_obs_d(const char* label, double v);
int64_t vp_concretize(int64_t v);              // forks over the feasible values
int64_t vp_param(const char* name, int64_t dflt); // job configuration
int vp_is_sym(int64_t v);                       // engine only: the value is not a constant
int vp_symbolic();                             // 0 native, 1 exact mode, 2 real mode
int vp_same_d(double a, double b);             // equal doubles (both NaN counts); tolerance in native real-mode replay
}
#define VP_ASSERT(c, label) vp_assert_((c) ? 1 : 0, label)
#define VP_ASSUME(c) vp_assume((c) ? 1 : 0)
// integer inputs
inline int64_t symS(const char* n, int64_t lo, int64_t hi) { return vp_sym_s(n, 64, lo, hi); }
inline int symI(const char* n, int lo, int hi) { return (int)vp_sym_s(n, 32, lo, hi); }
inline uint64_t symU(const char* n, uint64_t lo, uint64_t hi) { return vp_sym_u(n, 64, lo, hi); }
inline bool symB(const char* n) { return vp_sym_u(n, 1, 0, 1) != 0; }
inline uint8_t symByte(const char* n) { return (uint8_t)vp_sym_u(n, 8, 0, 255); }
// a double holding an integer in [lo, hi] (all arithmetic on such values is exact while below 2^53)
inline double symDI(const char* n, int64_t lo, int64_t hi) { return (double)symS(n, lo, hi); }
// a finite double in [lo, hi]
inline double symD(const char* n, double lo, double hi) { double d = vp_sym_f64(n); VP_ASSUME((d >= lo) & (d <= hi)); return d; }
// branch-free logic for assertions
inline int band(int a, int b) { return a & b; }
// names with an index: nm("x", 3) == "x3"
struct NameBuf { char b[40]; };
inline NameBuf nm(const char* s, unsigned i) { NameBuf r{}; unsigned n = 0; while (s[n] && n < 30) { r.b[n] = s[n]; n++; } char t[8]; unsigned k = 0; do { t[k++] = (char)('0' + i % 10); i /= 10; } while (i && k < 7); while (k) r.b[n++] = t[--k]; r.b[n] = 0; return r; }
inline NameBuf nm(const char* s, unsigned i, unsigned j) { NameBuf a = nm(s, i); unsigned n = 0; while (a.b[n]) n++; a.b[n++] = '_'; a.b[n] = 0; return nm(a.b, j); }
// prevent the optimiser from merging or speculating through a value
template <class T> inline T vpOpaque(T v) { return v; }
