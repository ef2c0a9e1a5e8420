// Native runtime for replay: inputs come from the file in VP_INPUTS ("name kind hexbits" per line).
#include "vp.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <dlfcn.h>
static std::map<std::string, uint64_t>* in; static std::map<std::string, int>* cnt; static std::map<std::string, int64_t>* par; static bool real;
static void init() { if (in) return; in = new std::map<std::string, uint64_t>; cnt = new std::map<std::string, int>; par = new std::map<std::string, int64_t>; real = getenv("VP_REAL") && *getenv("VP_REAL") == '1';
  if (const char* f = getenv("VP_INPUTS")) { FILE* o = fopen(f, "r"); char n[256]; int k; unsigned long long b; if (o) { while (fscanf(o, "%255s %d %llx", n, &k, &b) == 3) (*in)[n] = b; fclose(o); } }
  if (const char* p = getenv("VP_PARAMS")) { std::string s = p; size_t i = 0; while (i < s.size()) { size_t e = s.find(',', i); if (e == std::string::npos) e = s.size(); std::string kv = s.substr(i, e - i); size_t q = kv.find('='); if (q != std::string::npos) (*par)[kv.substr(0, q)] = strtoll(kv.c_str() + q + 1, nullptr, 0); i = e + 1; } } }
static bool get(const char* n, uint64_t& v) { init(); int k = (*cnt)[n]++; std::string s = k ? std::string(n) + "#" + std::to_string(k) : n; auto it = in->find(s); if (it == in->end()) return false; v = it->second; return true; }
extern "C" {
uint64_t vp_sym_u(const char* n, unsigned, uint64_t lo, uint64_t) { uint64_t v; return get(n, v) ? v : lo; }
int64_t vp_sym_s(const char* n, unsigned bits, int64_t lo, int64_t) { uint64_t v; if (!get(n, v)) return lo; if (bits < 64) { uint64_t m = 1ull << (bits - 1); v &= (m << 1) - 1; return (int64_t)((v ^ m) - m); } return (int64_t)v; }
double vp_sym_f64(const char* n) { uint64_t v; if (!get(n, v)) return 0; double d; memcpy(&d, &v, 8); return d; }
float vp_sym_f32(const char* n) { uint64_t v; if (!get(n, v)) return 0; uint32_t w = (uint32_t)v; float d; memcpy(&d, &w, 4); return d; }
void vp_assume(int c) { if (!c) { printf("VP-ASSUME-FALSE\n"); fflush(stdout); _Exit(77); } }
void vp_assert_(int c, const char* l) { if (!c) { printf("VP-FAIL assert %s\n", l); fflush(stdout); _Exit(42); } }
void vp_cover(const char* l) { printf("VP-COVER %s\n", l); }
void vp_obs_i(const char* l, int64_t v) { printf("VP-OBS %s\t%lld\n", l, (long long)v); }
void vp_obs_d(const char* l, double v) { if (std::isnan(v)) printf("VP-OBS %s\tnan\n", l); else printf("VP-OBS %s\t%.17g\n", l, v); }
int64_t vp_concretize(int64_t v) { return v; }
int64_t vp_param(const char* n, int64_t d) { init(); auto it = par->find(n); return it == par->end() ? d : it->second; }
int vp_is_sym(int64_t) { return 0; }
int vp_symbolic() { return 0; }
int vp_same_d(double a, double b) { init(); if (std::isnan(a) && std::isnan(b)) return 1; if (!real) return a == b; double s = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b))); return std::fabs(a - b) <= 1e-7 * s; }
}
#ifdef VP_FILL
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, VP_FILL, n); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
#endif
int main(int argc, char** argv) { init(); if (argc < 2) return 2; void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!f) { printf("VP-NOENTRY\n"); return 2; } f(); printf("VP-DONE\n"); fflush(stdout); _Exit(0); }
