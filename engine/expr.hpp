// Hash-consed bit-vector / floating-point expression DAG with constant folding, value ranges, and
// exact "integer views" of floating-point values. See DESIGN.md section "Engine".
#pragma once
#include <algorithm>
#include <cassert>
#include <iterator>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <stdexcept>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum Op : uint8_t {
  OConst, OVar,
  OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
  OEq, OUlt, OUle, OSlt, OSle, OIte, OZExt, OSExt, OExtract, OConcat,
  // floating point (operands/results are IEEE bit patterns of width 32/64)
  OFAdd, OFSub, OFMul, OFDiv, OFRem, OFNeg, OFAbs, OFSqrt, OFRound /*aux=mode*/, OFCvt,
  OSIToFP, OUIToFP, OFPToSI, OFPToUI,
  OFEq, OFLt, OFLe, OFUno,
  OFInt /* exact value k0 * 2^-aux, +0 when zero */,
  OFUF /* real mode: uninterpreted library function aux of k0[,k1] */
};
// rounding-to-integral modes: 0 RNE(nearbyint/rint) 1 RNA(round) 2 RTP(ceil) 3 RTN(floor) 4 RTZ(trunc)

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

struct Expr;
struct View { Expr* n; int s; bool zpos; };
typedef std::vector<uint32_t> VarVec;

struct Expr {
  Op op; uint16_t w; uint32_t aux; uint32_t id;
  Expr* k[3];
  u128 c;
  u64 ulo, uhi; i64 slo, shi;     // w <= 64
  const View* view;               // floating-point nodes only
  const VarVec* vars;
  const char* name;
  void *zbv, *zfp, *zbool;        // lowered forms
  void *zsi, *zui, *zre, *zib;    // arithmetic lowering (Int signed/unsigned, Real, Bool)
  u64 estamp; u128 eval;          // evaluation cache
};

struct ExprHash { size_t operator()(const Expr* e) const {
  u64 h = e->op * 0x9E3779B97F4A7C15ull + e->w * 0x85EBCA6Bull + e->aux * 0xC2B2AE35ull;
  for (int i = 0; i < 3; i++) h = (h ^ (e->k[i] ? e->k[i]->id + 1 : 0)) * 0x100000001B3ull + (h >> 29);
  h ^= (u64)e->c * 0xff51afd7ed558ccdull; h ^= (u64)(e->c >> 64) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 32; return h; } };
struct ExprEq { bool operator()(const Expr* a, const Expr* b) const {
  return a->op == b->op && a->w == b->w && a->aux == b->aux && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); return (i128)((v ^ m) - m); }
inline u64 umaxw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 smaxw(unsigned w) { return w >= 64 ? INT64_MAX : (i64)((1ull << (w - 1)) - 1); }
inline i64 sminw(unsigned w) { return w >= 64 ? INT64_MIN : -(i64)(1ull << (w - 1)); }
inline double bitsD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
inline u64 dBits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
inline float bitsF(uint32_t b) { float d; memcpy(&d, &b, 4); return d; }
inline uint32_t fBits(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }

struct VarInfo { std::string name; unsigned w; i64 lo, hi; bool sgn; bool ranged; bool internal; Expr* e; };

struct ExprMgr {
  std::unordered_set<Expr*, ExprHash, ExprEq> table;
  std::deque<Expr> store;
  std::vector<VarInfo> vars;
  std::map<std::pair<const VarVec*, const VarVec*>, const VarVec*> unionMemo;
  std::set<VarVec> varSets;
  std::map<Expr*, View> cviews;
  const VarVec* emptyVars;
  ExprMgr() { emptyVars = &*varSets.insert(VarVec{}).first; }

  const VarVec* uni(const VarVec* a, const VarVec* b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    if (a > b) std::swap(a, b);
    auto it = unionMemo.find({a, b});
    if (it != unionMemo.end()) return it->second;
    VarVec r; r.reserve(a->size() + b->size());
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    auto p = &*varSets.insert(r).first;
    unionMemo[{a, b}] = p; return p;
  }

  Expr* intern(Expr& t) {
    auto it = table.find(&t);
    if (it != table.end()) return *it;
    t.id = store.size(); t.zbv = t.zfp = t.zbool = t.zsi = t.zui = t.zre = t.zib = nullptr; t.estamp = 0; t.view = nullptr; t.name = nullptr;
    t.vars = emptyVars;
    for (int i = 0; i < 3; i++) if (t.k[i]) t.vars = uni(t.vars, t.k[i]->vars);
    computeRange(t);
    store.push_back(t);
    Expr* e = &store.back(); table.insert(e); return e;
  }
  Expr* node(Op op, unsigned w, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr, uint32_t aux = 0) {
    Expr t; memset((void*)&t, 0, sizeof t); t.op = op; t.w = w; t.aux = aux; t.k[0] = a; t.k[1] = b; t.k[2] = c; return intern(t);
  }
  Expr* C(unsigned w, u128 v) { Expr t; memset((void*)&t, 0, sizeof t); t.op = OConst; t.w = w; t.c = v & maskw(w); return intern(t); }
  Expr* T() { return C(1, 1); } Expr* F() { return C(1, 0); }
  Expr* mkVar(const std::string& name, unsigned w, bool sgn, bool ranged, i64 lo, i64 hi, bool internal = false) {
    uint32_t vi = vars.size();
    vars.push_back({name, w, lo, hi, sgn, ranged, internal, nullptr});
    Expr t; memset((void*)&t, 0, sizeof t); t.op = OVar; t.w = w; t.aux = vi;
    Expr* e = intern(t);
    e->vars = &*varSets.insert(VarVec{vi}).first;
    vars[vi].e = e;
    return e;
  }
  static bool isC(Expr* e) { return e->op == OConst; }
  static bool isC(Expr* e, u128 v) { return e->op == OConst && e->c == v; }
  static i128 S(Expr* e) { return sx(e->c, e->w); }

  // ---------------------------------------------------------------- ranges
  void setU(Expr& t, u128 lo, u128 hi) { // unsigned range known; derive signed
    t.ulo = (u64)lo; t.uhi = (u64)hi;
    if (hi <= (u128)(u64)smaxw(t.w)) { t.slo = (i64)lo; t.shi = (i64)hi; }
    else if (lo > (u128)(u64)smaxw(t.w)) { t.slo = (i64)sx(lo, t.w); t.shi = (i64)sx(hi, t.w); }
    else { t.slo = sminw(t.w); t.shi = smaxw(t.w); }
  }
  void setS(Expr& t, i128 lo, i128 hi) {
    t.slo = (i64)lo; t.shi = (i64)hi;
    if (lo >= 0) { t.ulo = (u64)lo; t.uhi = (u64)hi; }
    else if (hi < 0) { t.ulo = (u64)((u128)lo & maskw(t.w)); t.uhi = (u64)((u128)hi & maskw(t.w)); }
    else { t.ulo = 0; t.uhi = umaxw(t.w); }
  }
  bool fitsS(i128 v, unsigned w) { return v >= sminw(w) && v <= smaxw(w); }
  bool fitsU(u128 v, unsigned w) { return v <= umaxw(w); }
  void computeRange(Expr& t) {
    unsigned w = t.w; if (w > 64) return;
    t.ulo = 0; t.uhi = umaxw(w); t.slo = sminw(w); t.shi = smaxw(w);
    Expr *a = t.k[0], *b = t.k[1];
    auto both = [&](i128 sl, i128 sh, u128 ul, u128 uh, bool uok) {
      bool sok = fitsS(sl, w) && fitsS(sh, w);
      uok = uok && ul <= umaxw(w) && uh <= umaxw(w);
      if (sok && uok) { Expr t1 = t, t2 = t; setS(t1, sl, sh); setU(t2, ul, uh);
        t.slo = std::max(t1.slo, t2.slo); t.shi = std::min(t1.shi, t2.shi);
        t.ulo = std::max(t1.ulo, t2.ulo); t.uhi = std::min(t1.uhi, t2.uhi); }
      else if (sok) setS(t, sl, sh); else if (uok) setU(t, ul, uh); };
    switch (t.op) {
      case OConst: t.ulo = t.uhi = (u64)t.c; t.slo = t.shi = (i64)sx(t.c, w); break;
      case OVar: { auto& v = vars[t.aux]; if (v.ranged) { if (v.sgn) setS(t, v.lo, v.hi); else setU(t, (u64)v.lo, (u64)v.hi); } break; }
      case OAdd: both((i128)a->slo + b->slo, (i128)a->shi + b->shi, (u128)a->ulo + b->ulo, (u128)a->uhi + b->uhi, true); break;
      case OSub: both((i128)a->slo - b->shi, (i128)a->shi - b->slo, (u128)a->ulo - b->uhi, (u128)a->uhi - b->ulo, a->ulo >= b->uhi); break;
      case OMul: {
        i128 p[4] = {(i128)a->slo * b->slo, (i128)a->slo * b->shi, (i128)a->shi * b->slo, (i128)a->shi * b->shi};
        i128 lo = p[0], hi = p[0]; for (auto x : p) { lo = std::min(lo, x); hi = std::max(hi, x); }
        if (a == b && lo < 0) lo = 0;
        both(lo, hi, (u128)a->ulo * b->ulo, (u128)a->uhi * b->uhi, true); break; }
      case OUDiv: if (b->ulo > 0) setU(t, a->ulo / b->uhi, a->uhi / b->ulo); break;
      case OURem: if (b->ulo > 0) setU(t, 0, std::min<u64>(a->uhi, b->uhi - 1)); else setU(t, 0, std::max(a->uhi, b->uhi)); break;
      case OSDiv: if (a->slo > sminw(w) && (b->slo > 0 || b->shi < 0)) {
          i128 m = std::max<i128>(a->shi < 0 ? -(i128)a->shi : a->shi, -(i128)a->slo < 0 ? (i128)a->slo : -(i128)a->slo);
          i128 d = b->slo > 0 ? b->slo : -(i128)b->shi; setS(t, -(m / d), m / d);
          if (b->slo > 0 && a->slo >= 0) setS(t, 0, m / d); }
        else if (a->slo > sminw(w)) { i128 m = std::max<i128>(1, std::max<i128>(a->shi < 0 ? -(i128)a->shi : a->shi, a->slo < 0 ? -(i128)a->slo : (i128)a->slo)); setS(t, -m, m); } break;
      case OSRem: if (b->slo > 0 || b->shi < 0) {
          i128 m = std::max<i128>(b->shi, -(i128)b->slo) - 1;
          setS(t, a->slo >= 0 ? 0 : std::max<i128>(-m, a->slo), a->shi <= 0 ? 0 : std::min<i128>(m, a->shi)); }
        else setS(t, std::min<i128>(a->slo, 0), std::max<i128>(a->shi, 0)); break;
      case OAnd: { setU(t, 0, std::min(a->uhi, b->uhi)); break; }
      case OOr: case OXor: { u64 m = a->uhi | b->uhi; u64 f = m ? (~0ull >> __builtin_clzll(m)) : 0; setU(t, t.op == OOr ? std::max(a->ulo, b->ulo) : 0, f); break; }
      case OLShr: if (isC(b)) { if (b->c < w) setU(t, a->ulo >> (u64)b->c, a->uhi >> (u64)b->c); else setU(t, 0, 0); } else setU(t, 0, a->uhi); break;
      case OAShr: if (isC(b) && b->c < w) setS(t, a->slo >> (u64)b->c, a->shi >> (u64)b->c); else setS(t, std::min<i64>(a->slo, a->slo < 0 ? a->slo : 0), std::max<i64>(a->shi, a->shi < 0 ? -1 : a->shi)); break;
      case OIte: a = t.k[1]; b = t.k[2];
        t.ulo = std::min(a->ulo, b->ulo); t.uhi = std::max(a->uhi, b->uhi); t.slo = std::min(a->slo, b->slo); t.shi = std::max(a->shi, b->shi); break;
      case OZExt: setU(t, a->ulo, a->uhi); break;
      case OSExt: setS(t, a->slo, a->shi); break;
      case OExtract: if (a->w <= 64 && t.aux < 64 && (t.aux + w >= 64 || (a->ulo >> (t.aux + w)) == (a->uhi >> (t.aux + w)))) { u64 m = umaxw(w); setU(t, (a->ulo >> t.aux) & m, (a->uhi >> t.aux) & m); }
        else if (t.aux == 0 && a->w <= 64) { if (a->uhi <= umaxw(w)) setU(t, a->ulo, a->uhi); else if (a->slo >= sminw(w) && a->shi <= smaxw(w)) setS(t, a->slo, a->shi); } break;
      case OConcat: if (w <= 64) setU(t, ((u128)a->ulo << b->w) | b->ulo, ((u128)a->uhi << b->w) | b->uhi); break;
      default: break;
    }
  }

  // ---------------------------------------------------------------- bit-vector constructors
  void ord(Expr*& a, Expr*& b) { if (isC(a) && !isC(b)) std::swap(a, b); else if (!isC(a) && !isC(b) && a->id > b->id) std::swap(a, b); }
  Expr* Add(Expr* a, Expr* b) {
    unsigned w = a->w; if (w == 1) return Xor(a, b);
    ord(a, b);
    if (isC(a) && isC(b)) return C(w, a->c + b->c);
    if (isC(b, 0)) return a;
    if (isC(b) && a->op == OAdd && isC(a->k[1])) return Add(a->k[0], C(w, a->k[1]->c + b->c));
    if (!isC(b)) {
      if (a->op == OAdd && isC(a->k[1])) return Add(Add(a->k[0], b), a->k[1]);
      if (b->op == OAdd && isC(b->k[1])) return Add(Add(a, b->k[0]), b->k[1]);
      if (a->op == OSub && a->k[1] == b) return a->k[0];
      if (b->op == OSub && b->k[1] == a) return b->k[0];
    }
    if (isC(b) && a->op == OIte && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0], C(w, a->k[1]->c + b->c), C(w, a->k[2]->c + b->c));
    return node(OAdd, w, a, b);
  }
  Expr* Sub(Expr* a, Expr* b) {
    unsigned w = a->w; if (w == 1) return Xor(a, b);
    if (a == b) return C(w, 0);
    if (isC(b)) return Add(a, C(w, -b->c));
    if (a->op == OAdd && isC(a->k[1])) return Add(Sub(a->k[0], b), a->k[1]);
    if (b->op == OAdd && isC(b->k[1])) return Add(Sub(a, b->k[0]), C(w, -b->k[1]->c));
    if (a->op == OAdd) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
    if (a->op == OSub && a->k[0] == b) return Sub(C(w, 0), a->k[1]);
    if (b->op == OAdd) { if (b->k[0] == a) return Sub(C(w, 0), b->k[1]); if (b->k[1] == a) return Sub(C(w, 0), b->k[0]); }
    if (isC(a, 0) && b->op == OSub) return Sub(b->k[1], b->k[0]);
    return node(OSub, w, a, b);
  }
  bool noUOv(Expr* x, u128 c, unsigned w) { return w <= 64 && (u128)x->uhi * c <= umaxw(w); }
  bool noSOv(Expr* x, i128 c, unsigned w) { if (w > 64) return false; i128 l = (i128)x->slo * c, h = (i128)x->shi * c; return fitsS(l, w) && fitsS(h, w); }
  Expr* Mul(Expr* a, Expr* b) {
    unsigned w = a->w; if (w == 1) return And(a, b);
    ord(a, b);
    if (isC(a) && isC(b)) return C(w, a->c * b->c);
    if (isC(b, 0)) return b; if (isC(b, 1)) return a;
    if (isC(b)) {
      if (a->op == OMul && isC(a->k[1])) return Mul(a->k[0], C(w, a->k[1]->c * b->c));
      if (a->op == OAdd && isC(a->k[1])) return Add(Mul(a->k[0], b), C(w, a->k[1]->c * b->c));
      if (a->op == OIte && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0], C(w, a->k[1]->c * b->c), C(w, a->k[2]->c * b->c));
    }
    return node(OMul, w, a, b);
  }
  // a as a sum of non-negative terms with coefficients, no wrap-around anywhere
  bool linU(Expr* a, u128 c, std::vector<std::pair<Expr*, u128>>& t, u128& k) {
    if (a->w > 64 || t.size() > 16 || (u128)a->uhi * c > umaxw(a->w)) return false;
    if (isC(a)) { k += a->c * c; return true; }
    if (a->op == OAdd && (u128)a->k[0]->uhi + a->k[1]->uhi <= umaxw(a->w)) return linU(a->k[0], c, t, k) && linU(a->k[1], c, t, k);
    if (a->op == OMul && isC(a->k[1]) && noUOv(a->k[0], a->k[1]->c, a->w)) return linU(a->k[0], c * a->k[1]->c, t, k);
    if (a->op == OShl && isC(a->k[1]) && a->k[1]->c < a->w && noUOv(a->k[0], (u128)1 << a->k[1]->c, a->w)) return linU(a->k[0], c << a->k[1]->c, t, k);
    t.push_back({a, c}); return true; }
  // a = q * K + r with q, r as expressions; true if anything was split off
  bool splitU(Expr* a, u128 K, Expr*& q, Expr*& r) {
    if (a->op != OAdd && a->op != OMul && a->op != OShl) return false;
    std::vector<std::pair<Expr*, u128>> t; u128 k = 0; unsigned w = a->w; if (!linU(a, 1, t, k) || t.empty()) return false;
    bool any = k >= K; for (auto& x : t) any = any || x.second >= K; if (!any) return false;
    q = C(w, k / K); r = C(w, k % K); u128 rmax = k % K; for (auto& x : t) rmax += (x.second % K) * x.first->uhi; if (rmax > umaxw(w)) return false;
    for (auto& x : t) { if (x.second >= K) q = Add(q, Mul(x.first, C(w, x.second / K))); if (x.second % K) r = Add(r, Mul(x.first, C(w, x.second % K))); }
    return true; }
  Expr* UDiv(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (isC(a) && isC(b) && b->c) return C(w, a->c / b->c);
    if (isC(b, 1)) return a;
    if (w <= 64) {
      if (b->ulo > 0 && a->uhi < b->ulo) return C(w, 0);
      if (a == b && b->ulo > 0) return C(w, 1);
      if (isC(b) && b->c) {
        if (a->op == OMul && isC(a->k[1]) && a->k[1]->c % b->c == 0 && noUOv(a->k[0], a->k[1]->c, w)) return Mul(a->k[0], C(w, a->k[1]->c / b->c));
        if (a->op == OUDiv && isC(a->k[1]) && a->k[1]->c * b->c <= umaxw(w)) return UDiv(a->k[0], C(w, a->k[1]->c * b->c));
        if (a->op == OAdd && (u128)a->k[0]->uhi + a->k[1]->uhi <= umaxw(w))
          for (int i = 0; i < 2; i++) { Expr *x = a->k[i], *y = a->k[1 - i];
            if (((x->op == OMul && isC(x->k[1]) && x->k[1]->c % b->c == 0 && noUOv(x->k[0], x->k[1]->c, w)) || (isC(x) && x->c % b->c == 0)))
              return Add(UDiv(x, b), UDiv(y, b)); }
        if (a->op == OIte && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0], UDiv(a->k[1], b), UDiv(a->k[2], b));
        { Expr *q, *r; if (splitU(a, b->c, q, r)) return Add(q, UDiv(r, b)); }
      } else if (!isC(b) && b->ulo > 0) {
        if (a->op == OMul && (u128)a->k[0]->uhi * a->k[1]->uhi <= umaxw(w)) { if (a->k[1] == b) return a->k[0]; if (a->k[0] == b) return a->k[1]; }
      }
    }
    return node(OUDiv, w, a, b);
  }
  Expr* URem(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (isC(a) && isC(b) && b->c) return C(w, a->c % b->c);
    if (isC(b, 1)) return C(w, 0);
    if (w <= 64) {
      if (b->ulo > 0 && a->uhi < b->ulo) return a;
      if (isC(b) && b->c) {
        if (a->op == OMul && isC(a->k[1]) && a->k[1]->c % b->c == 0 && noUOv(a->k[0], a->k[1]->c, w)) return C(w, 0);
        if (a->op == OAdd && (u128)a->k[0]->uhi + a->k[1]->uhi <= umaxw(w))
          for (int i = 0; i < 2; i++) { Expr *x = a->k[i], *y = a->k[1 - i];
            if (((x->op == OMul && isC(x->k[1]) && x->k[1]->c % b->c == 0 && noUOv(x->k[0], x->k[1]->c, w)) || (isC(x) && x->c % b->c == 0)))
              return URem(y, b); }
        { Expr *q, *r; if (splitU(a, b->c, q, r)) return URem(r, b); }
      } else if (!isC(b) && b->ulo > 0 && a->op == OMul && (u128)a->k[0]->uhi * a->k[1]->uhi <= umaxw(w) && (a->k[1] == b || a->k[0] == b)) return C(w, 0);
    }
    return node(OURem, w, a, b);
  }
  // division by a divisor with few possible values: one case per value
  bool fewS(Expr* b) { return b->w <= 64 && b->w > 8 && !isC(b) && b->shi - b->slo >= 0 && b->shi - b->slo <= 8 && b->slo > -1000 && b->shi < 1000; }
  template <class F> Expr* casesS(Expr* b, F f) { Expr* r = f(b->slo); for (i64 v = b->slo + 1; v <= b->shi; v++) r = Ite(Eq(b, C(b->w, (u128)(i128)v)), f(v), r); return r; }
  // e == coefficient * base without signed overflow
  bool multipleOf(Expr* e, Expr*& base, i64& co) { if (e->w > 64 || isC(e)) return false;
    if (e->op == OMul && isC(e->k[1]) && noSOv(e->k[0], S(e->k[1]), e->w)) { base = e->k[0]; co = (i64)S(e->k[1]); return true; }
    if (e->op == OSub && isC(e->k[0], 0) && e->k[1]->slo > sminw(e->w)) { if (multipleOf(e->k[1], base, co)) { co = -co; return true; } return false; }
    base = e; co = 1; return true; }
  bool sameBase(Expr* a, Expr* b, Expr*& base, i64& ca, i64& cb) { Expr* y; return multipleOf(a, base, ca) && multipleOf(b, y, cb) && base == y && cb != 0 && (base->slo > 0 || base->shi < 0); }
  Expr* SDiv(Expr* a, Expr* b) {
    unsigned w = a->w;
    { Expr* x; i64 ca, cb; if (sameBase(a, b, x, ca, cb) && cb != -1) return C(w, (u128)(i128)(ca / cb)); }
    if (fewS(b) && w == b->w && (w <= 64) && bitsOfRange(a) > 16) return casesS(b, [&](i64 v) { return v == 0 ? Ite(Slt(a, C(w, 0)), C(w, 1), C(w, maskw(w))) : v == -1 ? Sub(C(w, 0), a) : SDiv(a, C(w, (u128)(i128)v)); });
    if (isC(a) && isC(b) && b->c && !(sx(b->c, w) == -1)) return C(w, (u128)(S(a) / S(b)));
    if (isC(a) && isC(b) && sx(b->c, w) == -1) return C(w, -a->c);
    if (w <= 64 && a->slo >= 0 && b->slo >= 0) return UDiv(a, b);
    if (isC(b, 1)) return a;
    if (isC(b) && b->c && a->op == OMul && isC(a->k[1]) && noSOv(a->k[0], S(a->k[1]), w) && S(a->k[1]) % S(b) == 0) return Mul(a->k[0], C(w, (u128)(S(a->k[1]) / S(b))));
    if (w <= 64 && !isC(b) && (b->slo > 0 || b->shi < 0) && a->op == OMul && (a->k[0] == b || a->k[1] == b)) {
      Expr* o = a->k[0] == b ? a->k[1] : a->k[0];
      i128 p[4] = {(i128)o->slo * b->slo, (i128)o->slo * b->shi, (i128)o->shi * b->slo, (i128)o->shi * b->shi};
      bool ok = true; for (auto x : p) ok = ok && fitsS(x, w);
      if (ok) return o; }
    return node(OSDiv, w, a, b);
  }
  static unsigned bitsOfRange(Expr* a) { if (a->w > 64) return a->w; u64 m = std::max((u64)(a->slo < 0 ? ~a->slo : a->slo), (u64)(a->shi < 0 ? ~a->shi : a->shi)); return m ? 65 - __builtin_clzll(m) : 1; }
  Expr* SRem(Expr* a, Expr* b) {
    unsigned w = a->w;
    { Expr* x; i64 ca, cb; if (sameBase(a, b, x, ca, cb)) return Mul(x, C(w, (u128)(i128)(cb == -1 ? 0 : ca % cb))); }
    if (fewS(b) && bitsOfRange(a) > 16) return casesS(b, [&](i64 v) { return v == 0 ? a : (v == 1 || v == -1) ? C(w, 0) : SRem(a, C(w, (u128)(i128)v)); });
    if (isC(a) && isC(b) && b->c) return C(w, sx(b->c, w) == -1 ? 0 : (u128)(S(a) % S(b)));
    if (w <= 64 && a->slo >= 0 && b->slo >= 0) return URem(a, b);
    if (isC(b, 1)) return C(w, 0);
    return node(OSRem, w, a, b);
  }
  Expr* Not(Expr* a) { // w == 1
    if (isC(a)) return C(1, a->c ^ 1);
    switch (a->op) {
      case OXor: if (isC(a->k[1], 1)) return a->k[0]; break;
      case OUlt: return Ule(a->k[1], a->k[0]); case OUle: return Ult(a->k[1], a->k[0]);
      case OSlt: return Sle(a->k[1], a->k[0]); case OSle: return Slt(a->k[1], a->k[0]);
      default: break;
    }
    return node(OXor, 1, a, T());
  }
  bool cIte(Expr* e) { return e->op == OIte && isC(e->k[1]) && isC(e->k[2]); }
  Expr* And(Expr* a, Expr* b) {
    unsigned w = a->w; ord(a, b);
    if (a == b) return a;
    if (isC(a) && isC(b)) return C(w, a->c & b->c);
    if (isC(b, 0)) return b; if (isC(b, maskw(w))) return a;
    if (w == 1 && (Not(a) == b)) return F();
    if (isC(b) && w <= 64) {
      u128 m = b->c;
      if ((m & (m + 1)) == 0) { unsigned kbits = 0; while ((m >> kbits) & 1) kbits++; return ZExt(Extract(a, 0, kbits), w); }
      if (a->op == OAnd && isC(a->k[1])) return And(a->k[0], C(w, a->k[1]->c & m));
    }
    if (a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return ZExt(And(a->k[0], b->k[0]), w);
    if (w > 1 && w <= 64 && a->uhi <= 1 && b->uhi <= 1) return ZExt(And(Eq(a, C(w, 1)), Eq(b, C(w, 1))), w);
    if (w > 1 && w <= 64 && cIte(a) && (cIte(b) || isC(b))) return Ite(a->k[0], And(a->k[1], b), And(a->k[2], b));
    return node(OAnd, w, a, b);
  }
  Expr* Or(Expr* a, Expr* b) {
    unsigned w = a->w; ord(a, b);
    if (a == b) return a;
    if (isC(a) && isC(b)) return C(w, a->c | b->c);
    if (isC(b, 0)) return a; if (isC(b, maskw(w))) return b;
    if (w == 1 && (Not(a) == b)) return T();
    if (a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return ZExt(Or(a->k[0], b->k[0]), w);
    if (w > 1 && w <= 64 && a->uhi <= 1 && b->uhi <= 1) return ZExt(Or(Eq(a, C(w, 1)), Eq(b, C(w, 1))), w);
    if (w > 1 && w <= 64 && cIte(a) && (cIte(b) || isC(b))) return Ite(a->k[0], Or(a->k[1], b), Or(a->k[2], b));
    return node(OOr, w, a, b);
  }
  Expr* Xor(Expr* a, Expr* b) {
    unsigned w = a->w; ord(a, b);
    if (a == b) return C(w, 0);
    if (isC(a) && isC(b)) return C(w, a->c ^ b->c);
    if (isC(b, 0)) return a;
    if (w == 1 && isC(b, 1)) return Not(a);
    if (isC(b) && a->op == OXor && isC(a->k[1])) return Xor(a->k[0], C(w, a->k[1]->c ^ b->c));
    if (isC(b, maskw(w)) && w <= 64) return Sub(C(w, maskw(w)), a); // ~x == -1 - x
    if (w > 1 && w <= 64 && isC(b, (u64)smaxw(w)) && a->slo >= 0) return Sub(b, a);
    if (a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return ZExt(Xor(a->k[0], b->k[0]), w);
    if (a->op == OZExt && isC(b) && w <= 64 && !(b->c >> a->k[0]->w)) return ZExt(Xor(a->k[0], C(a->k[0]->w, b->c)), w);
    if (w > 1 && w <= 64 && cIte(a) && (cIte(b) || isC(b))) return Ite(a->k[0], Xor(a->k[1], b), Xor(a->k[2], b));
    return node(OXor, w, a, b);
  }
  Expr* Shl(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (isC(b)) { if (b->c >= w) return C(w, 0); return Mul(a, C(w, (u128)1 << (unsigned)b->c)); }
    return node(OShl, w, a, b);
  }
  Expr* LShr(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (isC(b)) { if (b->c >= w) return C(w, 0); if (b->c == 0) return a; if (isC(a)) return C(w, a->c >> (unsigned)b->c);
      return ZExt(Extract(a, (unsigned)b->c, w - (unsigned)b->c), w); }
    return node(OLShr, w, a, b);
  }
  Expr* AShr(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (w <= 64 && a->slo >= 0) return LShr(a, b);
    if (isC(b)) { unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; if (s == 0) return a; if (isC(a)) return C(w, (u128)(S(a) >> s));
      if (a->op == OMul && isC(a->k[1]) && noSOv(a->k[0], S(a->k[1]), w) && S(a->k[1]) % ((i128)1 << s) == 0) return Mul(a->k[0], C(w, (u128)(S(a->k[1]) >> s)));
      b = C(w, s); }
    return node(OAShr, w, a, b);
  }
  Expr* ZExt(Expr* a, unsigned w) {
    if (a->w == w) return a; assert(w > a->w);
    if (isC(a)) return C(w, a->c);
    if (a->op == OZExt) return ZExt(a->k[0], w);
    if (a->op == OExtract && a->aux == 0 && a->k[0]->w <= 64 && a->k[0]->uhi <= umaxw(a->w)) { Expr* x = a->k[0]; if (x->w == w) return x; if (x->w < w) return ZExt(x, w); return Extract(x, 0, w); }
    if (a->op == OIte && a->w > 1 && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0], ZExt(a->k[1], w), ZExt(a->k[2], w));
    if (a->w == 1) return Ite(a, C(w, 1), C(w, 0));
    return node(OZExt, w, a);
  }
  Expr* SExt(Expr* a, unsigned w) {
    if (a->w == w) return a; assert(w > a->w);
    if (isC(a)) return C(w, (u128)S(a));
    if (a->w == 1) return Ite(a, C(w, maskw(w)), C(w, 0));
    if (a->w <= 64 && a->slo >= 0) return ZExt(a, w);
    if (a->op == OSExt) return SExt(a->k[0], w);
    if (a->op == OZExt) return ZExt(a->k[0], w);
    if (a->op == OExtract && a->aux == 0 && a->k[0]->w <= 64 && a->k[0]->slo >= sminw(a->w) && a->k[0]->shi <= smaxw(a->w)) { Expr* x = a->k[0]; if (x->w == w) return x; if (x->w < w) return SExt(x, w); return Extract(x, 0, w); }
    if (a->op == OIte && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0], SExt(a->k[1], w), SExt(a->k[2], w));
    return node(OSExt, w, a);
  }
  Expr* Extract(Expr* a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a; assert(lo + w <= a->w);
    if (isC(a)) return C(w, a->c >> lo);
    if (a->op == OExtract) return Extract(a->k[0], lo + a->aux, w);
    if (a->op == OConcat) { unsigned lw = a->k[1]->w; if (lo + w <= lw) return Extract(a->k[1], lo, w); if (lo >= lw) return Extract(a->k[0], lo - lw, w); }
    if (a->op == OZExt || a->op == OSExt) { Expr* x = a->k[0]; if (lo + w <= x->w) return Extract(x, lo, w);
      if (lo == 0) return a->op == OZExt ? ZExt(x, w) : SExt(x, w);
      if (a->op == OZExt && lo >= x->w) return C(w, 0); if (a->op == OZExt) return ZExt(Extract(x, lo, x->w - lo), w); }
    if (a->op == OIte && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0], Extract(a->k[1], lo, w), Extract(a->k[2], lo, w));
    if (a->w <= 64 && lo > 0 && a->uhi < ((u128)1 << lo)) return C(w, 0);
    if (lo == 0 && w > 1) { // truncation distributes
      if (a->op == OAdd) return Add(Extract(a->k[0], 0, w), Extract(a->k[1], 0, w));
      if (a->op == OSub) return Sub(Extract(a->k[0], 0, w), Extract(a->k[1], 0, w));
      if (a->op == OMul) return Mul(Extract(a->k[0], 0, w), Extract(a->k[1], 0, w));
    }
    return node(OExtract, w, a, nullptr, nullptr, lo);
  }
  Expr* Concat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return C(w, (hi->c << lo->w) | lo->c);
    if (isC(hi, 0)) return ZExt(lo, w);
    if (hi->op == OExtract && lo->op == OExtract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return Extract(lo->k[0], lo->aux, w);
    if (lo->op == OConcat && hi->op == OExtract && lo->k[0]->op == OExtract && lo->k[0]->k[0] == hi->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->w)
      return Concat(Extract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
    return node(OConcat, w, hi, lo);
  }
  // modular linear form: a = sum coef * term + k (mod 2^w)
  bool linM(Expr* a, u128 c, std::map<Expr*, u128>& t, u128& k, int& fuel) {
    if (--fuel < 0) return false;
    if (isC(a)) { k += a->c * c; return true; }
    if (a->op == OAdd) return linM(a->k[0], c, t, k, fuel) && linM(a->k[1], c, t, k, fuel);
    if (a->op == OSub) return linM(a->k[0], c, t, k, fuel) && linM(a->k[1], -c, t, k, fuel);
    if (a->op == OMul && isC(a->k[1])) return linM(a->k[0], c * a->k[1]->c, t, k, fuel);
    if (a->op == OShl && isC(a->k[1]) && a->k[1]->c < a->w) return linM(a->k[0], c << (unsigned)a->k[1]->c, t, k, fuel);
    t[a] += c; return true; }
  // merge terms ite(c,x,y) over the same condition when both branches contribute the same sum
  void mergeItes(std::map<Expr*, u128>& t, u128& k, u128 m) {
    std::map<Expr*, std::vector<Expr*>> by; for (auto& x : t) if ((x.second & m) && x.first->op == OIte) by[x.first->k[0]].push_back(x.first);
    for (auto& g : by) if (g.second.size() > 1) { std::map<Expr*, u128> p, q; u128 kp = 0, kq = 0; int fuel = 64; bool ok = true;
      for (Expr* e : g.second) ok = ok && linM(e->k[1], t[e], p, kp, fuel) && linM(e->k[2], t[e], q, kq, fuel);
      if (!ok) continue; std::map<Expr*, u128> d = p; for (auto& x : q) d[x.first] -= x.second; bool same = ((kp - kq) & m) == 0; for (auto& x : d) same = same && !(x.second & m);
      if (same) { for (Expr* e : g.second) t.erase(e); for (auto& x : p) t[x.first] += x.second; k += kp; } } }
  Expr* Eq(Expr* a, Expr* b) {
    unsigned w = a->w; assert(w == b->w);
    if (a == b) return T();
    ord(a, b);
    if (isC(a) && isC(b)) return C(1, a->c == b->c);
    if (w > 1 && w <= 64 && !isC(b) && (a->op == OAdd || a->op == OSub || b->op == OAdd || b->op == OSub)) {
      std::map<Expr*, u128> t; u128 k = 0; int fuel = 64; u128 m = maskw(w);
      if (linM(a, 1, t, k, fuel) && linM(b, (u128)-1, t, k, fuel)) { mergeItes(t, k, m); bool z = true; for (auto& x : t) z = z && !(x.second & m); if (z) return C(1, (k & m) == 0); } }
    if (w == 1) { if (isC(b)) return b->c ? a : Not(a); return Not(Xor(a, b)); }
    if (w <= 64 && (a->uhi < b->ulo || b->uhi < a->ulo || a->shi < b->slo || b->shi < a->slo)) return F();
    if (isC(b)) {
      if (a->op == OAdd && isC(a->k[1])) return Eq(a->k[0], C(w, b->c - a->k[1]->c));
      if (a->op == OSub && isC(a->k[0])) return Eq(a->k[1], C(w, a->k[0]->c - b->c));
      if (a->op == OSub && isC(b, 0)) return Eq(a->k[0], a->k[1]);
      if (a->op == OZExt) { Expr* x = a->k[0]; if (b->c > maskw(x->w)) return F(); return Eq(x, C(x->w, b->c)); }
      if (a->op == OSExt) { Expr* x = a->k[0]; if (sx(b->c & maskw(x->w), x->w) != S(b)) return F(); return Eq(x, C(x->w, b->c)); }
      if (a->op == OIte) {
        if (isC(a->k[1]) && isC(a->k[2])) { bool p = a->k[1]->c == b->c, q = a->k[2]->c == b->c; return p ? (q ? T() : a->k[0]) : (q ? Not(a->k[0]) : F()); }
        if (isC(a->k[1]) || isC(a->k[2])) { Expr *p = Eq(a->k[1], b), *q = Eq(a->k[2], b); return Ite(a->k[0], p, q); }
      }
      if (a->op == OMul && isC(a->k[1]) && a->k[1]->c) {
        if (noUOv(a->k[0], a->k[1]->c, w)) { if (b->c % a->k[1]->c) return F(); return Eq(a->k[0], C(w, b->c / a->k[1]->c)); }
        if (noSOv(a->k[0], S(a->k[1]), w)) { if (S(b) % S(a->k[1])) return F(); return Eq(a->k[0], C(w, (u128)(S(b) / S(a->k[1])))); }
      }
      if (a->op == OConcat) return And(Eq(a->k[0], Extract(b, a->k[1]->w, a->k[0]->w)), Eq(a->k[1], Extract(b, 0, a->k[1]->w)));
    } else {
      if (a->op == OAdd && b->op == OAdd) {
        if (isC(a->k[1]) && a->k[1] == b->k[1]) return Eq(a->k[0], b->k[0]);
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (a->k[i] == b->k[j]) return Eq(a->k[1 - i], b->k[1 - j]);
      }
      if (a->op == OSub && b->op == OSub) { if (a->k[0] == b->k[0]) return Eq(a->k[1], b->k[1]); if (a->k[1] == b->k[1]) return Eq(a->k[0], b->k[0]); }
      if ((a->op == OZExt && b->op == OZExt) || (a->op == OSExt && b->op == OSExt)) {
        if (a->k[0]->w == b->k[0]->w) return Eq(a->k[0], b->k[0]); }
      if (a->op == OFInt && b->op == OFInt && a->aux == b->aux) return Eq(a->k[0], b->k[0]);
    }
    return node(OEq, 1, a, b);
  }
  // comparisons of C / a with a (the usual guard of a square against overflow) as bounds on a
  static u128 isq(u128 c) { u128 r = (u128)std::sqrt((double)c); while (r * r > c) r--; while ((r + 1) * (r + 1) <= c) r++; return r; }
  static u128 isqUp(u128 c) { u128 r = isq(c); while (r * (r + 1) > c) r--; return r; } // largest r with r (r + 1) <= c
  bool divBy(Expr* d, Expr* a, Op o) { return d->op == o && a->w <= 64 && !isC(a) && d->k[1] == a && isC(d->k[0]) && (o == OUDiv || S(d->k[0]) >= 0); }
  Expr* sdivCmp(Expr* d, Expr* a, bool strict) { u128 c = d->k[0]->c, q = isq(c), r = isqUp(c); unsigned w = a->w;
    return Ite(Slt(C(w, 0), a), Slt(C(w, strict ? q : r), a), Sle(C(w, (u128)0 - (strict ? r : q)), a)); }
  Expr* Ult(Expr* a, Expr* b) {
    if (a == b) return F();
    if (isC(a) && isC(b)) return C(1, a->c < b->c);
    if (a->w == 1) return And(Not(a), b);
    if (a->w <= 64) { if (a->uhi < b->ulo) return T(); if (a->ulo >= b->uhi) return F(); }
    if (isC(b, 1)) return Eq(a, C(a->w, 0));
    if (isC(a, 0)) return Not(Eq(b, a));
    if (a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return Ult(a->k[0], b->k[0]);
    if (isC(b) && a->op == OIte && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0], Ult(a->k[1], b), Ult(a->k[2], b));
    if (isC(a) && b->op == OIte && isC(b->k[1]) && isC(b->k[2])) return Ite(b->k[0], Ult(a, b->k[1]), Ult(a, b->k[2]));
    if (isC(b) && a->w <= 64 && a->op == OAdd && isC(a->k[1]) && (u128)a->k[0]->uhi + a->k[1]->c <= umaxw(a->w) && b->c >= a->k[1]->c) return Ult(a->k[0], C(a->w, b->c - a->k[1]->c));
    if (divBy(a, b, OUDiv)) return Ult(C(b->w, isq(a->k[0]->c)), b);
    if (divBy(b, a, OUDiv)) return Not(Ult(C(a->w, isqUp(b->k[0]->c)), a));
    return node(OUlt, 1, a, b);
  }
  Expr* Ule(Expr* a, Expr* b) {
    if (a == b) return T();
    if (isC(a) && isC(b)) return C(1, a->c <= b->c);
    if (a->w == 1) return Or(Not(a), b);
    if (a->w <= 64) { if (a->uhi <= b->ulo) return T(); if (a->ulo > b->uhi) return F(); }
    if (isC(b, 0)) return Eq(a, b);
    if (isC(a, 1)) return Not(Eq(b, C(a->w, 0)));
    if (a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return Ule(a->k[0], b->k[0]);
    if (isC(b) && a->op == OIte && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0], Ule(a->k[1], b), Ule(a->k[2], b));
    if (isC(a) && b->op == OIte && isC(b->k[1]) && isC(b->k[2])) return Ite(b->k[0], Ule(a, b->k[1]), Ule(a, b->k[2]));
    if (divBy(a, b, OUDiv)) return Ult(C(b->w, isqUp(a->k[0]->c)), b);
    if (divBy(b, a, OUDiv)) return Not(Ult(C(a->w, isq(b->k[0]->c)), a));
    return node(OUle, 1, a, b);
  }
  bool addNoS(Expr* a) { return a->op == OAdd && isC(a->k[1]) && a->w <= 64 && fitsS((i128)a->k[0]->slo + S(a->k[1]), a->w) && fitsS((i128)a->k[0]->shi + S(a->k[1]), a->w); }
  Expr* Slt(Expr* a, Expr* b) {
    if (a == b) return F();
    if (isC(a) && isC(b)) return C(1, S(a) < S(b));
    if (a->w == 1) return And(a, Not(b));
    if (a->op == OXor && isC(b, 0) && !isC(a->k[1])) return Xor(Slt(a->k[0], b), Slt(a->k[1], b));
    if (b->op == OXor && isC(a, maskw(a->w)) && !isC(b->k[1])) { Expr* z = C(a->w, 0); return Not(Xor(Slt(b->k[0], z), Slt(b->k[1], z))); }
    if (a->w <= 64) { if (a->shi < b->slo) return T(); if (a->slo >= b->shi) return F(); if (a->slo >= 0 && b->slo >= 0) return Ult(a, b); }
    if (a->op == OSExt && b->op == OSExt && a->k[0]->w == b->k[0]->w) return Slt(a->k[0], b->k[0]);
    if (isC(b) && a->op == OIte && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0], Slt(a->k[1], b), Slt(a->k[2], b));
    if (isC(b) && addNoS(a) && fitsS(S(b) - S(a->k[1]), a->w)) return Slt(a->k[0], C(a->w, b->c - a->k[1]->c));
    if (isC(a) && addNoS(b) && fitsS(S(a) - S(b->k[1]), a->w)) return Slt(C(a->w, a->c - b->k[1]->c), b->k[0]);
    if (isC(b) && a->op == OSub && a->w <= 64 && fitsS((i128)a->k[0]->slo - a->k[1]->shi, a->w) && fitsS((i128)a->k[0]->shi - a->k[1]->slo, a->w)) {
      if (isC(b, 0)) return Slt(a->k[0], a->k[1]); if (isC(b, 1)) return Sle(a->k[0], a->k[1]); }
    if (isC(a) && b->op == OSub && a->w <= 64 && fitsS((i128)b->k[0]->slo - b->k[1]->shi, a->w) && fitsS((i128)b->k[0]->shi - b->k[1]->slo, a->w)) {
      if (isC(a, 0)) return Slt(b->k[1], b->k[0]); if (S(a) == -1) return Sle(b->k[1], b->k[0]); }
    if (divBy(a, b, OSDiv)) return sdivCmp(a, b, true);
    if (divBy(b, a, OSDiv)) return Not(sdivCmp(b, a, false));
    return node(OSlt, 1, a, b);
  }
  Expr* Sle(Expr* a, Expr* b) {
    if (a == b) return T();
    if (isC(a) && isC(b)) return C(1, S(a) <= S(b));
    if (a->w == 1) return Or(a, Not(b));
    if (b->op == OXor && isC(a, 0) && !isC(b->k[1])) return Not(Xor(Slt(b->k[0], a), Slt(b->k[1], a)));
    if (a->w <= 64) { if (a->shi <= b->slo) return T(); if (a->slo > b->shi) return F(); if (a->slo >= 0 && b->slo >= 0) return Ule(a, b); }
    if (isC(b) && S(b) < smaxw(a->w)) return Slt(a, C(a->w, b->c + 1));
    if (isC(a) && S(a) > sminw(a->w)) return Slt(C(a->w, a->c - 1), b);
    if (a->op == OSExt && b->op == OSExt && a->k[0]->w == b->k[0]->w) return Sle(a->k[0], b->k[0]);
    if (divBy(a, b, OSDiv)) return sdivCmp(a, b, false);
    if (divBy(b, a, OSDiv)) return Not(sdivCmp(b, a, true));
    return node(OSle, 1, a, b);
  }
  Expr* Ite(Expr* c, Expr* a, Expr* b) {
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == OXor && isC(c->k[1], 1)) return Ite(c->k[0], b, a);
    if (a->w == 1) {
      if (isC(a, 1) && isC(b, 0)) return c; if (isC(a, 0) && isC(b, 1)) return Not(c);
      if (isC(a, 1)) return Or(c, b); if (isC(a, 0)) return And(Not(c), b);
      if (isC(b, 0)) return And(c, a); if (isC(b, 1)) return Or(Not(c), a);
    }
    if (a->op == OIte && a->k[0] == c) a = a->k[1];
    if (b->op == OIte && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    // selects between two exactly-integer doubles stay exactly integer
    if (a->w == 64 && !(isC(a) && isC(b)) && (a->op == OFInt || a->view) && (b->op == OFInt || b->view || isC(b))) if (Expr* r = iteView(c, a, b)) return r;
    if (a->w == 64 && isC(a) && (b->op == OFInt || b->view)) if (Expr* r = iteView(c, a, b)) return r;
    return node(OIte, a->w, c, a, b);
  }
  Expr* iteView(Expr* c, Expr* a, Expr* b) {
    View va, vb; if (!getView(a, 64, va) || !getView(b, 64, vb)) return nullptr;
    if (!va.zpos || !vb.zpos) return nullptr;
    Expr *na, *nb; int s; if (!align(va, vb, na, nb, s)) return nullptr;
    return FInt(Ite(c, na, nb), s);
  }

  // ---------------------------------------------------------------- floating point (w = 32 / 64)
  static constexpr i64 EXACT = (i64)1 << 53;
  bool getView(Expr* e, unsigned w, View& v) {
    if (w != 64) return false;
    if (e->op == OFInt) { v = {e->k[0], (int)e->aux, true}; return true; }
    if (e->view) { v = *e->view; return true; }
    if (e->op == OConst) {
      double d = bitsD((u64)e->c);
      if (!std::isfinite(d)) return false;
      if (d == 0) { v = {C(64, 0), 0, !std::signbit(d)}; return true; }
      int ex; double m = std::frexp(d, &ex); // d = m*2^ex
      i64 n = (i64)std::ldexp(m, 53); int s = 53 - ex;
      while ((n & 1) == 0) { n >>= 1; s--; }
      if (s < -61 || s > 60) return false;
      if (s < 0) { if ((double)std::abs((double)n) * std::ldexp(1.0, -s) > (realMode ? (double)EXACT : std::ldexp(1.0, 62))) return false; n = n * ((i64)1 << -s); s = 0; }
      v = {C(64, (u128)(i128)n), s, true}; return true;
    }
    return false;
  }
  // n rounded to 53 significant bits (to nearest, ties to even): the double nearest to an integer below 2^62, as integer arithmetic
  Expr* rnd53(Expr* n) {
    const i64 LIM = (i64)1 << 62; if (inExact(n)) return n; if (realMode || n->w != 64 || n->slo < -LIM || n->shi > LIM) return nullptr;
    u64 hi = std::max<u64>(n->slo < 0 ? (u64)0 - (u64)n->slo : 0, n->shi > 0 ? (u64)n->shi : 0), lo = n->slo > 0 ? (u64)n->slo : n->shi < 0 ? (u64)0 - (u64)n->shi : 0;
    Expr* r = nullptr; // from the coarsest binade down
    for (int k = 10; k >= 0; k--) { u64 from = k ? (u64)1 << (52 + k) : 0, upto = (u64)1 << (53 + k); // |n| in [from, upto)
      if (from > hi || (k && upto <= lo)) continue; Expr* v = n;
      if (k) { Expr* t = AShr(Add(Add(n, C(64, ((u128)1 << (k - 1)) - 1)), ZExt(Extract(n, k, 1), 64)), C(64, k)); v = Mul(t, C(64, (u128)1 << k)); }
      r = r ? Ite(And(Slt(n, C(64, (u128)upto)), Slt(C(64, (u128)(-(i128)upto)), n)), v, r) : v;
      if (from <= lo) break; }
    return r; }
  Expr* roundedView(Expr* n, i128 lo, i128 hi) { if (realMode || lo < -((i128)1 << 62) || hi > ((i128)1 << 62)) return nullptr; return rnd53(n); }
  bool inExact(Expr* n) { return n->slo >= -EXACT && n->shi <= EXACT; }
  bool align(const View& a, const View& b, Expr*& na, Expr*& nb, int& s) {
    s = std::max(a.s, b.s); int da = s - a.s, db = s - b.s;
    if (da > 50 || db > 50) return false;
    if (!noSOv(a.n, (i128)1 << da, 64) || !noSOv(b.n, (i128)1 << db, 64)) return false;
    na = Mul(a.n, C(64, (u128)1 << da)); nb = Mul(b.n, C(64, (u128)1 << db)); return true;
  }
  Expr* FInt(Expr* n, int s) { // exact value n*2^-s, n within +-2^53
    if (isC(n)) return C(64, dBits(std::ldexp((double)(i64)S(n), -s)));
    while (s > 0 && n->op == OMul && isC(n->k[1]) && (n->k[1]->c & 1) == 0 && noSOv(n->k[0], S(n->k[1]), 64)) { n = Mul(n->k[0], C(64, (u128)(S(n->k[1]) / 2))); s--; }
    if ((n->op == OAdd || n->op == OSub) && !realMode) { // canonical order of the terms: equal sums get equal nodes
      std::map<Expr*, u128> t; u128 k = 0; int fuel = 32;
      if (linM(n, 1, t, k, fuel)) { mergeItes(t, k, maskw(64)); std::vector<std::pair<Expr*, u128>> v; for (auto& x : t) if (x.second & maskw(64)) v.push_back({x.first, x.second & maskw(64)});
        std::sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
        Expr* r = nullptr; for (auto& x : v) { i64 c = (i64)(u64)x.second; if (c < 0 && r && c != INT64_MIN) r = Sub(r, Mul(x.first, C(64, (u64)-c))); else { Expr* q = Mul(x.first, C(64, (u64)x.second)); r = r ? Add(r, q) : q; } }
        Expr* kk = C(64, k & maskw(64)); r = r ? Add(r, kk) : kk;
        if (isC(r)) return FInt(r, s);
        if (r->slo >= n->slo && r->shi <= n->shi) n = r; } }
    return node(OFInt, 64, n, nullptr, nullptr, s);
  }
  Expr* viewed(Expr* e, Expr* n, int s) { if (!e->view && e->op != OFInt && e->op != OConst) e->view = new View{n, s, false}; return e; }
  // n / d when d syntactically divides every term of the (non-wrapping) integer expression n
  Expr* quot(Expr* n, i128 d, int depth = 0) {
    if (d == 1) return n; if (depth > 40 || n->w > 64) return nullptr;
    switch (n->op) {
      case OConst: return S(n) % d ? nullptr : C(n->w, (u128)(S(n) / d));
      case OMul: { if (!isC(n->k[1]) || !noSOv(n->k[0], S(n->k[1]), n->w)) return nullptr; i128 c = S(n->k[1]);
        if (c % d == 0) return Mul(n->k[0], C(n->w, (u128)(c / d)));
        i128 x = c < 0 ? -c : c, y = d < 0 ? -d : d; while (y) { i128 t = x % y; x = y; y = t; }
        Expr* q = quot(n->k[0], d / x, depth + 1); return q ? Mul(q, C(n->w, (u128)(c / x))) : nullptr; }
      case OAdd: case OSub: {
        i128 lo = n->op == OAdd ? (i128)n->k[0]->slo + n->k[1]->slo : (i128)n->k[0]->slo - n->k[1]->shi, hi = n->op == OAdd ? (i128)n->k[0]->shi + n->k[1]->shi : (i128)n->k[0]->shi - n->k[1]->slo;
        if (!fitsS(lo, n->w) || !fitsS(hi, n->w)) return nullptr;
        Expr* p = quot(n->k[0], d, depth + 1); if (!p) return nullptr; Expr* q = quot(n->k[1], d, depth + 1); if (!q) return nullptr;
        return n->op == OAdd ? Add(p, q) : Sub(p, q); }
      case OIte: { Expr* p = quot(n->k[1], d, depth + 1); if (!p) return nullptr; Expr* q = quot(n->k[2], d, depth + 1); return q ? Ite(n->k[0], p, q) : nullptr; }
      case OSExt: if (d >= sminw(n->k[0]->w) && d <= smaxw(n->k[0]->w)) { Expr* q = quot(n->k[0], d, depth + 1); return q ? SExt(q, n->w) : nullptr; } return nullptr;
      default: return nullptr;
    }
  }
  template <class FD, class FF> Expr* fold2(Expr* a, Expr* b, FD fd, FF ff) {
    if (a->w == 64) return C(64, dBits(fd(bitsD((u64)a->c), bitsD((u64)b->c))));
    if (a->w == 32) return C(32, fBits(ff(bitsF((uint32_t)a->c), bitsF((uint32_t)b->c))));
    return nullptr;
  }
  bool realMode = false;
  // real mode folds only exact double operations: the rest stay symbolic and are evaluated as rationals
  bool mayFold(Op op, Expr* a, Expr* b) {
    if (!realMode) return true;
    if (a->w != 64) return true;
    double x = bitsD((u64)a->c), y = b ? bitsD((u64)b->c) : 0;
    if (!std::isfinite(x) || !std::isfinite(y)) return true;
    switch (op) {
      case OFSub: y = -y; /* fallthrough */
      case OFAdd: { double s = x + y, bb = s - x; double err = (x - (s - bb)) + (y - bb); return err == 0; }
      case OFMul: { double p = x * y; return std::fma(x, y, -p) == 0; }
      case OFDiv: { if (y == 0) return true; double q = x / y; return std::fma(q, y, -x) == 0; }
      case OFSqrt: { if (x < 0) return true; double q = std::sqrt(x); return std::fma(q, q, -x) == 0; }
      default: return true; }
  }
  long double bitsL(u128 b) { long double d = 0; memcpy(&d, &b, 10); return d; }
  u128 lBits(long double d) { u128 b = 0; memcpy(&b, &d, 10); return b; }
  void chk80(Expr* a) { if (a->w == 80 && !isC(a)) throw Unsupported("symbolic x86_fp80"); if (a->w != 32 && a->w != 64 && a->w != 80) throw Unsupported("fp width"); }
  Expr* FAdd(Expr* a, Expr* b) {
    chk80(a); chk80(b);
    if (isC(a) && isC(b) && mayFold(OFAdd, a, b)) { if (a->w == 80) return C(80, lBits(bitsL(a->c) + bitsL(b->c))); return fold2(a, b, [](double x, double y) { return x + y; }, [](float x, float y) { return x + y; }); }
    View va, vb; Expr *na, *nb; int s;
    if (getView(a, a->w, va) && getView(b, b->w, vb) && align(va, vb, na, nb, s)) {
      Expr* n = Add(na, nb); if (inExact(n)) { if (va.zpos || vb.zpos) return FInt(n, s); return viewed(node(OFAdd, a->w, a, b), n, s); }
      if (va.zpos || vb.zpos) if (Expr* r = roundedView(n, (i128)na->slo + nb->slo, (i128)na->shi + nb->shi)) return FInt(r, s); }
    if (!isC(a) && !isC(b) && a->id > b->id) std::swap(a, b); // commutative (NaN payloads are not observed)
    if (isC(a) && !isC(b)) std::swap(a, b);
    return node(OFAdd, a->w, a, b);
  }
  Expr* FSub(Expr* a, Expr* b) {
    chk80(a); chk80(b);
    if (isC(a) && isC(b) && mayFold(OFSub, a, b)) { if (a->w == 80) return C(80, lBits(bitsL(a->c) - bitsL(b->c))); return fold2(a, b, [](double x, double y) { return x - y; }, [](float x, float y) { return x - y; }); }
    View va, vb; Expr *na, *nb; int s;
    if (getView(a, a->w, va) && getView(b, b->w, vb) && align(va, vb, na, nb, s)) {
      Expr* n = Sub(na, nb); if (inExact(n)) { if (va.zpos) return FInt(n, s); return viewed(node(OFSub, a->w, a, b), n, s); }
      if (va.zpos) if (Expr* r = roundedView(n, (i128)na->slo - nb->shi, (i128)na->shi - nb->slo)) return FInt(r, s); }
    return node(OFSub, a->w, a, b);
  }
  Expr* FMul(Expr* a, Expr* b) {
    chk80(a); chk80(b);
    if (isC(a) && isC(b) && mayFold(OFMul, a, b)) { if (a->w == 80) return C(80, lBits(bitsL(a->c) * bitsL(b->c))); return fold2(a, b, [](double x, double y) { return x * y; }, [](float x, float y) { return x * y; }); }
    if (!isC(a) && !isC(b) && a->id > b->id) std::swap(a, b);
    if (isC(a) && !isC(b)) std::swap(a, b);
    if (a->w == 64 && isC(b, dBits(1.0))) return a;
    if (a->w == 32 && isC(b, fBits(1.0f))) return a;
    if (realMode && a == b && a->op == OFSqrt && nonNegR(a->k[0])) return a->k[0];
    View va, vb;
    if (getView(a, a->w, va) && getView(b, b->w, vb) && va.s + vb.s <= 60) {
      Expr* n = Mul(va.n, vb.n);
      i128 p[4] = {(i128)va.n->slo * vb.n->slo, (i128)va.n->slo * vb.n->shi, (i128)va.n->shi * vb.n->slo, (i128)va.n->shi * vb.n->shi};
      bool ok = true; for (auto x : p) ok = ok && x >= -(i128)EXACT && x <= (i128)EXACT;
      if (ok) {
        bool zp = (a == b) || ((va.n->slo >= 0 && vb.n->slo >= 0) && va.zpos && vb.zpos) || ((va.n->slo > 0 || va.n->shi < 0) && (vb.n->slo > 0 || vb.n->shi < 0));
        if (isC(vb.n) && S(vb.n) > 0 && va.zpos) zp = true;
        if (zp) return FInt(n, va.s + vb.s);
        return viewed(node(OFMul, a->w, a, b), n, va.s + vb.s);
      } }
    return node(OFMul, a->w, a, b);
  }
  Expr* FDiv(Expr* a, Expr* b) {
    chk80(a); chk80(b);
    if (isC(a) && isC(b) && mayFold(OFDiv, a, b)) { if (a->w == 80) return C(80, lBits(bitsL(a->c) / bitsL(b->c))); return fold2(a, b, [](double x, double y) { return x / y; }, [](float x, float y) { return x / y; }); }
    if (isC(b) && a->w == 64) { double d = bitsD((u64)b->c); int ex; if (std::isfinite(d) && d > 0 && std::frexp(d, &ex) == 0.5 && ex > -500 && ex < 500) return FMul(a, C(64, dBits(1.0 / d))); }
    { View va, vb; // exact division by an integer constant that syntactically divides the numerator
      if (isC(b) && getView(b, 64, vb) && vb.s == 0 && S(vb.n) != 0 && getView(a, a->w, va) && va.zpos) if (Expr* q = quot(va.n, S(vb.n))) return FInt(q, va.s); }
    View va, vb; // exact quotient when syntactically a multiple
    if (getView(a, a->w, va) && getView(b, b->w, vb) && va.s == vb.s && va.zpos && (vb.n->slo > 0) && va.n->op == OMul) {
      Expr* o = va.n->k[0] == vb.n ? va.n->k[1] : va.n->k[1] == vb.n ? va.n->k[0] : nullptr;
      if (o && inExact(o)) { bool ok = true; i128 p[4] = {(i128)o->slo * vb.n->slo, (i128)o->slo * vb.n->shi, (i128)o->shi * vb.n->slo, (i128)o->shi * vb.n->shi}; for (auto x : p) ok = ok && fitsS(x, 64);
        if (ok) return FInt(o, 0); } }
    return node(OFDiv, a->w, a, b);
  }
  Expr* FRem(Expr* a, Expr* b) {
    chk80(a); if (isC(a) && isC(b)) return fold2(a, b, [](double x, double y) { return std::fmod(x, y); }, [](float x, float y) { return std::fmod(x, y); });
    throw Unsupported("symbolic frem");
  }
  Expr* FNeg(Expr* a) {
    chk80(a);
    if (isC(a)) return C(a->w, a->c ^ ((u128)1 << (a->w - 1)));
    if (a->op == OFNeg) return a->k[0];
    View v; if (getView(a, a->w, v)) { Expr* n = Sub(C(64, 0), v.n); if (v.n->slo > 0 || v.n->shi < 0) return FInt(n, v.s); return viewed(node(OFNeg, a->w, a), n, v.s); }
    return node(OFNeg, a->w, a);
  }
  Expr* FAbs(Expr* a) {
    chk80(a);
    if (isC(a)) return C(a->w, a->c & (maskw(a->w) >> 1));
    if (a->op == OFNeg || a->op == OFAbs) return FAbs(a->k[0]);
    View v; if (getView(a, a->w, v)) { return FInt(Ite(Slt(v.n, C(64, 0)), Sub(C(64, 0), v.n), v.n), v.s); }
    return node(OFAbs, a->w, a);
  }
  Expr* FSqrt(Expr* a) {
    if (isC(a) && a->w == 64 && mayFold(OFSqrt, a, nullptr)) return C(64, dBits(std::sqrt(bitsD((u64)a->c))));
    if (isC(a) && a->w == 32) return C(32, fBits(std::sqrt(bitsF((uint32_t)a->c))));
    chk80(a); return node(OFSqrt, a->w, a);
  }
  static double rnd(double x, int m) { switch (m) { case 0: return std::nearbyint(x); case 1: return std::round(x); case 2: return std::ceil(x); case 3: return std::floor(x); default: return std::trunc(x); } }
  Expr* FRound(Expr* a, int m) {
    chk80(a);
    if (isC(a) && a->w == 64) return C(64, dBits(rnd(bitsD((u64)a->c), m)));
    if (isC(a) && a->w == 32) return C(32, fBits((float)rnd(bitsF((uint32_t)a->c), m)));
    View v; if (getView(a, a->w, v) && v.s == 0) return a;
    return node(OFRound, a->w, a, nullptr, nullptr, m);
  }
  Expr* FCvt(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) {
      long double v = a->w == 64 ? (long double)bitsD((u64)a->c) : a->w == 32 ? (long double)bitsF((uint32_t)a->c) : bitsL(a->c);
      if (w == 64) return C(64, dBits((double)v)); if (w == 32) { if (a->w == 64) return C(32, fBits((float)bitsD((u64)a->c))); return C(32, fBits((float)v)); } if (w == 80) return C(80, lBits(v));
    }
    if (a->op == OFCvt && a->w == 64 && w == a->k[0]->w) return a->k[0];
    if (w == 80 || a->w == 80) throw Unsupported("symbolic x86_fp80");
    return node(OFCvt, w, a);
  }
  Expr* SIToFP(Expr* a, unsigned w) {
    if (isC(a)) { if (w == 64) return C(64, dBits((double)(i64)S(a))); if (w == 32) return C(32, fBits((float)(i64)S(a))); if (w == 80) return C(80, lBits((long double)(i64)S(a))); }
    if (w == 64 && a->w <= 64 && a->slo >= -EXACT && a->shi <= EXACT) return FInt(SExt(a, 64), 0);
    if (w == 64 && a->w == 64) if (Expr* r = roundedView(a, a->slo, a->shi)) return FInt(r, 0);
    if (w == 80) throw Unsupported("symbolic x86_fp80");
    return node(OSIToFP, w, a);
  }
  Expr* UIToFP(Expr* a, unsigned w) {
    if (isC(a)) { if (w == 64) return C(64, dBits((double)(u64)a->c)); if (w == 32) return C(32, fBits((float)(u64)a->c)); if (w == 80) return C(80, lBits((long double)(u64)a->c)); }
    if (w == 64 && a->w <= 64 && a->uhi <= (u64)EXACT) return FInt(ZExt(a, 64), 0);
    if (w == 80) throw Unsupported("symbolic x86_fp80");
    return node(OUIToFP, w, a);
  }
  Expr* FPToSI(Expr* a, unsigned w) {
    if (isC(a)) { long double v = a->w == 64 ? bitsD((u64)a->c) : a->w == 32 ? bitsF((uint32_t)a->c) : bitsL(a->c);
      if (!(v >= -9.3e18L && v <= 9.3e18L)) return C(w, (u128)1 << (w - 1)); return C(w, (u128)(i128)v); }
    View v; if (getView(a, a->w, v) && v.s == 0) { if (w == 64) return v.n; if (w < 64) return Extract(v.n, 0, w); }
    if (a->w == 80) throw Unsupported("symbolic x86_fp80");
    return node(OFPToSI, w, a);
  }
  Expr* FPToUI(Expr* a, unsigned w) {
    if (isC(a)) { long double v = a->w == 64 ? bitsD((u64)a->c) : a->w == 32 ? bitsF((uint32_t)a->c) : bitsL(a->c);
      if (!(v > -1.0L && v <= 1.9e19L)) return C(w, (u128)1 << (w - 1)); return C(w, (u128)v); }
    View v; if (getView(a, a->w, v) && v.s == 0 && v.n->slo >= 0) { if (w == 64) return v.n; if (w < 64) return Extract(v.n, 0, w); }
    if (a->w == 80) throw Unsupported("symbolic x86_fp80");
    return node(OFPToUI, w, a);
  }
  bool isNaNC(Expr* a) { return isC(a) && (a->w == 64 ? std::isnan(bitsD((u64)a->c)) : a->w == 32 ? std::isnan(bitsF((uint32_t)a->c)) : std::isnan(bitsL(a->c))); }
  // sqrt of an exact integer below 2^50 is strictly monotone in that integer
  bool sqrtArg(Expr* e, Expr*& n) {
    if (e->op != OFSqrt || e->w != 64) return false; View v;
    if (!getView(e->k[0], 64, v) || v.s != 0 || v.n->slo < 0 || v.n->shi > ((i64)1 << 50)) return false; n = v.n; return true; }
  // real mode: syntactically non-negative
  static bool nonNegR(Expr* e) {
    switch (e->op) { case OConst: return e->w == 64 && bitsD((u64)e->c) >= 0; case OFMul: return e->k[0] == e->k[1] || (nonNegR(e->k[0]) && nonNegR(e->k[1])); case OFAdd: case OFDiv: return nonNegR(e->k[0]) && nonNegR(e->k[1]);
      case OFAbs: case OFSqrt: case OUIToFP: return true; case OSIToFP: return e->k[0]->slo >= 0; case OFInt: return e->k[0]->slo >= 0; case OIte: return nonNegR(e->k[1]) && nonNegR(e->k[2]); default: return false; } }
  Expr* fcmp(Op op, Expr* a, Expr* b) {
    if (realMode && a->op == OFSqrt && b->op == OFSqrt && nonNegR(a->k[0]) && nonNegR(b->k[0])) return fcmp(op, a->k[0], b->k[0]);
    if (realMode && b->op == OFSqrt && isC(a) && bitsD((u64)a->c) <= 0 && op == OFLe) return T();
    if (realMode && a->op == OFSqrt && isC(b) && bitsD((u64)b->c) <= 0 && op == OFLt) return F();
    if (realMode && nonNegR(a) && isC(b, 0) && op == OFLt) return F();
    if (realMode && nonNegR(b) && isC(a, 0) && op == OFLe) return T();
    chk80(a); chk80(b);
    if (isC(a) && isC(b)) {
      auto go = [&](auto x, auto y) { return op == OFEq ? x == y : op == OFLt ? x < y : op == OFLe ? x <= y : (x != x || y != y); };
      bool r = a->w == 64 ? go(bitsD((u64)a->c), bitsD((u64)b->c)) : a->w == 32 ? go(bitsF((uint32_t)a->c), bitsF((uint32_t)b->c)) : go(bitsL(a->c), bitsL(b->c));
      return C(1, r); }
    if (isNaNC(a) || isNaNC(b)) return C(1, op == OFUno);
    View va, vb; bool ha = getView(a, a->w, va), hb = getView(b, b->w, vb);
    if (op == OFUno) { if (ha && hb) return F(); if (ha || (isC(a))) a = b; if (hb || isC(b)) b = a; if (a == b) b = a; 
      Expr* sa; if (a == b && sqrtArg(a, sa)) return F(); return node(OFUno, 1, a, b); }
    Expr *na, *nb; int s;
    if (ha && hb) { if (align(va, vb, na, nb, s)) return op == OFEq ? Eq(na, nb) : op == OFLt ? Slt(na, nb) : Sle(na, nb); }
    Expr *sa = nullptr, *sb = nullptr; bool ra = sqrtArg(a, sa), rb = sqrtArg(b, sb);
    auto cmp = [&](Expr* x, Expr* y) { return op == OFEq ? Eq(x, y) : op == OFLt ? Slt(x, y) : Sle(x, y); };
    if (ra && rb) return cmp(sa, sb);
    if (ra && hb && vb.s == 0 && isC(vb.n) && vb.n->slo < (1 << 25)) { if (vb.n->slo < 0) return F(); return cmp(sa, Mul(vb.n, vb.n)); }
    if (rb && ha && va.s == 0 && isC(va.n) && va.n->slo < (1 << 25)) { if (va.n->slo < 0) return op == OFEq ? F() : T(); return cmp(Mul(va.n, va.n), sb); }
    // sqrt(x)^2-style comparisons against symbolic non-negative integers
    if (ra && hb && vb.s == 0 && vb.n->slo >= 0 && vb.n->shi < (1 << 25)) return cmp(sa, Mul(vb.n, vb.n));
    if (rb && ha && va.s == 0 && va.n->slo >= 0 && va.n->shi < (1 << 25)) return cmp(Mul(va.n, va.n), sb);
    if (op == OFEq && a->id > b->id) std::swap(a, b);
    if (a == b) { if (op == OFLt) return F(); return Not(fcmp(OFUno, a, a)); }
    return node(op, 1, a, b);
  }

  // ---------------------------------------------------------------- evaluation under an assignment
  struct Model { std::vector<u64> v; u64 stamp = 0; };
  u64 nextStamp = 1;
  u64 modelVal(const Model& m, uint32_t vi) { if (vi < m.v.size()) return m.v[vi]; auto& i = vars[vi]; return i.ranged ? ((u64)i.lo & umaxw(i.w)) : 0; }
  u128 ev(Expr* e, const Model& m) {
    if (e->op == OConst) return e->c;
    if (e->estamp == m.stamp) return e->eval;
    u128 r = ev1(e, m) & maskw(e->w);
    e->estamp = m.stamp; e->eval = r; return r;
  }
  u128 ev1(Expr* e, const Model& m) {
    unsigned w = e->w; Expr *k0 = e->k[0], *k1 = e->k[1], *k2 = e->k[2];
    auto A = [&] { return ev(k0, m); }; auto B = [&] { return ev(k1, m); };
    auto SA = [&] { return sx(ev(k0, m), k0->w); }; auto SB = [&] { return sx(ev(k1, m), k1->w); };
    auto fp2 = [&](auto f) -> u128 { u128 a = A(), b = B(); if (w == 64) return dBits(f(bitsD((u64)a), bitsD((u64)b))); return fBits(f(bitsF((uint32_t)a), bitsF((uint32_t)b))); };
    auto cmp = [&](auto f) -> u128 { u128 a = A(), b = B(); if (k0->w == 64) return f(bitsD((u64)a), bitsD((u64)b)); return f(bitsF((uint32_t)a), bitsF((uint32_t)b)); };
    switch (e->op) {
      case OVar: return modelVal(m, e->aux);
      case OAdd: return A() + B(); case OSub: return A() - B(); case OMul: return A() * B();
      case OUDiv: { u128 b = B(); return b ? A() / b : maskw(w); }
      case OURem: { u128 b = B(); return b ? A() % b : A(); }
      case OSDiv: { i128 b = SB(), a = SA(); if (!b) return a < 0 ? 1 : maskw(w); if (b == -1) return (u128)0 - (u128)a; return (u128)(a / b); }
      case OSRem: { i128 b = SB(), a = SA(); if (!b) return (u128)a; if (b == -1) return 0; return (u128)(a % b); }
      case OAnd: return A() & B(); case OOr: return A() | B(); case OXor: return A() ^ B();
      case OShl: { u128 b = B(); return b >= w ? 0 : A() << (unsigned)b; }
      case OLShr: { u128 b = B(); return b >= w ? 0 : A() >> (unsigned)b; }
      case OAShr: { u128 b = B(); i128 a = SA(); return (u128)(a >> (b >= w ? w - 1 : (unsigned)b)); }
      case OEq: return A() == B(); case OUlt: return A() < B(); case OUle: return A() <= B(); case OSlt: return SA() < SB(); case OSle: return SA() <= SB();
      case OIte: return A() ? ev(k1, m) : ev(k2, m);
      case OZExt: return A(); case OSExt: return (u128)SA(); case OExtract: return A() >> e->aux; case OConcat: return (A() << k1->w) | B();
      case OFAdd: return fp2([](auto a, auto b) { return a + b; }); case OFSub: return fp2([](auto a, auto b) { return a - b; });
      case OFMul: return fp2([](auto a, auto b) { return a * b; }); case OFDiv: return fp2([](auto a, auto b) { return a / b; });
      case OFNeg: return A() ^ ((u128)1 << (w - 1)); case OFAbs: return A() & (maskw(w) >> 1);
      case OFSqrt: return w == 64 ? (u128)dBits(std::sqrt(bitsD((u64)A()))) : (u128)fBits(std::sqrt(bitsF((uint32_t)A())));
      case OFRound: return w == 64 ? (u128)dBits(rnd(bitsD((u64)A()), e->aux)) : (u128)fBits((float)rnd(bitsF((uint32_t)A()), e->aux));
      case OFCvt: return w == 64 ? (u128)dBits((double)bitsF((uint32_t)A())) : (u128)fBits((float)bitsD((u64)A()));
      case OSIToFP: { i64 a = (i64)SA(); return w == 64 ? (u128)dBits((double)a) : (u128)fBits((float)a); }
      case OUIToFP: { u64 a = (u64)A(); return w == 64 ? (u128)dBits((double)a) : (u128)fBits((float)a); }
      case OFPToSI: { double d = k0->w == 64 ? bitsD((u64)A()) : bitsF((uint32_t)A()); if (!(d >= -9.3e18 && d <= 9.3e18)) return (u128)1 << (w - 1); return (u128)(i128)d; }
      case OFPToUI: { double d = k0->w == 64 ? bitsD((u64)A()) : bitsF((uint32_t)A()); if (!(d > -1 && d <= 1.9e19)) return (u128)1 << (w - 1); return (u128)d; }
      case OFEq: return cmp([](auto a, auto b) { return a == b; }); case OFLt: return cmp([](auto a, auto b) { return a < b; });
      case OFLe: return cmp([](auto a, auto b) { return a <= b; }); case OFUno: return cmp([](auto a, auto b) { return a != a || b != b; });
      case OFInt: return dBits(std::ldexp((double)(i64)SA(), -(int)e->aux));
      default: (void)k2; throw Unsupported("eval op");
    }
  }
};
