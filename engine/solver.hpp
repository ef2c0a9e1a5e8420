// Lowering of the expression DAG to z3 (bit-vector/IEEE mode and exact integer/real mode), constraint
// slicing, caching and the query portfolio.
#pragma once
#include "expr.hpp"
#include <chrono>
#include <functional>
#include <map>
#include <z3.h>
#include <boost/multiprecision/cpp_int.hpp>
#include <unistd.h>
#include <sys/wait.h>
#include <poll.h>
#include <signal.h>
#include <fcntl.h>

inline double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Solver {
  ExprMgr& M; Z3_context c;
  Z3_sort fp64, fp32, bool_s, int_s, real_s; Z3_ast rne, rna, rtp, rtn, rtz;
  Z3_solver sbv = nullptr, sfp = nullptr, sar = nullptr, sar2 = nullptr;
  bool real = false, noNarrow = getenv("VP_NONARROW"); u64 nnarrow = 0;
  unsigned tmo = 20000;      // per in-process query (ms)
  unsigned tmoExt = 60000;   // portfolio (ms)
  u64 nq = 0, ncache = 0, nmodelhit = 0, nsat = 0, nunsat = 0, nunk = 0, next_ = 0; double tsolve = 0, tmax = 0;
  typedef ExprMgr::Model Model;
  struct Res { int r; std::vector<std::pair<uint32_t, u64>> m; };
  struct VH { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003 ^ x; return h; } };
  std::unordered_map<std::vector<uint32_t>, Res, VH> cache;
  std::deque<Model> recent;
  std::string lastErr; std::string dumpDir;
  int ndump = 0;

  static void onerr(Z3_context, Z3_error_code) {}
  explicit Solver(ExprMgr& m) : M(m) {
    Z3_config cfg = Z3_mk_config(); c = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(c, onerr);
    fp64 = Z3_mk_fpa_sort_double(c); ref((Z3_ast)fp64); fp32 = Z3_mk_fpa_sort_single(c); ref((Z3_ast)fp32);
    bool_s = Z3_mk_bool_sort(c); ref((Z3_ast)bool_s); int_s = Z3_mk_int_sort(c); ref((Z3_ast)int_s); real_s = Z3_mk_real_sort(c); ref((Z3_ast)real_s);
    rne = ref(Z3_mk_fpa_rne(c)); rna = ref(Z3_mk_fpa_rna(c)); rtp = ref(Z3_mk_fpa_rtp(c)); rtn = ref(Z3_mk_fpa_rtn(c)); rtz = ref(Z3_mk_fpa_rtz(c));
  }
  Z3_ast ref(Z3_ast a) {
    if (!a || Z3_get_error_code(c) != Z3_OK) { std::string e = Z3_get_error_msg(c, Z3_get_error_code(c)); throw Unsupported("z3: " + e); }
    Z3_inc_ref(c, a); return a; }
  Z3_solver mkTac(const char* t) { Z3_tactic ta = Z3_mk_tactic(c, t); Z3_tactic_inc_ref(c, ta); Z3_solver s = Z3_mk_solver_from_tactic(c, ta); Z3_solver_inc_ref(c, s); return s; }
  void setTimeout(Z3_solver s, unsigned ms) { Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), ms); Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p); }

  // ------------------------------------------------------------ bit-vector / IEEE lowering
  static unsigned bitsU(u64 x) { return x ? 64 - __builtin_clzll(x) : 1; }
  unsigned ubits(Expr* e) { if (e->w <= 64) return std::min<unsigned>(e->w, bitsU(e->uhi)); if (e->op == OZExt) return ubits(e->k[0]); if (e->op == OConst) { u64 h = (u64)(e->c >> 64); return h ? 64 + bitsU(h) : bitsU((u64)e->c); } return e->w; }
  static unsigned bitsS(i64 lo, i64 hi) { unsigned a = lo < 0 ? bitsU(~(u64)lo) + 1 : 1, b = hi >= 0 ? bitsU((u64)hi) + 1 : 1; return std::max(a, b); }
  unsigned sbits(Expr* e) { if (e->w <= 64) return std::min<unsigned>(e->w, bitsS(e->slo, e->shi)); if (e->op == OSExt) return sbits(e->k[0]); if (e->op == OZExt) return ubits(e->k[0]) + 1; return e->w; }
  Z3_ast num(u128 v, unsigned w) {
    if (w <= 64) { return Z3_mk_unsigned_int64(c, (u64)v, Z3_mk_bv_sort(c, w)); }
    char buf[60]; int n = 0; char t[60]; if (!v) t[n++] = '0'; while (v) { t[n++] = '0' + (int)(v % 10); v /= 10; } for (int i = 0; i < n; i++) buf[i] = t[n - 1 - i]; buf[n] = 0;
    return Z3_mk_numeral(c, buf, Z3_mk_bv_sort(c, w)); }
  std::vector<Z3_ast> varAst, varCon; std::vector<unsigned> varBits; // indexed by variable
  Z3_ast varBV(Expr* e) {
    uint32_t vi = e->aux; if (varAst.size() <= vi) { varAst.resize(vi + 1); varCon.resize(vi + 1); varBits.resize(vi + 1); }
    auto& I = M.vars[vi];
    if (!varAst[vi]) {
      unsigned k = I.w;
      if (I.ranged) k = std::min<unsigned>(I.w, I.sgn ? bitsS(I.lo, I.hi) : bitsU((u64)I.hi));
      Z3_ast v = ref(Z3_mk_const(c, Z3_mk_string_symbol(c, ("v" + std::to_string(vi)).c_str()), Z3_mk_bv_sort(c, k)));
      varAst[vi] = v; varBits[vi] = k;
      if (I.ranged) {
        Z3_ast lo = num((u128)(i128)I.lo & maskw(k), k), hi = num((u128)(i128)I.hi & maskw(k), k); Z3_ast a[2];
        if (I.sgn) { a[0] = Z3_mk_bvsle(c, lo, v); a[1] = Z3_mk_bvsle(c, v, hi); } else { a[0] = Z3_mk_bvule(c, lo, v); a[1] = Z3_mk_bvule(c, v, hi); }
        varCon[vi] = ref(Z3_mk_and(c, 2, a));
      }
    }
    unsigned k = varBits[vi];
    if (k == I.w) return varAst[vi];
    return I.sgn ? Z3_mk_sign_ext(c, I.w - k, varAst[vi]) : Z3_mk_zero_ext(c, I.w - k, varAst[vi]);
  }
  Z3_ast toBV(Expr* e) { if (!e->zbv) e->zbv = ref(toBV1(e)); return (Z3_ast)e->zbv; }
  Z3_ast toBool(Expr* e) { if (!e->zbool) e->zbool = ref(toBool1(e)); return (Z3_ast)e->zbool; }
  Z3_ast toFP(Expr* e) { if (!e->zfp) e->zfp = ref(toFP1(e)); return (Z3_ast)e->zfp; }
  Z3_ast lowBits(Z3_ast a, unsigned w, unsigned k) { return k >= w ? a : Z3_mk_extract(c, k - 1, 0, a); }
  Z3_ast toBV1(Expr* e) {
    unsigned w = e->w;
    if (w == 1 && e->op != OVar && e->op != OConst) return Z3_mk_ite(c, toBool(e), num(1, 1), num(0, 1));
    Expr *a = e->k[0], *b = e->k[1];
    switch (e->op) {
      case OConst: return num(e->c, w);
      case OVar: return varBV(e);
      case OAdd: return Z3_mk_bvadd(c, toBV(a), toBV(b));
      case OSub: return Z3_mk_bvsub(c, toBV(a), toBV(b));
      case OMul: {
        unsigned ku = ubits(a) + ubits(b), ks = sbits(a) + sbits(b);
        if (ku <= ks && ku < w) return Z3_mk_zero_ext(c, w - ku, Z3_mk_bvmul(c, lowBits(toBV(a), w, ku), lowBits(toBV(b), w, ku)));
        if (ks < w) return Z3_mk_sign_ext(c, w - ks, Z3_mk_bvmul(c, lowBits(toBV(a), w, ks), lowBits(toBV(b), w, ks)));
        return Z3_mk_bvmul(c, toBV(a), toBV(b)); }
      case OUDiv: case OURem: {
        unsigned k = std::max(ubits(a), ubits(b));
        bool nz = w <= 64 && b->ulo > 0;
        if (k < w) { Z3_ast x = lowBits(toBV(a), w, k), y = lowBits(toBV(b), w, k); Z3_ast r = Z3_mk_zero_ext(c, w - k, e->op == OUDiv ? Z3_mk_bvudiv(c, x, y) : Z3_mk_bvurem(c, x, y)); if (nz) return r; return Z3_mk_ite(c, Z3_mk_eq(c, y, num(0, k)), e->op == OUDiv ? num(maskw(w), w) : toBV(a), r); }
        return e->op == OUDiv ? Z3_mk_bvudiv(c, toBV(a), toBV(b)) : Z3_mk_bvurem(c, toBV(a), toBV(b)); }
      case OSDiv: case OSRem: {
        unsigned k = std::max(sbits(a), sbits(b)) + 1;
        bool nz = w <= 64 && (b->slo > 0 || b->shi < 0);
        if (k < w) { Z3_ast x = lowBits(toBV(a), w, k), y = lowBits(toBV(b), w, k); Z3_ast r = Z3_mk_sign_ext(c, w - k, e->op == OSDiv ? Z3_mk_bvsdiv(c, x, y) : Z3_mk_bvsrem(c, x, y)); if (nz) return r; return Z3_mk_ite(c, Z3_mk_eq(c, y, num(0, k)), e->op == OSDiv ? Z3_mk_ite(c, Z3_mk_bvslt(c, x, num(0, k)), num(1, w), num(maskw(w), w)) : toBV(a), r); }
        return e->op == OSDiv ? Z3_mk_bvsdiv(c, toBV(a), toBV(b)) : Z3_mk_bvsrem(c, toBV(a), toBV(b)); }
      case OAnd: return Z3_mk_bvand(c, toBV(a), toBV(b));
      case OOr: return Z3_mk_bvor(c, toBV(a), toBV(b));
      case OXor: return Z3_mk_bvxor(c, toBV(a), toBV(b));
      case OShl: return Z3_mk_bvshl(c, toBV(a), toBV(b));
      case OLShr: return Z3_mk_bvlshr(c, toBV(a), toBV(b));
      case OAShr: return Z3_mk_bvashr(c, toBV(a), toBV(b));
      case OIte: return Z3_mk_ite(c, toBool(a), toBV(b), toBV(e->k[2]));
      case OZExt: return Z3_mk_zero_ext(c, w - a->w, toBV(a));
      case OSExt: return Z3_mk_sign_ext(c, w - a->w, toBV(a));
      case OExtract: return Z3_mk_extract(c, e->aux + w - 1, e->aux, toBV(a));
      case OConcat: return Z3_mk_concat(c, toBV(a), toBV(b));
      case OFNeg: return Z3_mk_bvxor(c, toBV(a), num((u128)1 << (w - 1), w));
      case OFAbs: return Z3_mk_bvand(c, toBV(a), num(maskw(w) >> 1, w));
      case OFPToSI: return Z3_mk_fpa_to_sbv(c, rtz, toFP(a), w);
      case OFPToUI: return Z3_mk_fpa_to_ubv(c, rtz, toFP(a), w);
      default: return Z3_mk_fpa_to_ieee_bv(c, toFP(e));
    }
  }
  Z3_sort fps(unsigned w) { if (w == 64) return fp64; if (w == 32) return fp32; throw Unsupported("fp sort"); }
  Z3_ast toFP1(Expr* e) {
    unsigned w = e->w; Expr *a = e->k[0], *b = e->k[1];
    switch (e->op) {
      case OFAdd: return Z3_mk_fpa_add(c, rne, toFP(a), toFP(b));
      case OFSub: return Z3_mk_fpa_sub(c, rne, toFP(a), toFP(b));
      case OFMul: return Z3_mk_fpa_mul(c, rne, toFP(a), toFP(b));
      case OFDiv: return Z3_mk_fpa_div(c, rne, toFP(a), toFP(b));
      case OFNeg: return Z3_mk_fpa_neg(c, toFP(a));
      case OFAbs: return Z3_mk_fpa_abs(c, toFP(a));
      case OFSqrt: return Z3_mk_fpa_sqrt(c, rne, toFP(a));
      case OFRound: return Z3_mk_fpa_round_to_integral(c, e->aux == 0 ? rne : e->aux == 1 ? rna : e->aux == 2 ? rtp : e->aux == 3 ? rtn : rtz, toFP(a));
      case OFCvt: return Z3_mk_fpa_to_fp_float(c, rne, toFP(a), fps(w));
      case OSIToFP: return Z3_mk_fpa_to_fp_signed(c, rne, toBV(a), fps(w));
      case OUIToFP: return Z3_mk_fpa_to_fp_unsigned(c, rne, toBV(a), fps(w));
      case OFInt: { unsigned k = std::min(64u, sbits(a)); Z3_ast v = Z3_mk_fpa_to_fp_signed(c, rne, lowBits(toBV(a), 64, k), fp64);
        if (e->aux == 0) return v; return Z3_mk_fpa_mul(c, rne, v, Z3_mk_fpa_to_fp_bv(c, num(dBits(std::ldexp(1.0, -(int)e->aux)), 64), fp64)); }
      case OIte: return Z3_mk_ite(c, toBool(a), toFP(b), toFP(e->k[2]));
      default: return Z3_mk_fpa_to_fp_bv(c, toBV(e), fps(w));
    }
  }
  Z3_ast toBool1(Expr* e) {
    Expr *a = e->k[0], *b = e->k[1]; Z3_ast t[2];
    switch (e->op) {
      case OConst: return e->c ? Z3_mk_true(c) : Z3_mk_false(c);
      case OEq: return Z3_mk_eq(c, toBV(a), toBV(b));
      case OUlt: return Z3_mk_bvult(c, toBV(a), toBV(b));
      case OUle: return Z3_mk_bvule(c, toBV(a), toBV(b));
      case OSlt: return Z3_mk_bvslt(c, toBV(a), toBV(b));
      case OSle: return Z3_mk_bvsle(c, toBV(a), toBV(b));
      case OAnd: t[0] = toBool(a); t[1] = toBool(b); return Z3_mk_and(c, 2, t);
      case OOr: t[0] = toBool(a); t[1] = toBool(b); return Z3_mk_or(c, 2, t);
      case OXor: return Z3_mk_xor(c, toBool(a), toBool(b));
      case OIte: return Z3_mk_ite(c, toBool(a), toBool(b), toBool(e->k[2]));
      case OFEq: return Z3_mk_fpa_eq(c, toFP(a), toFP(b));
      case OFLt: return Z3_mk_fpa_lt(c, toFP(a), toFP(b));
      case OFLe: return Z3_mk_fpa_leq(c, toFP(a), toFP(b));
      case OFUno: t[0] = Z3_mk_fpa_is_nan(c, toFP(a)); t[1] = Z3_mk_fpa_is_nan(c, toFP(b)); return Z3_mk_or(c, 2, t);
      case OVar: case OExtract: return Z3_mk_eq(c, e->op == OVar ? toBV(e) : Z3_mk_extract(c, e->aux, e->aux, toBV(a)), num(1, 1));
      default: throw Unsupported("bool op " + std::to_string(e->op));
    }
  }

  // ------------------------------------------------------------ exact integer / real lowering
  Z3_ast inum(i128 v) { char buf[60]; int n = 0; bool neg = v < 0; u128 u = neg ? (u128)0 - (u128)v : (u128)v; char t[60]; if (!u) t[n++] = '0'; while (u) { t[n++] = '0' + (int)(u % 10); u /= 10; } if (neg) t[n++] = '-';
    for (int i = 0; i < n; i++) buf[i] = t[n - 1 - i]; buf[n] = 0; return Z3_mk_numeral(c, buf, int_s); }
  Z3_ast two(unsigned w) { return inum((i128)1 << w); }
  Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return Z3_mk_add(c, 2, t); }
  Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return Z3_mk_sub(c, 2, t); }
  Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast t[2] = {a, b}; return Z3_mk_mul(c, 2, t); }
  std::vector<Z3_ast> ivar, rvar, icon; // per variable
  std::vector<Z3_ast> sideCon; std::map<Expr*, std::vector<Z3_ast>> sideOf; // definitional axioms (sqrt)
  Z3_ast varInt(Expr* e) { uint32_t vi = e->aux; if (ivar.size() <= vi) { ivar.resize(vi + 1); icon.resize(vi + 1); }
    auto& I = M.vars[vi];
    if (!ivar[vi]) { if (I.w > 64) throw Unsupported("wide int var"); Z3_ast v = ref(Z3_mk_const(c, Z3_mk_string_symbol(c, ("i" + std::to_string(vi)).c_str()), int_s)); ivar[vi] = v;
      Z3_ast lo, hi; if (I.ranged) { lo = I.sgn ? inum(I.lo) : inum((u64)I.lo); hi = I.sgn ? inum(I.hi) : inum((u64)I.hi); } else { lo = inum(0); hi = inum((i128)(u64)umaxw(I.w)); }
      Z3_ast t[2] = {Z3_mk_le(c, lo, v), Z3_mk_le(c, v, hi)}; icon[vi] = ref(Z3_mk_and(c, 2, t)); }
    return ivar[vi]; }
  Z3_ast wrapU(Z3_ast x, unsigned w) { return Z3_mk_mod(c, x, two(w)); }
  Z3_ast u2s(Expr* e, Z3_ast u) { if (e->slo >= 0 && e->w <= 64) return u; return Z3_mk_ite(c, Z3_mk_ge(c, u, two(e->w - 1)), sub(u, two(e->w)), u); }
  Z3_ast s2u(Expr* e, Z3_ast s) { if (e->slo >= 0 && e->w <= 64) return s; return Z3_mk_ite(c, Z3_mk_lt(c, s, inum(0)), add(s, two(e->w)), s); }
  Z3_ast toSI(Expr* e) { if (!e->zsi) { e->zsi = ref(toSI1(e)); } return (Z3_ast)e->zsi; }
  Z3_ast toUI(Expr* e) { if (!e->zui) { e->zui = ref(toUI1(e)); } return (Z3_ast)e->zui; }
  Z3_ast toR(Expr* e) { if (!e->zre) e->zre = ref(toR1(e)); return (Z3_ast)e->zre; }
  Z3_ast toIB(Expr* e) { if (!e->zib) e->zib = ref(toIB1(e)); return (Z3_ast)e->zib; }
  bool isWSgn(Expr* e) { return e->w > 64 ? false : (e->slo < 0); }
  // canonical interpretation: "s" when the signed range is informative
  Z3_ast arith(Expr* e, bool sgn) { // Add/Sub/Mul
    Expr *a = e->k[0], *b = e->k[1]; if (e->w > 64) throw Unsupported("wide arith");
    auto exact = [&](bool s) { i128 al = s ? (i128)a->slo : (i128)a->ulo, ah = s ? (i128)a->shi : (i128)a->uhi, bl = s ? (i128)b->slo : (i128)b->ulo, bh = s ? (i128)b->shi : (i128)b->uhi; i128 lo, hi;
      if (e->op == OAdd) { lo = al + bl; hi = ah + bh; } else if (e->op == OSub) { lo = al - bh; hi = ah - bl; }
      else { if (!s && (ah >> 63) && (bh >> 63)) return false; i128 p[4] = {al * bl, al * bh, ah * bl, ah * bh}; lo = hi = p[0]; for (auto x : p) { lo = std::min(lo, x); hi = std::max(hi, x); } }
      return s ? (lo >= sminw(e->w) && hi <= smaxw(e->w)) : (lo >= 0 && hi <= (i128)(u64)umaxw(e->w)); };
    auto op = [&](Z3_ast x, Z3_ast y) { return e->op == OAdd ? add(x, y) : e->op == OSub ? sub(x, y) : mul(x, y); };
    if (exact(true)) { Z3_ast r = op(toSI(a), toSI(b)); return sgn ? r : s2u(e, r); }
    if (exact(false)) { Z3_ast r = op(toUI(a), toUI(b)); return sgn ? u2s(e, r) : r; }
    Z3_ast r = op(toSI(a), toSI(b)); Z3_ast u = wrapU(r, e->w); return sgn ? u2s(e, u) : u;
  }
  Z3_ast toSI1(Expr* e) {
    Expr *a = e->k[0], *b = e->k[1];
    switch (e->op) {
      case OConst: return inum(sx(e->c, e->w));
      case OVar: { auto& I = M.vars[e->aux]; if (I.ranged && I.sgn) return varInt(e); return u2s(e, varInt(e)); }
      case OAdd: case OSub: case OMul: return arith(e, true);
      case OSDiv: { Z3_ast x = toSI(a), y = toSI(b); // truncating
        Z3_ast ax = Z3_mk_ite(c, Z3_mk_lt(c, x, inum(0)), Z3_mk_unary_minus(c, x), x), ay = Z3_mk_ite(c, Z3_mk_lt(c, y, inum(0)), Z3_mk_unary_minus(c, y), y); Z3_ast q = Z3_mk_div(c, ax, ay);
        return Z3_mk_ite(c, Z3_mk_eq(c, Z3_mk_lt(c, x, inum(0)), Z3_mk_lt(c, y, inum(0))), q, Z3_mk_unary_minus(c, q)); }
      case OSRem: { Z3_ast x = toSI(a), y = toSI(b); Z3_ast ax = Z3_mk_ite(c, Z3_mk_lt(c, x, inum(0)), Z3_mk_unary_minus(c, x), x), ay = Z3_mk_ite(c, Z3_mk_lt(c, y, inum(0)), Z3_mk_unary_minus(c, y), y); Z3_ast r = Z3_mk_mod(c, ax, ay);
        return Z3_mk_ite(c, Z3_mk_lt(c, x, inum(0)), Z3_mk_unary_minus(c, r), r); }
      case OIte: return Z3_mk_ite(c, toIB(a), toSI(b), toSI(e->k[2]));
      case OSExt: return toSI(a);
      case OAShr: if (M.isC(b) && b->c < e->w && e->w <= 64) return Z3_mk_div(c, toSI(a), two((unsigned)b->c)); throw Unsupported("int lowering shift");
      case OFPToSI: { Z3_ast x = toR(a); Z3_ast z = Z3_mk_numeral(c, "0", real_s); return Z3_mk_ite(c, Z3_mk_ge(c, x, z), Z3_mk_real2int(c, x), Z3_mk_unary_minus(c, Z3_mk_real2int(c, Z3_mk_unary_minus(c, x)))); }
      default: return u2s(e, toUI(e));
    }
  }
  unsigned lowZeros(Expr* e) { // trailing zero bits known from the shape (63 at most)
    if (e->op == OShl && M.isC(e->k[1])) return std::min<unsigned>(63, (unsigned)e->k[1]->c + lowZeros(e->k[0])); if (e->op == OConcat) { if (M.isC(e->k[1], 0)) return std::min<unsigned>(63, e->k[1]->w + lowZeros(e->k[0])); return 0; }
    if (e->op == OZExt || e->op == OSExt) return lowZeros(e->k[0]); if (e->op == OOr || e->op == OAdd) return std::min(lowZeros(e->k[0]), lowZeros(e->k[1])); if (e->op == OIte) return std::min(lowZeros(e->k[1]), lowZeros(e->k[2])); if (e->op == OMul && M.isC(e->k[1]) && e->k[1]->c) return std::min<unsigned>(63, __builtin_ctzll((u64)e->k[1]->c | (1ull << 63)));
    if (e->op == OConst && e->w <= 64) return e->c ? std::min<unsigned>(63, __builtin_ctzll((u64)e->c)) : 63; return 0; }
  Z3_ast toUI1(Expr* e) {
    Expr *a = e->k[0], *b = e->k[1];
    if (e->w == 1 && e->op != OConst && e->op != OVar && e->op != OExtract) return Z3_mk_ite(c, toIB(e), inum(1), inum(0));
    switch (e->op) {
      case OConst: return inum((i128)e->c);
      case OVar: { auto& I = M.vars[e->aux]; if (I.ranged && I.sgn) return s2u(e, varInt(e)); return varInt(e); }
      case OAdd: case OSub: case OMul: return arith(e, false);
      case OUDiv: return Z3_mk_div(c, toUI(a), toUI(b));
      case OURem: return Z3_mk_mod(c, toUI(a), toUI(b));
      case OIte: return Z3_mk_ite(c, toIB(a), toUI(b), toUI(e->k[2]));
      case OZExt: return toUI(a);
      case OExtract: { Z3_ast x = toUI(a); if (e->aux) x = Z3_mk_div(c, x, two(e->aux)); return wrapU(x, e->w); }
      case OConcat: return add(mul(toUI(a), two(b->w)), toUI(b));
      case OLShr: if (M.isC(b) && b->c < e->w && e->w <= 64) return Z3_mk_div(c, toUI(a), two((unsigned)b->c)); throw Unsupported("int lowering shift");
      case OShl: if (M.isC(b) && b->c < e->w && e->w <= 64) { Z3_ast r = mul(toUI(a), two((unsigned)b->c)); return (u128)a->uhi <= (umaxw(e->w) >> (unsigned)b->c) ? r : wrapU(r, e->w); } throw Unsupported("int lowering shift");
      case OAShr: return s2u(e, toSI(e));
      case OOr: if (e->w <= 64 && ((a->uhi >> lowZeros(b)) == 0 || (b->uhi >> lowZeros(a)) == 0)) return add(toUI(a), toUI(b)); throw Unsupported("int lowering or");
      case OAnd: if (e->w <= 64 && M.isC(b) && ((b->c + 1) & b->c) == 0) { unsigned k = 0; while (k < 64 && ((u64)b->c >> k)) k++; return wrapU(toUI(a), k); } throw Unsupported("int lowering and");
      case OFPToUI: return Z3_mk_real2int(c, toR(a));
      case OSDiv: case OSRem: case OSExt: case OFPToSI: return s2u(e, toSI(e));
      default: if (getenv("VP_DBG")) fprintf(stderr, "lower w=%u a=%d/%d b=%d/%d\n", e->w, a->op, a->w, b?b->op:-1, b?b->w:0); throw Unsupported("int lowering op " + std::to_string(e->op));
    }
  }
  std::vector<Z3_func_decl> ufd = std::vector<Z3_func_decl>(64, nullptr);
  Z3_ast rvarOf(Expr* e) { uint32_t vi = e->aux; if (rvar.size() <= vi) rvar.resize(vi + 1); if (!rvar[vi]) rvar[vi] = ref(Z3_mk_const(c, Z3_mk_string_symbol(c, ("r" + std::to_string(vi)).c_str()), real_s)); return rvar[vi]; }
  Z3_ast som(Z3_ast a) { Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_bool(c, p, Z3_mk_string_symbol(c, "som"), true); Z3_params_set_bool(c, p, Z3_mk_string_symbol(c, "sort_sums"), true); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "som_blowup"), 100000);
    Z3_ast r = Z3_simplify_ex(c, a, p); Z3_params_dec_ref(c, p); return r; }
  Z3_ast dnum(double d) { if (!std::isfinite(d)) throw Unsupported("non-finite constant in real mode"); Z3_ast f = Z3_mk_fpa_to_real(c, Z3_mk_fpa_numeral_double(c, d, fp64)); Z3_inc_ref(c, f); return Z3_simplify(c, f); }
  Z3_ast toR1(Expr* e) {
    Expr *a = e->k[0], *b = e->k[1]; Z3_ast t[2];
    switch (e->op) {
      case OConst: if (e->w == 64) return dnum(bitsD((u64)e->c)); if (e->w == 32) return dnum(bitsF((uint32_t)e->c)); throw Unsupported("real const");
      case OVar: return rvarOf(e);
      case OFAdd: t[0] = toR(a); t[1] = toR(b); return Z3_mk_add(c, 2, t);
      case OFSub: t[0] = toR(a); t[1] = toR(b); return Z3_mk_sub(c, 2, t);
      case OFMul: t[0] = toR(a); t[1] = toR(b); return Z3_mk_mul(c, 2, t);
      case OFDiv: return Z3_mk_div(c, toR(a), toR(b));
      case OFNeg: return Z3_mk_unary_minus(c, toR(a));
      case OFAbs: { Z3_ast x = toR(a); return Z3_mk_ite(c, Z3_mk_ge(c, x, Z3_mk_numeral(c, "0", real_s)), x, Z3_mk_unary_minus(c, x)); }
      case OFSqrt: { Z3_ast x = som(toR(a)); ref(x); if (!ufd[0]) { ufd[0] = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, "sqrt"), 1, &real_s, real_s); Z3_inc_ref(c, (Z3_ast)ufd[0]); }
        Z3_ast r = ref(Z3_mk_app(c, ufd[0], 1, &x)); Z3_ast z = Z3_mk_numeral(c, "0", real_s); t[0] = r; t[1] = r; Z3_ast rr = Z3_mk_mul(c, 2, t);
        t[0] = Z3_mk_ge(c, r, z); t[1] = Z3_mk_eq(c, rr, x); Z3_ast ax; if (ExprMgr::nonNegR(a)) { Z3_ast t3[3] = {t[0], t[1], Z3_mk_ge(c, x, z)}; ax = Z3_mk_and(c, 3, t3); } else ax = Z3_mk_implies(c, Z3_mk_ge(c, x, z), Z3_mk_and(c, 2, t)); sideOf[e].push_back(ref(ax)); return r; }
      case OFUF: { unsigned n = b ? 2 : 1; if (!ufd[e->aux]) { Z3_sort s[2] = {real_s, real_s}; ufd[e->aux] = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, ("uf" + std::to_string(e->aux)).c_str()), n, s, real_s); Z3_inc_ref(c, (Z3_ast)ufd[e->aux]); }
        t[0] = ref(som(toR(a))); if (b) t[1] = ref(som(toR(b))); return Z3_mk_app(c, ufd[e->aux], n, t); }
      case OFRound: { Z3_ast x = toR(a); switch (e->aux) { case 3: return Z3_mk_int2real(c, Z3_mk_real2int(c, x)); case 2: return Z3_mk_unary_minus(c, Z3_mk_int2real(c, Z3_mk_real2int(c, Z3_mk_unary_minus(c, x))));
          case 1: { Z3_ast h = Z3_mk_numeral(c, "1/2", real_s), z = Z3_mk_numeral(c, "0", real_s); t[0] = x; t[1] = h; Z3_ast p = Z3_mk_int2real(c, Z3_mk_real2int(c, Z3_mk_add(c, 2, t))); t[0] = Z3_mk_unary_minus(c, x); Z3_ast q = Z3_mk_unary_minus(c, Z3_mk_int2real(c, Z3_mk_real2int(c, Z3_mk_add(c, 2, t)))); return Z3_mk_ite(c, Z3_mk_ge(c, x, z), p, q); }
          default: throw Unsupported("round mode in real mode"); } }
      case OFCvt: return toR(a);
      case OSIToFP: return Z3_mk_int2real(c, toSI(a));
      case OUIToFP: return Z3_mk_int2real(c, toUI(a));
      case OFInt: { Z3_ast x = Z3_mk_int2real(c, toSI(a)); if (e->aux == 0) return x; return Z3_mk_div(c, x, Z3_mk_int2real(c, two(e->aux))); }
      case OIte: return Z3_mk_ite(c, toIB(a), toR(b), toR(e->k[2]));
      default: throw Unsupported("real lowering op " + std::to_string(e->op));
    }
  }
  int infSign(Expr* e) { if (e->op != OConst) return 0; double d = e->w == 64 ? bitsD((u64)e->c) : bitsF((uint32_t)e->c); return std::isinf(d) ? (d > 0 ? 1 : -1) : std::isnan(d) ? 2 : 0; }
  Z3_ast toIB1(Expr* e) {
    Expr *a = e->k[0], *b = e->k[1]; Z3_ast t[2];
    auto isF = [](Expr* x) { return x->op >= OFAdd && x->op <= OUIToFP; };
    switch (e->op) {
      case OConst: return e->c ? Z3_mk_true(c) : Z3_mk_false(c);
      case OVar: return Z3_mk_eq(c, varInt(e), inum(1));
      case OEq: if (isF(a) || isF(b)) return Z3_mk_eq(c, toR(a), toR(b)); if (a->w <= 64 && (a->slo < 0 || b->slo < 0) && (a->shi < smaxw(a->w) || b->shi < smaxw(b->w))) return Z3_mk_eq(c, toSI(a), toSI(b)); return Z3_mk_eq(c, toUI(a), toUI(b));
      case OUlt: return Z3_mk_lt(c, toUI(a), toUI(b));
      case OUle: return Z3_mk_le(c, toUI(a), toUI(b));
      case OSlt: return Z3_mk_lt(c, toSI(a), toSI(b));
      case OSle: return Z3_mk_le(c, toSI(a), toSI(b));
      case OAnd: t[0] = toIB(a); t[1] = toIB(b); return Z3_mk_and(c, 2, t);
      case OOr: t[0] = toIB(a); t[1] = toIB(b); return Z3_mk_or(c, 2, t);
      case OXor: return Z3_mk_xor(c, toIB(a), toIB(b));
      case OIte: return Z3_mk_ite(c, toIB(a), toIB(b), toIB(e->k[2]));
      case OFEq: case OFLt: case OFLe: {
        int ia = infSign(a), ib = infSign(b);
        if (ia || ib) { if (ia == 2 || ib == 2) return Z3_mk_false(c); bool r = e->op == OFEq ? ia == ib : e->op == OFLt ? ia < ib : ia <= ib; return r ? Z3_mk_true(c) : Z3_mk_false(c); }
        Z3_ast x = toR(a), y = toR(b); return e->op == OFEq ? Z3_mk_eq(c, x, y) : e->op == OFLt ? Z3_mk_lt(c, x, y) : Z3_mk_le(c, x, y); }
      case OFUno: return (infSign(a) == 2 || infSign(b) == 2) ? Z3_mk_true(c) : Z3_mk_false(c);
      case OExtract: return Z3_mk_eq(c, toUI(e), inum(1));
      default: throw Unsupported("int bool op " + std::to_string(e->op));
    }
  }
  void collectSide(Expr* e, std::unordered_set<Expr*>& seen, std::vector<Z3_ast>& out) {
    if (!e || !seen.insert(e).second) return; auto it = sideOf.find(e); if (it != sideOf.end()) for (auto a : it->second) out.push_back(a); for (int i = 0; i < 3; i++) collectSide(e->k[i], seen, out); }

  static bool hasFP(Expr* e, std::unordered_set<Expr*>& seen) { if (!e || !seen.insert(e).second) return false; if (e->op >= OFAdd) return true; for (int i = 0; i < 3; i++) if (hasFP(e->k[i], seen)) return true; return false; }
  static bool hasSymMul(Expr* e, std::unordered_set<Expr*>& seen) { if (!e || !seen.insert(e).second) return false; if ((e->op == OMul || e->op == OUDiv || e->op == OURem || e->op == OSDiv || e->op == OSRem) && e->k[1]->op != OConst) return true; for (int i = 0; i < 3; i++) if (hasSymMul(e->k[i], seen)) return true; return false; }

  // ------------------------------------------------------------ queries: 1 sat, 0 unsat, -1 unknown
  int check(const std::vector<Expr*>& cons, Expr* extra, const Model* base, Model* out, bool allVars = false) {
    std::vector<Expr*> q; // slice
    {
      std::vector<char> used(cons.size(), 0); const VarVec* vs = extra->vars; if (extra->op != OConst) q.push_back(extra); else if (!extra->c) return 0;
      if (allVars) { for (auto x : cons) q.push_back(x); }
      else for (bool ch = true; ch;) { ch = false;
        for (size_t i = 0; i < cons.size(); i++) if (!used[i]) { auto& cv = *cons[i]->vars; bool hit = cv.empty(); if (!hit) { auto p = cv.begin(); auto r = vs->begin(); while (p != cv.end() && r != vs->end()) { if (*p == *r) { hit = true; break; } if (*p < *r) ++p; else ++r; } }
          if (hit) { used[i] = 1; q.push_back(cons[i]); const VarVec* nv = M.uni(vs, cons[i]->vars); if (nv != vs) { vs = nv; ch = true; } } } }
    }
    std::vector<uint32_t> key; for (auto x : q) key.push_back(x->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it != cache.end()) { ncache++; if (it->second.r == 1 && out) apply(base, it->second.m, *out); return it->second.r; }
    std::vector<uint32_t> vs; { const VarVec* u = M.emptyVars; for (auto x : q) u = M.uni(u, x->vars); vs = *u; }
    if (!real && out) for (auto& m : recent) { bool ok = true; for (auto x : q) if (!M.ev(x, m)) { ok = false; break; }
      if (ok) { nmodelhit++; Res r{1, {}}; for (auto v : vs) r.m.push_back({v, M.modelVal(m, v)}); apply(base, r.m, *out); cache[key] = r; return 1; } }
    double t0 = nowS(); nq++;
    Res r; r.r = -1;
    try { r = solve(q, vs); } catch (Unsupported& u) { lastErr = u.what(); r.r = -1; }
    double dt = nowS() - t0; tsolve += dt; if (dt > tmax) tmax = dt;
    if (r.r == 1) nsat++; else if (r.r == 0) nunsat++; else nunk++;
    if (r.r == -1 && !dumpDir.empty()) dump(q, vs);
    if (r.r == 1) { Model m; m.v.resize(M.vars.size()); for (size_t i = 0; i < M.vars.size(); i++) m.v[i] = M.modelVal(base ? *base : Model{}, i); for (auto& p : r.m) m.v[p.first] = p.second; m.stamp = M.nextStamp++;
      if (!real) { for (auto x : q) if (!M.ev(x, m)) { lastErr = "solver model does not satisfy the query under host evaluation"; nunk++; if (getenv("VP_DEBUG")) { fprintf(stderr, "MISMATCH op %d\n%s\n", x->op, Z3_ast_to_string(c, toBool(x))); for (auto v : vs) fprintf(stderr, "v%u=%llx\n", v, (unsigned long long)m.v[v]); } cache[key] = Res{-1, {}}; return -1; }
        recent.push_front(m); if (recent.size() > 12) recent.pop_back(); }
      if (out) *out = m; }
    cache[key] = r; return r.r;
  }
  void apply(const Model* base, const std::vector<std::pair<uint32_t, u64>>& m, Model& out) {
    Model r; if (base) r.v = base->v; for (auto& p : m) { if (r.v.size() <= p.first) { size_t o = r.v.size(); r.v.resize(p.first + 1); for (size_t i = o; i < r.v.size(); i++) r.v[i] = M.modelVal(Model{}, i); } r.v[p.first] = p.second; }
    r.stamp = M.nextStamp++; out = r; }
  void dump(const std::vector<Expr*>& q, const std::vector<uint32_t>& vs) { try { Z3_solver s = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, s); if (real) assertArith(s, q, vs); else assertBV(s, q, vs); std::string f = dumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(ndump++) + ".smt2"; FILE* o = fopen(f.c_str(), "w"); if (o) { fprintf(o, "%s(check-sat)\n", Z3_solver_to_string(c, s)); fclose(o); } Z3_solver_dec_ref(c, s); } catch (...) {} }
  void assertBV(Z3_solver s, const std::vector<Expr*>& q, const std::vector<uint32_t>& vs) {
    for (auto x : q) Z3_solver_assert(c, s, toBool(x));
    for (auto v : vs) { varBV(M.vars[v].e); if (varCon[v]) Z3_solver_assert(c, s, varCon[v]); } }
  void assertArith(Z3_solver s, const std::vector<Expr*>& q, const std::vector<uint32_t>& vs) {
    std::unordered_set<Expr*> seen; std::vector<Z3_ast> side;
    for (auto x : q) { Z3_solver_assert(c, s, toIB(x)); collectSide(x, seen, side); }
    std::set<Z3_ast> ss(side.begin(), side.end()); for (auto a : ss) Z3_solver_assert(c, s, a);
    for (auto v : vs) if (v < icon.size() && icon[v]) Z3_solver_assert(c, s, icon[v]); }
  // ------------------------------------------------------------ range narrowing
  // Bounds that the conjuncts of a query put on single variables become the ranges of fresh copies of those
  // variables; rebuilding the conjuncts over the copies lets the simplifier use them. Equivalent by construction.
  std::map<std::tuple<uint32_t, i64, i64>, Expr*> narrowVar;
  struct Bnd { i128 lo, hi; };
  bool affine(Expr* e, Expr*& v, i128& k, i128& d) { // e == k v + d over the integers (signed view), v a variable
    if (e->w > 64) return false;
    if (e->op == OVar) { auto& I = M.vars[e->aux]; if (!(I.sgn || e->slo >= 0)) { if (I.ranged) return false; } v = e; k = 1; d = 0; return true; }
    auto fits = [&](i128 kk, Expr* x, i128 dd) { i128 p = kk * x->slo + dd, q = kk * x->shi + dd; return std::min(p, q) >= sminw(e->w) && std::max(p, q) <= smaxw(e->w); };
    auto sub = [&](Expr* x, i128 kk, i128 dd) { if (kk > ((i128)1 << 40) || kk < -((i128)1 << 40) || !fits(kk, x, dd) || !affine(x, v, k, d)) return false; k *= kk; d = d * kk + dd; return k < ((i128)1 << 50) && k > -((i128)1 << 50); };
    if (e->op == OAdd && e->k[1]->op == OConst) return sub(e->k[0], 1, M.S(e->k[1]));
    if (e->op == OMul && e->k[1]->op == OConst) return sub(e->k[0], M.S(e->k[1]), 0);
    if (e->op == OSub && e->k[0]->op == OConst) return sub(e->k[1], -1, M.S(e->k[0]));
    if (e->op == OSExt) return affine(e->k[0], v, k, d);
    if (e->op == OZExt && e->k[0]->slo >= 0) return affine(e->k[0], v, k, d);
    return false;
  }
  void bound(std::map<Expr*, Bnd>& B, Expr* e, i128 lo, i128 hi) { // lo <= e <= hi, signed
    Expr* v; i128 k, d; if (!affine(e, v, k, d) || !k) return;
    auto fl = [](i128 a, i128 b) { i128 q = a / b; if (a % b && ((a < 0) != (b < 0))) q--; return q; };
    i128 a = lo - d, b = hi - d; if (k < 0) { i128 t = -a; a = -b; b = t; k = -k; } i128 l = -fl(-a, k), h = fl(b, k);
    auto it = B.find(v); if (it == B.end()) it = B.insert({v, Bnd{v->slo, v->shi}}).first;
    it->second.lo = std::max(it->second.lo, l); it->second.hi = std::min(it->second.hi, h); }
  void gather(std::map<Expr*, Bnd>& B, Expr* x, bool pos) {
    Expr *a = x->k[0], *b = x->k[1]; const i128 inf = (i128)1 << 66;
    switch (x->op) {
      case OXor: if (x->w == 1 && M.isC(b, 1)) gather(B, a, !pos); return;
      case OAnd: if (x->w == 1 && pos) { gather(B, a, true); gather(B, b, true); } return;
      case OOr: if (x->w == 1 && !pos) { gather(B, a, false); gather(B, b, false); } return;
      case OVar: if (x->w == 1) bound(B, x, pos ? -1 : 0, pos ? -1 : 0); return;
      case OEq: if (a->w > 64 || a->w == 1) return; if (pos) { if (M.isC(b)) bound(B, a, M.S(b), M.S(b)); }
        else if (M.isC(b)) { if (M.S(b) == a->slo) bound(B, a, M.S(b) + 1, inf); else if (M.S(b) == a->shi) bound(B, a, -inf, M.S(b) - 1); else if (M.S(b) == sminw(a->w)) bound(B, a, M.S(b) + 1, inf); } return;
      case OSlt: case OSle: { if (a->w > 64 || a->w == 1) return; bool st = x->op == OSlt; if (!pos) { std::swap(a, b); st = !st; } if (M.isC(b)) bound(B, a, -inf, M.S(b) - st); else if (M.isC(a)) bound(B, b, M.S(a) + st, inf); return; }
      case OUlt: case OUle: { if (a->w > 64 || a->w == 1) return; bool st = x->op == OUlt; if (!pos) { std::swap(a, b); st = !st; }
        if (M.isC(b) && b->c <= (u128)(u64)smaxw(b->w)) bound(B, a, 0, (i128)b->c - st); else if (M.isC(a) && b->slo >= 0) bound(B, b, (i128)a->c + st, inf); return; }
      default: return;
    } }
  Expr* rebuild(Expr* e, std::unordered_map<Expr*, Expr*>& memo) {
    if (e->op == OConst) return e; auto it = memo.find(e); if (it != memo.end()) return it->second; if (e->op == OVar) return memo[e] = e;
    Expr* k[3]; bool ch = false; for (int i = 0; i < 3; i++) { k[i] = e->k[i] ? rebuild(e->k[i], memo) : nullptr; ch = ch || k[i] != e->k[i]; }
    Expr* r = e; unsigned w = e->w; if (ch) switch (e->op) {
      case OAdd: r = M.Add(k[0], k[1]); break; case OSub: r = M.Sub(k[0], k[1]); break; case OMul: r = M.Mul(k[0], k[1]); break;
      case OUDiv: r = M.UDiv(k[0], k[1]); break; case OSDiv: r = M.SDiv(k[0], k[1]); break; case OURem: r = M.URem(k[0], k[1]); break; case OSRem: r = M.SRem(k[0], k[1]); break;
      case OAnd: r = M.And(k[0], k[1]); break; case OOr: r = M.Or(k[0], k[1]); break; case OXor: r = M.Xor(k[0], k[1]); break; case OShl: r = M.Shl(k[0], k[1]); break; case OLShr: r = M.LShr(k[0], k[1]); break; case OAShr: r = M.AShr(k[0], k[1]); break;
      case OEq: r = M.Eq(k[0], k[1]); break; case OUlt: r = M.Ult(k[0], k[1]); break; case OUle: r = M.Ule(k[0], k[1]); break; case OSlt: r = M.Slt(k[0], k[1]); break; case OSle: r = M.Sle(k[0], k[1]); break;
      case OIte: r = M.Ite(k[0], k[1], k[2]); break; case OZExt: r = M.ZExt(k[0], w); break; case OSExt: r = M.SExt(k[0], w); break; case OExtract: r = M.Extract(k[0], e->aux, w); break; case OConcat: r = M.Concat(k[0], k[1]); break;
      case OFAdd: r = M.FAdd(k[0], k[1]); break; case OFSub: r = M.FSub(k[0], k[1]); break; case OFMul: r = M.FMul(k[0], k[1]); break; case OFDiv: r = M.FDiv(k[0], k[1]); break; case OFRem: r = M.FRem(k[0], k[1]); break;
      case OFNeg: r = M.FNeg(k[0]); break; case OFAbs: r = M.FAbs(k[0]); break; case OFSqrt: r = M.FSqrt(k[0]); break; case OFRound: r = M.FRound(k[0], e->aux); break; case OFCvt: r = M.FCvt(k[0], w); break;
      case OSIToFP: r = M.SIToFP(k[0], w); break; case OUIToFP: r = M.UIToFP(k[0], w); break; case OFPToSI: r = M.FPToSI(k[0], w); break; case OFPToUI: r = M.FPToUI(k[0], w); break;
      case OFEq: case OFLt: case OFLe: case OFUno: r = M.fcmp(e->op, k[0], k[1]); break; case OFInt: r = M.FInt(k[0], (int)e->aux); break;
      default: throw Unsupported("rebuild"); }
    return memo[e] = r; }
  // returns false when nothing changed; orig maps the copies back
  bool narrow(std::vector<Expr*>& q, std::map<uint32_t, uint32_t>& orig, std::map<uint32_t, u64>& fixed) {
    bool any = false;
    for (int round = 0; round < 4; round++) {
      std::map<Expr*, Bnd> B; for (auto x : q) gather(B, x, true);
      std::unordered_map<Expr*, Expr*> memo; bool ch = false;
      for (auto& b : B) { Expr* v = b.first; auto& I = M.vars[v->aux]; if (b.second.lo > b.second.hi) { q = {M.F()}; return true; } i64 lo = (i64)b.second.lo, hi = (i64)b.second.hi; if (lo <= v->slo && hi >= v->shi) continue;
        uint32_t o = v->aux; auto oi = orig.find(o); if (oi != orig.end()) o = oi->second;
        ch = true; fixed[o] = (u64)lo & umaxw(v->w); if (lo == hi) { memo[v] = M.C(v->w, (u128)(i128)lo); continue; }
        Expr*& nv = narrowVar[{o, lo, hi}]; if (!nv) { std::string n = I.name; unsigned w = v->w; nv = M.mkVar(n, w, lo < 0, true, lo, hi, true); }
        orig[nv->aux] = o; memo[v] = nv; }
      if (!ch) break; any = true; std::vector<Expr*> nq; for (auto x : q) { Expr* r = rebuild(x, memo); if (M.isC(r)) { if (!r->c) { q = {M.F()}; return true; } continue; }
          nq.push_back(r); } q = nq; }
    return any; }
  // After an undecided query: decide it on sub-spaces, most inputs fixed to chosen values (substituted, so the rest simplifies). Only "sat" is conclusive.
  u64 rngState = 88172645463325252ull; u64 rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
  bool slices(const std::vector<Expr*>& cons, Expr* goal, const Model* base, Model* out, double budget) {
    double end = nowS() + budget; unsigned t0 = tmo, x0 = tmoExt; tmo = 1200; bool found = false; static const unsigned keep[] = {0, 0, 10, 25, 0, 40, 15, 60};
    for (int round = 0; round < 24 && !found && nowS() < end; round++) try {
      std::vector<Expr*> q = cons; q.push_back(goal); const VarVec* u = M.emptyVars; for (auto x : q) u = M.uni(u, x->vars); std::vector<uint32_t> vs = *u, order = vs; std::map<uint32_t, u64> fixed;
      for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[rnd() % i]);
      bool dead = false;
      for (auto v : order) { if (rnd() % 100 < keep[round % 8]) continue; auto& I = M.vars[v]; bool fp = !I.ranged && !I.sgn && I.w == 64 && isFpVar(v, q);
        for (int t = 0; t < 2; t++) { u64 x; if (fp) { static const double D[] = {1, -1, 2, 0.5, 3, -2, 0, 5, -0.25, 7}; x = dBits(D[rnd() % 10]); } else if (I.w == 1) x = rnd() & 1; else if (t == 0 && base && round % 3 == 0) x = M.modelVal(*base, v); else { i64 lo = I.ranged ? I.lo : I.sgn ? sminw(I.w) : 0, hi = I.ranged ? I.hi : I.sgn ? smaxw(I.w) : (i64)std::min<u64>(umaxw(I.w), INT64_MAX); u64 span = (u64)hi - (u64)lo; i64 small = (i64)(rnd() % 9) - 3; x = (rnd() % 3 && small >= lo && small <= hi) ? (u64)small : span == UINT64_MAX ? rnd() : (u64)lo + rnd() % (span + 1); x &= umaxw(I.w); }
          std::unordered_map<Expr*, Expr*> memo; memo[I.e] = M.C(I.w, x); std::vector<Expr*> nq; bool bad = false; for (auto y : q) { Expr* r = rebuild(y, memo); if (M.isC(r)) { if (!r->c) { bad = true; break; } continue; } nq.push_back(r); }
          if (!bad) { q = nq; fixed[v] = x; break; } } }
      Res r; r.r = 1; const VarVec* w = M.emptyVars; for (auto x : q) w = M.uni(w, x->vars);
      if (!q.empty()) { nq++; r = real ? solveArith(q, *w, tmo) : solveBV(q, *w, true, tmo); } (void)dead;
      if (r.r == 1) { Model m; m.v.resize(M.vars.size()); for (size_t i = 0; i < M.vars.size(); i++) m.v[i] = M.modelVal(base ? *base : Model{}, i); for (auto& p : r.m) m.v[p.first] = p.second; for (auto& p : fixed) m.v[p.first] = p.second; m.stamp = M.nextStamp++;
        if (!real) { bool ok = M.ev(goal, m); for (auto x : cons) ok = ok && M.ev(x, m); if (!ok) continue; }
        *out = m; found = true; }
    } catch (Unsupported&) {}
    tmo = t0; tmoExt = x0; return found; }
  bool isFpVar(uint32_t v, const std::vector<Expr*>& q) { if (v < rvar.size() && rvar[v]) return true; if (fpSeen.size() <= v) fpSeen.resize(M.vars.size() + 1, 0); if (fpSeen[v]) return fpSeen[v] == 2; std::unordered_set<Expr*> s; bool fp = false; for (auto x : q) fp = fp || fpUse(x, M.vars[v].e, s); fpSeen[v] = fp ? 2 : 1; return fp; }
  std::vector<char> fpSeen;
  bool fpUse(Expr* e, Expr* v, std::unordered_set<Expr*>& seen) { if (!e || !seen.insert(e).second) return false; bool f = (e->op >= OFAdd && e->op <= OFUno); for (int i = 0; i < 3; i++) if (e->k[i]) { if (f && e->k[i] == v) return true; if (fpUse(e->k[i], v, seen)) return true; } return false; }
  Res solve(const std::vector<Expr*>& q, const std::vector<uint32_t>& vs) {
    if (!real && !noNarrow) { std::unordered_set<Expr*> s1, s2; bool hard = false; for (auto x : q) hard = hard || hasFP(x, s1) || hasSymMul(x, s2);
      if (hard) { std::vector<Expr*> q2 = q; std::map<uint32_t, uint32_t> orig; std::map<uint32_t, u64> fixed; bool ch = false; try { ch = narrow(q2, orig, fixed); } catch (Unsupported&) { ch = false; }
        if (ch) { nnarrow++; if (q2.size() == 1 && M.isC(q2[0])) { Res r; r.r = 0; return r; }
          const VarVec* u = M.emptyVars; for (auto x : q2) u = M.uni(u, x->vars); Res t = q2.empty() ? Res{1, {}} : solve1(q2, *u); if (t.r != 1) return t;
          std::map<uint32_t, u64> val; for (auto v : vs) val[v] = M.modelVal(Model{}, v); for (auto& p : t.m) { auto o = orig.find(p.first); val[o == orig.end() ? p.first : o->second] = p.second; } 
          std::set<uint32_t> got; for (auto& p : t.m) { auto o = orig.find(p.first); got.insert(o == orig.end() ? p.first : o->second); }
          for (auto v : vs) if (!got.count(v)) { auto f = fixed.find(v); if (f != fixed.end()) val[v] = f->second; }
          Res r; r.r = 1; for (auto v : vs) r.m.push_back({v, val[v]});
          return r; } } }
    return solve1(q, vs); }
  Res solve1(const std::vector<Expr*>& q, const std::vector<uint32_t>& vs) {
    if (real) { try { if (checkLin(q, 5000) == 0) { Res r; r.r = 0; return r; } } catch (Unsupported&) {} return solveArith(q, vs, tmo); }
    std::unordered_set<Expr*> s1, s2; bool fp = false, nl = false; for (auto x : q) { fp = fp || hasFP(x, s1); }
    if (!fp) for (auto x : q) nl = nl || hasSymMul(x, s2);
    Res r; r.r = -1;
    if (nl && !fp) { r = solveBV(q, vs, false, std::min(tmo, 1500u)); if (r.r >= 0) return r;
      try { r = solveArith(q, vs, std::min(tmo, 3000u)); } catch (Unsupported&) { r.r = -1; } if (r.r >= 0) return r; }
    r = solveBV(q, vs, fp, tmo); if (r.r >= 0) return r;
    return external(q, vs, fp);
  }
  Res solveBV(const std::vector<Expr*>& q, const std::vector<uint32_t>& vs, bool fp, unsigned ms) {
    Z3_solver& s = fp ? sfp : sbv; if (!s) { const char* t = getenv("VP_TAC"); if (t && !fp) { if (!strcmp(t, "simple")) { s = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, s); } else s = mkTac(t); } else s = mkTac(fp ? "qffp" : "qfbv"); }
    Z3_solver_reset(c, s); setTimeout(s, ms);
    assertBV(s, q, vs);
    Z3_lbool b = Z3_solver_check(c, s); Res r; r.r = b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
    if (r.r == 1) { Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
      for (auto v : vs) { Z3_ast o = nullptr; u64 x = 0; if (Z3_model_eval(c, m, varAst[v], true, &o) && o) { uint64_t t; if (Z3_get_numeral_uint64(c, o, &t)) x = t; } auto& I = M.vars[v]; unsigned k = varBits[v];
        if (k < I.w) x = I.sgn ? (u64)sx(x, k) & umaxw(I.w) : x; r.m.push_back({v, x & umaxw(I.w)}); }
      Z3_model_dec_ref(c, m); }
    Z3_solver_reset(c, s);
    return r;
  }
  // ------------------------------------------------------------ linear abstraction of real queries
  // Every real term is expanded to a polynomial over its leaves; each monomial becomes one real variable
  // constrained only by the interval product of the bounds its leaves have in the query. The abstraction has
  // every solution of the query, so unsat is conclusive; anything else falls through to the exact query.
  typedef boost::multiprecision::cpp_rational Q; typedef std::vector<Expr*> Mono;
  struct MonoLess { bool operator()(const Mono& a, const Mono& b) const { if (a.size() != b.size()) return a.size() < b.size(); for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return a[i]->id < b[i]->id; return false; } };
  typedef std::map<Mono, Q, MonoLess> Poly;
  std::unordered_map<Expr*, Poly> polyMemo;
  static Q qOf(double d) { int ex; double m = std::frexp(d, &ex); boost::multiprecision::cpp_int n = (i64)std::ldexp(m, 53); ex -= 53; boost::multiprecision::cpp_int p = 1; if (ex >= 0) { p <<= ex; return Q(n * p); } p <<= -ex; return Q(n, p); }
  const Poly& poly(Expr* e) {
    auto it = polyMemo.find(e); if (it != polyMemo.end()) return it->second;
    Poly r; Expr *a = e->k[0], *b = e->k[1];
    auto addTo = [&](const Poly& p, const Q& f) { for (auto& t : p) { Q& x = r[t.first]; x += t.second * f; if (x == 0) r.erase(t.first); } };
    auto leaf = [&] { r[Mono{e}] = 1; };
    switch (e->op) {
      case OConst: { double d = e->w == 64 ? bitsD((u64)e->c) : bitsF((uint32_t)e->c); if (!std::isfinite(d)) throw Unsupported("non-finite constant"); if (d != 0) r[Mono{}] = qOf(d); break; }
      case OFAdd: addTo(poly(a), 1); addTo(poly(b), 1); break;
      case OFSub: addTo(poly(a), 1); addTo(poly(b), -1); break;
      case OFNeg: addTo(poly(a), -1); break;
      case OFCvt: addTo(poly(a), 1); break;
      case OFMul: { const Poly p = poly(a), q = poly(b); if (p.size() * q.size() > 20000) throw Unsupported("polynomial too large");
        for (auto& x : p) for (auto& y : q) { Mono m = x.first; m.insert(m.end(), y.first.begin(), y.first.end()); std::sort(m.begin(), m.end(), [](Expr* u, Expr* v) { return u->id < v->id; }); Q& t = r[m]; t += x.second * y.second; if (t == 0) r.erase(m); } break; }
      case OFDiv: { const Poly q = poly(b); if (q.size() == 1 && q.begin()->first.empty()) addTo(poly(a), 1 / q.begin()->second); else leaf(); break; }
      default: leaf();
    }
    return polyMemo[e] = r;
  }
  struct Iv { bool hl = false, hh = false; Q lo, hi; };
  static Iv ivMul(const Iv& a, const Iv& b) { Iv r; if (!(a.hl && a.hh && b.hl && b.hh)) { if (a.hl && b.hl && a.lo >= 0 && b.lo >= 0) { r.hl = true; r.lo = a.lo * b.lo; } return r; }
    Q p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; r.hl = r.hh = true; r.lo = r.hi = p[0]; for (auto& x : p) { if (x < r.lo) r.lo = x; if (x > r.hi) r.hi = x; } return r; }
  static Iv ivPow(const Iv& a, unsigned n) { Iv r = a; for (unsigned i = 1; i < n; i++) r = ivMul(r, a); if (n % 2 == 0) { if (!r.hl || r.lo < 0) { r.hl = true; r.lo = 0; } if (a.hl && a.hh && (a.lo > 0 || a.hi < 0)) { Q u = a.lo < 0 ? Q(-a.lo) : a.lo, v = a.hi < 0 ? Q(-a.hi) : a.hi; Q m = u < v ? u : v; Q t = 1; for (unsigned i = 0; i < n; i++) t *= m; r.lo = t; } } return r; }
  Z3_ast qnum(const Q& x) { return Z3_mk_numeral(c, x.str().c_str(), real_s); }
  int checkLin(const std::vector<Expr*>& q, unsigned ms) {
    std::unordered_map<Expr*, Iv> bd; bool nonlin = false; std::map<Mono, Z3_ast, MonoLess> mv; std::unordered_map<Expr*, Z3_ast> bv;
    std::function<void(Expr*)> bounds = [&](Expr* e) { if (e->op == OAnd) { bounds(e->k[0]); bounds(e->k[1]); return; } if (e->op != OFLe && e->op != OFLt) return; Expr *a = e->k[0], *b = e->k[1];
      if (a->op == OConst && b->op != OConst && !infSign(a)) { Q v = qOf(bitsD((u64)a->c)); auto& I = bd[b]; if (!I.hl || v > I.lo) { I.hl = true; I.lo = v; } }
      if (b->op == OConst && a->op != OConst && !infSign(b)) { Q v = qOf(bitsD((u64)b->c)); auto& I = bd[a]; if (!I.hh || v < I.hi) { I.hh = true; I.hi = v; } } };
    for (auto x : q) bounds(x);
    auto iv = [&](Expr* e) { Iv r; auto it = bd.find(e); if (it != bd.end()) r = it->second; if (e->op == OSIToFP || (e->op == OFInt && e->aux == 0)) { r.hl = r.hh = true; r.lo = (i64)e->k[0]->slo; r.hi = (i64)e->k[0]->shi; } else if (e->op == OUIToFP) { r.hl = r.hh = true; r.lo = (u64)e->k[0]->ulo; r.hi = (u64)e->k[0]->uhi; } else if ((e->op == OFSqrt || e->op == OFAbs) && !r.hl) { r.hl = true; r.lo = 0; } return r; };
    Z3_solver s = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, s); setTimeout(s, ms); struct G { Solver* S; Z3_solver s; ~G() { Z3_solver_dec_ref(S->c, s); } } g{this, s};
    auto mono = [&](const Mono& m) { auto it = mv.find(m); if (it != mv.end()) return it->second; if (m.size() > 1) nonlin = true; Z3_ast v = ref(Z3_mk_fresh_const(c, "m", real_s)); Iv r; r.hl = r.hh = true; r.lo = r.hi = 1;
      for (size_t i = 0; i < m.size();) { size_t j = i; while (j < m.size() && m[j] == m[i]) j++; Iv p = ivPow(iv(m[i]), (unsigned)(j - i)); r = i == 0 ? p : ivMul(r, p); i = j; }
      if (r.hl) Z3_solver_assert(c, s, Z3_mk_ge(c, v, qnum(r.lo))); if (r.hh) Z3_solver_assert(c, s, Z3_mk_le(c, v, qnum(r.hi))); return mv[m] = v; };
    auto term = [&](const Poly& p) { std::vector<Z3_ast> ts; for (auto& t : p) { if (t.first.empty()) { ts.push_back(qnum(t.second)); continue; } Z3_ast x[2] = {qnum(t.second), mono(t.first)}; ts.push_back(Z3_mk_mul(c, 2, x)); } if (ts.empty()) return Z3_mk_numeral(c, "0", real_s); return Z3_mk_add(c, ts.size(), ts.data()); };
    std::function<Z3_ast(Expr*)> B = [&](Expr* e) -> Z3_ast { auto it = bv.find(e); if (it != bv.end()) return it->second; Expr *a = e->k[0], *b = e->k[1]; Z3_ast t[2], r = nullptr;
      switch (e->op) {
        case OConst: r = e->c ? Z3_mk_true(c) : Z3_mk_false(c); break;
        case OAnd: t[0] = B(a); t[1] = B(b); r = Z3_mk_and(c, 2, t); break;
        case OOr: t[0] = B(a); t[1] = B(b); r = Z3_mk_or(c, 2, t); break;
        case OXor: r = Z3_mk_xor(c, B(a), B(b)); break;
        case OIte: if (e->w == 1) r = Z3_mk_ite(c, B(a), B(b), B(e->k[2])); break;
        case OFEq: case OFLt: case OFLe: if (!infSign(a) && !infSign(b)) { Poly d = poly(a); for (auto& x : poly(b)) { Q& y = d[x.first]; y -= x.second; if (y == 0) d.erase(x.first); } Z3_ast l = term(d), z = Z3_mk_numeral(c, "0", real_s); r = e->op == OFEq ? Z3_mk_eq(c, l, z) : e->op == OFLt ? Z3_mk_lt(c, l, z) : Z3_mk_le(c, l, z); } break;
        default: break;
      }
      if (!r) r = Z3_mk_fresh_const(c, "b", bool_s);
      return bv[e] = ref(r); };
    for (auto x : q) Z3_solver_assert(c, s, B(x));
    if (!nonlin) return -1;
    return Z3_solver_check(c, s) == Z3_L_FALSE ? 0 : -1;
  }
  Res solveArith(const std::vector<Expr*>& q, const std::vector<uint32_t>& vs, unsigned ms) {
    if (!sar) { sar = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, sar); }
    Z3_solver s = sar; Z3_solver_reset(c, s); setTimeout(s, ms);
    std::unordered_set<Expr*> seen; std::vector<Z3_ast> side; std::vector<Z3_ast> as;
    for (auto x : q) { as.push_back(toIB(x)); }
    for (auto x : q) collectSide(x, seen, side);
    std::set<Z3_ast> ss(side.begin(), side.end()); for (auto a : ss) as.push_back(a);
    for (auto v : vs) if (v < icon.size() && icon[v]) as.push_back(icon[v]);
    for (auto a : as) { Z3_ast t = som(a); Z3_inc_ref(c, t); Z3_solver_assert(c, s, t); Z3_dec_ref(c, t); }
    Z3_lbool b = Z3_solver_check(c, s); Res r; r.r = b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
    if (r.r == 1) { Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
      for (auto v : vs) { auto& I = M.vars[v];
        if (v < rvar.size() && rvar[v]) { Z3_ast o = nullptr; double d = 0; if (Z3_model_eval(c, m, rvar[v], true, &o) && o) d = strtod(Z3_get_numeral_decimal_string(c, o, 25), nullptr); r.m.push_back({v, dBits(d)}); }
        else if (v < ivar.size() && ivar[v]) { Z3_ast o = nullptr; u64 x = 0; if (Z3_model_eval(c, m, ivar[v], true, &o) && o) { int64_t t; uint64_t ut; if (Z3_get_numeral_int64(c, o, &t)) x = (u64)t; else if (Z3_get_numeral_uint64(c, o, &ut)) x = ut; } r.m.push_back({v, x & umaxw(I.w)}); }
        else r.m.push_back({v, M.modelVal(Model{}, v)}); }
      Z3_model_dec_ref(c, m);
      if (!real) { Model mm; mm.v.resize(M.vars.size()); for (size_t i = 0; i < M.vars.size(); i++) mm.v[i] = M.modelVal(Model{}, i); for (auto& p : r.m) mm.v[p.first] = p.second; mm.stamp = M.nextStamp++; for (auto x : q) if (!M.ev(x, mm)) { r.r = -1; break; } } }
    Z3_solver_reset(c, s);
    return r;
  }
  // external portfolio: the same query as SMT-LIB for other solvers, first definite answer wins
  Res external(const std::vector<Expr*>& q, const std::vector<uint32_t>& vs, bool fp) {
    Res r; r.r = -1; next_++;
    Z3_solver s = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, s); assertBV(s, q, vs);
    std::string txt = "(set-logic " + std::string(fp ? "QF_BVFP" : "QF_BV") + ")\n" + Z3_solver_to_string(c, s); Z3_solver_dec_ref(c, s);
    txt += "(check-sat)\n(get-value ("; for (auto v : vs) txt += " v" + std::to_string(v); txt += "))\n";
    char fn[] = "/tmp/vpqXXXXXX"; int fd = mkstemp(fn); if (fd < 0) return r; if (write(fd, txt.data(), txt.size()) < 0) {} close(fd);
    std::string to = std::to_string(tmoExt / 1000);
    std::vector<std::vector<std::string>> cmds;
    cmds.push_back({"cvc5", "--produce-models", "--tlimit=" + std::to_string(tmoExt), fn});
    if (!fp) cmds.push_back({"cvc5", "--produce-models", "--solve-bv-as-int=sum", "--tlimit=" + std::to_string(tmoExt), fn});
    cmds.push_back({"z3-new", "-T:" + to, "tactic.default_tactic=smt", "sat.euf=true", fn});
    cmds.push_back({"z3", "-T:" + to, fn});
    struct P { pid_t pid; int fd; std::string out; bool done; }; std::vector<P> ps;
    for (auto& cm : cmds) { int pp[2]; if (pipe(pp)) continue; pid_t pid = fork(); if (pid == 0) { setpgid(0, 0); dup2(pp[1], 1); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(pp[0]); std::vector<char*> av; for (auto& x : cm) av.push_back((char*)x.c_str()); av.push_back(nullptr); execvp(av[0], av.data()); _exit(127); } close(pp[1]); ps.push_back({pid, pp[0], "", false}); }
    double end = nowS() + tmoExt / 1000.0 + 2; std::string win;
    while (win.empty() && nowS() < end) {
      std::vector<pollfd> pf; std::vector<int> ix; for (size_t i = 0; i < ps.size(); i++) if (!ps[i].done) { pf.push_back({ps[i].fd, POLLIN, 0}); ix.push_back(i); }
      if (pf.empty()) break; if (poll(pf.data(), pf.size(), 500) <= 0) continue;
      for (size_t j = 0; j < pf.size(); j++) if (pf[j].revents) { char buf[65536]; ssize_t n = read(pf[j].fd, buf, sizeof buf); auto& p = ps[ix[j]]; if (n > 0) p.out.append(buf, n); else { p.done = true; if (p.out.find("(error") == std::string::npos || p.out.compare(0, 5, "unsat") == 0) { if (p.out.compare(0, 5, "unsat") == 0) win = "unsat"; else if (p.out.compare(0, 4, "sat\n") == 0) win = p.out; if (!win.empty()) break; } } } }
    for (auto& p : ps) { kill(-p.pid, SIGKILL); kill(p.pid, SIGKILL); close(p.fd); waitpid(p.pid, nullptr, 0); }
    unlink(fn);
    if (win == "unsat") { r.r = 0; return r; }
    if (win.empty()) return r;
    for (auto v : vs) { std::string k = "(v" + std::to_string(v) + " "; size_t p = win.find(k); u64 x = 0; if (p == std::string::npos) return r; p += k.size();
      if (win.compare(p, 2, "#x") == 0) x = strtoull(win.c_str() + p + 2, nullptr, 16); else if (win.compare(p, 2, "#b") == 0) x = strtoull(win.c_str() + p + 2, nullptr, 2); else if (win.compare(p, 5, "(_ bv") == 0) x = strtoull(win.c_str() + p + 5, nullptr, 10); else return r;
      auto& I = M.vars[v]; unsigned kb = varBits[v]; if (kb < I.w) x = I.sgn ? (u64)sx(x, kb) & umaxw(I.w) : x; r.m.push_back({v, x & umaxw(I.w)}); }
    r.r = 1; return r;
  }
};
