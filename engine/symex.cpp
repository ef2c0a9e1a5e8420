// Symbolic executor for LLVM IR (LLVM 18). Usage: symex MODULE.bc --entry=F [--param=k=v]... [--real]
#include "solver.hpp"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <pthread.h>
#include <sys/resource.h>
#include <cfenv>
using namespace llvm;
typedef ExprMgr::Model SModel;

static ExprMgr M;
static Solver* SV;
static const DataLayout* DL;
static bool REAL = false;

struct Val { Expr* e = nullptr; std::shared_ptr<std::vector<Val>> agg; };
struct Cell { Expr* e; u64 idx; };
struct Obj { u64 base, size; std::vector<Cell> cells; bool dead = false; uint8_t kind; bool ro = false; };
typedef std::shared_ptr<Obj> ObjP;
struct Region {
  std::shared_ptr<std::vector<ObjP>> v = std::make_shared<std::vector<ObjP>>();
  std::vector<ObjP>& mut() { if (v.use_count() > 1) v = std::make_shared<std::vector<ObjP>>(*v); return *v; }
  int find(u64 a) const { auto& x = *v; int lo = 0, hi = (int)x.size(); while (lo < hi) { int m = (lo + hi) / 2; if (x[m]->base <= a) lo = m + 1; else hi = m; } return lo - 1; }
};
static const u64 FN_BASE = 0x400000, G_BASE = 0x10000000, S_BASE = 0x7f0000000000ull, H_BASE = 0x600000000000ull;

struct Opnd { int slot; Val c; };
struct PInst { Instruction* I; unsigned opc; int dst; std::vector<Opnd> ops; unsigned w; u64 coff; std::vector<std::pair<int, i64>> idx; int bb0, bb1; Function* callee; bool seen; int nargs; std::vector<std::pair<Expr*, int>> cases; unsigned bi; };
struct PPhi { int dst; std::map<int, Opnd> in; };
struct PBlock { std::vector<PPhi> phis; std::vector<PInst> insts; };
struct PFunc { Function* F; std::vector<PBlock> blocks; int nslots; std::string name; bool isRepo = false; };

struct Frame { PFunc* f; int bb, ip; std::vector<Val> regs; size_t nstack; u64 stackTop; bool isInvokeCaller = false; u64 freeAfter = 0; std::vector<Val> va; };
struct Caught { u64 p; int cnt; };
struct ExcInfo { u64 ti, dtor; };
struct Obs { std::string label; int kind; Expr* e; };
struct Input { std::string name; uint32_t var; int kind; }; // kind 0 unsigned 1 signed 2 double 3 float
struct State {
  Region reg[3]; u64 heapTop = H_BASE, stackTop = S_BASE;
  std::vector<Frame> frames;
  std::vector<Expr*> cons;
  SModel model;
  std::map<uint32_t, u64> fixed; std::shared_ptr<std::unordered_map<Expr*, Expr*>> rw;
  std::vector<Caught> caught; std::map<u64, ExcInfo> excs; u64 lastThrown = 0;
  std::vector<Obs> obs; std::map<std::string, int> names; std::vector<Input> inputs;
  u64 steps = 0; int forks = 0; std::vector<std::string> covers;
  std::map<std::string, std::string> files;
};
typedef std::unique_ptr<State> StateP;

// ------------------------------------------------------------------ configuration and results
static std::map<std::string, i64> PARAMS;
static u64 MAXSTEPS = 3000000; static u64 MAXPATHS = 200000; static double MAXTIME = 600; static bool TRACE = false; static int NSAMPLES = 6; static u64 SEED = 1;
static double T0;
struct Viol { std::string kind, label, where; std::vector<std::pair<Input, u64>> in; };
static std::vector<Viol> viols; static std::map<std::string, int> violCount;
struct AStat { u64 checked = 0, trivial = 0, proved = 0, failed = 0, unknown = 0; };
static std::map<std::string, AStat> asserts; static std::map<std::string, u64> covers;
static std::map<std::string, u64> incompletes;
struct Sample { std::vector<std::pair<Input, u64>> in; std::vector<std::pair<std::string, std::string>> obs; };
static std::vector<Sample> samples;
static u64 nPaths = 0, nDone = 0, nAssumed = 0, nInstr = 0, nForks = 0, nErr = 0, nUncaught = 0;
static std::set<std::string> funcsSeen; static std::set<std::string> unsupported;
static std::set<std::string> externs;
static std::vector<StateP> work;

static void incomplete(const std::string& s) { incompletes[s]++; }

// ------------------------------------------------------------------ program preparation
static std::unordered_map<const Function*, PFunc*> pfuncs;
static std::unordered_map<const GlobalVariable*, u64> gaddr; static std::unordered_map<const Function*, u64> faddr; static std::vector<Function*> fnByIdx;
static Module* MOD;

static Val mkv(Expr* e) { Val v; v.e = e; return v; }
static Val mka(std::vector<Val> a) { Val v; v.agg = std::make_shared<std::vector<Val>>(std::move(a)); return v; }
static unsigned tw(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80;
  throw Unsupported("type width"); }
static bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned aggN(Type* t) { if (auto* s = dyn_cast<StructType>(t)) return s->getNumElements(); if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements(); return cast<FixedVectorType>(t)->getNumElements(); }
static Type* aggT(Type* t, unsigned i) { if (auto* s = dyn_cast<StructType>(t)) return s->getElementType(i); if (auto* a = dyn_cast<ArrayType>(t)) return a->getElementType(); return cast<FixedVectorType>(t)->getElementType(); }
static u64 aggOff(Type* t, unsigned i) { if (auto* s = dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i); return DL->getTypeAllocSize(aggT(t, i)) * i; }
static Val zeroV(Type* t) { if (isAgg(t)) { std::vector<Val> v; for (unsigned i = 0; i < aggN(t); i++) v.push_back(zeroV(aggT(t, i))); return mka(v); } if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return Val(); return mkv(M.C(tw(t), 0)); }
static u128 apv(const APInt& a) { u128 r = a.getRawData()[0]; if (a.getBitWidth() > 64) r |= (u128)a.getRawData()[1] << 64; return r; }
static u64 fnAddr(const Function* F) { auto it = faddr.find(F); if (it != faddr.end()) return it->second; u64 a = FN_BASE + 16 * fnByIdx.size(); fnByIdx.push_back((Function*)F); faddr[F] = a; return a; }
static Val cval(const Constant* C);
static Expr* cexpr(const Constant* C) { Val v = cval(C); if (!v.e) throw Unsupported("constant expression value"); return v.e; }
static Expr* binop(unsigned opc, Expr* a, Expr* b);
static Val cval(const Constant* C) {
  Type* t = C->getType();
  if (auto* ci = dyn_cast<ConstantInt>(C)) return mkv(M.C(ci->getBitWidth(), apv(ci->getValue())));
  if (auto* cf = dyn_cast<ConstantFP>(C)) return mkv(M.C(tw(t), apv(cf->getValueAPF().bitcastToAPInt())));
  if (isa<ConstantPointerNull>(C)) return mkv(M.C(64, 0));
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return zeroV(t);
  if (auto* g = dyn_cast<GlobalVariable>(C)) { auto it = gaddr.find(g); if (it == gaddr.end()) throw Unsupported("global"); return mkv(M.C(64, it->second)); }
  if (auto* f = dyn_cast<Function>(C)) { if (f->hasExternalWeakLinkage()) return mkv(M.C(64, 0)); return mkv(M.C(64, fnAddr(f))); }
  if (auto* ga = dyn_cast<GlobalAlias>(C)) return cval(ga->getAliasee());
  if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantVector>(C)) { std::vector<Val> v; for (auto& o : C->operands()) v.push_back(cval(cast<Constant>(o))); return mka(v); }
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(cval(cd->getElementAsConstant(i))); return mka(v); }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported("constexpr gep"); return mkv(M.Add(cexpr(ce->getOperand(0)), M.C(64, off.getZExtValue()))); }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return cval(ce->getOperand(0));
      case Instruction::PtrToInt: { Expr* e = cexpr(ce->getOperand(0)); return mkv(M.Extract(e, 0, tw(t))); }
      case Instruction::IntToPtr: return mkv(M.ZExt(cexpr(ce->getOperand(0)), 64));
      case Instruction::Trunc: return mkv(M.Extract(cexpr(ce->getOperand(0)), 0, tw(t)));
      case Instruction::ICmp: { auto p = (CmpInst::Predicate)ce->getPredicate(); Expr *a = cexpr(ce->getOperand(0)), *b = cexpr(ce->getOperand(1)); if (p == CmpInst::ICMP_EQ) return mkv(M.Eq(a, b)); if (p == CmpInst::ICMP_NE) return mkv(M.Not(M.Eq(a, b))); throw Unsupported("constexpr icmp"); }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: return mkv(binop(ce->getOpcode(), cexpr(ce->getOperand(0)), cexpr(ce->getOperand(1))));
      default: throw Unsupported(std::string("constexpr ") + ce->getOpcodeName());
    }
  }
  throw Unsupported("constant kind");
}
static Expr* binop(unsigned opc, Expr* a, Expr* b) {
  switch (opc) {
    case Instruction::Add: return M.Add(a, b); case Instruction::Sub: return M.Sub(a, b); case Instruction::Mul: return M.Mul(a, b);
    case Instruction::UDiv: return M.UDiv(a, b); case Instruction::SDiv: return M.SDiv(a, b); case Instruction::URem: return M.URem(a, b); case Instruction::SRem: return M.SRem(a, b);
    case Instruction::And: return M.And(a, b); case Instruction::Or: return M.Or(a, b); case Instruction::Xor: return M.Xor(a, b);
    case Instruction::Shl: return M.Shl(a, b); case Instruction::LShr: return M.LShr(a, b); case Instruction::AShr: return M.AShr(a, b);
    case Instruction::FAdd: return M.FAdd(a, b); case Instruction::FSub: return M.FSub(a, b); case Instruction::FMul: return M.FMul(a, b); case Instruction::FDiv: return M.FDiv(a, b); case Instruction::FRem: return M.FRem(a, b);
    default: throw Unsupported("binop"); }
}
static Expr* bnot(Expr* e) { return M.Not(e); }
static Expr* fcmpP(CmpInst::Predicate p, Expr* a, Expr* b) {
  auto EQ = [&] { return M.fcmp(OFEq, a, b); }; auto LT = [&] { return M.fcmp(OFLt, a, b); }; auto LE = [&] { return M.fcmp(OFLe, a, b); };
  auto GT = [&] { return M.fcmp(OFLt, b, a); }; auto GE = [&] { return M.fcmp(OFLe, b, a); }; auto UN = [&] { return M.fcmp(OFUno, a, b); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return M.F(); case CmpInst::FCMP_TRUE: return M.T();
    case CmpInst::FCMP_OEQ: return EQ(); case CmpInst::FCMP_OGT: return GT(); case CmpInst::FCMP_OGE: return GE(); case CmpInst::FCMP_OLT: return LT(); case CmpInst::FCMP_OLE: return LE();
    case CmpInst::FCMP_ONE: return M.And(bnot(EQ()), bnot(UN())); case CmpInst::FCMP_ORD: return bnot(UN()); case CmpInst::FCMP_UNO: return UN();
    case CmpInst::FCMP_UEQ: return M.Or(EQ(), UN()); case CmpInst::FCMP_UGT: return bnot(LE()); case CmpInst::FCMP_UGE: return bnot(LT()); case CmpInst::FCMP_ULT: return bnot(GE()); case CmpInst::FCMP_ULE: return bnot(GT()); case CmpInst::FCMP_UNE: return bnot(EQ());
    default: throw Unsupported("fcmp"); }
}
static Expr* icmpP(CmpInst::Predicate p, Expr* a, Expr* b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return M.Eq(a, b); case CmpInst::ICMP_NE: return bnot(M.Eq(a, b));
    case CmpInst::ICMP_ULT: return M.Ult(a, b); case CmpInst::ICMP_ULE: return M.Ule(a, b); case CmpInst::ICMP_UGT: return M.Ult(b, a); case CmpInst::ICMP_UGE: return M.Ule(b, a);
    case CmpInst::ICMP_SLT: return M.Slt(a, b); case CmpInst::ICMP_SLE: return M.Sle(a, b); case CmpInst::ICMP_SGT: return M.Slt(b, a); case CmpInst::ICMP_SGE: return M.Sle(b, a);
    default: throw Unsupported("icmp"); }
}
static Val iteV(Expr* c, const Val& a, const Val& b) {
  if (c->op == OConst) return c->c ? a : b;
  if (a.agg) { std::vector<Val> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(iteV(c, (*a.agg)[i], (*b.agg)[i])); return mka(v); }
  return mkv(M.Ite(c, a.e, b.e)); }

static PFunc* prep(Function* F) {
  auto it = pfuncs.find(F); if (it != pfuncs.end()) return it->second;
  auto* P = new PFunc; P->F = F; P->name = F->getName().str();
  std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bbi; int n = 0;
  for (auto& a : F->args()) slot[&a] = n++;
  int b = 0; for (auto& BB : *F) { bbi[&BB] = b++; for (auto& I : BB) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
  P->nslots = n; P->blocks.resize(b);
  auto opnd = [&](Value* v) -> Opnd { auto s = slot.find(v); if (s != slot.end()) return {s->second, {}};
    if (auto* c = dyn_cast<Constant>(v)) { try { return {-1, cval(c)}; } catch (Unsupported& u) { unsupported.insert(u.what()); return {-2, {}}; } } return {-2, {}}; };
  for (auto& BB : *F) { auto& PB = P->blocks[bbi[&BB]];
    for (auto& I : BB) {
      if (auto* ph = dyn_cast<PHINode>(&I)) { PPhi pp; pp.dst = slot[ph]; for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) pp.in[bbi[ph->getIncomingBlock(i)]] = opnd(ph->getIncomingValue(i)); PB.phis.push_back(pp); continue; }
      PInst q; q.I = &I; q.opc = I.getOpcode(); q.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; q.w = 0; q.coff = 0; q.bb0 = q.bb1 = -1; q.callee = nullptr; q.seen = false; q.nargs = 0; q.bi = 0;
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        q.nargs = cb->arg_size(); for (auto& a : cb->args()) q.ops.push_back(a->getType()->isMetadataTy() ? Opnd{-2, {}} : opnd(a)); Value* cv = cb->getCalledOperand()->stripPointerCastsAndAliases(); q.callee = dyn_cast<Function>(cv); if (!q.callee) q.ops.push_back(opnd(cb->getCalledOperand()));
        if (auto* iv = dyn_cast<InvokeInst>(&I)) { q.bb0 = bbi[iv->getNormalDest()]; q.bb1 = bbi[iv->getUnwindDest()]; }
      } else if (auto* br = dyn_cast<BranchInst>(&I)) { q.bb0 = bbi[br->getSuccessor(0)]; if (br->isConditional()) { q.bb1 = bbi[br->getSuccessor(1)]; q.ops.push_back(opnd(br->getCondition())); } }
      else if (auto* sw = dyn_cast<SwitchInst>(&I)) { q.ops.push_back(opnd(sw->getCondition())); q.bb0 = bbi[sw->getDefaultDest()]; for (auto& cs : sw->cases()) q.cases.push_back({cexpr(cs.getCaseValue()), bbi[cs.getCaseSuccessor()]}); }
      else if (auto* ge = dyn_cast<GetElementPtrInst>(&I)) {
        q.ops.push_back(opnd(ge->getPointerOperand()));
        if (ge->getType()->isVectorTy()) q.ops[0] = {-2, {}};
        else { MapVector<Value*, APInt> vo; APInt co(64, 0); if (!cast<GEPOperator>(ge)->collectOffset(*DL, 64, vo, co)) q.ops[0] = {-2, {}}; q.coff = co.getZExtValue(); for (auto& p : vo) { q.idx.push_back({(int)q.ops.size(), p.second.getSExtValue()}); q.ops.push_back(opnd(p.first)); } } }
      else { for (auto& o : I.operands()) if (!isa<BasicBlock>(o.get())) q.ops.push_back(opnd(o.get())); }
      PB.insts.push_back(std::move(q));
    } }
  pfuncs[F] = P; return P;
}

// ------------------------------------------------------------------ memory
struct Killed {}; // the current state ended
struct Retry {};
static u64 globalTop = G_BASE;
static ObjP newObj(State& S, int r, u64 size, bool zero) {
  auto o = std::make_shared<Obj>(); o->size = size; o->kind = r;
  u64& top = r == 0 ? globalTop : r == 1 ? S.stackTop : S.heapTop;
  o->base = (top + 15) & ~15ull; top = o->base + size + 32;
  o->cells.assign(size, zero ? Cell{M.C(8, 0), 0} : Cell{nullptr, 0});
  S.reg[r].mut().push_back(o); return o; }
static int regionOf(u64 a) { return a >= S_BASE ? 1 : a >= H_BASE ? 2 : 0; }
struct Loc { int r, i; };
static bool findObj(State& S, u64 a, Loc& l) { int r = regionOf(a); int i = S.reg[r].find(a); if (i < 0) return false; auto& o = (*S.reg[r].v)[i]; if (a > o->base + o->size) return false; l = {r, i}; return true; }
static const ObjP& objAt(State& S, Loc l) { return (*S.reg[l.r].v)[l.i]; }
static Obj& mutObj(State& S, Loc l) { auto& v = S.reg[l.r].mut(); if (v[l.i].use_count() > 1) v[l.i] = std::make_shared<Obj>(*v[l.i]); return *v[l.i]; }
static Expr* freshUninit(unsigned w) { static int n = 0; return M.mkVar("uninit" + std::to_string(n++), w, false, false, 0, 0, true); }
static Expr* readBytes(const Obj& o, u64 off, unsigned nb, unsigned w) { // w <= nb*8
  const Cell* c = &o.cells[off];
  if (c[0].e && c[0].idx == 0 && c[0].e->w == nb * 8) { bool ok = true; for (unsigned i = 1; i < nb; i++) if (c[i].e != c[0].e || c[i].idx != i) { ok = false; break; } if (ok) return w == nb * 8 ? c[0].e : M.Extract(c[0].e, 0, w); }
  bool un = false; for (unsigned i = 0; i < nb; i++) if (!c[i].e) un = true;
  if (un) { return nullptr; }
  auto byte = [&](unsigned i) { return c[i].e->w == 8 && c[i].idx == 0 ? c[i].e : M.Extract(c[i].e, (unsigned)c[i].idx * 8, 8); };
  Expr* r = byte(0); for (unsigned i = 1; i < nb; i++) r = M.Concat(byte(i), r);
  return w == nb * 8 ? r : M.Extract(r, 0, w); }
static void writeBytes(Obj& o, u64 off, Expr* e) { unsigned nb = (e->w + 7) / 8; if (e->w % 8) e = M.ZExt(e, nb * 8); for (unsigned i = 0; i < nb; i++) o.cells[off + i] = {e, i}; }

// ------------------------------------------------------------------ path conditions
static Expr* rewrite(State& S, Expr* e) {
  if (e->op == OConst || S.fixed.empty()) return e;
  bool hit = false; for (auto v : *e->vars) if (S.fixed.count(v)) { hit = true; break; } if (!hit) return e;
  if (!S.rw) S.rw = std::make_shared<std::unordered_map<Expr*, Expr*>>();
  auto it = S.rw->find(e); if (it != S.rw->end()) return it->second;
  Expr* r; unsigned w = e->w; Expr* k[3] = {nullptr, nullptr, nullptr}; 
  if (e->op == OVar) { r = M.C(w, S.fixed[e->aux]); }
  else { for (int i = 0; i < 3; i++) if (e->k[i]) k[i] = rewrite(S, e->k[i]);
    switch (e->op) {
      case OAdd: r = M.Add(k[0], k[1]); break; case OSub: r = M.Sub(k[0], k[1]); break; case OMul: r = M.Mul(k[0], k[1]); break; case OUDiv: r = M.UDiv(k[0], k[1]); break; case OSDiv: r = M.SDiv(k[0], k[1]); break; case OURem: r = M.URem(k[0], k[1]); break; case OSRem: r = M.SRem(k[0], k[1]); break;
      case OAnd: r = M.And(k[0], k[1]); break; case OOr: r = M.Or(k[0], k[1]); break; case OXor: r = M.Xor(k[0], k[1]); break; case OShl: r = M.Shl(k[0], k[1]); break; case OLShr: r = M.LShr(k[0], k[1]); break; case OAShr: r = M.AShr(k[0], k[1]); break;
      case OEq: r = M.Eq(k[0], k[1]); break; case OUlt: r = M.Ult(k[0], k[1]); break; case OUle: r = M.Ule(k[0], k[1]); break; case OSlt: r = M.Slt(k[0], k[1]); break; case OSle: r = M.Sle(k[0], k[1]); break;
      case OIte: r = M.Ite(k[0], k[1], k[2]); break; case OZExt: r = M.ZExt(k[0], w); break; case OSExt: r = M.SExt(k[0], w); break; case OExtract: r = M.Extract(k[0], e->aux, w); break; case OConcat: r = M.Concat(k[0], k[1]); break;
      case OFAdd: r = M.FAdd(k[0], k[1]); break; case OFSub: r = M.FSub(k[0], k[1]); break; case OFMul: r = M.FMul(k[0], k[1]); break; case OFDiv: r = M.FDiv(k[0], k[1]); break; case OFNeg: r = M.FNeg(k[0]); break; case OFAbs: r = M.FAbs(k[0]); break; case OFSqrt: r = M.FSqrt(k[0]); break; case OFRound: r = M.FRound(k[0], e->aux); break; case OFCvt: r = M.FCvt(k[0], w); break;
      case OSIToFP: r = M.SIToFP(k[0], w); break; case OUIToFP: r = M.UIToFP(k[0], w); break; case OFPToSI: r = M.FPToSI(k[0], w); break; case OFPToUI: r = M.FPToUI(k[0], w); break;
      case OFEq: case OFLt: case OFLe: case OFUno: r = M.fcmp(e->op, k[0], k[1]); break; case OFInt: r = M.FInt(k[0], e->aux); break; case OFUF: r = M.node(OFUF, w, k[0], k[1], nullptr, e->aux); break;
      default: r = e; } }
  (*S.rw)[e] = r; return r; }
static void addCons(State& S, Expr* e) {
  if (e->op == OConst) return;
  if (e->op == OAnd && e->w == 1) { addCons(S, e->k[0]); addCons(S, e->k[1]); return; }
  for (auto x : S.cons) if (x == e) return;
  S.cons.push_back(e);
  Expr *v = nullptr, *k = nullptr; u64 val = 0;
  if (e->op == OEq && e->k[0]->op == OVar && e->k[1]->op == OConst) { v = e->k[0]; val = (u64)e->k[1]->c; }
  else if (e->op == OVar && e->w == 1) { v = e; val = 1; }
  else if (e->op == OXor && e->w == 1 && e->k[0]->op == OVar && e->k[1]->op == OConst) { v = e->k[0]; val = 0; }
  (void)k; if (v && v->w <= 64) { S.fixed[v->aux] = val; S.rw = nullptr; } }
static int known(State& S, Expr* c) { Expr* n = M.Not(c); for (size_t i = S.cons.size(); i-- > 0;) { if (S.cons[i] == c) return 1; if (S.cons[i] == n) return 0; } return -1; }
static StateP clone(State& S) { nForks++; auto p = std::make_unique<State>(S); p->forks++; return p; }
static bool TIMEUP = false;
static bool timeUp() { if (!TIMEUP && nowS() - T0 > MAXTIME) TIMEUP = true; return TIMEUP; }
// truth of c on this path; forks the other outcome (re-executing the current instruction) when both are possible
static bool decide(State& S, Expr* c) {
  c = rewrite(S, c);
  if (c->op == OConst) return c->c;
  int k = known(S, c); if (k >= 0) return k;
  if (REAL) {
    SModel mt, mf; int rt = SV->check(S.cons, c, &S.model, &mt), rf = SV->check(S.cons, M.Not(c), &S.model, &mf);
    if (rt == -1 || rf == -1) incomplete("undecided branch: " + SV->lastErr);
    if (rt == 0 && rf == 0) throw Killed();
    if (rt == 0) { addCons(S, M.Not(c)); return false; } if (rf == 0) { addCons(S, c); return true; }
    if (rt == -1 && rf == -1) throw Killed();
    if (rt == -1) return false; if (rf == -1) return true;
    auto o = clone(S); addCons(*o, M.Not(c)); o->model = mf; work.push_back(std::move(o)); addCons(S, c); S.model = mt; return true;
  }
  bool v = M.ev(c, S.model); Expr* other = v ? M.Not(c) : c; SModel m;
  int r = SV->check(S.cons, other, &S.model, &m);
  if (r == -1) incomplete("undecided branch: " + SV->lastErr);
  if (r == 1) { auto o = clone(S); addCons(*o, other); o->model = m; work.push_back(std::move(o)); }
  if (r != 0) addCons(S, v ? c : M.Not(c)); else addCons(S, v ? c : M.Not(c));
  return v; }
static u64 concretize(State& S, Expr* e) {
  e = rewrite(S, e); if (e->op == OConst) return (u64)e->c;
  for (int guard = 0; guard < 100000; guard++) {
    SModel mm;
    if (REAL) { // any feasible value: use the model of a query that mentions e
      int r = SV->check(S.cons, M.Or(M.Eq(e, M.C(e->w, 0)), M.Not(M.Eq(e, M.C(e->w, 0)))), &S.model, &mm, true); if (r == 1) S.model = mm; }
    u64 v = (u64)M.ev(e, S.model); Expr* eq = M.Eq(e, M.C(e->w, v));
    if (decide(S, eq)) return v; }
  incomplete("concretize"); throw Killed(); }

static std::string whereAmI(State& S) {
  std::string r; int n = 0;
  for (size_t i = S.frames.size(); i-- > 0 && n < 6; n++) { auto& f = S.frames[i]; auto& B = f.f->blocks[f.bb]; const DILocation* d = f.ip < (int)B.insts.size() ? B.insts[f.ip].I->getDebugLoc().get() : nullptr;
    if (!r.empty()) r += " < "; if (d) { auto* sp = d->getScope()->getSubprogram(); r += (sp ? sp->getName().str() : f.f->name) + "@" + d->getFilename().str() + ":" + std::to_string(d->getLine()); } else r += f.f->name; }
  return r; }
static std::vector<std::pair<Input, u64>> inputsOf(State& S, const SModel& m) { std::vector<std::pair<Input, u64>> r; for (auto& i : S.inputs) r.push_back({i, M.modelVal(m, i.var)}); return r; }
static void report(State& S, const std::string& kind, const std::string& label, const SModel& m) {
  nErr++; int& n = violCount[kind + ":" + label]; if (n++ >= 3) return;
  viols.push_back({kind, label, whereAmI(S), inputsOf(S, m)}); }
static void fullModel(State& S) { if (REAL) { SModel m; if (SV->check(S.cons, M.T(), &S.model, &m, true) == 1) S.model = m; } }
[[noreturn]] static void fail(State& S, const std::string& kind, const std::string& label) { fullModel(S); report(S, kind, label, S.model); throw Killed(); }

// known residue structure of an address offset: off == res (mod stride) with no wrap-around
static void stride(Expr* e, i128& st, i128& res, int d = 0) {
  auto gcd = [](i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; };
  st = 1; res = 0; if (d > 30 || e->w > 64) return;
  switch (e->op) {
    case OConst: st = 0; res = (i128)(i64)sx(e->c, e->w); return;
    case OMul: if (e->k[1]->op == OConst) { i128 c = sx(e->k[1]->c, e->w); if (M.noSOv(e->k[0], c, e->w) || M.noUOv(e->k[0], e->k[1]->c, e->w)) { i128 s, r; stride(e->k[0], s, r, d + 1); st = s * c; res = r * c; if (st < 0) st = -st; return; } u64 k = (u64)e->k[1]->c; st = k ? (i128)(k & -k) : 0; } return;
    case OAdd: { i128 s1, r1, s2, r2; stride(e->k[0], s1, r1, d + 1); stride(e->k[1], s2, r2, d + 1); st = gcd(s1, s2); res = r1 + r2;
      i128 lo = (i128)e->k[0]->slo + e->k[1]->slo, hi = (i128)e->k[0]->shi + e->k[1]->shi; if (!(M.fitsS(lo, e->w) && M.fitsS(hi, e->w))) { u64 k = (u64)st; st = k ? (i128)(k & -k) : st; } break; }
    case OSub: { i128 s1, r1, s2, r2; stride(e->k[0], s1, r1, d + 1); stride(e->k[1], s2, r2, d + 1); st = gcd(s1, s2); res = r1 - r2;
      i128 lo = (i128)e->k[0]->slo - e->k[1]->shi, hi = (i128)e->k[0]->shi - e->k[1]->slo; if (!(M.fitsS(lo, e->w) && M.fitsS(hi, e->w))) { u64 k = (u64)st; st = k ? (i128)(k & -k) : st; } break; }
    case OIte: { i128 s1, r1, s2, r2; stride(e->k[1], s1, r1, d + 1); stride(e->k[2], s2, r2, d + 1); st = gcd(gcd(s1, s2), r1 - r2); res = r1; break; }
    case OZExt: case OSExt: if (e->k[0]->w <= 64 && (e->op == OSExt || e->k[0]->slo >= 0)) stride(e->k[0], st, res, d + 1); break;
    default: break; }
  if (st) { res %= st; if (res < 0) res += st; } }

struct Acc { Loc l; Expr* off; bool conc; u64 c; std::vector<u64> cand; };
static bool validCheck(State& S, Loc l, const char* what, bool write) { auto& o = objAt(S, l); if (o->dead) fail(S, "memory", std::string(what) + " of an object whose lifetime has ended"); if (write && o->ro) fail(S, "memory", "write to constant memory"); return true; }
static void access(State& S, Expr* p, u64 n, bool write, Acc& a, bool needConc = false) {
  const char* what = write ? "write" : "read";
  p = rewrite(S, p);
  if (REAL && p->op != OConst) p = M.C(64, concretize(S, p));
  if (p->op != OConst) {
    u64 v = (u64)M.ev(p, S.model); Loc l;
    if (!findObj(S, v, l) || v + n > objAt(S, l)->base + objAt(S, l)->size) fail(S, "memory", std::string("out-of-bounds ") + what + " of " + std::to_string(n) + " bytes");
    auto o = objAt(S, l); Expr* off = M.Sub(p, M.C(64, o->base));
    if (!decide(S, M.Ule(off, M.C(64, o->size - n)))) throw Killed(); // (model says inside; the outside case was forked)
    validCheck(S, l, what, write);
    off = rewrite(S, off);
    if (off->op == OConst) { a = {l, off, true, (u64)off->c, {}}; return; }
    i128 st, res; stride(off, st, res); if (st <= 0) st = 1;
    u64 lo = off->ulo, hi = std::min<u64>(off->uhi, o->size - n); std::vector<u64> cand;
    i128 first = (i128)lo + ((res - (i128)lo) % st + st) % st;
    for (i128 x = first; x <= (i128)hi && cand.size() <= 600; x += st) cand.push_back((u64)x);
    if (needConc || cand.size() > 512 || (write && st < (i128)n)) { u64 cv = concretize(S, off); a = {l, M.C(64, cv), true, cv, {}}; return; }
    if (cand.empty()) throw Killed();
    if (cand.size() == 1) { a = {l, M.C(64, cand[0]), true, cand[0], {}}; return; }
    a = {l, off, false, 0, cand}; return;
  }
  u64 v = (u64)p->c; Loc l;
  if (v < 4096) fail(S, "memory", std::string("null pointer ") + what);
  if (!findObj(S, v, l)) fail(S, "memory", std::string(what) + " through an invalid or freed pointer");
  auto& o = objAt(S, l); if (v + n > o->base + o->size) fail(S, "memory", std::string("out-of-bounds ") + what + " of " + std::to_string(n) + " bytes");
  validCheck(S, l, what, write);
  a = {l, nullptr, true, v - o->base, {}}; }
static Expr* loadE(State& S, Expr* p, unsigned w) {
  unsigned nb = w == 80 ? 10 : (w + 7) / 8; Acc a; access(S, p, nb, false, a);
  if (a.conc) { Expr* r = readBytes(*objAt(S, a.l), a.c, nb, w); if (!r) { // uninitialised: a fresh value, remembered in memory
      auto& o = mutObj(S, a.l); for (unsigned i = 0; i < nb; i++) if (!o.cells[a.c + i].e) o.cells[a.c + i] = {freshUninit(8), 0}; r = readBytes(o, a.c, nb, w); } return r; }
  auto o = objAt(S, a.l); Expr* r = nullptr; std::vector<std::pair<u64, Expr*>> vs;
  for (auto c : a.cand) { Expr* x = readBytes(*o, c, nb, w); if (!x) x = freshUninit(w); vs.push_back({c, x}); }
  for (size_t i = vs.size(); i-- > 0;) r = r ? (vs[i].second == r ? r : M.Ite(M.Eq(a.off, M.C(64, vs[i].first)), vs[i].second, r)) : vs[i].second;
  return r; }
static void storeE(State& S, Expr* p, Expr* v) {
  unsigned nb = v->w == 80 ? 10 : (v->w + 7) / 8; Acc a; access(S, p, nb, true, a);
  if (a.conc) { writeBytes(mutObj(S, a.l), a.c, v); return; }
  if (v->w % 8) v = M.ZExt(v, nb * 8);
  auto& o = mutObj(S, a.l);
  for (auto c : a.cand) { Expr* old = readBytes(o, c, nb, nb * 8); if (!old) old = freshUninit(nb * 8); writeBytes(o, c, M.Ite(M.Eq(a.off, M.C(64, c)), v, old)); } }
static Val loadV(State& S, Expr* p, Type* t) { if (isAgg(t)) { std::vector<Val> v; for (unsigned i = 0; i < aggN(t); i++) v.push_back(loadV(S, M.Add(p, M.C(64, aggOff(t, i))), aggT(t, i))); return mka(v); } return mkv(loadE(S, p, tw(t))); }
static void storeV(State& S, Expr* p, const Val& v, Type* t) { if (isAgg(t)) { for (unsigned i = 0; i < aggN(t); i++) storeV(S, M.Add(p, M.C(64, aggOff(t, i))), (*v.agg)[i], aggT(t, i)); return; } storeE(S, p, v.e); }
static void initConst(Obj& o, u64 off, const Constant* C) {
  Type* t = C->getType();
  if (isa<ConstantAggregateZero>(C)) return;
  if (isa<UndefValue>(C)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { u64 es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) writeBytes(o, off + i * es, cexpr(cd->getElementAsConstant(i))); return; }
  if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantVector>(C)) { for (unsigned i = 0; i < C->getNumOperands(); i++) initConst(o, off + aggOff(t, i), cast<Constant>(C->getOperand(i))); return; }
  writeBytes(o, off, cexpr(C)); }

// ------------------------------------------------------------------ interpreter
static Val& reg(State& S, int i) { return S.frames.back().regs[i]; }
static const Val& opv(State& S, const Opnd& o) { if (o.slot >= 0) return S.frames.back().regs[o.slot]; if (o.slot == -2) throw Unsupported("operand"); return o.c; }
static Expr* ope(State& S, const Opnd& o) { const Val& v = opv(S, o); if (!v.e) throw Unsupported("aggregate operand"); return v.e; }
static void gotoBB(State& S, int bb) {
  auto& f = S.frames.back(); auto& B = f.f->blocks[bb]; int prev = f.bb;
  if (!B.phis.empty()) { std::vector<Val> t; t.reserve(B.phis.size()); for (auto& p : B.phis) { auto it = p.in.find(prev); if (it == p.in.end()) throw Unsupported("phi"); t.push_back(opv(S, it->second)); } for (size_t i = 0; i < B.phis.size(); i++) f.regs[B.phis[i].dst] = std::move(t[i]); }
  f.bb = bb; f.ip = 0; }
static void finish(State& S, PInst& q) { if (q.opc == Instruction::Invoke) gotoBB(S, q.bb0); else S.frames.back().ip++; }
static void pushFrame(State& S, Function* F, const std::vector<Val>& args, u64 freeAfter = 0) {
  PFunc* P = prep(F); if (S.frames.size() > 400) { incomplete("call depth"); fail(S, "recursion", "call depth limit exceeded"); }
  Frame f; f.f = P; f.bb = 0; f.ip = 0; f.regs.resize(P->nslots); f.nstack = S.reg[1].v->size(); f.stackTop = S.stackTop; f.freeAfter = freeAfter;
  size_t na = F->arg_size(); for (size_t i = 0; i < na && i < args.size(); i++) f.regs[i] = args[i]; for (size_t i = na; i < args.size(); i++) f.va.push_back(args[i]);
  // byval arguments are copied by the callee's frame; the source is read before the frame exists
  std::vector<std::pair<unsigned, std::vector<Cell>>> bv;
  for (auto& a : F->args()) if (a.hasByValAttr()) { u64 sz = DL->getTypeAllocSize(a.getParamByValType()); Acc ac; access(S, f.regs[a.getArgNo()].e, sz, false, ac, true); auto& o = objAt(S, ac.l); bv.push_back({a.getArgNo(), std::vector<Cell>(o->cells.begin() + ac.c, o->cells.begin() + ac.c + sz)}); }
  S.frames.push_back(std::move(f));
  for (auto& b : bv) { auto o = newObj(S, 1, b.second.size(), false); o->cells = b.second; S.frames.back().regs[b.first] = mkv(M.C(64, o->base)); }
}
static void dropStack(State& S, size_t n, u64 top) { if (S.reg[1].v->size() > n) S.reg[1].mut().resize(n); S.stackTop = top; }
static void heapFree(State& S, u64 a) { int i = S.reg[2].find(a); auto& v = S.reg[2].mut(); if (i < 0 || v[i]->base != a) fail(S, "memory", "free of an invalid pointer"); v.erase(v.begin() + i); }
static void endPath(State& S, const char* why);
static void popFrame(State& S, const Val* rv) {
  Frame f = std::move(S.frames.back()); S.frames.pop_back(); dropStack(S, f.nstack, f.stackTop);
  if (f.freeAfter) { Loc l; if (findObj(S, f.freeAfter, l)) heapFree(S, f.freeAfter); }
  if (S.frames.empty()) return;
  auto& c = S.frames.back(); auto& q = c.f->blocks[c.bb].insts[c.ip]; if (rv && q.dst >= 0) c.regs[q.dst] = *rv; finish(S, q); }

// exceptions
static u64 rd64(State& S, u64 a) { return concretize(S, loadE(S, M.C(64, a), 64)); }
static u64 symAddr(const char* n) { auto* g = MOD->getGlobalVariable(n, true); if (!g) return 0; auto it = gaddr.find(g); return it == gaddr.end() ? 0 : it->second; }
static bool tiMatch(State& S, u64 thrown, u64 want, i64& adj) {
  if (thrown == want) return true; if (!thrown) return false;
  static u64 si = 0, vmi = 0, cl = 0; static bool init = false; if (!init) { init = true; si = symAddr("_ZTVN10__cxxabiv120__si_class_type_infoE"); vmi = symAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); cl = symAddr("_ZTVN10__cxxabiv117__class_type_infoE"); }
  Loc l; if (!findObj(S, thrown, l) || objAt(S, l)->size < 16) return false;
  u64 vp = rd64(S, thrown);
  if (si && vp == si + 16) { return tiMatch(S, rd64(S, thrown + 16), want, adj); }
  if (vmi && vp == vmi + 16) { u64 n = concretize(S, loadE(S, M.C(64, thrown + 20), 32)); for (u64 i = 0; i < n; i++) { u64 b = rd64(S, thrown + 24 + 16 * i); i64 fl = (i64)rd64(S, thrown + 32 + 16 * i); i64 a2 = adj + (fl >> 8); if (tiMatch(S, b, want, a2)) { adj = a2; return true; } } }
  return false; }
static int typeId(u64 ti) { static std::map<u64, int> ids; auto it = ids.find(ti); if (it != ids.end()) return it->second; int n = ids.size() + 1; ids[ti] = n; return n; }
static std::string tiName(State& S, u64 ti) { if (!ti) return "?"; try { for (auto& g : gaddr) if (g.second == ti) return g.first->getName().str(); } catch (...) {} return "?"; }
static std::map<u64, i64> excAdj; // per (exception) adjusted offset at catch: stored in state via excs? offsets are static per throw/catch
static void unwind(State& S, u64 exc) { // top frame is the one containing the throwing call
  u64 ti = S.excs.count(exc) ? S.excs[exc].ti : 0;
  while (!S.frames.empty()) {
    auto& f = S.frames.back(); auto& q = f.f->blocks[f.bb].insts[f.ip];
    if (q.opc == Instruction::Invoke) {
      auto* lp = cast<InvokeInst>(q.I)->getLandingPadInst(); bool enter = false; int sel = 0; i64 adj = 0;
      for (unsigned i = 0; i < lp->getNumClauses() && !enter; i++) {
        if (lp->isCatch(i)) { auto* c = lp->getClause(i); if (isa<ConstantPointerNull>(c)) { enter = true; sel = typeId(0); } else { u64 want = (u64)cexpr(c)->c; adj = 0; if (tiMatch(S, ti, want, adj)) { enter = true; sel = typeId(want); } } }
        else { enter = true; sel = -1; } }
      if (!enter && lp->isCleanup()) enter = true;
      if (enter) { excAdj[exc] = adj; S.lastThrown = exc; gotoBB(S, q.bb1); auto& B = f.f->blocks[f.bb]; int ip = 0; while (B.insts[ip].opc != Instruction::LandingPad) ip++; 
        f.regs[B.insts[ip].dst] = mka({mkv(M.C(64, exc)), mkv(M.C(32, (u64)(int64_t)sel))}); f.ip = ip + 1; return; }
    }
    Frame g = std::move(S.frames.back()); S.frames.pop_back(); dropStack(S, g.nstack, g.stackTop);
  }
  nUncaught++; State& R = S; fullModel(R); report(R, "uncaught", "uncaught exception " + tiName(S, ti), R.model); throw Killed(); }

static std::string readStr(State& S, Expr* p, size_t max = 4096) { u64 a = concretize(S, p); std::string r; for (size_t i = 0; i < max; i++) { Expr* b = rewrite(S, loadE(S, M.C(64, a + i), 8)); u64 v = b->op == OConst ? (u64)b->c : concretize(S, b); if (!v) break; r += (char)v; } return r; }
static u64 heapAlloc(State& S, Expr* n, bool zero = false) { u64 sz = concretize(S, n); return newObj(S, 2, sz, zero)->base; }
static void memCopy(State& S, Expr* d, Expr* s, Expr* n, bool) {
  u64 sz = concretize(S, n); if (!sz) return;
  s = rewrite(S, s); d = rewrite(S, d);
  if (!REAL && s->op != OConst && d->op == OConst && sz % 8 == 0 && sz <= 64) { std::vector<Expr*> v; for (u64 i = 0; i < sz; i += 8) v.push_back(loadE(S, M.Add(s, M.C(64, i)), 64)); for (u64 i = 0; i < sz; i += 8) storeE(S, M.Add(d, M.C(64, i)), v[i / 8]); return; }
  Acc a, b; access(S, s, sz, false, a, true); access(S, d, sz, true, b, true);
  auto src = objAt(S, a.l); std::vector<Cell> cs(src->cells.begin() + a.c, src->cells.begin() + a.c + sz);
  auto& o = mutObj(S, b.l); std::copy(cs.begin(), cs.end(), o.cells.begin() + b.c); }
static void memSet(State& S, Expr* d, Expr* v, Expr* n) { u64 sz = concretize(S, n); if (!sz) return; Acc b; access(S, d, sz, true, b, true); auto& o = mutObj(S, b.l); Expr* e = M.Extract(v, 0, 8); for (u64 i = 0; i < sz; i++) o.cells[b.c + i] = {e, 0}; }
static Expr* byteAt(State& S, u64 a) { return loadE(S, M.C(64, a), 8); }

enum UFn { F_COS = 1, F_SIN, F_TAN, F_EXP, F_LOG, F_LOG2, F_LOG10, F_POW, F_ATAN2, F_ACOS, F_ASIN, F_ATAN, F_HYPOT, F_CBRT, F_EXP2, F_FMOD, F_SINH, F_COSH, F_TANH, F_LOG1P, F_EXPM1 };
static double hostF(int f, double a, double b) { switch (f) { case F_COS: return cos(a); case F_SIN: return sin(a); case F_TAN: return tan(a); case F_EXP: return exp(a); case F_LOG: return log(a); case F_LOG2: return log2(a); case F_LOG10: return log10(a); case F_POW: return pow(a, b); case F_ATAN2: return atan2(a, b); case F_ACOS: return acos(a); case F_ASIN: return asin(a); case F_ATAN: return atan(a); case F_HYPOT: return hypot(a, b); case F_CBRT: return cbrt(a); case F_EXP2: return exp2(a); case F_FMOD: return fmod(a, b); case F_SINH: return sinh(a); case F_COSH: return cosh(a); case F_TANH: return tanh(a); case F_LOG1P: return log1p(a); default: return expm1(a); } }
static Expr* mathFn(int f, Expr* a, Expr* b) {
  if (a->w == 32) return M.FCvt(mathFn(f, M.FCvt(a, 64), b ? M.FCvt(b, 64) : nullptr), 32); // (symbolic floats: uninterpreted anyway)
  if (a->w != 64) throw Unsupported("long double math function");
  if (f == F_POW && b->op == OConst && bitsD((u64)b->c) == 2.0) return M.FMul(a, a);
  if (a->op == OConst && (!b || b->op == OConst)) { double x = bitsD((u64)a->c), y = b ? bitsD((u64)b->c) : 0; bool ex = !REAL || (x == 0 && f != F_ACOS); if (ex) return M.C(64, dBits(hostF(f, x, y))); }
  if (REAL && (f == F_COS || f == F_SIN) && a->vars->empty()) { static ExprMgr::Model em; em.stamp = M.nextStamp++; double x = bitsD((u64)M.ev(a, em)); return M.C(64, dBits(hostF(f, x, 0))); } // concrete phases are evaluated (comparisons carry a tolerance)
  if (f == F_HYPOT) return M.FSqrt(M.FAdd(M.FMul(a, a), M.FMul(b, b)));
  if (REAL) return M.node(OFUF, 64, a, b, nullptr, f);
  static std::map<std::tuple<int, Expr*, Expr*>, Expr*> memo; auto k = std::make_tuple(f, a, b); auto it = memo.find(k); if (it != memo.end()) return it->second;
  return memo[k] = M.mkVar("uf" + std::to_string(f) + "_" + std::to_string(memo.size()), 64, false, false, 0, 0, true); }
static Expr* fminmax(Expr* a, Expr* b, bool mn) { // IEEE minnum/maxnum
  Expr* lt = mn ? M.fcmp(OFLt, b, a) : M.fcmp(OFLt, a, b); Expr* r = M.Ite(lt, b, a); Expr* an = M.fcmp(OFUno, a, a); return M.Ite(an, b, r); }
static Expr* copysign_(Expr* a, Expr* b) { if (REAL) { Expr* z = M.C(64, 0); Expr* ab = M.FAbs(a); return M.Ite(M.fcmp(OFLt, b, z), M.FNeg(ab), ab); } unsigned w = a->w; Expr* sb = M.Extract(b, w - 1, 1); Expr* ab = M.FAbs(a); return M.Ite(M.Eq(sb, M.C(1, 1)), M.FNeg(ab), ab); }

static std::unordered_map<std::string, int> MATH1 = {{"cos", F_COS}, {"sin", F_SIN}, {"tan", F_TAN}, {"exp", F_EXP}, {"log", F_LOG}, {"log2", F_LOG2}, {"log10", F_LOG10}, {"acos", F_ACOS}, {"asin", F_ASIN}, {"atan", F_ATAN}, {"cbrt", F_CBRT}, {"exp2", F_EXP2}, {"cosf", F_COS}, {"sinf", F_SIN}, {"expf", F_EXP}, {"logf", F_LOG}, {"log1p", F_LOG1P}, {"expm1", F_EXPM1}, {"sinh", F_SINH}, {"cosh", F_COSH}, {"tanh", F_TANH}};
static std::unordered_map<std::string, int> MATH2 = {{"pow", F_POW}, {"atan2", F_ATAN2}, {"hypot", F_HYPOT}, {"fmod", F_FMOD}, {"powf", F_POW}};

static Expr* symVar(State& S, const std::string& nm, int kind, unsigned w, i64 lo, i64 hi) {
  int k = S.names[nm]++; std::string n = k ? nm + "#" + std::to_string(k) : nm;
  static std::map<std::string, Expr*> memo; std::string key = n + "|" + std::to_string(kind) + "|" + std::to_string(w) + "|" + std::to_string(lo) + "|" + std::to_string(hi);
  auto it = memo.find(key); Expr* e;
  if (it != memo.end()) e = it->second; else { bool full = kind == 1 ? (lo == sminw(w) && hi == smaxw(w)) : kind == 0 ? (lo == 0 && (u64)hi == umaxw(w)) : true; e = M.mkVar(n, w, kind == 1, kind < 2 && !full, lo, hi); memo[key] = e; }
  S.inputs.push_back({n, e->aux, kind});
  auto& i = M.vars[e->aux]; if (S.model.v.size() <= e->aux) { size_t o = S.model.v.size(); S.model.v.resize(e->aux + 1); for (size_t j = o; j <= e->aux; j++) S.model.v[j] = M.modelVal(SModel{}, j); S.model.stamp = M.nextStamp++; }
  // start away from the corner: zero if in range
  (void)i; return e; }
static void assume(State& S, Expr* c) {
  c = rewrite(S, c); if (c->op == OConst) { if (!c->c) { nAssumed++; throw Killed(); } return; }
  if (!REAL && M.ev(c, S.model)) { addCons(S, c); return; }
  SModel m; int r = SV->check(S.cons, c, &S.model, &m); if (r == 1) { S.model = m; addCons(S, c); return; } if (r == -1) { incomplete("undecided assumption: " + SV->lastErr); } else nAssumed++; throw Killed(); }
static void doAssert(State& S, Expr* c, const std::string& label) {
  auto& st = asserts[label]; st.checked++;
  c = rewrite(S, c);
  if (c->op == OConst && c->c) { st.trivial++; st.proved++; return; }
  if (c->op == OConst) { fullModel(S); st.failed++; report(S, "assert", label, S.model); throw Killed(); }
  if (known(S, c) == 1) { st.proved++; return; }
  if (!REAL && !M.ev(c, S.model)) { st.failed++; report(S, "assert", label, S.model); }
  else { SModel m; int r = SV->check(S.cons, M.Not(c), &S.model, &m, REAL); if (r == 0) { st.proved++; return; } if (r == -1 && SV->slices(S.cons, M.Not(c), &S.model, &m, std::min(6.0, SV->tmo / 1000.0))) r = 1; if (r == -1) { st.unknown++; incomplete("undecided assertion '" + label + "': " + SV->lastErr); addCons(S, c); return; } st.failed++; report(S, "assert", label, m); }
  // continue on the inputs for which it holds
  SModel m; int r = SV->check(S.cons, c, &S.model, &m); if (r != 1) throw Killed(); S.model = m; addCons(S, c); }

static bool intrinsic(State& S, PInst& q, Intrinsic::ID id);
static bool builtin(State& S, PInst& q, const std::string& n, std::vector<Val>& A) { // true: result written, advance
  auto ret = [&](Expr* e) { if (q.dst >= 0) reg(S, q.dst) = mkv(e); return true; };
  auto e = [&](int i) { if (!A[i].e) throw Unsupported("agg arg"); return A[i].e; };
  if (n.compare(0, 3, "vp_") == 0) {
    if (n == "vp_sym_u") { std::string nm = readStr(S, e(0)); unsigned w = concretize(S, e(1)); u64 lo = concretize(S, e(2)), hi = concretize(S, e(3)); if (lo == hi) { S.names[nm]++; return ret(M.C(64, lo)); } return ret(M.ZExt(symVar(S, nm, 0, w, (i64)lo, (i64)hi), 64)); }
    if (n == "vp_sym_s") { std::string nm = readStr(S, e(0)); unsigned w = concretize(S, e(1)); i64 lo = concretize(S, e(2)), hi = concretize(S, e(3)); if (lo == hi) { S.names[nm]++; return ret(M.C(64, (u64)lo)); } return ret(M.SExt(symVar(S, nm, 1, w, lo, hi), 64)); }
    if (n == "vp_sym_f64") return ret(symVar(S, readStr(S, e(0)), 2, 64, 0, 0));
    if (n == "vp_sym_f32") return ret(symVar(S, readStr(S, e(0)), 3, 32, 0, 0));
    if (n == "vp_assume") { assume(S, M.Not(M.Eq(e(0), M.C(e(0)->w, 0)))); return true; }
    if (n == "vp_assert_") { doAssert(S, M.Not(M.Eq(e(0), M.C(e(0)->w, 0))), readStr(S, e(1))); return true; }
    if (n == "vp_cover") { S.covers.push_back(readStr(S, e(0))); covers[S.covers.back()]++; return true; }
    if (n == "vp_obs_i") { S.obs.push_back({readStr(S, e(0)), 0, e(1)}); return true; }
    if (n == "vp_obs_d") { S.obs.push_back({readStr(S, e(0)), 1, e(1)}); return true; }
    if (n == "vp_concretize") return ret(M.C(64, concretize(S, e(0))));
    if (n == "vp_param") { std::string k = readStr(S, e(0)); auto it = PARAMS.find(k); return ret(it == PARAMS.end() ? e(1) : M.C(64, (u64)it->second)); }
    if (n == "vp_is_sym") return ret(M.C(32, e(0)->op == OConst ? 0 : 1));
    if (n == "vp_symbolic") return ret(M.C(32, REAL ? 2 : 1));
    if (n == "vp_same_d") { // equal doubles: exact in real mode, bitwise-or-both-NaN otherwise
      Expr *a = e(0), *b = e(1); if (!REAL && a == b) return ret(M.C(32, 1)); if (REAL) return ret(M.ZExt(M.fcmp(OFEq, a, b), 32)); return ret(M.ZExt(M.Or(M.fcmp(OFEq, a, b), M.And(M.fcmp(OFUno, a, a), M.fcmp(OFUno, b, b))), 32)); }
    if (n == "vp_exit") { endPath(S, "exit"); throw Killed(); }
    if (n == "vp_feasible") { Expr* c = rewrite(S, M.Not(M.Eq(e(0), M.C(e(0)->w, 0)))); if (c->op == OConst) return ret(M.C(32, c->c)); SModel m; return ret(M.C(32, SV->check(S.cons, c, &S.model, &m) != 0)); }
    throw Unsupported("unknown intrinsic " + n);
  }
  static std::set<std::string> news = {"_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "aligned_alloc"}, dels = {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"};
  if (news.count(n)) { Expr* sz = rewrite(S, e(n == "aligned_alloc" ? 1 : 0)); 
    if (n[0] == '_' && !decide(S, M.Ult(sz, M.C(64, 1ull << 30)))) { Function* F = MOD->getFunction("vp_throw_bad_alloc"); if (!F || F->isDeclaration()) fail(S, "abort", "allocation too large"); pushFrame(S, F, {}); return false; }
    return ret(M.C(64, heapAlloc(S, sz))); }
  if (n == "calloc") return ret(M.C(64, heapAlloc(S, M.Mul(e(0), e(1)), true)));
  if (dels.count(n)) { u64 a = concretize(S, e(0)); if (a) heapFree(S, a); return true; }
  if (n == "memcpy" || n == "memmove") { memCopy(S, e(0), e(1), e(2), true); return ret(e(0)); }
  if (n == "memset") { memSet(S, e(0), e(1), e(2)); return ret(e(0)); }
  if (n == "memcmp" || n == "bcmp") { u64 sz = concretize(S, e(2)); if (!sz) return ret(M.C(32, 0)); u64 a = concretize(S, e(0)), b = concretize(S, e(1)); Expr* r = M.C(32, 0);
    for (u64 i = sz; i-- > 0;) { Expr *x = byteAt(S, a + i), *y = byteAt(S, b + i); r = M.Ite(M.Eq(x, y), r, M.Sub(M.ZExt(x, 32), M.ZExt(y, 32))); } return ret(r); }
  if (n == "strlen") { u64 a = concretize(S, e(0)), i = 0; while (!decide(S, M.Eq(byteAt(S, a + i), M.C(8, 0)))) i++; return ret(M.C(64, i)); }
  if (n == "strcmp" || n == "strncmp") { u64 a = concretize(S, e(0)), b = concretize(S, e(1)), mx = n == "strncmp" ? concretize(S, e(2)) : ~0ull; for (u64 i = 0; i < mx; i++) { Expr *x = byteAt(S, a + i), *y = byteAt(S, b + i); if (!decide(S, M.Eq(x, y))) return ret(M.Sub(M.ZExt(x, 32), M.ZExt(y, 32))); if (decide(S, M.Eq(x, M.C(8, 0)))) break; } return ret(M.C(32, 0)); }
  if (n == "memchr") { u64 a = concretize(S, e(0)), sz = concretize(S, e(2)); Expr* ch = M.Extract(e(1), 0, 8); for (u64 i = 0; i < sz; i++) if (decide(S, M.Eq(byteAt(S, a + i), ch))) return ret(M.C(64, a + i)); return ret(M.C(64, 0)); }
  if (n == "abort" || n == "_ZSt9terminatev" || n == "__cxa_pure_virtual" || n == "__assert_fail" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_" || n == "exit" || n == "_exit" || n == "__cxa_bad_cast" || n == "__cxa_call_unexpected") fail(S, "abort", n);
  if (n == "__cxa_allocate_exception") return ret(M.C(64, heapAlloc(S, e(0))));
  if (n == "__cxa_free_exception") { heapFree(S, concretize(S, e(0))); return true; }
  if (n == "__cxa_throw") { u64 x = concretize(S, e(0)); S.excs[x] = {concretize(S, e(1)), concretize(S, e(2))}; unwind(S, x); return false; }
  if (n == "__cxa_rethrow") { if (S.caught.empty()) fail(S, "abort", "rethrow without exception"); u64 x = S.caught.back().p; S.caught.pop_back(); unwind(S, x); return false; }
  if (n == "__cxa_begin_catch" || n == "__cxa_get_exception_ptr") { u64 x = concretize(S, e(0)); if (n == "__cxa_begin_catch") S.caught.push_back({x, 1}); i64 adj = excAdj.count(x) ? excAdj[x] : 0; return ret(M.C(64, x + adj)); }
  if (n == "__cxa_end_catch") { if (S.caught.empty()) return true; u64 x = S.caught.back().p; S.caught.pop_back(); for (auto& c : S.caught) if (c.p == x) return true;
    u64 d = S.excs.count(x) ? S.excs[x].dtor : 0; S.excs.erase(x); if (d) { Function* F = fnByIdx[(d - FN_BASE) / 16]; if (!F->isDeclaration()) { pushFrame(S, F, {mkv(M.C(64, x))}, x); return false; } } heapFree(S, x); return true; }
  if (n == "__cxa_guard_acquire") { Expr* b = loadE(S, e(0), 8); return ret(decide(S, M.Eq(b, M.C(8, 0))) ? M.C(32, 1) : M.C(32, 0)); }
  if (n == "__cxa_guard_release") { storeE(S, e(0), M.C(8, 1)); return true; }
  if (n == "__cxa_guard_abort") return true;
  if (n == "__cxa_atexit" || n == "__cxa_thread_atexit") return ret(M.C(32, 0));
  if (n.compare(0, 18, "_ZNSt8ios_base4Ini") == 0) return true;
  if (n == "puts" || n == "printf" || n == "fflush" || n == "putchar" || n == "fputc" || n == "fprintf") return ret(M.C(32, 0));
  if (n == "fwrite") return ret(e(2));
  auto m1 = MATH1.find(n); if (m1 != MATH1.end()) return ret(mathFn(m1->second, e(0), nullptr));
  if (REAL && n == "hypot") return ret(M.FSqrt(M.FAdd(M.FMul(e(0), e(0)), M.FMul(e(1), e(1)))));
  if (REAL && n == "fma") return ret(M.FAdd(M.FMul(e(0), e(1)), e(2)));
  auto m2 = MATH2.find(n); if (m2 != MATH2.end()) return ret(mathFn(m2->second, e(0), e(1)));
  if (n == "sqrt" || n == "sqrtf") return ret(M.FSqrt(e(0)));
  if (n == "nextafter") { if (e(0)->op != OConst || e(1)->op != OConst) throw Unsupported("symbolic nextafter"); return ret(M.C(64, dBits(nextafter(bitsD((u64)e(0)->c), bitsD((u64)e(1)->c))))); }
  if (n == "nextafterf") { if (e(0)->op != OConst || e(1)->op != OConst) throw Unsupported("symbolic nextafter"); return ret(M.C(32, fBits(nextafterf(bitsF((uint32_t)e(0)->c), bitsF((uint32_t)e(1)->c))))); }
  if (n == "nan") return ret(M.C(64, dBits(std::nan(""))));
  if (n == "nanf") return ret(M.C(32, fBits(std::nanf(""))));
  if (n == "fabs" || n == "fabsf") return ret(M.FAbs(e(0)));
  if (n == "floor" || n == "floorf") return ret(M.FRound(e(0), 3)); if (n == "ceil" || n == "ceilf") return ret(M.FRound(e(0), 2)); if (n == "round" || n == "roundf") return ret(M.FRound(e(0), 1)); if (n == "trunc" || n == "truncf") return ret(M.FRound(e(0), 4)); if (n == "rint" || n == "nearbyint") return ret(M.FRound(e(0), 0));
  if (n == "lround" || n == "llround") return ret(M.FPToSI(M.FRound(e(0), 1), 64)); if (n == "lrint") return ret(M.FPToSI(M.FRound(e(0), 0), 64));
  if (n == "fmin") return ret(fminmax(e(0), e(1), true)); if (n == "fmax") return ret(fminmax(e(0), e(1), false));
  if (n == "log2l" || n == "logl") { if (e(0)->op != OConst) throw Unsupported("symbolic long double log"); long double v = M.bitsL(e(0)->c); return ret(M.C(80, M.lBits(n == "logl" ? logl(v) : log2l(v)))); }
  if (n == "frexp") { if (e(0)->op != OConst) throw Unsupported("symbolic frexp"); int x; double r = frexp(bitsD((u64)e(0)->c), &x); storeE(S, e(1), M.C(32, (u64)(i64)x)); return ret(M.C(64, dBits(r))); }
  if (n == "ldexp") { if (e(0)->op != OConst || e(1)->op != OConst) throw Unsupported("symbolic ldexp"); return ret(M.C(64, dBits(ldexp(bitsD((u64)e(0)->c), (int)(i64)sx(e(1)->c, 32))))); }
  throw Unsupported("external function " + n);
}

static u64 ctlz_(u128 v, unsigned w) { u64 n = 0; for (int i = w - 1; i >= 0; i--) { if ((v >> i) & 1) break; n++; } return n; }
static bool intrinsic(State& S, PInst& q, Intrinsic::ID id) {
  auto E = [&](int i) { return ope(S, q.ops[i]); };
  auto ret = [&](Expr* e) { if (q.dst >= 0) reg(S, q.dst) = mkv(e); return true; };
  auto W = [&] { return tw(q.I->getType()); };
  auto ov = [&](Expr* r, Expr* o) { reg(S, q.dst) = mka({mkv(r), mkv(o)}); return true; };
  // element-wise on vectors
  if (!q.I->getType()->isVoidTy() && q.I->getType()->isVectorTy()) throw Unsupported("vector intrinsic");
  switch (id) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::assume: case Intrinsic::sideeffect: case Intrinsic::var_annotation: return true;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: return ret(M.C(64, 0));
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: { Expr* p = rewrite(S, E(1)); Loc l; if (p->op == OConst && findObj(S, (u64)p->c, l)) { auto& o = mutObj(S, l); if (o.base == (u64)p->c) { o.dead = id == Intrinsic::lifetime_end; for (auto& c : o.cells) c = {nullptr, 0}; } } return true; }
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memCopy(S, E(0), E(1), E(2), true); return true;
    case Intrinsic::memset: memSet(S, E(0), E(1), E(2)); return true;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: return ret(E(0));
    case Intrinsic::is_constant: return ret(M.C(1, 0));
    case Intrinsic::objectsize: { Expr* mn = E(1); return ret(mn->c ? M.C(W(), 0) : M.C(W(), ~(u128)0)); }
    case Intrinsic::umax: return ret(M.Ite(M.Ult(E(0), E(1)), E(1), E(0))); case Intrinsic::umin: return ret(M.Ite(M.Ult(E(0), E(1)), E(0), E(1)));
    case Intrinsic::smax: return ret(M.Ite(M.Slt(E(0), E(1)), E(1), E(0))); case Intrinsic::smin: return ret(M.Ite(M.Slt(E(0), E(1)), E(0), E(1)));
    case Intrinsic::abs: { Expr* a = E(0); return ret(M.Ite(M.Slt(a, M.C(a->w, 0)), M.Sub(M.C(a->w, 0), a), a)); }
    case Intrinsic::ctpop: { Expr* a = E(0); if (a->op == OConst) return ret(M.C(a->w, __builtin_popcountll((u64)a->c) + __builtin_popcountll((u64)(a->c >> 64)))); Expr* r = M.C(a->w, 0); for (unsigned i = 0; i < a->w; i++) r = M.Add(r, M.ZExt(M.Extract(a, i, 1), a->w)); return ret(r); }
    case Intrinsic::ctlz: { Expr* a = E(0); if (a->op == OConst) return ret(M.C(a->w, ctlz_(a->c, a->w))); Expr* r = M.C(a->w, a->w); for (unsigned i = 0; i < a->w; i++) r = M.Ite(M.Eq(M.Extract(a, i, 1), M.C(1, 1)), M.C(a->w, a->w - 1 - i), r); return ret(r); }
    case Intrinsic::cttz: { Expr* a = E(0); if (a->op == OConst) { u64 n = 0; while (n < a->w && !((a->c >> n) & 1)) n++; return ret(M.C(a->w, n)); } Expr* r = M.C(a->w, a->w); for (unsigned i = a->w; i-- > 0;) r = M.Ite(M.Eq(M.Extract(a, i, 1), M.C(1, 1)), M.C(a->w, i), r); return ret(r); }
    case Intrinsic::bswap: { Expr* a = E(0); Expr* r = M.Extract(a, 0, 8); for (unsigned i = 1; i < a->w / 8; i++) r = M.Concat(r, M.Extract(a, i * 8, 8)); return ret(r); }
    case Intrinsic::fshl: case Intrinsic::fshr: { Expr *a = E(0), *b = E(1), *s = E(2); unsigned w = a->w; if (s->op != OConst) { Expr* sm = M.URem(s, M.C(w, w)); Expr* inv = M.Sub(M.C(w, w), sm); Expr* z = M.Eq(sm, M.C(w, 0)); if (id == Intrinsic::fshl) return ret(M.Ite(z, a, M.Or(M.Shl(a, sm), M.LShr(b, inv)))); return ret(M.Ite(z, b, M.Or(M.Shl(a, inv), M.LShr(b, sm)))); }
      unsigned k = (unsigned)(s->c % w); if (id == Intrinsic::fshr) { if (!k) return ret(b); return ret(M.Concat(M.Extract(a, 0, k), M.Extract(b, k, w - k))); } if (!k) return ret(a); return ret(M.Concat(M.Extract(a, 0, w - k), M.Extract(b, w - k, k))); }
    case Intrinsic::uadd_with_overflow: { Expr *a = E(0), *b = E(1), *r = M.Add(a, b); return ov(r, M.Ult(r, a)); }
    case Intrinsic::usub_with_overflow: { Expr *a = E(0), *b = E(1); return ov(M.Sub(a, b), M.Ult(a, b)); }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: { Expr *a = E(0), *b = E(1); unsigned w = a->w, W2 = id == Intrinsic::smul_with_overflow || id == Intrinsic::umul_with_overflow ? 2 * w : w + 1; if (W2 > 128) throw Unsupported("wide overflow intrinsic");
      bool sg = id != Intrinsic::umul_with_overflow; Expr *x = sg ? M.SExt(a, W2) : M.ZExt(a, W2), *y = sg ? M.SExt(b, W2) : M.ZExt(b, W2); Expr* wide = id == Intrinsic::sadd_with_overflow ? M.Add(x, y) : id == Intrinsic::ssub_with_overflow ? M.Sub(x, y) : M.Mul(x, y); Expr* lo = id == Intrinsic::sadd_with_overflow ? M.Add(a, b) : id == Intrinsic::ssub_with_overflow ? M.Sub(a, b) : M.Mul(a, b);
      return ov(lo, M.Not(M.Eq(sg ? M.SExt(lo, W2) : M.ZExt(lo, W2), wide))); }
    case Intrinsic::usub_sat: { Expr *a = E(0), *b = E(1); return ret(M.Ite(M.Ult(a, b), M.C(a->w, 0), M.Sub(a, b))); }
    case Intrinsic::uadd_sat: { Expr *a = E(0), *b = E(1), *r = M.Add(a, b); return ret(M.Ite(M.Ult(r, a), M.C(a->w, maskw(a->w)), r)); }
    case Intrinsic::fabs: return ret(M.FAbs(E(0))); case Intrinsic::sqrt: return ret(M.FSqrt(E(0)));
    case Intrinsic::floor: return ret(M.FRound(E(0), 3)); case Intrinsic::ceil: return ret(M.FRound(E(0), 2)); case Intrinsic::trunc: return ret(M.FRound(E(0), 4)); case Intrinsic::round: return ret(M.FRound(E(0), 1)); case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return ret(M.FRound(E(0), 0));
    case Intrinsic::lround: case Intrinsic::llround: return ret(M.FPToSI(M.FRound(E(0), 1), W()));
    case Intrinsic::copysign: return ret(copysign_(E(0), E(1)));
    case Intrinsic::minnum: return ret(fminmax(E(0), E(1), true)); case Intrinsic::maxnum: return ret(fminmax(E(0), E(1), false));
    case Intrinsic::cos: return ret(mathFn(F_COS, E(0), nullptr)); case Intrinsic::sin: return ret(mathFn(F_SIN, E(0), nullptr)); case Intrinsic::exp: return ret(mathFn(F_EXP, E(0), nullptr)); case Intrinsic::exp2: return ret(mathFn(F_EXP2, E(0), nullptr)); case Intrinsic::log: return ret(mathFn(F_LOG, E(0), nullptr)); case Intrinsic::log2: return ret(mathFn(F_LOG2, E(0), nullptr)); case Intrinsic::log10: return ret(mathFn(F_LOG10, E(0), nullptr)); case Intrinsic::pow: return ret(mathFn(F_POW, E(0), E(1)));
    case Intrinsic::powi: return ret(mathFn(F_POW, E(0), M.SIToFP(E(1), E(0)->w)));
    case Intrinsic::fmuladd: return ret(M.FAdd(M.FMul(E(0), E(1)), E(2)));
    case Intrinsic::fma: { Expr *a = E(0), *b = E(1), *c = E(2); if (a->op == OConst && b->op == OConst && c->op == OConst && a->w == 64) return ret(M.C(64, dBits(std::fma(bitsD((u64)a->c), bitsD((u64)b->c), bitsD((u64)c->c))))); if (REAL) return ret(M.FAdd(M.FMul(a, b), c)); throw Unsupported("symbolic fma"); }
    case Intrinsic::is_fpclass: { Expr* a = E(0); u64 m = (u64)E(1)->c; unsigned w = a->w; Expr* inf = M.C(w, w == 64 ? dBits(INFINITY) : fBits(INFINITY)); Expr* ab = M.FAbs(a); Expr* r = M.F();
      if ((m & 3) == 3) r = M.Or(r, M.fcmp(OFUno, a, a)); else if (m & 3) throw Unsupported("fpclass nan kind");
      Expr* neg = REAL ? M.fcmp(OFLt, a, M.C(w, 0)) : M.Eq(M.Extract(a, w - 1, 1), M.C(1, 1));
      if (m & 0x4) r = M.Or(r, M.And(M.fcmp(OFEq, ab, inf), neg)); if (m & 0x200) r = M.Or(r, M.And(M.fcmp(OFEq, ab, inf), M.Not(neg)));
      if (m & 0x20) r = M.Or(r, M.And(M.fcmp(OFEq, ab, M.C(w, 0)), neg)); if (m & 0x40) r = M.Or(r, M.And(M.fcmp(OFEq, ab, M.C(w, 0)), M.Not(neg)));
      if (m & 0x198) { Expr* fin = M.And(M.fcmp(OFLt, ab, inf), M.fcmp(OFLt, M.C(w, 0), ab)); Expr* mn = M.C(w, w == 64 ? 0x0010000000000000ull : 0x00800000u); Expr* sub = M.fcmp(OFLt, ab, mn);
        if (m & 0x8) r = M.Or(r, M.And(M.And(fin, M.Not(sub)), neg)); if (m & 0x10) r = M.Or(r, M.And(M.And(fin, sub), neg)); if (m & 0x80) r = M.Or(r, M.And(M.And(fin, sub), M.Not(neg))); if (m & 0x100) r = M.Or(r, M.And(M.And(fin, M.Not(sub)), M.Not(neg))); }
      return ret(r); }
    case Intrinsic::trap: case Intrinsic::ubsantrap: fail(S, "abort", "trap");
    case Intrinsic::eh_typeid_for: { u64 a = concretize(S, E(0)); return ret(M.C(32, typeId(a))); }
    case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: return true;
    default: throw Unsupported("intrinsic " + std::string(Intrinsic::getBaseName(id)));
  }
}

static void markSeen(PInst& q) {
  q.seen = true;
  for (const DILocation* d = q.I->getDebugLoc().get(); d; d = d->getInlinedAt()) { auto* sp = d->getScope()->getSubprogram(); if (sp && sp->getFilename().contains("/include/bwsl/")) { StringRef fn = sp->getFilename(); fn = fn.substr(fn.find("/include/bwsl/") + 14); funcsSeen.insert((fn + ":" + sp->getName()).str()); } }
  auto* sp = q.I->getFunction()->getSubprogram(); if (sp && sp->getFilename().contains("/include/bwsl/")) { StringRef fn = sp->getFilename(); fn = fn.substr(fn.find("/include/bwsl/") + 14); funcsSeen.insert((fn + ":" + sp->getName()).str()); } }

static Val elementwise(const Val& a, const Val* b, const std::function<Expr*(Expr*, Expr*)>& f) {
  if (!a.agg) return mkv(f(a.e, b ? b->e : nullptr)); std::vector<Val> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(elementwise((*a.agg)[i], b ? &(*b->agg)[i] : nullptr, f)); return mka(v); }
static Expr* castE(State& S, unsigned opc, Expr* a, unsigned w) {
  switch (opc) {
    case Instruction::Trunc: return M.Extract(a, 0, w); case Instruction::ZExt: return M.ZExt(a, w); case Instruction::SExt: return M.SExt(a, w);
    case Instruction::PtrToInt: case Instruction::IntToPtr: return a->w >= w ? M.Extract(a, 0, w) : M.ZExt(a, w);
    case Instruction::BitCast: return a; case Instruction::FPExt: case Instruction::FPTrunc: return M.FCvt(a, w);
    case Instruction::SIToFP: return M.SIToFP(a, w); case Instruction::UIToFP: return M.UIToFP(a, w);
    case Instruction::FPToSI: case Instruction::FPToUI: {
      bool sg = opc == Instruction::FPToSI; ::View v; bool viewOk = M.getView(a, a->w, v) && v.s == 0;
      if (!REAL && a->w != 80 && !viewOk) { double hi = std::ldexp(1.0, sg ? w - 1 : w), lo = sg ? -hi : -1.0; Expr* H = a->w == 64 ? M.C(64, dBits(hi)) : M.C(32, fBits((float)hi)); Expr* ok;
        Expr* L = a->w == 64 ? M.C(64, dBits(lo)) : M.C(32, fBits((float)lo));
        if (sg && w == 64) ok = M.And(M.fcmp(OFLe, L, a), M.fcmp(OFLt, a, H)); else { if (sg && a->w == 64) L = M.C(64, dBits(lo - 1)); ok = M.And(M.fcmp(OFLt, L, a), M.fcmp(OFLt, a, H)); }
        if (!decide(S, ok)) fail(S, "ub", "floating-point value out of range of the integer type"); }
      return sg ? M.FPToSI(a, w) : M.FPToUI(a, w); }
    default: throw Unsupported("cast"); }
}
static Type* scalarT(Type* t) { return t->isVectorTy() ? cast<VectorType>(t)->getElementType() : t; }

static void step(State& S) {
  Frame& f = S.frames.back(); PInst& q = f.f->blocks[f.bb].insts[f.ip];
  if (!q.seen) markSeen(q);
  nInstr++; S.steps++;
  Instruction* I = q.I;
  switch (q.opc) {
    case Instruction::Ret: { if (q.ops.empty()) popFrame(S, nullptr); else { Val v = opv(S, q.ops[0]); popFrame(S, &v); } return; }
    case Instruction::Br: { if (q.bb1 < 0) { gotoBB(S, q.bb0); return; } Expr* c = ope(S, q.ops[0]); bool v = decide(S, c); gotoBB(S, v ? q.bb0 : q.bb1); return; }
    case Instruction::Switch: { Expr* v = rewrite(S, ope(S, q.ops[0])); if (v->op != OConst && q.cases.size() > 40) v = M.C(v->w, concretize(S, v));
      if (v->op == OConst) { for (auto& c : q.cases) if (c.first == v) { gotoBB(S, c.second); return; } gotoBB(S, q.bb0); return; }
      // group cases by destination
      std::map<int, Expr*> by; for (auto& c : q.cases) { Expr* x = M.Eq(v, c.first); auto it = by.find(c.second); if (it == by.end()) by[c.second] = x; else it->second = M.Or(it->second, x); }
      for (auto& p : by) { if (p.first == q.bb0) continue; if (decide(S, p.second)) { gotoBB(S, p.first); return; } }
      gotoBB(S, q.bb0); return; }
    case Instruction::Unreachable: fail(S, "ub", "unreachable code executed");
    case Instruction::Resume: { const Val& v = opv(S, q.ops[0]); u64 x = concretize(S, (*v.agg)[0].e); // leave this frame
      Frame g = std::move(S.frames.back()); S.frames.pop_back(); dropStack(S, g.nstack, g.stackTop); if (S.frames.empty()) { nUncaught++; report(S, "uncaught", "uncaught exception", S.model); throw Killed(); } unwind(S, x); return; }
    case Instruction::Call: case Instruction::Invoke: {
      auto* cb = cast<CallBase>(I); Function* F = q.callee;
      if (!F) { if (cb->isInlineAsm()) { finish(S, q); return; } u64 a = concretize(S, ope(S, q.ops[q.nargs])); if (a < FN_BASE || (a - FN_BASE) / 16 >= fnByIdx.size() || (a - FN_BASE) % 16) fail(S, "memory", "call through an invalid function pointer"); F = fnByIdx[(a - FN_BASE) / 16]; }
      if (F->isIntrinsic()) { if (intrinsic(S, q, F->getIntrinsicID())) finish(S, q); return; }
      std::vector<Val> A; for (int i = 0; i < q.nargs; i++) A.push_back(opv(S, q.ops[i]));
      static std::set<std::string> prefer = {"vp_assume", "memcpy", "memmove", "memset", "memcmp", "strlen", "bcmp", "memchr"};
      if (F->isDeclaration()) { std::string n = F->getName().str(); externs.insert(n); size_t nf = S.frames.size(); int bb = S.frames.back().bb, ip = S.frames.back().ip; (void)nf; (void)bb; (void)ip; if (builtin(S, q, n, A)) finish(S, q); return; }
      pushFrame(S, F, A); return; }
    default: break;
  }
  Val r;
  switch (q.opc) {
    case Instruction::Alloca: { auto* ai = cast<AllocaInst>(I); u64 sz = DL->getTypeAllocSize(ai->getAllocatedType()); u64 n = concretize(S, ope(S, q.ops[0])); r = mkv(M.C(64, newObj(S, 1, sz * n, false)->base)); break; }
    case Instruction::Load: r = loadV(S, ope(S, q.ops[0]), I->getType()); break;
    case Instruction::Store: storeV(S, ope(S, q.ops[1]), opv(S, q.ops[0]), I->getOperand(0)->getType()); S.frames.back().ip++; return;
    case Instruction::GetElementPtr: { Expr* p = ope(S, q.ops[0]); Expr* off = M.C(64, q.coff); for (auto& ix : q.idx) { Expr* i = ope(S, q.ops[ix.first]); i = i->w < 64 ? M.SExt(i, 64) : i->w > 64 ? M.Extract(i, 0, 64) : i; off = M.Add(off, M.Mul(i, M.C(64, (u64)ix.second))); } r = mkv(M.Add(p, off)); break; }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      Val a = opv(S, q.ops[0]), b = opv(S, q.ops[1]);
      if (b.e && (b.e->op == OConst ? b.e->c == 0 : true)) { if (b.e->op == OConst || decide(S, M.Eq(b.e, M.C(b.e->w, 0)))) fail(S, "ub", "integer division by zero"); }
      unsigned opc = q.opc; if ((opc == Instruction::SDiv || opc == Instruction::SRem) && a.e && a.e->w <= 64 && a.e->slo == sminw(a.e->w) && b.e->slo <= -1 && b.e->shi >= -1 && a.e->w >= 32) { Expr* o = M.And(M.Eq(a.e, M.C(a.e->w, (u128)1 << (a.e->w - 1))), M.Eq(b.e, M.C(b.e->w, maskw(b.e->w)))); if (decide(S, o)) fail(S, "ub", "integer division overflow"); }
      r = elementwise(a, &b, [&](Expr* x, Expr* y) { return binop(opc, x, y); }); break; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { const Val &a = opv(S, q.ops[0]), &b = opv(S, q.ops[1]); if (a.e) r = mkv(binop(q.opc, a.e, b.e)); else r = elementwise(a, &b, [&](Expr* x, Expr* y) { return binop(q.opc, x, y); }); break; }
    case Instruction::FNeg: { const Val& a = opv(S, q.ops[0]); r = elementwise(a, nullptr, [&](Expr* x, Expr*) { return M.FNeg(x); }); break; }
    case Instruction::ICmp: { auto p = cast<ICmpInst>(I)->getPredicate(); const Val &a = opv(S, q.ops[0]), &b = opv(S, q.ops[1]); r = elementwise(a, &b, [&](Expr* x, Expr* y) { return icmpP(p, x, y); }); break; }
    case Instruction::FCmp: { auto p = cast<FCmpInst>(I)->getPredicate(); const Val &a = opv(S, q.ops[0]), &b = opv(S, q.ops[1]); r = elementwise(a, &b, [&](Expr* x, Expr* y) { return fcmpP(p, x, y); }); break; }
    case Instruction::Select: { const Val& c = opv(S, q.ops[0]); if (c.agg) { std::vector<Val> v; const Val &a = opv(S, q.ops[1]), &b = opv(S, q.ops[2]); for (size_t i = 0; i < c.agg->size(); i++) v.push_back(iteV((*c.agg)[i].e, (*a.agg)[i], (*b.agg)[i])); r = mka(v); } else { Expr* ce = rewrite(S, c.e); r = iteV(ce, opv(S, q.ops[1]), opv(S, q.ops[2])); } break; }
    case Instruction::Freeze: r = opv(S, q.ops[0]); break;
    case Instruction::ExtractValue: { const Val* v = &opv(S, q.ops[0]); for (unsigned i : cast<ExtractValueInst>(I)->indices()) v = &(*v->agg)[i]; r = *v; break; }
    case Instruction::InsertValue: { std::vector<unsigned> ix(cast<InsertValueInst>(I)->idx_begin(), cast<InsertValueInst>(I)->idx_end()); Val v = opv(S, q.ops[0]); Val x = opv(S, q.ops[1]); std::function<Val(const Val&, size_t)> ins = [&](const Val& o, size_t d) -> Val { if (d == ix.size()) return x; std::vector<Val> c = *o.agg; c[ix[d]] = ins(c[ix[d]], d + 1); return mka(c); }; r = ins(v, 0); break; }
    case Instruction::ExtractElement: { u64 i = concretize(S, ope(S, q.ops[1])); r = (*opv(S, q.ops[0]).agg)[i]; break; }
    case Instruction::InsertElement: { u64 i = concretize(S, ope(S, q.ops[2])); std::vector<Val> c = *opv(S, q.ops[0]).agg; c[i] = opv(S, q.ops[1]); r = mka(c); break; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(I); std::vector<Val> a = *opv(S, q.ops[0]).agg, b = *opv(S, q.ops[1]).agg, c; for (int m : sv->getShuffleMask()) c.push_back(m < 0 ? a[0] : (size_t)m < a.size() ? a[m] : b[m - a.size()]); r = mka(c); break; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
      Val a = opv(S, q.ops[0]); if (q.opc == Instruction::BitCast && (isAgg(I->getType()) || a.agg)) { Type *st = I->getOperand(0)->getType(), *dt = I->getType(); if (isAgg(st) != isAgg(dt) || (isAgg(st) && aggN(st) != aggN(dt))) { // via bytes
          Obj o; o.size = DL->getTypeStoreSize(st); o.cells.assign(o.size, Cell{nullptr, 0}); std::function<void(const Val&, Type*, u64)> put = [&](const Val& v, Type* t, u64 off) { if (v.agg) for (unsigned i = 0; i < aggN(t); i++) put((*v.agg)[i], aggT(t, i), off + aggOff(t, i)); else writeBytes(o, off, v.e); }; put(a, st, 0);
          std::function<Val(Type*, u64)> get = [&](Type* t, u64 off) -> Val { if (isAgg(t)) { std::vector<Val> v; for (unsigned i = 0; i < aggN(t); i++) v.push_back(get(aggT(t, i), off + aggOff(t, i))); return mka(v); } return mkv(readBytes(o, off, (tw(t) + 7) / 8, tw(t))); }; r = get(dt, 0); break; } r = a; break; }
      unsigned w = tw(scalarT(I->getType())); r = elementwise(a, nullptr, [&](Expr* x, Expr*) { return castE(S, q.opc, x, w); }); break; }
    case Instruction::AtomicRMW: { auto* rm = cast<AtomicRMWInst>(I); Expr* p = ope(S, q.ops[0]); Expr* v = ope(S, q.ops[1]); Expr* o = loadE(S, p, v->w); Expr* nv; switch (rm->getOperation()) { case AtomicRMWInst::Add: nv = M.Add(o, v); break; case AtomicRMWInst::Sub: nv = M.Sub(o, v); break; case AtomicRMWInst::Xchg: nv = v; break; default: throw Unsupported("atomicrmw"); } storeE(S, p, nv); r = mkv(o); break; }
    case Instruction::Fence: S.frames.back().ip++; return;
    default: throw Unsupported(std::string("instruction ") + I->getOpcodeName());
  }
  Frame& ff = S.frames.back(); if (q.dst >= 0) ff.regs[q.dst] = std::move(r); ff.ip++;
}

static std::string fmtD(double d) { char b[40]; if (std::isnan(d)) return "nan"; snprintf(b, sizeof b, "%.17g", d); return b; }
static void endPath(State& S, const char*) {
  nDone++;
  // reservoir of sample paths for native cross-validation
  static u64 rng = 88172645463325252ull ^ (SEED * 0x9E3779B97F4A7C15ull); rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  size_t slot; if (samples.size() < (size_t)NSAMPLES) { slot = samples.size(); samples.emplace_back(); } else { slot = rng % nDone; if (slot >= samples.size()) return; }
  fullModel(S);
  Sample s; s.in = inputsOf(S, S.model);
  if (!REAL) for (auto& o : S.obs) { bool un = false; for (auto v : *o.e->vars) if (M.vars[v].internal) un = true; if (un) { s.obs.push_back({o.label, "?"}); continue; } u128 v = M.ev(o.e, S.model); if (o.kind == 0) s.obs.push_back({o.label, std::to_string((i64)sx(v, o.e->w))}); else s.obs.push_back({o.label, fmtD(o.e->w == 64 ? bitsD((u64)v) : bitsF((uint32_t)v))}); }
  samples[slot] = s; }

static void runState(StateP S) {
  nPaths++;
  try {
    while (!S->frames.empty()) {
      if (S->steps > MAXSTEPS) { fullModel(*S); report(*S, "steps", "step limit (possible non-termination)", S->model); throw Killed(); }
      if ((nInstr & 1023) == 0 && timeUp()) { incomplete("time limit"); throw Killed(); }
      step(*S);
    }
    endPath(*S, "ret");
  } catch (Killed&) {
  } catch (Unsupported& u) { incomplete(std::string("unsupported: ") + u.what() + " in " + whereAmI(*S)); }
}

static std::string esc(const std::string& s) { std::string r; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; } else r += ch; } return r; }
static std::string inJson(const std::vector<std::pair<Input, u64>>& in) { std::string o = "["; for (auto& p : in) { if (o.size() > 1) o += ","; unsigned w = M.vars[p.first.var].w; std::string val; if (p.first.kind == 1) val = std::to_string((i64)sx(p.second, w)); else if (p.first.kind == 0) val = std::to_string((u64)(p.second & umaxw(w))); else if (p.first.kind == 2) val = fmtD(bitsD(p.second)); else val = fmtD(bitsF((uint32_t)p.second)); char hx[24]; snprintf(hx, sizeof hx, "%llx", (unsigned long long)(p.second)); o += "{\"name\":\"" + esc(p.first.name) + "\",\"kind\":" + std::to_string(p.first.kind) + ",\"value\":\"" + val + "\",\"bits\":\"" + hx + "\"}"; } return o + "]"; }

static int ARGC; static char** ARGV;
static int realMain() {
  std::string file, entry; SMDiagnostic err; LLVMContext ctx;
  for (int i = 1; i < ARGC; i++) { std::string a = ARGV[i]; auto val = [&](const char* k) { size_t n = strlen(k); return a.compare(0, n, k) == 0 ? a.substr(n) : std::string("\1"); }; std::string v;
    if ((v = val("--entry=")) != "\1") entry = v; else if ((v = val("--param=")) != "\1") { size_t p = v.find('='); PARAMS[v.substr(0, p)] = strtoll(v.c_str() + p + 1, nullptr, 0); }
    else if ((v = val("--max-steps=")) != "\1") MAXSTEPS = strtoull(v.c_str(), nullptr, 0); else if ((v = val("--max-paths=")) != "\1") MAXPATHS = strtoull(v.c_str(), nullptr, 0); else if ((v = val("--max-time=")) != "\1") MAXTIME = atof(v.c_str());
    else if (a == "--trace") TRACE = true; else if (a == "--real") REAL = true; else if ((v = val("--samples=")) != "\1") NSAMPLES = atoi(v.c_str()); else if ((v = val("--seed=")) != "\1") SEED = strtoull(v.c_str(), nullptr, 0);
    else if ((v = val("--qtime=")) != "\1") ; else if ((v = val("--dump=")) != "\1") ; else if ((v = val("--xtime=")) != "\1") ; else file = a; }
  T0 = nowS(); auto mod = parseIRFile(file, err, ctx); if (!mod) { fprintf(stderr, "cannot read %s: %s\n", file.c_str(), err.getMessage().str().c_str()); return 2; }
  MOD = mod.get(); DL = &MOD->getDataLayout(); M.realMode = REAL; Solver sv(M); SV = &sv; sv.real = REAL;
  for (int i = 1; i < ARGC; i++) { std::string a = ARGV[i]; if (a.compare(0, 8, "--qtime=") == 0) sv.tmo = atof(a.c_str() + 8) * 1000; if (a.compare(0, 8, "--xtime=") == 0) sv.tmoExt = atof(a.c_str() + 8) * 1000; if (a.compare(0, 7, "--dump=") == 0) sv.dumpDir = a.substr(7); }
  auto S = std::make_unique<State>(); S->model.stamp = M.nextStamp++;
  std::vector<GlobalVariable*> gs; for (auto& g : MOD->globals()) { if (g.getName().starts_with("llvm.")) continue; u64 sz = g.isDeclaration() ? std::max<u64>(64, DL->getTypeAllocSize(g.getValueType())) : (u64)DL->getTypeAllocSize(g.getValueType()); if (g.hasExternalWeakLinkage() && g.isDeclaration()) { gaddr[&g] = 0; continue; } auto o = newObj(*S, 0, sz, true); gaddr[&g] = o->base; gs.push_back(&g); }
  for (auto* g : gs) if (g->hasInitializer()) { Loc l; findObj(*S, gaddr[g], l); try { initConst(mutObj(*S, l), 0, g->getInitializer()); } catch (Unsupported& u) { unsupported.insert(std::string("global init ") + g->getName().str() + ": " + u.what()); } if (g->isConstant()) mutObj(*S, l).ro = true; }
  Function* F = MOD->getFunction(entry); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  // global constructors, then the harness
  std::vector<std::pair<u64, Function*>> ctors; if (auto* gc = MOD->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  try { for (auto& c : ctors) { pushFrame(*S, c.second, {}); while (!S->frames.empty()) step(*S); } } catch (Killed&) { fprintf(stderr, "global constructors failed\n"); return 2; } catch (Unsupported& u) { fprintf(stderr, "global constructors: unsupported %s in %s\n", u.what(), whereAmI(*S).c_str()); return 2; }
  S->steps = 0; nInstr = 0; pushFrame(*S, F, {}); work.push_back(std::move(S));
  while (!work.empty()) {
    if (timeUp()) { incomplete("time limit"); break; } if (nPaths >= MAXPATHS) { incomplete("path limit"); break; }
    if (viols.size() >= 12) { incomplete("stopped after violations"); break; }
    StateP s = std::move(work.back()); work.pop_back(); runState(std::move(s)); }
  printf("{\"entry\":\"%s\",\"real\":%s,\"paths\":%llu,\"completed\":%llu,\"assumed_away\":%llu,\"forks\":%llu,\"instructions\":%llu,\"queries\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"external\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\n", entry.c_str(), REAL ? "true" : "false", (unsigned long long)nPaths, (unsigned long long)nDone, (unsigned long long)nAssumed, (unsigned long long)nForks, (unsigned long long)nInstr, (unsigned long long)sv.nq, (unsigned long long)sv.ncache, (unsigned long long)sv.nmodelhit, (unsigned long long)sv.nsat, (unsigned long long)sv.nunsat, (unsigned long long)sv.nunk, (unsigned long long)sv.next_, sv.tsolve, sv.tmax, nowS() - T0);
  printf("\"asserts\":{"); bool first = true; for (auto& a : asserts) { printf("%s\"%s\":{\"checked\":%llu,\"trivial\":%llu,\"proved\":%llu,\"failed\":%llu,\"unknown\":%llu}", first ? "" : ",", esc(a.first).c_str(), (unsigned long long)a.second.checked, (unsigned long long)a.second.trivial, (unsigned long long)a.second.proved, (unsigned long long)a.second.failed, (unsigned long long)a.second.unknown); first = false; }
  printf("},\n\"covers\":{"); first = true; for (auto& a : covers) { printf("%s\"%s\":%llu", first ? "" : ",", esc(a.first).c_str(), (unsigned long long)a.second); first = false; }
  printf("},\n\"incomplete\":{"); first = true; for (auto& a : incompletes) { printf("%s\"%s\":%llu", first ? "" : ",", esc(a.first).c_str(), (unsigned long long)a.second); first = false; }
  printf("},\n\"unsupported\":["); first = true; for (auto& a : unsupported) { printf("%s\"%s\"", first ? "" : ",", esc(a).c_str()); first = false; }
  printf("],\n\"functions\":["); first = true; for (auto& a : funcsSeen) { printf("%s\"%s\"", first ? "" : ",", esc(a).c_str()); first = false; }
  printf("],\n\"externs\":["); first = true; for (auto& a : externs) { printf("%s\"%s\"", first ? "" : ",", esc(a).c_str()); first = false; }
  printf("],\n\"violations\":["); first = true; for (auto& v : viols) { printf("%s{\"kind\":\"%s\",\"label\":\"%s\",\"where\":\"%s\",\"inputs\":%s}", first ? "" : ",\n", esc(v.kind).c_str(), esc(v.label).c_str(), esc(v.where).c_str(), inJson(v.in).c_str()); first = false; }
  printf("],\n\"samples\":["); first = true; for (auto& s : samples) { printf("%s{\"inputs\":%s,\"obs\":[", first ? "" : ",\n", inJson(s.in).c_str()); bool f2 = true; for (auto& o : s.obs) { printf("%s[\"%s\",\"%s\"]", f2 ? "" : ",", esc(o.first).c_str(), esc(o.second).c_str()); f2 = false; } printf("]}"); first = false; }
  printf("]}\n"); fflush(stdout); _exit(0);
}
static int RC = 2;
static void* thr(void*) { RC = realMain(); return nullptr; }
int main(int argc, char** argv) { ARGC = argc; ARGV = argv; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, (size_t)2 << 30); pthread_t t; if (pthread_create(&t, &a, thr, nullptr)) { perror("thread"); return 2; } pthread_join(t, nullptr); return RC; }
