// Symbolic executor for LLVM IR with state merging.
#include "exec.h"
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <cmath>
#include <cstdio>
#include <functional>
#include <algorithm>
#include <unordered_set>
#include <sys/resource.h>
#include <cfloat>
#include <unistd.h>

namespace sx {
using namespace llvm;

static Module* M; static const DataLayout* DL;
static std::unordered_map<const Function*, DFunc*> fmap;
static std::unordered_map<uint64_t, DFunc*> faddr;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, std::string> gname;
static std::map<std::string, std::string> params;
static std::vector<Violation> violations;
static std::map<std::string, uint64_t> inconclusive;
static std::map<std::string, uint64_t> cuts;
struct ReachRec { TRP trace; ModelP model; PCP pc; uint64_t n = 0; };
static std::map<std::string, ReachRec> reached;
struct AssertRec { uint64_t n = 0, proved = 0, failed = 0, unknown = 0; };
static std::map<std::string, AssertRec> asserts;
static std::set<const DISubprogram*> touched;
static uint64_t nInst = 0, nForks = 0, nMerges = 0, nRefused = 0, nStatesEnd = 0, maxInst = 4000000000ull, nCalls = 0;
static double tStart, tBudget = 600;
static unsigned loopCap = 64, addrCap = 300, forceMergeAt = 48; static bool noMerging = false; // noMerging: follow every path on its own
static bool trackDbg = true, debugMerge = false;
static std::set<std::string> coveredBlocks;
static uint64_t undefVars = 0;

struct Kill {};
struct CxxThrow { Exc ex; };

static unsigned widthOf(Type* t) {
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); return w; }
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 64; // approximated by double
  return 0;
}
static bool isAggTy(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy() || (t->isIntegerTy() && t->getIntegerBitWidth() > 64); }
static unsigned aggN(Type* t) {
  if (auto* s = dyn_cast<StructType>(t)) return s->getNumElements();
  if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements();
  if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
  if (t->isIntegerTy()) return (t->getIntegerBitWidth() + 63) / 64;
  return 0;
}
static Type* aggT(Type* t, unsigned i) {
  if (auto* s = dyn_cast<StructType>(t)) return s->getElementType(i);
  if (auto* a = dyn_cast<ArrayType>(t)) return a->getElementType();
  if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getElementType();
  unsigned w = t->getIntegerBitWidth(); return IntegerType::get(t->getContext(), std::min(64u, w - 64 * i));
}
static uint64_t aggOff(Type* t, unsigned i) {
  if (auto* s = dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i);
  if (auto* a = dyn_cast<ArrayType>(t)) return i * DL->getTypeAllocSize(a->getElementType());
  if (auto* v = dyn_cast<FixedVectorType>(t)) { uint64_t bits = DL->getTypeSizeInBits(v->getElementType()); if (bits % 8) throw Unsupported("sub-byte vector in memory"); return i * bits / 8; }
  return 8 * i;
}
static Val zeroOf(Type* t) {
  if (isAggTy(t)) { std::vector<Val> v; for (unsigned i = 0; i < aggN(t); i++) v.push_back(zeroOf(aggT(t, i))); return Val::agg(std::move(v)); }
  return Val(0);
}
static Val constVal(const Constant* c);
static uint64_t constInt(const Constant* c) { Val v = constVal(c); if (!v.conc()) throw Unsupported("non-scalar constant"); return v.c; }
static Val constVal(const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue());
    std::vector<Val> v; for (unsigned i = 0; i < aggN(t); i++) v.push_back(Val(ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth() - 64 * i), 64 * i))); return Val::agg(std::move(v));
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (t->isX86_FP80Ty()) { APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return Val(f.bitcastToAPInt().getZExtValue()); }
    return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue());
  }
  if (isa<ConstantPointerNull>(c)) return Val(0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(t);
  if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
  if (auto* g = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) throw Unsupported("unknown global " + g->getName().str()); return Val(it->second); }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(constVal(ca->getOperand(i))); return Val::agg(std::move(v)); }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i))); return Val::agg(std::move(v)); }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported("constant gep"); return Val(constInt(ce->getOperand(0)) + off.getZExtValue()); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return Val(constInt(ce->getOperand(0)) & maskw(widthOf(t)));
    case Instruction::Trunc: return Val(constInt(ce->getOperand(0)) & maskw(widthOf(t)));
    case Instruction::Add: return Val((constInt(ce->getOperand(0)) + constInt(ce->getOperand(1))) & maskw(widthOf(t)));
    case Instruction::Sub: return Val((constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & maskw(widthOf(t)));
    case Instruction::ICmp: { uint64_t a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1)); auto p = (CmpInst::Predicate)ce->getPredicate(); if (p == CmpInst::ICMP_EQ) return Val(a == b); if (p == CmpInst::ICMP_NE) return Val(a != b); throw Unsupported("const icmp"); }
    default: throw Unsupported(std::string("constant expression ") + ce->getOpcodeName());
    }
  }
  throw Unsupported("constant kind");
}

// ------------------------------------------------------------------ decode
enum { X_NONE = 0 };
static int nativeId(const std::string& n);
static void decode(DFunc* d) {
  d->decoded = true;
  Function& F = *d->f;
  std::unordered_map<const Value*, int> slot;
  for (auto& a : F.args()) slot[&a] = d->nslots++;
  for (auto& bb : F) for (auto& i : bb) if (!i.getType()->isVoidTy()) slot[&i] = d->nslots++;
  DominatorTree DT(F); LoopInfo LI(DT);
  ReversePostOrderTraversal<Function*> RPO(&F);
  std::unordered_map<const BasicBlock*, int> bix; int n = 0;
  std::vector<BasicBlock*> order;
  for (BasicBlock* bb : RPO) { bix[bb] = n++; order.push_back(bb); }
  d->b.resize(n);
  std::unordered_map<const Loop*, int> lix;
  for (Loop* l : LI.getLoopsInPreorder()) { lix[l] = d->nloops++; d->loopHeadRpo.push_back(bix[l->getHeader()]); }
  auto opnd = [&](Value* v) { Opnd o; if (auto* c = dyn_cast<Constant>(v)) o.k = constVal(c); else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) {} else o.slot = slot.at(v); return o; };
  for (int bi = 0; bi < n; bi++) {
    BasicBlock* bb = order[bi]; DBlock& B = d->b[bi]; B.bb = bb; B.rpo = bi;
    std::vector<int> ls; for (Loop* l = LI.getLoopFor(bb); l; l = l->getParentLoop()) ls.push_back(lix[l]);
    std::reverse(ls.begin(), ls.end()); B.loops = ls;
    auto edge = [&](BasicBlock* to) -> int {
      for (size_t k = 0; k < B.edges.size(); k++) if (order[B.edges[k].to] == to) return k;
      Edge e; e.from = bi; e.to = bix.at(to);
      for (auto& phi : to->phis()) e.phis.push_back({slot.at(&phi), opnd(phi.getIncomingValueForBlock(bb))});
      // loop transitions
      Loop* lf = LI.getLoopFor(bb); Loop* lt = LI.getLoopFor(to);
      for (Loop* l = lt; l; l = l->getParentLoop()) { if (!l->contains(bb)) e.enters.push_back(lix[l]); else if (l->getHeader() == to) e.backs.push_back(lix[l]); }
      (void)lf;
      B.edges.push_back(std::move(e)); return B.edges.size() - 1;
    };
    for (auto& I : *bb) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      DInst x; x.op = I.getOpcode(); x.I = &I; x.ty = I.getType();
      if (!I.getType()->isVoidTy()) { x.dst = slot.at(&I); x.w = isAggTy(x.ty) ? 0 : widthOf(x.ty); }
      try {
      switch (I.getOpcode()) {
      case Instruction::Br: { auto* br = cast<BranchInst>(&I); if (br->isConditional()) x.o.push_back(opnd(br->getCondition())); for (unsigned k = 0; k < br->getNumSuccessors(); k++) x.succ.push_back(edge(br->getSuccessor(k))); break; }
      case Instruction::Switch: { auto* sw = cast<SwitchInst>(&I); x.o.push_back(opnd(sw->getCondition())); x.wa = widthOf(sw->getCondition()->getType()); x.succ.push_back(edge(sw->getDefaultDest())); for (auto& c : sw->cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); x.succ.push_back(edge(c.getCaseSuccessor())); } break; }
      case Instruction::GetElementPtr: {
        auto* g = cast<GetElementPtrInst>(&I);
        if (g->getType()->isVectorTy()) throw Unsupported("vector gep");
        x.o.push_back(opnd(g->getPointerOperand()));
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value* ix = it.getOperand();
          if (StructType* st = it.getStructTypeOrNull()) { x.gepC += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(ix)) { x.gepC += ci->getSExtValue() * sz; continue; }
          Opnd o = opnd(ix); x.gep.push_back({(int)x.o.size(), sz, widthOf(ix->getType())}); x.o.push_back(o);
        }
        break; }
      case Instruction::Call: case Instruction::Invoke: {
        auto* cb = cast<CallBase>(&I);
        for (auto& a : cb->args()) x.o.push_back(opnd(a.get()));
        if (auto* inv = dyn_cast<InvokeInst>(&I)) { x.succ.push_back(edge(inv->getNormalDest())); x.succ.push_back(edge(inv->getUnwindDest())); }
        if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { x.intrin = ii->getIntrinsicID(); break; }
        if (cb->isInlineAsm()) { x.native = nativeId("__inline_asm"); break; }
        Value* cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
        if (auto* f = dyn_cast<Function>(cv)) x.callee = fmap.at(f);
        else { x.sub = x.o.size(); x.o.push_back(opnd(cb->getCalledOperand())); }
        break; }
      default:
        for (auto& op : I.operands()) x.o.push_back(opnd(op.get()));
        if (!x.o.empty() && !isAggTy(I.getOperand(0)->getType())) x.wa = widthOf(I.getOperand(0)->getType());
        if (auto* c = dyn_cast<CmpInst>(&I)) x.sub = c->getPredicate();
        break;
      }
      } catch (Unsupported& u) { x.op = 9999; x.native = 0; }
      B.ins.push_back(std::move(x));
    }
  }
  // liveness
  for (auto& B : d->b) B.liveIn.assign(d->nslots, 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (int bi = n - 1; bi >= 0; bi--) {
      DBlock& B = d->b[bi]; std::vector<char> live(d->nslots, 0);
      for (auto& e : B.edges) {
        std::vector<char> t = d->b[e.to].liveIn;
        for (auto& p : e.phis) t[p.dst] = 0;
        for (auto& p : e.phis) if (d->b[e.to].liveIn[p.dst] && p.src.slot >= 0) t[p.src.slot] = 1;
        for (int k = 0; k < d->nslots; k++) live[k] |= t[k];
      }
      for (int k = (int)B.ins.size() - 1; k >= 0; k--) { if (B.ins[k].dst >= 0) live[B.ins[k].dst] = 0; for (auto& o : B.ins[k].o) if (o.slot >= 0) live[o.slot] = 1; }
      if (live != B.liveIn) { B.liveIn = live; ch = true; }
    }
  }
}
static const std::vector<char>& liveAt(DFunc* d, int bi, int ip) {
  DBlock& B = d->b[bi];
  if (ip == 0) return B.liveIn;
  auto& r = d->liveAt[{bi, ip}];
  if (!r.empty() || d->nslots == 0) return r;
  std::vector<char> live(d->nslots, 0);
  for (auto& e : B.edges) { std::vector<char> t = d->b[e.to].liveIn; for (auto& p : e.phis) t[p.dst] = 0; for (auto& p : e.phis) if (p.src.slot >= 0) t[p.src.slot] = 1; for (int k = 0; k < d->nslots; k++) live[k] |= t[k]; }
  for (int k = (int)B.ins.size() - 1; k >= ip; k--) { if (B.ins[k].dst >= 0) live[B.ins[k].dst] = 0; for (auto& o : B.ins[k].o) if (o.slot >= 0) live[o.slot] = 1; }
  return r = live;
}

// ------------------------------------------------------------------ path condition helpers
static void addPC(State& s, E c) { if (isTrue(c)) return; auto n = std::make_shared<PC>(); n->c = c; n->up = s.pc; n->depth = s.pc ? s.pc->depth + 1 : 1; s.pc = n; }
static void assumePC(State& s, E c) { if (c->op == AND && c->w == 1) { assumePC(s, c->a); assumePC(s, c->b); } else addPC(s, c); }
static PC* lca(PC* a, PC* b) { while (a != b) { int da = a ? a->depth : 0, db = b ? b->depth : 0; if (da >= db) a = a->up.get(); else b = b->up.get(); } return a; }
static int lcaDepth(const State& a, const State& b) { PC* p = lca(a.pc.get(), b.pc.get()); return p ? p->depth : 0; }

static TRP tr(State& s, TR::K k, const std::string& n, E e, uint64_t x = 0) { auto t = std::make_shared<TR>(); t->k = k; t->name = n; t->e = e; t->x = x; t->up = s.trace; t->depth = s.trace ? s.trace->depth + 1 : 1; s.trace = t; return t; }
static TRP trLca(TRP a, TRP b) { while (a != b) { int da = a ? a->depth : 0, db = b ? b->depth : 0; if (da >= db) a = a->up; else b = b->up; } return a; }

static bool valPtrConflict(const Val& a, const Val& b) {
  if (a.a || b.a) { if (!a.a || !b.a || a.a->size() != b.a->size()) return true; for (size_t i = 0; i < a.a->size(); i++) if (valPtrConflict((*a.a)[i], (*b.a)[i])) return true; return false; }
  return a.conc() && b.conc() && a.c != b.c && (ptrLike(a.c) || ptrLike(b.c));
}
static Val mergeVal(const Val& a, const Val& b, E g, Type* t) {
  if (a.a || b.a) {
    if (!a.a) return b; if (!b.a) return a;
    std::vector<Val> v; for (size_t i = 0; i < a.a->size(); i++) v.push_back(mergeVal((*a.a)[i], (*b.a)[i], g, aggT(t, i))); return Val::agg(std::move(v));
  }
  if (a.e == b.e && a.c == b.c) return a;
  unsigned w = a.e ? a.e->w : b.e ? b.e->w : widthOf(t);
  return Val::of(mkIte(g, toE(a, w), toE(b, w)));
}
// merge state b into a.
static bool mergeState(State& a, const State& b, bool force, E& gOut) {
  if (a.sp != b.sp || a.caught.size() != b.caught.size() || a.tid != b.tid || a.pin != b.pin) return false;
  for (size_t i = 0; i < a.caught.size(); i++) if (a.caught[i].obj != b.caught[i].obj) return false;
  PC* l = lca(a.pc.get(), b.pc.get());
  std::vector<E> xs, ys;
  PCP lp; 
  { PCP p = a.pc; while (p.get() != l) { xs.push_back(p->c); p = p->up; } lp = p; }
  { PC* p = b.pc.get(); while (p != l) { ys.push_back(p->c); p = p->up.get(); } }
  std::reverse(xs.begin(), xs.end()); std::reverse(ys.begin(), ys.end());
  auto conj = [](const std::vector<E>& v, size_t i) { E r = mkC(1, 1); for (; i < v.size(); i++) r = mkAnd(r, v[i]); return r; };
  E g, res;
  if (!xs.empty() && !ys.empty() && xs[0] == mkNot(ys[0])) { g = xs[0]; res = mkIte(g, conj(xs, 1), conj(ys, 1)); }
  else { g = conj(xs, 0); res = mkOr(g, conj(ys, 0)); }
  if (!mergeMem(a.mem, b.mem, g, force)) return false;
  a.pc = lp; addPC(a, res);
  if (a.trace != b.trace) {
    TRP t = trLca(a.trace, b.trace);
    if (t == a.trace && false) {}
    auto m = std::make_shared<TR>(); m->k = TR::MERGE; m->e = g; m->l = a.trace; m->r = b.trace; m->up = t; m->depth = std::max(a.trace ? a.trace->depth : 0, b.trace ? b.trace->depth : 0) + 1;
    // keep depth monotone w.r.t. the common ancestor
    a.trace = m;
  }
  a.hp = std::max(a.hp, b.hp); a.forks = std::max(a.forks, b.forks);
  std::vector<std::pair<E, uint64_t>> cs; for (auto& p : a.subst) if (std::find(b.subst.begin(), b.subst.end(), p) != b.subst.end()) cs.push_back(p); a.subst = cs;
  if (!a.model) a.model = b.model;
  gOut = g; nMerges++;
  return true;
}

// ------------------------------------------------------------------ violations
static std::string g_curFn;
static void report(State& s, const std::string& kind, const std::string& id, const std::string& msg, const ModelP& m, Instruction* I) {
  std::string where;
  if (I) { if (auto dl = I->getDebugLoc()) { where = dl->getFilename().str() + ":" + std::to_string(dl.getLine()); for (auto* ia = dl->getInlinedAt(); ia; ia = ia->getInlinedAt()) where += " < " + ia->getFilename().str() + ":" + std::to_string(ia->getLine()); } where += " in " + g_curFn; }
  for (auto& v : violations) if (v.id == id && v.kind == kind && v.msg == msg && (kind == "assert" || v.where == where)) return;
  violations.push_back({id, msg, kind, where, s.trace, m, s.pc});
  if (getenv("SX_VERBOSE")) fprintf(stderr, "sx: violation %s %s %s at %s\n", kind.c_str(), id.c_str(), msg.c_str(), where.c_str());
}
// the condition "bad" must be infeasible; otherwise a crash-type violation is reported and the path continues under !bad
static void mustNot(State& s, E bad, const char* kind, const std::string& msg, Instruction* I) {
  if (isFalse(bad)) return;
  ModelP m; SR r = query(s.pc, bad, s.model, &m);
  if (r == SR::UNSAT) return;
  if (r == SR::UNKNOWN) { inconclusive[std::string("solver unknown: ") + kind + " " + msg]++; }
  else { State t = s; addPC(t, bad); report(t, "crash", kind, msg, m, I); }
  E ok = mkNot(bad);
  ModelP m2; r = query(s.pc, ok, s.model, &m2);
  if (r == SR::UNSAT) throw Kill{};
  addPC(s, ok); if (r == SR::SAT) s.model = m2; else s.model = nullptr;
}

// ------------------------------------------------------------------ items / worklist
struct LoopSt { int iter = 0, sym = 0; uint64_t lastForks = 0; };
struct Item { int blk = 0, ip = 0; State st; std::vector<Val> regs; std::vector<LoopSt> loops; bool noMerge = false; };
typedef std::vector<int> Key;
struct Bucket { std::vector<Item> items; bool merged = false; };

struct Frame {
  DFunc* f; uint64_t sp0;
  std::map<Key, Bucket> wl;
  std::vector<Outcome> outs;
  Key keyOf(const Item& it) const { Key k; const DBlock& B = f->b[it.blk]; for (int l : B.loops) { k.push_back(f->loopHeadRpo[l]); k.push_back(it.loops[l].iter); } k.push_back(it.blk); k.push_back(it.ip); return k; }
  void push(Item&& it) { Key k = keyOf(it); Bucket& b = wl[k]; b.items.push_back(std::move(it)); b.merged = false; }
};
static std::vector<Frame*> stack;

static void mergeItems(DFunc* f, std::vector<Item>& v) {
  if (v.size() < 2) return;
  const std::vector<char>& live = liveAt(f, v[0].blk, v[0].ip);
  std::set<std::pair<size_t, size_t>> no; // positions invalidated on erase -> use ids
  std::vector<size_t> id(v.size()); for (size_t i = 0; i < id.size(); i++) id[i] = i;
  std::vector<std::pair<int, Type*>> slotT; 
  static std::unordered_map<DFunc*, std::vector<Type*>> slotTypes;
  auto& st = slotTypes[f];
  if (st.empty()) { st.assign(f->nslots, nullptr); int k = 0; for (auto& a : f->f->args()) st[k++] = a.getType(); for (auto& bb : *f->f) for (auto& i : bb) if (!i.getType()->isVoidTy()) st[k++] = i.getType(); }
  size_t n0 = v.size();
  while (v.size() > 1) {
    int best = -1, bd = -1;
    for (size_t i = 0; i + 1 < v.size(); i++) { if (no.count({id[i], id[i + 1]})) continue; int d = lcaDepth(v[i].st, v[i + 1].st); if (d > bd) { bd = d; best = i; } }
    int other = best + 1;
    if (best < 0) { // adjacent pairs exhausted: try all pairs once
      for (size_t i = 0; i < v.size() && best < 0; i++) for (size_t j = i + 1; j < v.size(); j++) if (!no.count({id[i], id[j]})) { best = i; other = j; break; }
      if (best < 0) break;
    }
    Item &x = v[best], &y = v[other];
    bool force = n0 >= forceMergeAt;
    bool ok = !x.noMerge && !y.noMerge;
    if (ok && !force) for (int k = 0; k < f->nslots; k++) if (live[k] && valPtrConflict(x.regs[k], y.regs[k])) { ok = false; if (debugMerge) fprintf(stderr, "merge refused in %s blk %d slot %d %llx %llx\n", f->name.c_str(), x.blk, k, (unsigned long long)x.regs[k].c, (unsigned long long)y.regs[k].c); break; }
    E g;
    if (ok) ok = mergeState(x.st, y.st, force, g);
    if (!ok) { nRefused++; no.insert({id[best], id[other]}); continue; }
    for (int k = 0; k < f->nslots; k++) { if (!live[k]) { x.regs[k] = Val(); continue; } x.regs[k] = mergeVal(x.regs[k], y.regs[k], g, st[k]); }
    for (size_t k = 0; k < x.loops.size(); k++) { x.loops[k].sym = std::max(x.loops[k].sym, y.loops[k].sym); x.loops[k].lastForks = std::max(x.loops[k].lastForks, y.loops[k].lastForks); }
    v.erase(v.begin() + other); id.erase(id.begin() + other);
  }
}
static void mergeBucket(DFunc* f, Bucket& b) {
  if (noMerging || b.merged || b.items.size() < 2) { b.merged = true; return; }
  bool plain = true; for (auto& x : b.items) if (x.noMerge || x.st.pin != b.items[0].st.pin) plain = false;
  if (plain) mergeItems(f, b.items);
  else { // states that may not meet are left out
    std::vector<Item> out; std::map<uint64_t, std::vector<Item>> g;
    for (auto& x : b.items) { if (x.noMerge) out.push_back(std::move(x)); else g[x.st.pin].push_back(std::move(x)); }
    for (auto& kv : g) { mergeItems(f, kv.second); for (auto& x : kv.second) out.push_back(std::move(x)); }
    b.items = std::move(out); }
  b.merged = true;
}
static void mergeOuts1(std::vector<Outcome>& o, Type* rt) {
  if (o.size() < 2) return;
  std::set<std::pair<size_t, size_t>> no; std::vector<size_t> id(o.size()); for (size_t i = 0; i < id.size(); i++) id[i] = i;
  size_t n0 = o.size();
  while (o.size() > 1) {
    int best = -1, bd = -1, other = -1;
    for (size_t i = 0; i + 1 < o.size(); i++) { if (no.count({id[i], id[i + 1]})) continue; int d = lcaDepth(o[i].st, o[i + 1].st); if (d > bd) { bd = d; best = i; other = i + 1; } }
    if (best < 0) { for (size_t i = 0; i < o.size() && best < 0; i++) for (size_t j = i + 1; j < o.size(); j++) if (!no.count({id[i], id[j]})) { best = i; other = j; break; } if (best < 0) break; }
    Outcome &x = o[best], &y = o[other];
    bool force = n0 >= forceMergeAt;
    bool ok = x.thrown == y.thrown && (!x.thrown || (x.ex.obj == y.ex.obj && x.ex.ti == y.ex.ti));
    if (ok && !x.thrown && !force && valPtrConflict(x.ret, y.ret)) ok = false;
    E g;
    if (ok) ok = mergeState(x.st, y.st, force, g);
    if (!ok) { nRefused++; no.insert({id[best], id[other]}); continue; }
    if (!x.thrown && !rt->isVoidTy()) x.ret = mergeVal(x.ret, y.ret, g, rt);
    o.erase(o.begin() + other); id.erase(id.begin() + other);
  }
}
static void mergeOuts(std::vector<Outcome>& o, Type* rt) {
  if (noMerging) return;
  bool plain = true; for (auto& x : o) if (x.st.pin != o[0].st.pin) plain = false;
  if (plain) { mergeOuts1(o, rt); return; }
  std::map<uint64_t, std::vector<Outcome>> g; for (auto& x : o) g[x.st.pin].push_back(std::move(x));
  o.clear(); for (auto& kv : g) { mergeOuts1(kv.second, rt); for (auto& x : kv.second) o.push_back(std::move(x)); }
}

// ------------------------------------------------------------------ concretisation
// enumerate feasible values of e under the path condition
static bool allValues(State& s, E e, unsigned cap, std::vector<std::pair<uint64_t, ModelP>>& out) {
  PCP pc = s.pc; ModelP base = s.model;
  std::vector<E> blocked;
  State t = s;
  while (true) {
    ModelP m;
    SR r;
    if (out.empty() && t.model) { m = t.model; r = SR::SAT; }
    else { E ne = mkC(1, 1); for (auto& p : out) ne = mkAnd(ne, mkNot(mkEq(e, mkC(e->w, p.first)))); if (out.empty()) { r = query(s.pc, mkC(1, 1), nullptr, &m); } else r = query(s.pc, ne, s.model, &m); }
    if (r == SR::UNSAT) return true;
    if (r == SR::UNKNOWN) return false;
    out.push_back({m->eval(e), m});
    if (out.size() > cap) return false;
  }
}
static uint64_t concretize(Item& it, Val v, unsigned w, const char* why) {
  if (v.a) throw Unsupported("concretise aggregate");
  if (!v.e) return v.c;
  for (auto& p : it.st.subst) if (p.first == v.e) return p.second;
  std::vector<std::pair<uint64_t, ModelP>> vals;
  if (!allValues(it.st, v.e, addrCap, vals)) { inconclusive[std::string("too many values to concretise: ") + why + " in " + g_curFn]++; throw Kill{}; }
  if (vals.empty()) throw Kill{};
  // fork one item per value
  Frame* fr = stack.back();
  for (size_t i = 1; i < vals.size(); i++) {
    Item n = it; addPC(n.st, mkEq(v.e, mkC(w, vals[i].first))); n.st.model = vals[i].second; n.st.subst.push_back({v.e, vals[i].first}); n.st.forks++; nForks++; n.noMerge = true;
    fr->push(std::move(n));
  }
  addPC(it.st, mkEq(v.e, mkC(w, vals[0].first))); it.st.model = vals[0].second; it.st.subst.push_back({v.e, vals[0].first});
  if (vals.size() > 1) it.st.forks++;
  return vals[0].first;
}

// ------------------------------------------------------------------ memory access
struct AddrAlt { E cond; uint64_t a; };
static bool leavesOf(E e, E cond, std::vector<AddrAlt>& out, unsigned cap) {
  if (isC(e)) { for (auto& x : out) if (x.a == e->v) { x.cond = mkOr(x.cond, cond); return true; } out.push_back({cond, e->v}); return out.size() <= cap; }
  if (e->op != ITE) return false;
  return leavesOf(e->b, mkAnd(cond, e->a), out, cap) && leavesOf(e->c, mkAnd(cond, mkNot(e->a)), out, cap);
}
static void oob(State& s, const char* what, uint64_t a, uint64_t n, Instruction* I, const ModelP& m) {
  char b[128]; snprintf(b, sizeof b, "invalid %s of %llu bytes", what, (unsigned long long)n); (void)a;
  report(s, "crash", "memory", b, m, I);
}
static std::vector<AddrAlt> resolve(Item& it, const Val& v, uint64_t n, const char* what, Instruction* I) {
  State& s = it.st;
  std::vector<AddrAlt> alts;
  if (v.a) throw Unsupported("aggregate address");
  if (!v.e) {
    if (!s.mem.valid(v.c, n)) { ModelP m = s.model; if (!m) query(s.pc, mkC(1, 1), nullptr, &m); oob(s, what, v.c, n, I, m); throw Kill{}; }
    alts.push_back({mkC(1, 1), v.c}); return alts;
  }
  for (auto& p : s.subst) if (p.first == v.e) { if (!s.mem.valid(p.second, n)) { oob(s, what, p.second, n, I, s.model); throw Kill{}; } alts.push_back({mkC(1, 1), p.second}); return alts; }
  std::vector<AddrAlt> lv;
  if (!leavesOf(v.e, mkC(1, 1), lv, addrCap)) {
    lv.clear();
    std::vector<std::pair<uint64_t, ModelP>> vals;
    if (!allValues(s, v.e, addrCap, vals)) { 
      // distinguish "wild" addresses: is some feasible address invalid?
      for (auto& p : vals) if (!s.mem.valid(p.first, n)) { State t = s; addPC(t, mkEq(v.e, mkC(64, p.first))); oob(t, what, p.first, n, I, p.second); throw Kill{}; }
      inconclusive[std::string("symbolic address with too many values in ") + g_curFn]++; throw Kill{}; }
    for (auto& p : vals) lv.push_back({mkEq(v.e, mkC(64, p.first)), p.first});
  }
  for (auto& x : lv) {
    if (s.mem.valid(x.a, n)) { alts.push_back(x); continue; }
    ModelP m; SR r = query(s.pc, x.cond, s.model, &m);
    if (r == SR::UNSAT) continue;
    if (r == SR::SAT) { State t = s; addPC(t, x.cond); oob(t, what, x.a, n, I, m); } else inconclusive["solver unknown: address validity"]++;
    E ok = mkNot(x.cond); ModelP m2; r = query(s.pc, ok, s.model, &m2); if (r == SR::UNSAT) throw Kill{};
    addPC(s, ok); s.model = r == SR::SAT ? m2 : nullptr;
  }
  if (alts.empty()) throw Kill{};
  if (alts.size() == 1) alts[0].cond = mkC(1, 1);
  return alts;
}
struct ParLog { uint64_t a; uint32_t n; bool w; int tid; E cond; std::string where; };
static std::vector<ParLog>* parLog = nullptr;
static void logAccess(State& s, uint64_t a, unsigned n, bool w, E cond, Instruction* I);

static Val loadScalar(Item& it, const Val& ad, unsigned nbytes, unsigned w, Instruction* I) {
  State& s = it.st;
  if (!ad.e && !ad.a) {
    uint64_t c;
    if (!s.mem.valid(ad.c, nbytes)) { ModelP m = s.model; if (!m) query(s.pc, mkC(1, 1), nullptr, &m); oob(s, "read", ad.c, nbytes, I, m); throw Kill{}; }
    if (parLog && s.tid >= 0) logAccess(s, ad.c, nbytes, false, mkC(1, 1), I);
    if (s.mem.loadC(ad.c, nbytes, c)) return Val(c & maskw(w));
    E e = s.mem.loadE(ad.c, nbytes); return Val::of(mkTrunc(e, w));
  }
  auto alts = resolve(it, ad, nbytes, "read", I);
  E r = nullptr;
  for (size_t i = alts.size(); i-- > 0;) { if (parLog && s.tid >= 0) logAccess(s, alts[i].a, nbytes, false, alts[i].cond, I); E e = s.mem.loadE(alts[i].a, nbytes); r = r ? mkIte(alts[i].cond, e, r) : e; }
  return Val::of(mkTrunc(r, w));
}
static void storeScalar(Item& it, const Val& ad, unsigned nbytes, unsigned w, const Val& v, Instruction* I) {
  State& s = it.st;
  if (!ad.e && !ad.a) {
    if (!s.mem.valid(ad.c, nbytes)) { ModelP m = s.model; if (!m) query(s.pc, mkC(1, 1), nullptr, &m); oob(s, "write", ad.c, nbytes, I, m); throw Kill{}; }
    if (parLog && s.tid >= 0) logAccess(s, ad.c, nbytes, true, mkC(1, 1), I);
    if (!v.e) s.mem.storeC(ad.c, nbytes, v.c & maskw(w)); else s.mem.storeE(ad.c, nbytes, mkZext(v.e, 8 * nbytes));
    return;
  }
  auto alts = resolve(it, ad, nbytes, "write", I);
  E nv = mkZext(toE(v, w), 8 * nbytes);
  for (auto& x : alts) {
    if (parLog && s.tid >= 0) logAccess(s, x.a, nbytes, true, x.cond, I);
    if (isTrue(x.cond)) { s.mem.storeE(x.a, nbytes, nv); continue; }
    E old = s.mem.loadE(x.a, nbytes); s.mem.storeE(x.a, nbytes, mkIte(x.cond, nv, old));
  }
}
static Val addOff(const Val& p, uint64_t off) { if (!off) return p; if (!p.e) return Val(p.c + off); return Val::of(mkBin(ADD, p.e, mkC(64, off))); }
static Val loadTy(Item& it, const Val& ad, Type* t, Instruction* I) {
  if (isAggTy(t)) { 
    if (t->isVectorTy() && DL->getTypeSizeInBits(cast<FixedVectorType>(t)->getElementType()) % 8) throw Unsupported("bit vector load");
    std::vector<Val> v; for (unsigned i = 0; i < aggN(t); i++) v.push_back(loadTy(it, addOff(ad, aggOff(t, i)), aggT(t, i), I)); return Val::agg(std::move(v)); }
  if (t->isX86_FP80Ty()) { return loadScalar(it, ad, 8, 64, I); }
  unsigned w = widthOf(t); return loadScalar(it, ad, (w + 7) / 8, w, I);
}
static void storeTy(Item& it, const Val& ad, Type* t, const Val& v, Instruction* I) {
  if (isAggTy(t)) { for (unsigned i = 0; i < aggN(t); i++) storeTy(it, addOff(ad, aggOff(t, i)), aggT(t, i), (*v.a)[i], I); return; }
  if (t->isX86_FP80Ty()) { storeScalar(it, ad, 8, 64, v, I); return; }
  unsigned w = widthOf(t); storeScalar(it, ad, (w + 7) / 8, w, v, I);
}

// ------------------------------------------------------------------ heap
static uint64_t heapAlloc(State& s, uint64_t n, uint64_t align) {
  if (n > (64u << 20)) throw Unsupported("allocation of " + std::to_string(n) + " bytes");
  uint64_t a = s.hp + 32;
  if (align <= 16) { a = (a + 63) / 64 * 64 + 16; } else { a = (a + align - 1) / align * align; if (a - s.hp < 32) a += align; }
  if (a + n + 64 >= MBASE + MSIZE) throw Unsupported("heap exhausted");
  s.mem.putBytes(a - 16, &n, 8); uint64_t z = 0x5ea1; s.mem.putBytes(a - 8, &z, 8);
  s.mem.alloc(a, n ? n : 1);
  if (!n) { s.mem.dealloc(a, 1); }
  s.hp = a + n + 16;
  return a;
}
static void heapFree(Item& it, uint64_t a, Instruction* I) {
  State& s = it.st;
  if (!a) return;
  uint64_t n, tag;
  if (Mem::inRange(a) && (!s.mem.loadC(a - 16, 8, n) || !s.mem.loadC(a - 8, 8, tag))) { // merged from states with different blocks here: follow each
    bool def = true; for (int k = -16; k < 0; k++) def &= s.mem.getB(a + k).def;
    if (def) { tag = concretize(it, Val::of(s.mem.loadE(a - 8, 8)), 64, "block header"); s.mem.putBytes(a - 8, &tag, 8); n = concretize(it, Val::of(s.mem.loadE(a - 16, 8)), 64, "block size"); s.mem.putBytes(a - 16, &n, 8); } }
  if (!Mem::inRange(a) || !s.mem.loadC(a - 16, 8, n) || !s.mem.loadC(a - 8, 8, tag) || tag != 0x5ea1) { if (getenv("SX_DBG")) { fprintf(stderr, "bad free %llx size", (unsigned long long)a); for (int k = -16; k < 8; k++) { auto b = s.mem.getB(a + k); fprintf(stderr, " %s%02x", b.def ? (b.e ? "S" : "") : "?", b.c); } fprintf(stderr, " alloc %d\n", s.mem.valid(a, 1)); } report(s, "crash", "memory", "invalid or double free", s.model, I); throw Kill{}; }
  s.mem.dealloc(a, n); uint64_t z = 0; s.mem.putBytes(a - 8, &z, 8);
}
static std::string readStr(State& s, uint64_t a) { std::string r; for (uint64_t c; r.size() < 4096; a++) { if (!s.mem.valid(a, 1)) break; if (!s.mem.loadC(a, 1, c)) throw Unsupported("symbolic text where a concrete one is needed"); if (!c) break; r += (char)c; } return r; }

#include "natives.inc"

// ------------------------------------------------------------------ interpreter
static std::vector<Outcome> callFunction(DFunc* f, std::vector<Val> args, State&& st, CallBase* cb);

static inline const Val& get(Item& it, const Opnd& o) { return o.slot >= 0 ? it.regs[o.slot] : o.k; }

static Val binop(Item& it, unsigned op, unsigned w, const Val& a, const Val& b, Instruction* I) {
  State& s = it.st;
  if (a.conc() && b.conc()) {
    uint64_t x = a.c, y = b.c, m = maskw(w);
    switch (op) {
    case Instruction::Add: return Val((x + y) & m);
    case Instruction::Sub: return Val((x - y) & m);
    case Instruction::Mul: return Val((x * y) & m);
    case Instruction::And: return Val(x & y);
    case Instruction::Or: return Val(x | y);
    case Instruction::Xor: return Val(x ^ y);
    case Instruction::Shl: return Val(y >= w ? 0 : (x << y) & m);
    case Instruction::LShr: return Val(y >= w ? 0 : x >> y);
    case Instruction::AShr: return Val(foldOp(ASHR, w, w, x, y, 0));
    default: break;
    }
  }
  Op o;
  switch (op) {
  case Instruction::Add: o = ADD; break; case Instruction::Sub: o = SUB; break; case Instruction::Mul: o = MUL; break;
  case Instruction::And: o = AND; break; case Instruction::Or: o = OR; break; case Instruction::Xor: o = XOR; break;
  case Instruction::Shl: o = SHL; break; case Instruction::LShr: o = LSHR; break; case Instruction::AShr: o = ASHR; break;
  case Instruction::UDiv: o = UDIV; break; case Instruction::SDiv: o = SDIV; break; case Instruction::URem: o = UREM; break; case Instruction::SRem: o = SREM; break;
  case Instruction::FAdd: o = FADD; break; case Instruction::FSub: o = FSUB; break; case Instruction::FMul: o = FMUL; break; case Instruction::FDiv: o = FDIV; break; case Instruction::FRem: o = FREM; break;
  default: throw Unsupported("binop");
  }
  E ea = toE(a, w), eb = toE(b, w);
  if (o == UDIV || o == SDIV || o == UREM || o == SREM) {
    mustNot(s, mkEq(eb, mkC(w, 0)), "div", "division by zero", I);
    if ((o == SDIV || o == SREM) && w >= 32) mustNot(s, mkAnd(mkEq(eb, mkC(w, ~0ull)), mkEq(ea, mkC(w, 1ull << (w - 1)))), "div", "signed division overflow", I);
  }
  if (w == 1 && (o == ADD || o == SUB)) o = XOR;
  if (w == 1 && o == MUL) o = AND;
  return Val::of(mkBin(o, ea, eb));
}
static E icmp(int p, E a, E b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
  case CmpInst::ICMP_ULT: return mkBin(ULT, a, b); case CmpInst::ICMP_ULE: return mkBin(ULE, a, b); case CmpInst::ICMP_UGT: return mkBin(ULT, b, a); case CmpInst::ICMP_UGE: return mkBin(ULE, b, a);
  case CmpInst::ICMP_SLT: if (a->w == 1) return mkAnd(a, mkNot(b)); return mkBin(SLT, a, b);
  case CmpInst::ICMP_SLE: if (a->w == 1) return mkOr(a, mkNot(b)); return mkBin(SLE, a, b);
  case CmpInst::ICMP_SGT: if (a->w == 1) return mkAnd(b, mkNot(a)); return mkBin(SLT, b, a);
  case CmpInst::ICMP_SGE: if (a->w == 1) return mkOr(b, mkNot(a)); return mkBin(SLE, b, a);
  }
  throw Unsupported("icmp");
}
static E fcmp(int p, E a, E b) {
  E un = mkOr(mkUn(FISNAN, a, 1), mkUn(FISNAN, b, 1));
  switch (p) {
  case CmpInst::FCMP_FALSE: return mkC(1, 0); case CmpInst::FCMP_TRUE: return mkC(1, 1);
  case CmpInst::FCMP_OEQ: return mkBin(FEQ, a, b); case CmpInst::FCMP_OGT: return mkBin(FLT, b, a); case CmpInst::FCMP_OGE: return mkBin(FLE, b, a);
  case CmpInst::FCMP_OLT: return mkBin(FLT, a, b); case CmpInst::FCMP_OLE: return mkBin(FLE, a, b); case CmpInst::FCMP_ONE: return mkOr(mkBin(FLT, a, b), mkBin(FLT, b, a));
  case CmpInst::FCMP_ORD: return mkNot(un); case CmpInst::FCMP_UNO: return un;
  case CmpInst::FCMP_UEQ: return mkOr(un, mkBin(FEQ, a, b)); case CmpInst::FCMP_UGT: return mkNot(mkBin(FLE, a, b)); case CmpInst::FCMP_UGE: return mkNot(mkBin(FLT, a, b));
  case CmpInst::FCMP_ULT: return mkNot(mkBin(FLE, b, a)); case CmpInst::FCMP_ULE: return mkNot(mkBin(FLT, b, a)); case CmpInst::FCMP_UNE: return mkNot(mkBin(FEQ, a, b));
  }
  throw Unsupported("fcmp");
}
// bits of a (possibly vector) value as list of chunks, for bitcast
static Val bitcastVal(const Val& v, Type* from, Type* to) {
  if (!isAggTy(from) && !isAggTy(to)) return v;
  if (from == to) return v;
  // flatten to bits (little endian elements)
  std::vector<E> parts;
  std::function<void(const Val&, Type*)> fl = [&](const Val& x, Type* t) { if (isAggTy(t)) { for (unsigned i = 0; i < aggN(t); i++) fl((*x.a)[i], aggT(t, i)); } else parts.push_back(toE(x, widthOf(t))); };
  fl(v, from);
  size_t pi = 0; unsigned off = 0;
  std::function<Val(Type*)> un = [&](Type* t) -> Val {
    if (isAggTy(t)) { std::vector<Val> r; for (unsigned i = 0; i < aggN(t); i++) r.push_back(un(aggT(t, i))); return Val::agg(std::move(r)); }
    unsigned need = widthOf(t); E r = nullptr;
    while (need) { E p = parts.at(pi); unsigned k = std::min(need, p->w - off); E piece = mkExtract(p, off, k); r = r ? mkConcat(piece, r) : piece; off += k; need -= k; if (off == p->w) { pi++; off = 0; } }
    return Val::of(r);
  };
  return un(to);
}
static Val castOp(unsigned op, const Val& a, Type* ft, Type* tt) {
  unsigned wf = widthOf(ft), wt = widthOf(tt);
  bool cc = a.conc();
  switch (op) {
  case Instruction::Trunc: if (cc) return Val(a.c & maskw(wt)); return Val::of(mkTrunc(a.e, wt));
  case Instruction::ZExt: if (cc) return a; return Val::of(mkZext(a.e, wt));
  case Instruction::SExt: if (cc) return Val((uint64_t)sx64(a.c, wf) & maskw(wt)); return Val::of(mkSext(a.e, wt));
  case Instruction::FPTrunc: if (wf == wt) return a; return Val::of(mkUn(FTRUNC, toE(a, wf), wt));
  case Instruction::FPExt: if (wf == wt) return a; return Val::of(mkUn(FEXT, toE(a, wf), wt));
  case Instruction::FPToSI: return Val::of(mkUn(FTOS, toE(a, wf), wt));
  case Instruction::FPToUI: return Val::of(mkUn(FTOU, toE(a, wf), wt));
  case Instruction::SIToFP: return Val::of(mkUn(STOF, toE(a, wf), wt));
  case Instruction::UIToFP: return Val::of(mkUn(UTOF, toE(a, wf), wt));
  case Instruction::PtrToInt: case Instruction::IntToPtr: if (cc) return Val(a.c & maskw(wt)); return Val::of(wt < wf ? mkTrunc(a.e, wt) : mkZext(a.e, wt));
  default: throw Unsupported("cast");
  }
}
template <class F> static Val vecMap(Type* t, F f) { std::vector<Val> r; for (unsigned i = 0; i < aggN(t); i++) r.push_back(f(i)); return Val::agg(std::move(r)); }
static bool isWide(Type* t) { return t->isIntegerTy() && t->getIntegerBitWidth() > 64; }

static void takeEdge(Frame& fr, Item& it, const Edge& e) {
  if (!e.phis.empty()) { std::vector<Val> t; t.reserve(e.phis.size()); for (auto& p : e.phis) t.push_back(get(it, p.src)); for (size_t i = 0; i < t.size(); i++) it.regs[e.phis[i].dst] = std::move(t[i]); }
  for (int l : e.enters) it.loops[l] = LoopSt{0, 0, it.st.forks};
  for (int l : e.backs) {
    LoopSt& L = it.loops[l]; L.iter++;
    if (it.st.forks != L.lastForks) { L.sym++; L.lastForks = it.st.forks; if (L.sym > (int)loopCap) { cuts[fr.f->pretty + " loop bound " + std::to_string(loopCap)]++; throw Kill{}; } }
  }
  it.blk = e.to; it.ip = 0;
}
static uint64_t typeId(uint64_t ti) { static std::map<uint64_t, uint64_t> m; auto it = m.find(ti); if (it != m.end()) return it->second; uint64_t k = m.size() + 1; return m[ti] = k; }
static bool tiMatches(State& s, uint64_t thrown, uint64_t want) {
  if (thrown == want) return true;
  auto n1 = gname.find(thrown), n2 = gname.find(want);
  if (n1 != gname.end() && n2 != gname.end() && n1->second == n2->second) return true;
  uint64_t vptr; if (!s.mem.loadC(thrown, 8, vptr)) return false;
  auto g = gname.find(vptr - 16); if (g == gname.end()) return false;
  if (g->second == "_ZTVN10__cxxabiv120__si_class_type_infoE") { uint64_t base; if (!s.mem.loadC(thrown + 16, 8, base)) return false; return tiMatches(s, base, want); }
  if (g->second == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") { uint64_t cnt; if (!s.mem.loadC(thrown + 20, 4, cnt)) return false; for (uint64_t i = 0; i < cnt; i++) { uint64_t base; if (s.mem.loadC(thrown + 24 + 16 * i, 8, base) && tiMatches(s, base, want)) return true; } }
  return false;
}

static Val execIntrinsic(Item& it, DInst& d, bool& skip);

// returns false if the item is finished (returned, killed, or re-queued)
static bool step(Frame& fr, Item& it);
static void runItem(Frame& fr, Item it) {
  it.noMerge = false;
  try {
    while (step(fr, it)) {}
  } catch (Kill&) { nStatesEnd++; }
}
static bool unwindTo(Frame& fr, Item& it, DInst* inv, Exc ex) {
  // deliver exception ex at invoke (inv != null) or propagate
  if (inv && inv->op == Instruction::Invoke) {
    Edge& e = fr.f->b[it.blk].edges[inv->succ[1]];
    int from = it.blk; (void)from;
    takeEdge(fr, it, e);
    it.st.caught.push_back({ex.obj | (1ull << 63), ex.ti}); // pending
    return true;
  }
  it.st.mem.dealloc(fr.sp0, it.st.sp - fr.sp0); it.st.sp = fr.sp0;
  fr.outs.push_back({std::move(it.st), Val(), true, ex});
  return false;
}
static void checkBudget() {
  if (now() - tStart > tBudget) throw Unsupported("time budget exhausted");
}

static bool step(Frame& fr, Item& it) {
  DFunc* f = fr.f;
  DInst& d = f->b[it.blk].ins[it.ip];
  nInst++;
  if ((nInst & 0xffff) == 0) checkBudget();
  if (trackDbg) if (auto& dl = d.I->getDebugLoc()) { DILocation* L = dl.get(); if (L) { auto* sp = L->getScope()->getSubprogram(); if (sp && !touched.count(sp)) touched.insert(sp); for (auto* ia = L->getInlinedAt(); ia; ia = ia->getInlinedAt()) touched.insert(ia->getScope()->getSubprogram()); } }
  g_curFn = f->pretty;
  switch (d.op) {
  case Instruction::Br: {
    DBlock& B = f->b[it.blk];
    if (d.o.empty()) { takeEdge(fr, it, B.edges[d.succ[0]]); }
    else {
      Val c = get(it, d.o[0]);
      if (c.conc()) takeEdge(fr, it, B.edges[d.succ[c.c & 1 ? 0 : 1]]);
      else if (d.succ[0] == d.succ[1]) takeEdge(fr, it, B.edges[d.succ[0]]);
      else {
        ModelP mt, mf; SR rt, rf;
        rt = query(it.st.pc, c.e, it.st.model, &mt);
        rf = rt == SR::UNSAT ? SR::SAT : query(it.st.pc, mkNot(c.e), it.st.model, &mf);
        if (rt == SR::UNSAT) { takeEdge(fr, it, B.edges[d.succ[1]]); }
        else if (rf == SR::UNSAT) { takeEdge(fr, it, B.edges[d.succ[0]]); }
        else {
          nForks++;
          Item n = it;
          it.st.forks++; n.st.forks++;
          addPC(it.st, c.e); it.st.model = rt == SR::SAT ? mt : nullptr;
          addPC(n.st, mkNot(c.e)); n.st.model = rf == SR::SAT ? mf : nullptr;
          try { takeEdge(fr, n, B.edges[d.succ[1]]); fr.push(std::move(n)); } catch (Kill&) {}
          takeEdge(fr, it, B.edges[d.succ[0]]);
          fr.push(std::move(it));
          return false;
        }
      }
    }
    if (!fr.wl.empty()) { Key k = fr.keyOf(it); if (!(k < fr.wl.begin()->first)) { fr.push(std::move(it)); return false; } }
    return true; }
  case Instruction::Switch: {
    DBlock& B = f->b[it.blk];
    Val c = get(it, d.o[0]);
    if (!c.conc()) for (auto& p : it.st.subst) if (p.first == c.e) { c = Val(p.second); break; }
    if (c.conc()) {
      int t = d.succ[0]; for (size_t k = 0; k < d.cases.size(); k++) if (d.cases[k] == c.c) { t = d.succ[k + 1]; break; }
      takeEdge(fr, it, B.edges[t]);
    } else {
      // group cases by target
      std::vector<std::pair<int, E>> tg;
      E none = mkC(1, 1);
      for (size_t k = 0; k < d.cases.size(); k++) { E q = mkEq(c.e, mkC(d.wa, d.cases[k])); none = mkAnd(none, mkNot(q)); if (d.succ[k + 1] == d.succ[0]) continue; bool fd = false; for (auto& t : tg) if (t.first == d.succ[k + 1]) { t.second = mkOr(t.second, q); fd = true; } if (!fd) tg.push_back({d.succ[k + 1], q}); }
      Item cur = it; std::vector<Item> out;
      bool dead = false;
      for (auto& t : tg) {
        ModelP mt, mf; SR rt = query(cur.st.pc, t.second, cur.st.model, &mt);
        if (rt == SR::UNSAT) continue;
        SR rf = query(cur.st.pc, mkNot(t.second), cur.st.model, &mf);
        Item n = cur; 
        if (rf != SR::UNSAT) { addPC(n.st, t.second); n.st.model = rt == SR::SAT ? mt : nullptr; n.st.forks++; }
        try { takeEdge(fr, n, B.edges[t.first]); out.push_back(std::move(n)); } catch (Kill&) {}
        if (rf == SR::UNSAT) { dead = true; break; }
        nForks++; addPC(cur.st, mkNot(t.second)); cur.st.model = rf == SR::SAT ? mf : nullptr; cur.st.forks++;
      }
      if (!dead) { try { takeEdge(fr, cur, B.edges[d.succ[0]]); out.push_back(std::move(cur)); } catch (Kill&) {} }
      for (auto& o : out) fr.push(std::move(o));
      return false;
    }
    if (!fr.wl.empty()) { Key k = fr.keyOf(it); if (!(k < fr.wl.begin()->first)) { fr.push(std::move(it)); return false; } }
    return true; }
  case Instruction::Ret: {
    Val r; if (!d.o.empty()) r = get(it, d.o[0]);
    it.st.mem.dealloc(fr.sp0, it.st.sp - fr.sp0); it.st.sp = fr.sp0;
    fr.outs.push_back({std::move(it.st), r, false, {0, 0}});
    return false; }
  case Instruction::Unreachable: {
    ModelP m = it.st.model; if (!m) query(it.st.pc, mkC(1, 1), nullptr, &m);
    report(it.st, "crash", "unreachable", "reached code the compiler assumes unreachable (undefined behaviour)", m, d.I);
    throw Kill{}; }
  case Instruction::Resume: {
    Val v = get(it, d.o[0]); uint64_t obj = (*v.a)[0].c; uint64_t ti = 0; it.st.mem.loadC(obj - 32, 8, ti);
    return unwindTo(fr, it, nullptr, {obj, ti}); }
  case Instruction::LandingPad: {
    auto* lp = cast<LandingPadInst>(d.I);
    Exc ex = it.st.caught.back(); it.st.caught.pop_back(); ex.obj &= ~(1ull << 63);
    int sel = -1;
    for (unsigned k = 0; k < lp->getNumClauses() && sel < 0; k++) {
      if (lp->isCatch(k)) { uint64_t want = constInt(cast<Constant>(lp->getClause(k))); if (!want || tiMatches(it.st, ex.ti, want)) sel = (int)typeId(want); }
      else { inconclusive["exception filter clause"]++; throw Kill{}; }
    }
    if (sel < 0) { if (lp->isCleanup()) sel = 0; else return unwindTo(fr, it, nullptr, ex); }
    std::vector<Val> v{Val(ex.obj), Val((uint64_t)sel)}; it.regs[d.dst] = Val::agg(std::move(v));
    it.ip++; return true; }
  case Instruction::Call: case Instruction::Invoke: {
    if (d.intrin) { bool skip = false; Val r = execIntrinsic(it, d, skip); if (d.dst >= 0) it.regs[d.dst] = r; if (d.op == Instruction::Invoke) takeEdge(fr, it, f->b[it.blk].edges[d.succ[0]]); else it.ip++; return true; }
    DFunc* callee = d.callee;
    auto* cb = cast<CallBase>(d.I);
    size_t nargs = cb->arg_size();
    if (!callee && d.native < 0) {
      Val tv = get(it, d.o[d.sub]);
      uint64_t a = concretize(it, tv, 64, "indirect call target");
      auto fi = faddr.find(a);
      if (fi == faddr.end()) { report(it.st, "crash", "memory", "call through invalid function pointer", it.st.model, d.I); throw Kill{}; }
      callee = fi->second;
    }
    std::vector<Val> args; args.reserve(nargs);
    for (size_t k = 0; k < nargs; k++) args.push_back(get(it, d.o[k]));
    int nat = callee ? callee->native : d.native;
    if (callee && callee->rngStub >= 0 && useRngStub(it, args[0])) nat = callee->rngStub;
    std::vector<Outcome> outs;
    if (nat >= 0) {
      // natives operate in place (they may concretise, kill, throw a C++ exception, or produce several outcomes)
      Val ret;
      try { callNative(nat, it, d, args, ret, outs); }
      catch (CxxThrow& t) { return unwindTo(fr, it, &d, t.ex); }
      if (outs.empty()) {
        if (d.dst >= 0) it.regs[d.dst] = ret;
        if (d.op == Instruction::Invoke) takeEdge(fr, it, f->b[it.blk].edges[d.succ[0]]); else it.ip++;
        return true;
      }
    } else {
      if (callee->decl) { throw Unsupported("call to undefined external function " + callee->name); }
      nCalls++;
      // byval arguments: callee receives a copy
      for (size_t k = 0; k < nargs; k++) if (cb->isByValArgument(k)) {
        uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(k)), src = concretize(it, args[k], 64, "byval"); 
        uint64_t a = (it.st.sp + 16 + 63) / 64 * 64; it.st.mem.alloc(a, sz); it.st.mem.copy(a, src, sz); it.st.sp = a + sz; args[k] = Val(a); }
      State st = std::move(it.st);
      outs = callFunction(callee, std::move(args), std::move(st), cb);
      g_curFn = f->pretty;
    }
    if (outs.empty()) return false;
    if (outs.size() == 1) {
      it.st = std::move(outs[0].st);
      if (outs[0].thrown) return unwindTo(fr, it, &d, outs[0].ex);
      if (d.dst >= 0) it.regs[d.dst] = outs[0].ret;
      if (d.op == Instruction::Invoke) { takeEdge(fr, it, f->b[it.blk].edges[d.succ[0]]); } else it.ip++;
      return true;
    }
    it.st = State();
    for (size_t k = 0; k < outs.size(); k++) {
      Item n; if (k + 1 < outs.size()) { n.blk = it.blk; n.ip = it.ip; n.regs = it.regs; n.loops = it.loops; } else n = std::move(it);
      n.st = std::move(outs[k].st);
      n.st.forks++;
      try {
        if (outs[k].thrown) { if (unwindTo(fr, n, &d, outs[k].ex)) fr.push(std::move(n)); continue; }
        if (d.dst >= 0) n.regs[d.dst] = outs[k].ret;
        if (d.op == Instruction::Invoke) takeEdge(fr, n, f->b[n.blk].edges[d.succ[0]]); else n.ip++;
        fr.push(std::move(n));
      } catch (Kill&) {}
    }
    return false; }
  default: break;
  }
  Val r;
  auto op = [&](unsigned k) -> const Val& { return get(it, d.o[k]); };
  switch (d.op) {
  case Instruction::Alloca: {
    auto* ai = cast<AllocaInst>(d.I); uint64_t n = concretize(it, op(0), 64, "alloca size") * DL->getTypeAllocSize(ai->getAllocatedType());
    uint64_t al = std::max<uint64_t>(16, ai->getAlign().value()); uint64_t a = (it.st.sp + 16 + al - 1) / al * al;
    it.st.mem.alloc(a, n ? n : 1); it.st.sp = a + n; if (it.st.sp > A_HEAP - 4096) throw Unsupported("stack exhausted");
    r = Val(a); break; }
  case Instruction::Load: r = loadTy(it, op(0), d.ty, d.I); break;
  case Instruction::Store: storeTy(it, op(1), d.I->getOperand(0)->getType(), op(0), d.I); break;
  case Instruction::GetElementPtr: {
    Val b = op(0); uint64_t c = d.gepC; E sym = nullptr;
    for (auto& g : d.gep) { const Val& x = get(it, d.o[g.slot]); if (x.conc()) c += (uint64_t)sx64(x.c, g.w) * g.scale; else { E t = mkBin(MUL, mkSext(x.e, 64), mkC(64, g.scale)); sym = sym ? mkBin(ADD, sym, t) : t; } }
    if (!sym) r = addOff(b, c); else r = Val::of(mkBin(ADD, mkBin(ADD, toE(b, 64), sym), mkC(64, c)));
    break; }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
  case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
    if (isWide(d.ty)) r = wideOp(it, d.op, d.ty, op(0), op(1));
    else if (isAggTy(d.ty)) { Val a = op(0), b = op(1); r = vecMap(d.ty, [&](unsigned i) { return binop(it, d.op, widthOf(aggT(d.ty, i)), (*a.a)[i], (*b.a)[i], d.I); }); }
    else r = binop(it, d.op, d.w, op(0), op(1), d.I);
    break;
  case Instruction::FNeg: { auto ng = [&](const Val& v, unsigned w) { return Val::of(mkBin(XOR, toE(v, w), mkC(w, 1ull << (w - 1)))); }; if (isAggTy(d.ty)) { Val a = op(0); r = vecMap(d.ty, [&](unsigned i) { return ng((*a.a)[i], widthOf(aggT(d.ty, i))); }); } else r = ng(op(0), d.w); break; }
  case Instruction::ICmp: {
    Type* t = d.I->getOperand(0)->getType();
    if (isWide(t)) { r = Val::of(wideCmp(d.sub, op(0), op(1), t)); break; }
    if (isAggTy(t)) { Val a = op(0), b = op(1); r = vecMap(t, [&](unsigned i) { unsigned w = widthOf(aggT(t, i)); return Val::of(icmp(d.sub, toE((*a.a)[i], w), toE((*b.a)[i], w))); }); break; }
    const Val &a = op(0), &b = op(1);
    if (a.conc() && b.conc()) {
      uint64_t x = a.c, y = b.c; int64_t sx_ = sx64(x, d.wa), sy = sx64(y, d.wa); bool q;
      switch (d.sub) { case CmpInst::ICMP_EQ: q = x == y; break; case CmpInst::ICMP_NE: q = x != y; break; case CmpInst::ICMP_ULT: q = x < y; break; case CmpInst::ICMP_ULE: q = x <= y; break; case CmpInst::ICMP_UGT: q = x > y; break; case CmpInst::ICMP_UGE: q = x >= y; break;
        case CmpInst::ICMP_SLT: q = sx_ < sy; break; case CmpInst::ICMP_SLE: q = sx_ <= sy; break; case CmpInst::ICMP_SGT: q = sx_ > sy; break; default: q = sx_ >= sy; }
      r = Val(q);
    } else r = Val::of(icmp(d.sub, toE(a, d.wa), toE(b, d.wa)));
    break; }
  case Instruction::FCmp: {
    Type* t = d.I->getOperand(0)->getType();
    if (isAggTy(t)) { Val a = op(0), b = op(1); r = vecMap(t, [&](unsigned i) { unsigned w = widthOf(aggT(t, i)); return Val::of(fcmp(d.sub, toE((*a.a)[i], w), toE((*b.a)[i], w))); }); break; }
    r = Val::of(fcmp(d.sub, toE(op(0), d.wa), toE(op(1), d.wa))); break; }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::PtrToInt: case Instruction::IntToPtr: {
    Type *ft = d.I->getOperand(0)->getType(), *tt = d.ty;
    if (isWide(ft) || isWide(tt)) { r = wideCast(d.op, op(0), ft, tt); break; }
    if (isAggTy(tt)) { Val a = op(0); r = vecMap(tt, [&](unsigned i) { return castOp(d.op, (*a.a)[i], aggT(ft, i), aggT(tt, i)); }); break; }
    r = castOp(d.op, op(0), ft, tt); break; }
  case Instruction::BitCast: r = bitcastVal(op(0), d.I->getOperand(0)->getType(), d.ty); break;
  case Instruction::AddrSpaceCast: case Instruction::Freeze: r = op(0); break;
  case Instruction::Select: {
    Val c = op(0);
    if (c.a) { Val a = op(1), b = op(2); r = vecMap(d.ty, [&](unsigned i) { const Val& ci = (*c.a)[i]; if (ci.conc()) return ci.c & 1 ? (*a.a)[i] : (*b.a)[i]; return mergeVal((*a.a)[i], (*b.a)[i], ci.e, aggT(d.ty, i)); }); break; }
    if (c.conc()) r = c.c & 1 ? op(1) : op(2); else r = mergeVal(op(1), op(2), c.e, d.ty);
    break; }
  case Instruction::ExtractValue: { Val v = op(0); for (unsigned ix : cast<ExtractValueInst>(d.I)->indices()) { Val t = (*v.a)[ix]; v = t; } r = v; break; }
  case Instruction::InsertValue: {
    auto* iv = cast<InsertValueInst>(d.I); Val base = op(0); auto ix = iv->getIndices();
    std::function<Val(const Val&, unsigned)> ins = [&](const Val& b, unsigned k) -> Val { if (k == ix.size()) return op(1); std::vector<Val> v = *b.a; v[ix[k]] = ins(v[ix[k]], k + 1); return Val::agg(std::move(v)); };
    r = ins(base, 0); break; }
  case Instruction::ExtractElement: { Val v = op(0); uint64_t i = concretize(it, op(1), widthOf(d.I->getOperand(1)->getType()), "vector index"); r = (*op(0).a).at(i); break; }
  case Instruction::InsertElement: { uint64_t i = concretize(it, op(2), widthOf(d.I->getOperand(2)->getType()), "vector index"); std::vector<Val> v = *op(0).a; v.at(i) = op(1); r = Val::agg(std::move(v)); break; }
  case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(d.I); unsigned n = aggN(sv->getOperand(0)->getType()); Val a = op(0), b = op(1); std::vector<Val> v; for (int m : sv->getShuffleMask()) v.push_back(m < 0 ? Val(0) : (unsigned)m < n ? (*a.a)[m] : (*b.a)[m - n]); r = Val::agg(std::move(v)); break; }
  case Instruction::AtomicRMW: {
    auto* rmw = cast<AtomicRMWInst>(d.I); Type* t = rmw->getValOperand()->getType(); unsigned w = widthOf(t); Val old = loadTy(it, op(0), t, d.I); Val nv;
    switch (rmw->getOperation()) { case AtomicRMWInst::Add: nv = binop(it, Instruction::Add, w, old, op(1), d.I); break; case AtomicRMWInst::Sub: nv = binop(it, Instruction::Sub, w, old, op(1), d.I); break; case AtomicRMWInst::Xchg: nv = op(1); break; case AtomicRMWInst::Or: nv = binop(it, Instruction::Or, w, old, op(1), d.I); break; case AtomicRMWInst::And: nv = binop(it, Instruction::And, w, old, op(1), d.I); break; default: throw Unsupported("atomicrmw"); }
    storeTy(it, op(0), t, nv, d.I); r = old; break; }
  case Instruction::AtomicCmpXchg: {
    Type* t = d.I->getOperand(1)->getType(); unsigned w = widthOf(t); Val old = loadTy(it, op(0), t, d.I); E eq = mkEq(toE(old, w), toE(op(1), w));
    storeTy(it, op(0), t, Val::of(mkIte(eq, toE(op(2), w), toE(old, w))), d.I); std::vector<Val> v{old, Val::of(eq)}; r = Val::agg(std::move(v)); break; }
  case Instruction::Fence: break;
  default: throw Unsupported(std::string("instruction ") + d.I->getOpcodeName() + " in " + f->pretty);
  }
  if (d.dst >= 0) it.regs[d.dst] = std::move(r);
  it.ip++;
  return true;
}

static Val execIntrinsic(Item& it, DInst& d, bool&) {
  State& s = it.st;
  auto op = [&](unsigned k) -> const Val& { return get(it, d.o[k]); };
  Type* t = d.ty; unsigned w = d.w;
  auto E1 = [&](unsigned k, unsigned ww) { return toE(op(k), ww); };
  if (t->isVectorTy()) {
    // element-wise for simple two-operand arithmetic intrinsics
    Val a = op(0); Val b = d.o.size() > 1 && op(1).a ? op(1) : Val(); Val c = d.o.size() > 2 && op(2).a ? op(2) : Val();
    return vecMap(t, [&](unsigned i) { DInst x = d; x.ty = aggT(t, i); x.w = widthOf(x.ty); x.o.clear(); Opnd o; o.k = (*a.a)[i]; x.o.push_back(o); if (b.a) { o.k = (*b.a)[i]; x.o.push_back(o); } else if (d.o.size() > 1) x.o.push_back(d.o[1]); if (c.a) { o.k = (*c.a)[i]; x.o.push_back(o); } bool sk; return execIntrinsic(it, x, sk); });
  }
  switch (d.intrin) {
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: { uint64_t n = concretize(it, op(2), 64, "memcpy size"); if (n) doCopy(it, op(0), op(1), n, d.I); return Val(); }
  case Intrinsic::memset: { uint64_t n = concretize(it, op(2), 64, "memset size"); if (n) doSet(it, op(0), op(1), n, d.I); return Val(); }
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
    Val p = op(1); if (p.conc()) { uint64_t n = op(0).c; if (n != ~0ull && s.mem.valid(p.c, n)) s.mem.undef(p.c, n); } return Val(); }
  case Intrinsic::assume: {
    auto* cb = cast<CallBase>(d.I);
    for (unsigned k = 0; k < cb->getNumOperandBundles(); k++) {
      auto ob = cb->getOperandBundleAt(k);
      if (ob.getTagName() == "align" && ob.Inputs.size() >= 2) {
        Opnd o; Value* pv = ob.Inputs[0].get(); (void)pv; // pointer operand: alignment assumption
        auto* ci = dyn_cast<ConstantInt>(ob.Inputs[1].get());
        if (ci && !isa<Constant>(pv)) {
          // locate slot
          static std::unordered_map<const Value*, int> cache; auto ci2 = cache.find(pv); int slot;
          if (ci2 == cache.end()) { int k2 = 0, fnd = -1; for (auto& a : d.I->getFunction()->args()) { if (&a == pv) fnd = k2; k2++; } for (auto& bb : *d.I->getFunction()) for (auto& i : bb) if (!i.getType()->isVoidTy()) { if (&i == pv) fnd = k2; k2++; } cache[pv] = fnd; slot = fnd; } else slot = ci2->second;
          if (slot >= 0) { Val v = it.regs[slot]; if (v.conc() && v.c && v.c % ci->getZExtValue()) { ModelP m = s.model; report(s, "crash", "align", "pointer violates assumed alignment", m, d.I); throw Kill{}; } }
        }
      }
    }
    if (op(0).e) mustNot(s, mkNot(op(0).e), "assume", "compiler assumption violated", d.I);
    else if (op(0).conc() && !(op(0).c & 1)) { report(s, "crash", "assume", "compiler assumption violated", s.model, d.I); throw Kill{}; }
    return Val(); }
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: return op(0);
  case Intrinsic::ptrmask: return binop(it, Instruction::And, 64, op(0), op(1), d.I);
  case Intrinsic::threadlocal_address: return op(0);
  case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::sideeffect: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: return Val();
  case Intrinsic::stacksave: return Val(0);
  case Intrinsic::is_constant: return Val(0);
  case Intrinsic::objectsize: return Val(maskw(w));
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: { ModelP m = s.model; report(s, "crash", "trap", "trap instruction reached", m, d.I); throw Kill{}; }
  case Intrinsic::eh_typeid_for: return Val(typeId(op(0).c));
  case Intrinsic::umin: { E a = E1(0, w), b = E1(1, w); return Val::of(mkIte(mkBin(ULT, a, b), a, b)); }
  case Intrinsic::umax: { E a = E1(0, w), b = E1(1, w); return Val::of(mkIte(mkBin(ULT, b, a), a, b)); }
  case Intrinsic::smin: { E a = E1(0, w), b = E1(1, w); return Val::of(mkIte(mkBin(SLT, a, b), a, b)); }
  case Intrinsic::smax: { E a = E1(0, w), b = E1(1, w); return Val::of(mkIte(mkBin(SLT, b, a), a, b)); }
  case Intrinsic::abs: { E a = E1(0, w); return Val::of(mkIte(mkBin(SLT, a, mkC(w, 0)), mkBin(SUB, mkC(w, 0), a), a)); }
  case Intrinsic::uadd_sat: { E a = E1(0, w), b = E1(1, w), r = mkBin(ADD, a, b); return Val::of(mkIte(mkBin(ULT, r, a), mkC(w, ~0ull), r)); }
  case Intrinsic::usub_sat: { E a = E1(0, w), b = E1(1, w); return Val::of(mkIte(mkBin(ULT, a, b), mkC(w, 0), mkBin(SUB, a, b))); }
  case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
    E a = mkSext(E1(0, w), w + 1 <= 64 ? w + 1 : 64), b = mkSext(E1(1, w), w + 1 <= 64 ? w + 1 : 64); if (w >= 64) throw Unsupported("sat64");
    E r = mkBin(d.intrin == Intrinsic::sadd_sat ? ADD : SUB, a, b); E mx = mkC(w + 1, (1ull << (w - 1)) - 1), mn = mkC(w + 1, 0 - (1ull << (w - 1)));
    return Val::of(mkTrunc(mkIte(mkBin(SLT, mx, r), mx, mkIte(mkBin(SLT, r, mn), mn, r)), w)); }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    unsigned ww = widthOf(aggT(t, 0)); E a = E1(0, ww), b = E1(1, ww), r, o;
    switch (d.intrin) {
    case Intrinsic::uadd_with_overflow: r = mkBin(ADD, a, b); o = mkBin(ULT, r, a); break;
    case Intrinsic::usub_with_overflow: r = mkBin(SUB, a, b); o = mkBin(ULT, a, b); break;
    case Intrinsic::sadd_with_overflow: { r = mkBin(ADD, a, b); E z = mkC(ww, 0); E sa = mkBin(SLT, a, z), sb = mkBin(SLT, b, z), sr = mkBin(SLT, r, z); o = mkAnd(mkEq(sa, sb), mkNot(mkEq(sa, sr))); break; }
    case Intrinsic::ssub_with_overflow: { r = mkBin(SUB, a, b); E z = mkC(ww, 0); E sa = mkBin(SLT, a, z), sb = mkBin(SLT, b, z), sr = mkBin(SLT, r, z); o = mkAnd(mkNot(mkEq(sa, sb)), mkNot(mkEq(sa, sr))); break; }
    case Intrinsic::umul_with_overflow: { r = mkBin(MUL, a, b); if (ww <= 32) { E f = mkBin(MUL, mkZext(a, 2 * ww), mkZext(b, 2 * ww)); o = mkNot(mkEq(mkExtract(f, ww, ww), mkC(ww, 0))); } else if (isC(a) && isC(b)) { unsigned long long x; o = mkC(1, __builtin_umulll_overflow(a->v, b->v, &x)); } else { E z = mkC(ww, 0); if (isC(a)) std::swap(a, b); if (isC(b)) o = b->v ? mkBin(ULT, mkC(ww, ~0ull / b->v), a) : mkC(1, 0); else { E nz = mkNot(mkEq(a, z)); o = mkAnd(nz, mkNot(mkEq(mkBin(UDIV, r, mkIte(nz, a, mkC(ww, 1))), b))); } } break; }
    default: { r = mkBin(MUL, a, b); if (ww > 32) throw Unsupported("smul overflow 64"); E f = mkBin(MUL, mkSext(a, 2 * ww), mkSext(b, 2 * ww)); o = mkNot(mkEq(f, mkSext(r, 2 * ww))); break; }
    }
    std::vector<Val> v{Val::of(r), Val::of(o)}; return Val::agg(std::move(v)); }
  case Intrinsic::ctpop: { const Val& v = op(0); if (v.conc()) return Val(__builtin_popcountll(v.c)); E r = mkC(w, 0); for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZext(mkExtract(v.e, i, 1), w)); return Val::of(r); }
  case Intrinsic::ctlz: { const Val& v = op(0); E e = toE(v, w); E r = mkC(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkC(w, w - 1 - i), r); return Val::of(r); }
  case Intrinsic::cttz: { const Val& v = op(0); E e = toE(v, w); E r = mkC(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(e, i, 1), mkC(w, i), r); return Val::of(r); }
  case Intrinsic::bswap: { E e = E1(0, w); E r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(e, 8 * i, 8); r = r ? mkConcat(r, b) : b; } return Val::of(r); }
  case Intrinsic::bitreverse: { E e = E1(0, w); E r = nullptr; for (unsigned i = 0; i < w; i++) { E b = mkExtract(e, i, 1); r = r ? mkConcat(r, b) : b; } return Val::of(r); }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    E a = E1(0, w), b = E1(1, w), c = E1(2, w); E k = mkBin(UREM, c, mkC(w, w)); E inv = mkBin(SUB, mkC(w, w), k); E z = mkEq(k, mkC(w, 0));
    if (d.intrin == Intrinsic::fshl) return Val::of(mkIte(z, a, mkBin(OR, mkBin(SHL, a, k), mkBin(LSHR, b, inv))));
    return Val::of(mkIte(z, b, mkBin(OR, mkBin(SHL, a, inv), mkBin(LSHR, b, k)))); }
  case Intrinsic::fabs: return Val::of(mkBin(AND, E1(0, w), mkC(w, maskw(w) >> 1)));
  case Intrinsic::copysign: return Val::of(mkBin(OR, mkBin(AND, E1(0, w), mkC(w, maskw(w) >> 1)), mkBin(AND, E1(1, w), mkC(w, 1ull << (w - 1)))));
  case Intrinsic::floor: return Val::of(mkUn(FRTI, E1(0, w), w, 3));
  case Intrinsic::ceil: return Val::of(mkUn(FRTI, E1(0, w), w, 2));
  case Intrinsic::trunc: return Val::of(mkUn(FRTI, E1(0, w), w, 4));
  case Intrinsic::round: return Val::of(mkUn(FRTI, E1(0, w), w, 1));
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return Val::of(mkUn(FRTI, E1(0, w), w, 0));
  case Intrinsic::sqrt: return Val::of(mkUn(FSQRT, E1(0, w), w));
  case Intrinsic::fmuladd: return Val::of(mkBin(FADD, mkBin(FMUL, E1(0, w), E1(1, w)), E1(2, w)));
  case Intrinsic::minnum: { E a = E1(0, w), b = E1(1, w); return Val::of(mkIte(mkUn(FISNAN, a, 1), b, mkIte(mkUn(FISNAN, b, 1), a, mkIte(mkBin(FLT, b, a), b, a)))); }
  case Intrinsic::maxnum: { E a = E1(0, w), b = E1(1, w); return Val::of(mkIte(mkUn(FISNAN, a, 1), b, mkIte(mkUn(FISNAN, b, 1), a, mkIte(mkBin(FLT, a, b), b, a)))); }
  case Intrinsic::is_fpclass: {
    unsigned ww = widthOf(d.I->getOperand(0)->getType()); E a = E1(0, ww); unsigned m = op(1).c; unsigned ex = ww == 32 ? 8 : 11, mn = ww - 1 - ex;
    E expo = mkExtract(a, mn, ex), man = mkExtract(a, 0, mn), sg = mkExtract(a, ww - 1, 1); E e1 = mkEq(expo, mkC(ex, ~0ull)), e0 = mkEq(expo, mkC(ex, 0)), m0 = mkEq(man, mkC(mn, 0));
    E nan = mkAnd(e1, mkNot(m0)), inf = mkAnd(e1, m0), zero = mkAnd(e0, m0), sub = mkAnd(e0, mkNot(m0)), nor = mkAnd(mkNot(e0), mkNot(e1)); E q = mkExtract(man, mn - 1, 1);
    E cls[10] = {mkAnd(nan, mkNot(q)), mkAnd(nan, q), mkAnd(inf, sg), mkAnd(nor, sg), mkAnd(sub, sg), mkAnd(zero, sg), mkAnd(zero, mkNot(sg)), mkAnd(sub, mkNot(sg)), mkAnd(nor, mkNot(sg)), mkAnd(inf, mkNot(sg))};
    E r = mkC(1, 0); for (int i = 0; i < 10; i++) if (m >> i & 1) r = mkOr(r, cls[i]); return Val::of(r); }
  case Intrinsic::lround: case Intrinsic::llround: { unsigned ww = widthOf(d.I->getOperand(0)->getType()); return Val::of(mkUn(FTOS, mkUn(FRTI, E1(0, ww), ww, 1), w)); }
  case Intrinsic::lrint: case Intrinsic::llrint: { unsigned ww = widthOf(d.I->getOperand(0)->getType()); return Val::of(mkUn(FTOS, mkUn(FRTI, E1(0, ww), ww, 0), w)); }
  case Intrinsic::exp: case Intrinsic::log: case Intrinsic::pow: case Intrinsic::exp2: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::ldexp: {
    const char* nm = d.intrin == Intrinsic::exp ? "exp" : d.intrin == Intrinsic::log ? "log" : d.intrin == Intrinsic::pow ? "pow" : d.intrin == Intrinsic::exp2 ? "exp2" : d.intrin == Intrinsic::log2 ? "log2" : d.intrin == Intrinsic::log10 ? "log10" : d.intrin == Intrinsic::sin ? "sin" : d.intrin == Intrinsic::cos ? "cos" : "ldexp";
    std::vector<Val> args; for (unsigned k = 0; k < d.o.size(); k++) args.push_back(op(k)); return mathCall(it, nm, w, args); }
  case Intrinsic::vector_reduce_add: { Val a = op(0); Val r = (*a.a)[0]; for (size_t i = 1; i < a.a->size(); i++) r = binop(it, Instruction::Add, w, r, (*a.a)[i], d.I); return r; }
  case Intrinsic::vector_reduce_or: { Val a = op(0); Val r = (*a.a)[0]; for (size_t i = 1; i < a.a->size(); i++) r = binop(it, Instruction::Or, w, r, (*a.a)[i], d.I); return r; }
  case Intrinsic::vector_reduce_and: { Val a = op(0); Val r = (*a.a)[0]; for (size_t i = 1; i < a.a->size(); i++) r = binop(it, Instruction::And, w, r, (*a.a)[i], d.I); return r; }
  default: throw Unsupported("intrinsic " + Intrinsic::getBaseName(d.intrin).str());
  }
}

static std::vector<Outcome> callFunction(DFunc* f, std::vector<Val> args, State&& st, CallBase*) {
  if (!f->decoded) decode(f);
  f->calls++;
  if (stack.size() > 400) throw Unsupported("call depth");
  Frame fr; fr.f = f; fr.sp0 = st.sp;
  stack.push_back(&fr);
  Item it; it.st = std::move(st); it.regs.resize(f->nslots); it.loops.resize(f->nloops);
  for (size_t i = 0; i < args.size() && i < f->f->arg_size(); i++) it.regs[i] = std::move(args[i]);
  try {
    runItem(fr, std::move(it));
    while (!fr.wl.empty()) {
      auto b = fr.wl.begin();
      if (!b->second.merged) mergeBucket(f, b->second);
      Item x = std::move(b->second.items.back()); b->second.items.pop_back();
      if (b->second.items.empty()) fr.wl.erase(b);
      runItem(fr, std::move(x));
    }
  } catch (...) { stack.pop_back(); throw; }
  stack.pop_back();
  mergeOuts(fr.outs, f->f->getReturnType());
  return std::move(fr.outs);
}
#include "main.inc"
} // namespace sx
int main(int argc, char** argv) { return sx::sxMain(argc, argv); }
