#include "solver.h"
#include <z3.h>
#include <chrono>
#include <map>
#include <set>
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <ctime>

namespace sx {
SolverStats g_sstats;
unsigned g_timeoutMs = 60000; static unsigned g_rl = getenv("SX_RL") ? atoi(getenv("SX_RL")) : 2000;
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static Z3_context ctx = nullptr;
static std::string zerr;
static void onErr(Z3_context c, Z3_error_code e) { zerr = Z3_get_error_msg(c, e); if (getenv("SX_Z3ABORT")) abort(); }
static void init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context_rc(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
}
static std::unordered_map<uint32_t, Z3_ast> lowered; // bit-vector/bool form
static Z3_ast keep(Z3_ast a) { if (!zerr.empty()) throw Unsupported("z3: " + zerr); Z3_inc_ref(ctx, a); return a; }
static Z3_sort fsort(unsigned w) { static Z3_sort s32 = nullptr, s64 = nullptr; if (!s32) { s32 = Z3_mk_fpa_sort_32(ctx); Z3_inc_ref(ctx, (Z3_ast)s32); s64 = Z3_mk_fpa_sort_64(ctx); Z3_inc_ref(ctx, (Z3_ast)s64); } return w == 32 ? s32 : s64; }
static Z3_ast rne() { static Z3_ast r = nullptr; if (!r) r = keep(Z3_mk_fpa_rne(ctx)); return r; }
static Z3_ast L(E e);
static Z3_ast asBV(E e);
static std::unordered_map<uint32_t, Z3_ast> loweredF;
static bool isF(Op o) { return o == FADD || o == FSUB || o == FMUL || o == FDIV || o == FREM || o == FSQRT || o == FRTI || o == STOF || o == UTOF || o == FEXT || o == FTRUNC; }
// floating-point view of a bit pattern
static Z3_ast LF(E e) {
  auto it = loweredF.find(e->id); if (it != loweredF.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
  case FADD: r = Z3_mk_fpa_add(ctx, rne(), LF(e->a), LF(e->b)); break;
  case FSUB: r = Z3_mk_fpa_sub(ctx, rne(), LF(e->a), LF(e->b)); break;
  case FMUL: r = Z3_mk_fpa_mul(ctx, rne(), LF(e->a), LF(e->b)); break;
  case FDIV: r = Z3_mk_fpa_div(ctx, rne(), LF(e->a), LF(e->b)); break;
  case FREM: throw Unsupported("symbolic frem");
  case FSQRT: r = Z3_mk_fpa_sqrt(ctx, rne(), LF(e->a)); break;
  case FRTI: { Z3_ast m; switch (e->v) { case 0: m = rne(); break; case 1: m = Z3_mk_fpa_rna(ctx); break; case 2: m = Z3_mk_fpa_rtp(ctx); break; case 3: m = Z3_mk_fpa_rtn(ctx); break; default: m = Z3_mk_fpa_rtz(ctx); } r = Z3_mk_fpa_round_to_integral(ctx, m, LF(e->a)); break; }
  case STOF: r = Z3_mk_fpa_to_fp_signed(ctx, rne(), asBV(e->a), fsort(e->w)); break;
  case UTOF: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne(), asBV(e->a), fsort(e->w)); break;
  case FEXT: case FTRUNC: r = Z3_mk_fpa_to_fp_float(ctx, rne(), LF(e->a), fsort(e->w)); break;
  case ITE: if (e->fp) { r = Z3_mk_ite(ctx, L(e->a), LF(e->b), LF(e->c)); break; } // fallthrough
  default: r = Z3_mk_fpa_to_fp_bv(ctx, L(e), fsort(e->w));
  }
  if (!zerr.empty()) throw Unsupported("z3: " + zerr + " lowering op " + std::to_string((int)e->op) + " width " + std::to_string(e->w));
  return loweredF[e->id] = keep(r);
}
static Z3_ast bvc(unsigned w, uint64_t v) { return Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, w)); }
static Z3_ast L1_(E e);
static Z3_ast L(E e0) {
  auto it = lowered.find(e0->id); if (it != lowered.end()) return it->second;
  // iterative post-order to avoid deep recursion
  std::vector<E> st{e0};
  while (!st.empty()) {
    E x = st.back();
    if (lowered.count(x->id)) { st.pop_back(); continue; }
    bool ready = true;
    for (E k : {x->a, x->b, x->c}) if (k && !lowered.count(k->id)) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back();
    lowered[x->id] = keep(L1_(x));
  }
  return lowered[e0->id];
}
static Z3_ast toBV(Z3_ast b) { Z3_ast o = bvc(1, 1); Z3_inc_ref(ctx, o); Z3_ast z = bvc(1, 0); Z3_inc_ref(ctx, z); Z3_ast r = Z3_mk_ite(ctx, b, o, z); return r; }
static Z3_ast asBV(E e) { Z3_ast a = L(e); return e->w == 1 ? keep(toBV(a)) : a; }
static Z3_ast fromBV1(Z3_ast a) { Z3_inc_ref(ctx, a); Z3_ast o = bvc(1, 1); Z3_inc_ref(ctx, o); return Z3_mk_eq(ctx, a, o); }
static Z3_ast fpBits(E e) {
  Z3_ast f = LF(e); Z3_ast b = keep(Z3_mk_fpa_to_ieee_bv(ctx, f));
  return b;
}
static Z3_ast L1_(E e) {
  unsigned w = e->w;
  Z3_ast args[2];
  bool b1 = w == 1;
  switch (e->op) {
  case CONST: return b1 ? (e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : bvc(w, e->v);
  case VAR: { Z3_symbol s = Z3_mk_int_symbol(ctx, (int)e->v); return Z3_mk_const(ctx, s, b1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, w)); }
  case AND: if (b1) { args[0] = L(e->a); args[1] = L(e->b); return Z3_mk_and(ctx, 2, args); } return Z3_mk_bvand(ctx, L(e->a), L(e->b));
  case OR: if (b1) { args[0] = L(e->a); args[1] = L(e->b); return Z3_mk_or(ctx, 2, args); } return Z3_mk_bvor(ctx, L(e->a), L(e->b));
  case XOR: if (b1) { if (isC(e->b) && e->b->v) return Z3_mk_not(ctx, L(e->a)); return Z3_mk_xor(ctx, L(e->a), L(e->b)); } return Z3_mk_bvxor(ctx, L(e->a), L(e->b));
  case ADD: if (b1) return Z3_mk_xor(ctx, L(e->a), L(e->b)); return Z3_mk_bvadd(ctx, L(e->a), L(e->b));
  case SUB: if (b1) return Z3_mk_xor(ctx, L(e->a), L(e->b)); return Z3_mk_bvsub(ctx, L(e->a), L(e->b));
  case MUL: if (b1) { args[0] = L(e->a); args[1] = L(e->b); return Z3_mk_and(ctx, 2, args); } return Z3_mk_bvmul(ctx, L(e->a), L(e->b));
  case UDIV: case SDIV: case UREM: case SREM: case SHL: case LSHR: case ASHR: {
    Z3_ast a = asBV(e->a), b = asBV(e->b), r;
    switch (e->op) { case UDIV: r = Z3_mk_bvudiv(ctx, a, b); break; case SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break; case UREM: r = Z3_mk_bvurem(ctx, a, b); break; case SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
      case SHL: r = Z3_mk_bvshl(ctx, a, b); break; case LSHR: r = Z3_mk_bvlshr(ctx, a, b); break; default: r = Z3_mk_bvashr(ctx, a, b); }
    return b1 ? fromBV1(r) : r; }
  case EQ: return Z3_mk_eq(ctx, L(e->a), L(e->b));
  case ULT: return Z3_mk_bvult(ctx, asBV(e->a), asBV(e->b));
  case ULE: return Z3_mk_bvule(ctx, asBV(e->a), asBV(e->b));
  case SLT: return Z3_mk_bvslt(ctx, asBV(e->a), asBV(e->b));
  case SLE: return Z3_mk_bvsle(ctx, asBV(e->a), asBV(e->b));
  case ITE: return Z3_mk_ite(ctx, L(e->a), L(e->b), L(e->c));
  case CONCAT: return Z3_mk_concat(ctx, asBV(e->a), asBV(e->b));
  case EXTRACT: { Z3_ast r = Z3_mk_extract(ctx, (unsigned)e->v + w - 1, (unsigned)e->v, L(e->a)); return b1 ? fromBV1(r) : r; }
  case ZEXT: return Z3_mk_zero_ext(ctx, w - e->a->w, asBV(e->a));
  case SEXT: return Z3_mk_sign_ext(ctx, w - e->a->w, asBV(e->a));
  case FLT: return Z3_mk_fpa_lt(ctx, LF(e->a), LF(e->b));
  case FLE: return Z3_mk_fpa_leq(ctx, LF(e->a), LF(e->b));
  case FEQ: return Z3_mk_fpa_eq(ctx, LF(e->a), LF(e->b));
  case FISNAN: return Z3_mk_fpa_is_nan(ctx, LF(e->a));
  case FTOS: case FTOU: {
    // x86-64 semantics: out-of-range/NaN gives the "integer indefinite" value
    E d = e->a->w == 32 ? mkUn(FEXT, e->a, 64) : e->a;
    unsigned cw = w <= 32 && e->op == FTOS ? 32 : 64;
    if (w == 64 && e->op == FTOU) {
      Z3_ast f = LF(d);
      Z3_ast two63 = keep(Z3_mk_fpa_numeral_double(ctx, 9223372036854775808.0, fsort(64)));
      Z3_ast rtz = keep(Z3_mk_fpa_rtz(ctx));
      Z3_ast lo = keep(Z3_mk_fpa_lt(ctx, f, two63));
      Z3_ast two64 = keep(Z3_mk_fpa_numeral_double(ctx, 18446744073709551616.0, fsort(64)));
      Z3_ast mn = keep(Z3_mk_fpa_numeral_double(ctx, -9223372036854775808.0, fsort(64)));
      Z3_ast in2[2] = {lo, keep(Z3_mk_fpa_geq(ctx, f, mn))}; Z3_ast inS = keep(Z3_mk_and(ctx, 2, in2));
      Z3_ast sv = keep(Z3_mk_fpa_to_sbv(ctx, rtz, f, 64)), uv = keep(Z3_mk_fpa_to_ubv(ctx, rtz, f, 64));
      Z3_ast in3[2] = {keep(Z3_mk_fpa_geq(ctx, f, two63)), keep(Z3_mk_fpa_lt(ctx, f, two64))}; Z3_ast inU = keep(Z3_mk_and(ctx, 2, in3));
      Z3_ast ind = keep(bvc(64, 0x8000000000000000ull));
      return Z3_mk_ite(ctx, inS, sv, keep(Z3_mk_ite(ctx, inU, uv, ind)));
    }
    Z3_ast f = LF(d);
    double hi = cw == 32 ? 2147483648.0 : 9223372036854775808.0, lo = cw == 32 ? -2147483649.0 : -9223372036854775808.0;
    Z3_ast h = keep(Z3_mk_fpa_numeral_double(ctx, hi, fsort(64))), l = keep(Z3_mk_fpa_numeral_double(ctx, lo, fsort(64)));
    Z3_ast ar[2] = {keep(Z3_mk_fpa_lt(ctx, f, h)), keep(cw == 32 ? Z3_mk_fpa_lt(ctx, l, f) : Z3_mk_fpa_leq(ctx, l, f))};
    Z3_ast in = keep(Z3_mk_and(ctx, 2, ar));
    Z3_ast v = keep(Z3_mk_fpa_to_sbv(ctx, keep(Z3_mk_fpa_rtz(ctx)), f, cw));
    Z3_ast bad = keep(bvc(cw, e->op == FTOU ? 0 : (cw == 32 ? 0x80000000ull : 0x8000000000000000ull)));
    Z3_ast r = keep(Z3_mk_ite(ctx, in, v, bad));
    if (w < cw) r = Z3_mk_extract(ctx, w - 1, 0, r);
    return r; }
  default:
    if (isF(e->op)) return fpBits(e);
    throw Unsupported("lowering op");
  }
}

struct CacheEnt { SR r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::map<std::vector<uint32_t>, CacheEnt> cache;

static SR solve1(std::vector<E>& cs, std::vector<std::pair<uint32_t, uint64_t>>& m, unsigned timeoutMs) {
  init();
  std::vector<uint32_t> key; for (E e : cs) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  if (it != cache.end()) { g_sstats.cacheHits++; m = it->second.m; return it->second.r; }
  bool fp = false; std::set<uint32_t> vs;
  for (E e : cs) { fp |= e->fp; for (uint32_t v : varsOf(e)) vs.insert(v); }
  double t0 = now();
  Z3_solver s = nullptr; 
  static Z3_solver (*mk)(bool) = [](bool f) {
    // quantifier-free bit-vector pipeline: simplify, bit-blast, SAT
    Z3_solver s;
    if (f) s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV"));
    else s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, s); return s; };
  s = mk(fp);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  // limits count solver steps, so that results do not depend on how busy the machine is
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs <= 2000 ? 5 * timeoutMs : 3 * timeoutMs);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), timeoutMs <= 2000 ? timeoutMs * g_rl : (unsigned)std::min(4.0e9, timeoutMs * 4000.0));
  Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
  for (E e : cs) Z3_solver_assert(ctx, s, L(e));
  zerr.clear();
  Z3_lbool r = Z3_solver_check(ctx, s);
  g_sstats.queries++;
  SR res = r == Z3_L_TRUE ? SR::SAT : r == Z3_L_FALSE ? SR::UNSAT : SR::UNKNOWN;
  if (res == SR::SAT) {
    g_sstats.sat++;
    Z3_model md = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, md);
    for (uint32_t v : vs) {
      unsigned w = g_vars[v].w; Z3_symbol sy = Z3_mk_int_symbol(ctx, (int)v);
      Z3_ast c = keep(Z3_mk_const(ctx, sy, w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, w)));
      Z3_ast o; uint64_t val = 0;
      if (Z3_model_eval(ctx, md, c, true, &o)) { Z3_inc_ref(ctx, o); if (w == 1) val = Z3_get_bool_value(ctx, o) == Z3_L_TRUE; else { uint64_t u = 0; Z3_get_numeral_uint64(ctx, o, &u); val = u; } Z3_dec_ref(ctx, o); }
      Z3_dec_ref(ctx, c);
      m.push_back({v, val});
    }
    Z3_model_dec_ref(ctx, md);
    // cross-check: the model must satisfy the constraints under our own evaluator
    Model mm; for (auto& kv : m) mm.val[kv.first] = kv.second;
    for (E e : cs) if (!mm.eval(e)) {
      fprintf(stderr, "sx: model cross-check failed on %s\n", show(e, 8).c_str());
      res = SR::UNKNOWN; m.clear(); g_sstats.unknown++; break;
    }
  } else if (res == SR::UNSAT) g_sstats.unsat++;
  else g_sstats.unknown++;
  unsigned rlUsed = 0; { Z3_stats z = Z3_solver_get_statistics(ctx, s); Z3_stats_inc_ref(ctx, z); for (unsigned i = 0; i < Z3_stats_size(ctx, z); i++) if (!strcmp(Z3_stats_get_key(ctx, z, i), "rlimit count")) rlUsed = Z3_stats_get_uint_value(ctx, z, i); Z3_stats_dec_ref(ctx, z); }
  static unsigned rlLast = 0; { unsigned t = rlUsed; rlUsed -= rlLast; rlLast = t; }
  Z3_solver_dec_ref(ctx, s);
  double dt = now() - t0; g_sstats.time += dt; if (dt > g_sstats.maxTime) g_sstats.maxTime = dt;
  if (getenv("SX_SLOW") && dt > atof(getenv("SX_SLOW"))) { Z3_stats z = nullptr; unsigned rl = 0; (void)z; fprintf(stderr, "sx: slow query %.2fs rl=%u res=%d fp=%d vars=%zu conj=%zu\n", dt, rlUsed, (int)res, (int)fp, vs.size(), cs.size()); (void)rl; if (getenv("SX_SLOWX")) for (E e : cs) fprintf(stderr, "    %s\n", show(e, atoi(getenv("SX_SLOWX"))).c_str()); }
  if (res != SR::UNKNOWN) cache[key] = {res, m};
  return res;
}

#include "sweep.inc"
// Floating-point abstraction: every maximal floating-point term is replaced by a fresh variable.  Unsatisfiable stays
// unsatisfiable; a model of the abstraction is tried out on the real terms, choosing the draws it leaves open.
static std::unordered_map<uint32_t, E> absMemo; static std::vector<std::pair<E, E>> absAtoms; static std::unordered_map<uint32_t, uint32_t> absVarAtom;
static bool fpRoot(E e) { return isF(e->op) || e->op == FLT || e->op == FLE || e->op == FEQ || e->op == FISNAN || e->op == FTOS || e->op == FTOU; }
static E absE(E root) {
  std::vector<E> st{root};
  while (!st.empty()) {
    E x = st.back(); if (absMemo.count(x->id)) { st.pop_back(); continue; }
    if (!x->fp) { absMemo[x->id] = x; st.pop_back(); continue; }
    if (fpRoot(x)) { E v = mkVar(x->w, "fpabs"); absMemo[x->id] = v; absVarAtom[(uint32_t)v->v] = absAtoms.size(); absAtoms.push_back({x, v}); st.pop_back(); continue; }
    bool ready = true; for (E k : {x->a, x->b, x->c}) if (k && !absMemo.count(k->id)) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back(); auto g = [&](E k) -> E { return k ? absMemo[k->id] : nullptr; };
    absMemo[x->id] = rebuild(x, g(x->a), g(x->b), g(x->c));
  }
  return absMemo[root->id];
}
static SR solve2(std::vector<E>& cs, std::vector<std::pair<uint32_t, uint64_t>>& m, unsigned timeoutMs) { // no floating point
  unsigned first = std::min(timeoutMs, 2000u);
  SR r = solve1(cs, m, first);
  if (r != SR::UNKNOWN || first == timeoutMs) return r;
  g_sstats.unknown--;
  double t0 = now();
  std::vector<E> s = sweepAll(cs);
  g_sstats.sweepTime += now() - t0; g_sstats.sweeps++;
  bool unsat = false; std::vector<E> k; for (E e : s) { if (isFalse(e)) unsat = true; if (!isC(e)) k.push_back(e); }
  if (unsat) { g_sstats.unsat++; return SR::UNSAT; }
  m.clear();
  r = solve1(k, m, timeoutMs);
  if (r == SR::SAT) { Model mm; for (auto& kv : m) mm.val[kv.first] = kv.second; for (E e : cs) if (!mm.eval(e)) { fprintf(stderr, "sx: model cross-check after sweeping failed\n"); return SR::UNKNOWN; } }
  return r;
}
static bool repair(const std::vector<E>& cs, const std::vector<E>& ab, std::vector<std::pair<uint32_t, uint64_t>>& m) {
  Model want; for (auto& kv : m) want.val[kv.first] = kv.second;
  Model real; for (auto& kv : m) if (!absVarAtom.count(kv.first)) real.val[kv.first] = kv.second;
  std::set<uint32_t> atoms; for (E e : ab) for (uint32_t v : varsOf(e)) { auto it = absVarAtom.find(v); if (it != absVarAtom.end()) atoms.insert(it->second); }
  std::set<uint32_t> fixed; for (E e : ab) for (uint32_t v : varsOf(e)) if (!absVarAtom.count(v) && g_vars[v].name != "fdraw") fixed.insert(v); // chosen by the abstract model
  for (uint32_t a : atoms) {
    E e = absAtoms[a].first; uint64_t w = want.eval(absAtoms[a].second);
    for (uint32_t v : varsOf(e)) if (!fixed.count(v) && g_vars[v].w == 32) {
      if (!real.val.count(v)) real.val[v] = 0x3F000000u;
      static const uint64_t cand[] = {0x3F000000u, 0x2F000000u, 0x3F800000u, 0x3E800000u, 0x3F400000u};
      for (uint64_t c : cand) { if (real.eval(e) == w) break; uint64_t old = real.val[v]; real.val[v] = c; real.memo.clear(); if (real.eval(e) == w) break; real.val[v] = old; real.memo.clear(); }
    }
    for (uint32_t v : varsOf(e)) fixed.insert(v);
  }
  real.memo.clear();
  for (E e : cs) if (!real.eval(e)) { if (getenv("SX_REPAIR")) { for (uint32_t a : atoms) fprintf(stderr, "atom want %llu real %llu %s\n", (unsigned long long)want.eval(absAtoms[a].second), (unsigned long long)real.eval(absAtoms[a].first), show(absAtoms[a].first, 7).c_str()); fprintf(stderr, "repair fails on %s\n", show(e, 9).c_str()); } return false; }
  m.clear(); std::set<uint32_t> vs; for (E e : cs) for (uint32_t v : varsOf(e)) vs.insert(v);
  for (uint32_t v : vs) m.push_back({v, real.val.count(v) ? real.val[v] : 0});
  return true;
}
static SR solve(std::vector<E>& cs, std::vector<std::pair<uint32_t, uint64_t>>& m) {
  bool fp = false; for (E e : cs) fp |= e->fp;
  if (!fp) return solve2(cs, m, g_timeoutMs);
  std::vector<uint32_t> key; for (E e : cs) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key); if (it != cache.end()) { g_sstats.cacheHits++; m = it->second.m; return it->second.r; }
  std::vector<E> ab; bool unsat = false; for (E e : cs) { E x = absE(e); if (isFalse(x)) unsat = true; if (!isC(x)) ab.push_back(x); }
  if (unsat) { cache[key] = {SR::UNSAT, {}}; return SR::UNSAT; }
  SR r = solve2(ab, m, g_timeoutMs); g_sstats.abstractions++;
  if (r == SR::UNSAT) { cache[key] = {r, {}}; return r; }
  if (r == SR::SAT && repair(cs, ab, m)) { g_sstats.repaired++; cache[key] = {r, m}; return r; }
  if (r == SR::UNKNOWN) return r;
  m.clear();
  unsigned first = std::min(g_timeoutMs, 2000u);
  r = solve1(cs, m, first);
  if (r != SR::UNKNOWN || first == g_timeoutMs) return r;
  g_sstats.unknown--; m.clear();
  return solve1(cs, m, g_timeoutMs);
}

SR query(const PCP& pc, E extra, const ModelP& base, ModelP* out) {
  if (isFalse(extra)) return SR::UNSAT;
  if (base && base->eval(extra)) { g_sstats.modelHits++; if (out) *out = base; return SR::SAT; }
  if (isTrue(extra) && base) { if (out) *out = base; return SR::SAT; }
  // independence slicing
  static std::vector<uint32_t> mark; static uint32_t stamp = 0;
  mark.resize(g_vars.size() + 1, 0); stamp++;
  std::vector<E> cs{extra}, rest;
  for (PC* p = pc.get(); p; p = p->up.get()) rest.push_back(p->c);
  for (uint32_t v : varsOf(extra)) mark[v] = stamp;
  if (!base) { cs.insert(cs.end(), rest.begin(), rest.end()); rest.clear(); }
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < rest.size();) {
      bool hit = false;
      for (uint32_t v : varsOf(rest[i])) if (mark[v] == stamp) { hit = true; break; }
      if (hit) { for (uint32_t v : varsOf(rest[i])) mark[v] = stamp; cs.push_back(rest[i]); rest[i] = rest.back(); rest.pop_back(); ch = true; }
      else i++;
    }
  }
  std::vector<std::pair<uint32_t, uint64_t>> m;
  SR r = solve(cs, m);
  if (r == SR::SAT && out) {
    auto mm = std::make_shared<Model>();
    if (base) mm->val = base->val;
    for (auto& kv : m) mm->val[kv.first] = kv.second;
    *out = mm;
  }
  return r;
}
} // namespace sx
