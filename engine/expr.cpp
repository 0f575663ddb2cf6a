#include "expr.h"
#include <cstring>
#include <cmath>
#include <algorithm>

namespace sx {

std::vector<VarInfo> g_vars;
uint64_t g_nexprs = 0;

namespace {
std::vector<Expr*> table(1 << 16, nullptr);
size_t tcount = 0;

inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }
inline uint64_t hashOf(Op op, unsigned w, E a, E b, E c, uint64_t v) {
  uint64_t h = mix(op * 1315423911u + w);
  h = mix(h ^ (a ? a->id + 1 : 0)); h = mix(h * 31 ^ (b ? b->id + 1 : 0)); h = mix(h * 37 ^ (c ? c->id + 1 : 0)); h = mix(h * 41 ^ v);
  return h;
}
Expr* arena = nullptr; size_t arenaLeft = 0;
Expr* newExpr() {
  if (!arenaLeft) { arenaLeft = 4096; arena = (Expr*)malloc(sizeof(Expr) * arenaLeft); }
  Expr* r = arena++; arenaLeft--; return r;
}
E intern(Op op, unsigned w, E a, E b, E c, uint64_t v) {
  if (w == 0 || w > 64) throw Unsupported("expression width " + std::to_string(w) + " op " + std::to_string((int)op));
  uint64_t h = hashOf(op, w, a, b, c, v);
  size_t m = table.size() - 1, i = h & m;
  while (table[i]) {
    Expr* x = table[i];
    if (x->op == op && x->w == w && x->a == a && x->b == b && x->c == c && x->v == v) return x;
    i = (i + 1) & m;
  }
  Expr* x = newExpr();
  x->op = op; x->w = w; x->a = a; x->b = b; x->c = c; x->v = v; x->id = g_nexprs++; x->vars = nullptr;
  x->fp = (op >= FADD) || (a && a->fp) || (b && b->fp) || (c && c->fp);
  x->depth = 1 + std::max(a ? a->depth : 0, std::max(b ? b->depth : 0, c ? c->depth : 0));
  table[i] = x; tcount++;
  if (tcount * 2 > table.size()) {
    std::vector<Expr*> old; old.swap(table); table.assign(old.size() * 2, nullptr);
    size_t mm = table.size() - 1;
    for (Expr* y : old) if (y) { size_t j = hashOf(y->op, y->w, y->a, y->b, y->c, y->v) & mm; while (table[j]) j = (j + 1) & mm; table[j] = y; }
  }
  return x;
}
inline float f32(uint64_t v) { uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); return f; }
inline double f64(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
inline uint64_t u32(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline uint64_t u64(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
} // namespace

// x86-64 semantics for out-of-range float->int conversions (what the real build executes).
static uint64_t cvtS(double d, unsigned w) {
  if (w <= 32) { if (!(d > -2147483649.0 && d < 2147483648.0)) return 0x80000000ull & maskw(w); return (uint64_t)(int64_t)d & maskw(w); }
  if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0x8000000000000000ull; return (uint64_t)(int64_t)d;
}
static uint64_t cvtU(double d, unsigned w) {
  if (w <= 32) { if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0; return (uint64_t)(int64_t)d & maskw(w); }
  if (d < 9223372036854775808.0) return cvtS(d, 64);
  if (d < 18446744073709551616.0) return (uint64_t)d;
  return 0x8000000000000000ull;
}

uint64_t foldOp(Op op, unsigned w, unsigned wa, uint64_t a, uint64_t b, uint64_t extra) {
  uint64_t m = maskw(w);
  switch (op) {
  case ADD: return (a + b) & m;
  case SUB: return (a - b) & m;
  case MUL: return (a * b) & m;
  case UDIV: return b ? (a / b) & m : m;
  case UREM: return b ? (a % b) & m : a;
  case SDIV: { int64_t x = sx64(a, wa), y = sx64(b, wa); if (!y) return (x < 0 ? 1 : m); if (y == -1) return (uint64_t)(0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
  case SREM: { int64_t x = sx64(a, wa), y = sx64(b, wa); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case AND: return a & b;
  case OR: return a | b;
  case XOR: return a ^ b;
  case SHL: return b >= w ? 0 : (a << b) & m;
  case LSHR: return b >= w ? 0 : a >> b;
  case ASHR: { int64_t x = sx64(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
  case EQ: return a == b;
  case ULT: return a < b;
  case ULE: return a <= b;
  case SLT: return sx64(a, wa) < sx64(b, wa);
  case SLE: return sx64(a, wa) <= sx64(b, wa);
  case EXTRACT: return (a >> extra) & m;
  case ZEXT: return a;
  case SEXT: return (uint64_t)sx64(a, wa) & m;
  case FADD: return wa == 32 ? u32(f32(a) + f32(b)) : u64(f64(a) + f64(b));
  case FSUB: return wa == 32 ? u32(f32(a) - f32(b)) : u64(f64(a) - f64(b));
  case FMUL: return wa == 32 ? u32(f32(a) * f32(b)) : u64(f64(a) * f64(b));
  case FDIV: return wa == 32 ? u32(f32(a) / f32(b)) : u64(f64(a) / f64(b));
  case FREM: return wa == 32 ? u32(std::fmod(f32(a), f32(b))) : u64(std::fmod(f64(a), f64(b)));
  case FSQRT: return wa == 32 ? u32(std::sqrt(f32(a))) : u64(std::sqrt(f64(a)));
  case FRTI: {
    double d = wa == 32 ? (double)f32(a) : f64(a), r;
    switch (extra) { case 0: r = std::nearbyint(d); break; case 1: r = std::round(d); break; case 2: r = std::ceil(d); break; case 3: r = std::floor(d); break; default: r = std::trunc(d); }
    return wa == 32 ? u32((float)r) : u64(r); }
  case FLT: return wa == 32 ? f32(a) < f32(b) : f64(a) < f64(b);
  case FLE: return wa == 32 ? f32(a) <= f32(b) : f64(a) <= f64(b);
  case FEQ: return wa == 32 ? f32(a) == f32(b) : f64(a) == f64(b);
  case FISNAN: return wa == 32 ? std::isnan(f32(a)) : std::isnan(f64(a));
  case FTOS: return cvtS(wa == 32 ? (double)f32(a) : f64(a), w);
  case FTOU: return cvtU(wa == 32 ? (double)f32(a) : f64(a), w);
  case STOF: return w == 32 ? u32((float)sx64(a, wa)) : u64((double)sx64(a, wa));
  case UTOF: return w == 32 ? u32((float)a) : u64((double)a);
  case FEXT: return u64((double)f32(a));
  case FTRUNC: return u32((float)f64(a));
  default: throw Unsupported("foldOp");
  }
}

E mkC(unsigned w, uint64_t v) { return intern(CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
E mkVar(unsigned w, const std::string& name) {
  uint32_t ix = g_vars.size(); g_vars.push_back({name, w});
  return intern(VAR, w, nullptr, nullptr, nullptr, ix);
}

// ---- helpers -------------------------------------------------------------
static bool commut(Op op) { return op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ || op == FADD || op == FMUL || op == FEQ; }
static bool boolRes(Op op) { return (op >= EQ && op <= SLE) || (op >= FLT && op <= FISNAN); }

// Is e an ite tree whose leaves are all constants, with at most `budget` leaves?
static int constLeaves(E e, int budget) {
  if (e->op == CONST) return 1;
  if (e->op != ITE || budget <= 1) return 1000000;
  int l = constLeaves(e->b, budget - 1); if (l > budget) return l;
  int r = constLeaves(e->c, budget - l); return l + r;
}
static E mapLeaves(E e, const std::function<E(E)>& f) {
  if (e->op == CONST) return f(e);
  E t = mapLeaves(e->b, f), x = mapLeaves(e->c, f);
  return mkIte(e->a, t, x);
}

struct Seg { unsigned lo, w; E e; };
static void flat(E e, unsigned base, std::vector<Seg>& out) {
  while (e->op == CONCAT) { flat(e->b, base, out); base += e->b->w; e = e->a; }
  if (e->op == ZEXT) { flat(e->a, base, out); out.push_back({base + e->a->w, (unsigned)(e->w - e->a->w), mkC(e->w - e->a->w, 0)}); return; }
  out.push_back({base, e->w, e});
}
static bool segmentable(E e) { return e->op == CONCAT || e->op == ZEXT; }
// runs in a constant
static int runsOf(uint64_t v, unsigned w) { int r = 1; for (unsigned i = 1; i < w; i++) if (((v >> i) & 1) != ((v >> (i - 1)) & 1)) r++; return r; }

static E segBin(Op op, E a, E b) {
  std::vector<Seg> sa, sb;
  unsigned w = a->w;
  flat(a, 0, sa); flat(b, 0, sb);
  if (sa.size() + sb.size() > 200) return nullptr;
  std::vector<unsigned> cuts;
  for (auto& s : sa) cuts.push_back(s.lo);
  for (auto& s : sb) cuts.push_back(s.lo);
  auto addRuns = [&](std::vector<Seg>& ss) { for (auto& s : ss) if (isC(s.e)) for (unsigned i = 1; i < s.w; i++) if (((s.e->v >> i) & 1) != ((s.e->v >> (i - 1)) & 1)) cuts.push_back(s.lo + i); };
  addRuns(sa); addRuns(sb);
  cuts.push_back(w);
  std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  if (cuts.size() > 140) return nullptr;
  auto piece = [&](std::vector<Seg>& ss, unsigned lo, unsigned pw) -> E {
    for (auto& s : ss) if (lo >= s.lo && lo + pw <= s.lo + s.w) return mkExtract(s.e, lo - s.lo, pw);
    return nullptr;
  };
  // check usefulness: at least one piece where one side is constant
  E r = nullptr;
  std::vector<E> parts; bool useful = false;
  for (size_t i = 0; i + 1 < cuts.size(); i++) {
    unsigned lo = cuts[i], pw = cuts[i + 1] - lo;
    E pa = piece(sa, lo, pw), pb = piece(sb, lo, pw);
    if (!pa || !pb) return nullptr;
    if (isC(pa) || isC(pb)) useful = true;
    parts.push_back(mkBin(op, pa, pb));
  }
  if (!useful && parts.size() > 1 && !(segmentable(a) && segmentable(b))) return nullptr;
  for (auto p : parts) r = r ? mkConcat(p, r) : p;
  return r;
}

unsigned knownTZ(E e) {
  switch (e->op) {
  case CONST: return e->v ? std::min<unsigned>(e->w, __builtin_ctzll(e->v)) : e->w;
  case ADD: case SUB: case OR: case XOR: return std::min(knownTZ(e->a), knownTZ(e->b));
  case AND: return std::max(knownTZ(e->a), knownTZ(e->b));
  case MUL: return std::min<unsigned>(e->w, knownTZ(e->a) + knownTZ(e->b));
  case ITE: return std::min(knownTZ(e->b), knownTZ(e->c));
  case CONCAT: { unsigned t = knownTZ(e->b); return t == e->b->w ? t + knownTZ(e->a) : t; }
  case ZEXT: { unsigned t = knownTZ(e->a); return t == e->a->w ? e->w : t; }
  case SEXT: { unsigned t = knownTZ(e->a); return t == e->a->w ? e->w : t; }
  case SHL: return isC(e->b) ? std::min<unsigned>(e->w, knownTZ(e->a) + (unsigned)std::min<uint64_t>(64, e->b->v)) : knownTZ(e->a);
  case EXTRACT: { unsigned t = knownTZ(e->a); return t > e->v ? std::min<unsigned>(e->w, t - e->v) : 0; }
  default: return 0;
  }
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (w > 64) throw Unsupported("concat > 64 bits");
  if (isC(hi) && isC(lo)) return mkC(w, (hi->v << lo->w) | lo->v);
  if (isC(hi) && hi->v == 0) return mkZext(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->v == lo->v + lo->w) return mkExtract(hi->a, lo->v, w);
  // lo is concat(x, y), hi extract adjacent to x
  if (lo->op == CONCAT && hi->op == EXTRACT && lo->a->op == EXTRACT && lo->a->a == hi->a && hi->v == lo->a->v + lo->a->w)
    return mkConcat(mkExtract(hi->a, lo->a->v, hi->w + lo->a->w), lo->b);
  if (hi->op == EXTRACT && hi->v == lo->w && hi->a == lo) {} // not applicable
  // right-nested normal form: concat(concat(a,b),c) -> concat(a, concat(b,c))
  if (hi->op == CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->op == ZEXT) { return mkZext(mkConcat(hi->a, lo), w); }
  if (isC(hi) && lo->op == CONCAT && isC(lo->a)) return mkConcat(mkConcat(hi, lo->a), lo->b);
  // sign-extension pattern: hi = all copies of top bit is not tracked
  return intern(CONCAT, w, hi, lo, nullptr, 0);
}

static E extractRec(E a, unsigned lo, unsigned w) {
  switch (a->op) {
  case CONST: return mkC(w, a->v >> lo);
  case EXTRACT: return mkExtract(a->a, a->v + lo, w);
  case CONCAT: {
    unsigned lw = a->b->w;
    if (lo + w <= lw) return mkExtract(a->b, lo, w);
    if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
  }
  case ZEXT: {
    unsigned aw = a->a->w;
    if (lo >= aw) return mkC(w, 0);
    if (lo + w <= aw) return mkExtract(a->a, lo, w);
    return mkZext(mkExtract(a->a, lo, aw - lo), w);
  }
  case SEXT: {
    unsigned aw = a->a->w;
    if (lo + w <= aw) return mkExtract(a->a, lo, w);
    if (lo < aw) return mkSext(mkExtract(a->a, lo, aw - lo), w);
    return mkSext(mkExtract(a->a, aw - 1, 1), w);
  }
  case ITE: {
    if (isC(a->b) || isC(a->c) || a->b->op == ITE || a->c->op == ITE || segmentable(a->b) || segmentable(a->c) || w <= 8)
      if (a->depth < 60) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    break;
  }
  case AND: case OR: case XOR: return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case ADD: case SUB: case MUL: if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  case SHL: if (lo == 0 && isC(a->b)) { if (a->b->v >= w) return mkC(w, 0); return mkBin(SHL, mkExtract(a->a, 0, w), mkC(w, a->b->v)); } break;
  default: break;
  }
  return intern(EXTRACT, w, a, nullptr, nullptr, lo);
}

E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w) throw Unsupported("bad extract");
  if (a->depth < 4) return extractRec(a, lo, w);
  struct K { E e; unsigned lo, w; bool operator==(K const& o) const { return e == o.e && lo == o.lo && w == o.w; } };
  struct H { size_t operator()(K const& k) const { return (size_t)k.e * 0x9E3779B97F4A7C15ull ^ (k.lo * 131u + k.w); } };
  static std::unordered_map<K, E, H> memo; // shared subterms: once each
  K const k{a, lo, w}; auto it = memo.find(k); if (it != memo.end()) return it->second;
  E r = extractRec(a, lo, w); if (memo.size() > 4000000) memo.clear(); memo.emplace(k, r); return r;
}

E mkZext(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkC(w, a->v);
  if (a->op == ZEXT) return mkZext(a->a, w);
  if (a->op == ITE && constLeaves(a, 16) <= 16) return mapLeaves(a, [&](E x) { return mkC(w, x->v); });
  return intern(ZEXT, w, a, nullptr, nullptr, 0);
}
E mkSext(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkC(w, (uint64_t)sx64(a->v, a->w));
  if (a->op == SEXT) return mkSext(a->a, w);
  if (a->op == ZEXT) return mkZext(a->a, w);
  if (a->w == 1) return mkIte(a, mkC(w, ~0ull), mkC(w, 0));
  if (a->op == ITE && constLeaves(a, 16) <= 16) return mapLeaves(a, [&](E x) { return mkC(w, (uint64_t)sx64(x->v, x->w)); });
  return intern(SEXT, w, a, nullptr, nullptr, 0);
}

E mkIte(E c, E t, E f) {
  if (isC(c)) return c->v ? t : f;
  if (t == f) return t;
  if (c->op == XOR && isC(c->b) && c->w == 1) return mkIte(c->a, f, t); // !c (const is on the right)
  if (t->op == ITE && t->a == c) t = t->b;
  if (f->op == ITE && f->a == c) f = f->c;
  if (t == f) return t;
  if (t->w == 1) {
    if (isTrue(t) && isFalse(f)) return c;
    if (isFalse(t) && isTrue(f)) return mkNot(c);
    if (isTrue(t)) return mkOr(c, f);
    if (isFalse(t)) return mkAnd(mkNot(c), f);
    if (isTrue(f)) return mkOr(mkNot(c), t);
    if (isFalse(f)) return mkAnd(c, t);
    if (t == c) return mkOr(c, f);
    if (f == c) return mkAnd(c, t);
  }
  if (t->op == ITE && t->c == f) return mkIte(mkAnd(c, t->a), t->b, f);
  if (f->op == ITE && f->b == t) return mkIte(mkOr(c, f->a), t, f->c);
  if (t->op == ITE && t->b == f) return mkIte(mkAnd(c, mkNot(t->a)), t->c, f);
  if (f->op == ITE && f->c == t) return mkIte(mkOr(c, mkNot(f->a)), t, f->b);
  // common structure through zext/concat with identical parts
  if (t->op == ZEXT && f->op == ZEXT && t->a->w == f->a->w) return mkZext(mkIte(c, t->a, f->a), t->w);
  if (t->op == SEXT && f->op == SEXT && t->a->w == f->a->w) return mkSext(mkIte(c, t->a, f->a), t->w);
  if (t->op == ZEXT && isC(f) && t->a->w < 64 && (f->v >> t->a->w) == 0) return mkZext(mkIte(c, t->a, mkC(t->a->w, f->v)), t->w);
  if (f->op == ZEXT && isC(t) && f->a->w < 64 && (t->v >> f->a->w) == 0) return mkZext(mkIte(c, mkC(f->a->w, t->v), f->a), t->w);
  if (t->op == CONCAT && f->op == CONCAT && t->a->w == f->a->w && (t->a == f->a || t->b == f->b))
    return mkConcat(mkIte(c, t->a, f->a), mkIte(c, t->b, f->b));
  return intern(ITE, t->w, c, t, f, 0);
}

// unsigned upper bound of e (small sums of flags are expanded into value tables)
static uint64_t knownUB(E e, int d = 12) {
  uint64_t all = maskw(e->w); if (d <= 0) return all;
  switch (e->op) {
  case CONST: return e->v;
  case ZEXT: return knownUB(e->a, d - 1);
  case ITE: return std::max(knownUB(e->b, d - 1), knownUB(e->c, d - 1));
  case ADD: { uint64_t a = knownUB(e->a, d - 1), b = knownUB(e->b, d - 1); return a <= 1000 && b <= 1000 && a + b < all ? a + b : all; }
  case AND: return std::min(knownUB(e->a, d - 1), knownUB(e->b, d - 1));
  case EXTRACT: { uint64_t a = knownUB(e->a, d - 1); return e->v == 0 && a <= all ? a : all; }
  default: return all;
  }
}
E mkUn(Op op, E a, unsigned w, uint64_t v) {
  if (isC(a)) return mkC(w, foldOp(op, w, a->w, a->v, 0, v));
  if (op == ZEXT) return mkZext(a, w);
  if (op == SEXT) return mkSext(a, w);
  if (op == EXTRACT) return mkExtract(a, v, w);
  if (a->op == ITE && constLeaves(a, 32) <= 32) return mapLeaves(a, [&](E x) { return mkC(w, foldOp(op, w, x->w, x->v, 0, v)); });
  if (op == FTRUNC && a->op == FEXT) return a->a;
  if ((op == STOF || op == UTOF) && a->w >= 8) { uint64_t u = knownUB(a); if (u <= 16 && u < maskw(a->w - 1)) { E r = mkC(w, foldOp(op, w, a->w, u, 0, v)); for (uint64_t k = u; k-- > 0;) r = mkIte(mkEq(a, mkC(a->w, k)), mkC(w, foldOp(op, w, a->w, k, 0, v)), r); return r; } }
  return intern(op, w, a, nullptr, nullptr, v);
}

E mkBin(Op op, E a, E b) {
  unsigned wa = a->w, w = boolRes(op) ? 1 : wa;
  if (a->w != b->w) throw Unsupported("width mismatch op " + std::to_string((int)op) + " " + std::to_string(a->w) + " " + std::to_string(b->w));
  if (isC(a) && isC(b)) return mkC(w, foldOp(op, w, wa, a->v, b->v, 0));
  if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  uint64_t m = maskw(wa);
  switch (op) {
  case ADD:
    if (isC(b)) {
      if (b->v == 0) return a;
      if (a->op == ADD && isC(a->b)) return mkBin(ADD, a->a, mkC(w, a->b->v + b->v));
      if (a->op == SUB && isC(a->a)) return mkBin(SUB, mkC(w, a->a->v + b->v), a->b);
    }
    if (b->op == ADD && isC(b->b)) return mkBin(ADD, mkBin(ADD, a, b->a), b->b);
    if (a->op == ADD && isC(a->b)) return mkBin(ADD, mkBin(ADD, a->a, b), a->b);
    if (a->op == SUB && a->b == b) return a->a;
    if (b->op == SUB && b->b == a) return b->a;
    break;
  case SUB:
    if (a == b) return mkC(w, 0);
    if (isC(b)) return mkBin(ADD, a, mkC(w, 0 - b->v));
    if (a->op == ADD && isC(a->b)) return mkBin(ADD, mkBin(SUB, a->a, b), a->b);
    if (b->op == ADD && isC(b->b)) return mkBin(ADD, mkBin(SUB, a, b->a), mkC(w, 0 - b->b->v));
    if (a->op == ADD && a->b == b) return a->a;
    if (a->op == ADD && a->a == b) return a->b;
    break;
  case MUL:
    if (isC(b)) { if (b->v == 0) return b; if (b->v == 1) return a; if ((b->v & (b->v - 1)) == 0) return mkBin(SHL, a, mkC(w, __builtin_ctzll(b->v))); if (b->v == m) return mkBin(SUB, mkC(w, 0), a); }
    if (a->op == ZEXT && a->a->w == 1) return mkIte(a->a, b, mkC(w, 0));
    if (b->op == ZEXT && b->a->w == 1) return mkIte(b->a, a, mkC(w, 0));
    break;
  case UDIV: if (isC(b)) { if (b->v == 1) return a; if (b->v && (b->v & (b->v - 1)) == 0) return mkBin(LSHR, a, mkC(w, __builtin_ctzll(b->v))); } break;
  case UREM: if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) { if (b->v == 1) return mkC(w, 0); return mkZext(mkExtract(a, 0, __builtin_ctzll(b->v)), w); }
    if (isC(b) && b->v > 1 && b->v < 65536) { // keep dividers narrow
      uint64_t c = b->v;
      { // (y * multiple of c + k) mod c without overflow
        E x = a; uint64_t k = 0; if (x->op == ADD && isC(x->b)) { k = x->b->v; x = x->a; }
        uint64_t f = 0; E y = nullptr;
        if (x->op == MUL && isC(x->b)) { f = x->b->v; y = x->a; } else if (x->op == SHL && isC(x->b) && x->b->v < w) { f = 1ull << x->b->v; y = x->a; }
        if (y && f % c == 0 && (unsigned __int128)knownUB(y) * f + k <= maskw(w)) return mkC(w, k % c); }
      if (a->op == ZEXT && a->a->w < w && a->a->w >= 17) return mkZext(mkBin(UREM, a->a, mkC(a->a->w, c)), w);
      if (a->op == ZEXT && a->a->w < 17 && w > 17) return mkZext(mkBin(UREM, mkZext(a->a, 17), mkC(17, c)), w);
      if (a->op == SEXT && a->a->w >= 18 && a->a->w < w) {
        unsigned k = a->a->w; uint64_t m = w >= 64 ? ~0ull : (1ull << w) - 1, K = (m - (1ull << (k - 1)) + 1) % c; // all-ones above the low k-1 bits
        E lo = mkZext(mkBin(UREM, mkExtract(a->a, 0, k - 1), mkC(k - 1, c)), k), neg = mkExtract(a->a, k - 1, 1);
        E t = mkBin(ADD, lo, mkIte(neg, mkC(k, K), mkC(k, 0)));
        return mkZext(mkIte(mkBin(ULT, t, mkC(k, c)), t, mkBin(SUB, t, mkC(k, c))), w);
      }
    }
    break;
  case AND:
    if (a == b) return a;
    if (isC(b)) { if (b->v == 0) return b; if (b->v == m) return a; }
    if (w == 1) {
      if (a->op == XOR && isC(a->b) && a->a == b) return mkC(1, 0);
      if (b->op == XOR && isC(b->b) && b->a == a) return mkC(1, 0);
      if (b->op == AND && (b->a == a || b->b == a)) return b;
      if (a->op == AND && (a->a == b || a->b == b)) return a;
    } else if (segmentable(a) || segmentable(b) || isC(b)) {
      if ((segmentable(a) && segmentable(b)) || (isC(b) && runsOf(b->v, w) <= 8) || (segmentable(a) && !isC(b)) || (segmentable(b)))
        if (E r = segBin(op, a, b)) return r;
    }
    break;
  case OR:
    if (a == b) return a;
    if (isC(b)) { if (b->v == 0) return a; if (b->v == m) return b; }
    if (w == 1) {
      if (a->op == XOR && isC(a->b) && a->a == b) return mkC(1, 1);
      if (b->op == XOR && isC(b->b) && b->a == a) return mkC(1, 1);
      if (b->op == OR && (b->a == a || b->b == a)) return b;
      if (a->op == OR && (a->a == b || a->b == b)) return a;
    } else if ((segmentable(a) && segmentable(b)) || (isC(b) && runsOf(b->v, w) <= 8) || segmentable(a) || segmentable(b)) {
      if (E r = segBin(op, a, b)) return r;
    }
    break;
  case XOR:
    if (a == b) return mkC(w, 0);
    if (isC(b)) {
      if (b->v == 0) return a;
      if (a->op == XOR && isC(a->b)) return mkBin(XOR, a->a, mkC(w, a->b->v ^ b->v));
      if (w == 1) {
        // push negation into comparisons
        if (a->op == ULT) return mkBin(ULE, a->b, a->a);
        if (a->op == ULE) return mkBin(ULT, a->b, a->a);
        if (a->op == SLT) return mkBin(SLE, a->b, a->a);
        if (a->op == SLE) return mkBin(SLT, a->b, a->a);
      }
    }
    if (w > 1 && ((segmentable(a) && segmentable(b)) || (isC(b) && b->v != m && runsOf(b->v, w) <= 8) || ((segmentable(a) || segmentable(b)) && !isC(b)))) {
      if (E r = segBin(op, a, b)) return r;
    }
    if (w == 1 && !isC(b)) {
      // normalise negations outwards: (x^1)^y -> (x^y)^1
      if (a->op == XOR && isC(a->b)) return mkNot(mkBin(XOR, a->a, b));
      if (b->op == XOR && isC(b->b)) return mkNot(mkBin(XOR, a, b->a));
    }
    break;
  case SHL:
    if (isC(b)) {
      if (b->v == 0) return a;
      if (b->v >= w) return mkC(w, 0);
      return mkConcat(mkExtract(a, 0, w - b->v), mkC(b->v, 0));
    }
    if (isC(a) && a->v == 0) return a;
    break;
  case LSHR:
    if (isC(b)) {
      if (b->v == 0) return a;
      if (b->v >= w) return mkC(w, 0);
      return mkZext(mkExtract(a, b->v, w - b->v), w);
    }
    if (isC(a) && a->v == 0) return a;
    break;
  case ASHR:
    if (isC(b)) {
      if (b->v == 0) return a;
      uint64_t s = std::min<uint64_t>(b->v, w - 1);
      return mkSext(mkExtract(a, s, w - s), w);
    }
    break;
  case EQ:
    if (a == b) return mkC(1, 1);
    if (wa == 1) { if (isC(b)) return b->v ? a : mkNot(a); return mkNot(mkBin(XOR, a, b)); }
    if (isC(b)) {
      switch (a->op) {
      case ZEXT: if (b->v >> a->a->w) return mkC(1, 0); return mkEq(a->a, mkC(a->a->w, b->v));
      case SEXT: { uint64_t t = b->v & maskw(a->a->w); if (((uint64_t)sx64(t, a->a->w) & m) != b->v) return mkC(1, 0); return mkEq(a->a, mkC(a->a->w, t)); }
      case CONCAT: return mkAnd(mkEq(a->a, mkC(a->a->w, b->v >> a->b->w)), mkEq(a->b, mkC(a->b->w, b->v)));
      case ADD: if (isC(a->b)) return mkEq(a->a, mkC(wa, b->v - a->b->v)); break;
      case XOR: if (isC(a->b)) return mkEq(a->a, mkC(wa, b->v ^ a->b->v)); if (b->v == 0) return mkEq(a->a, a->b); break;
      case SUB: if (isC(a->a)) return mkEq(a->b, mkC(wa, a->a->v - b->v)); if (b->v == 0) return mkEq(a->a, a->b); break;
      case OR: if (b->v == 0) return mkAnd(mkEq(a->a, b), mkEq(a->b, b)); break;
      case ITE: if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b)); break;
      default: break;
      }
    } else {
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
      if (a->op == ADD && b->op == ADD && isC(a->b) && a->b == b->b) return mkEq(a->a, b->a);
      if (a->op == ADD && isC(a->b) && a->a == b) return mkC(1, 0);
      if (b->op == ADD && isC(b->b) && b->a == a) return mkC(1, 0);
      if (a->op == ITE && b->op == ITE && a->a == b->a) return mkIte(a->a, mkEq(a->b, b->b), mkEq(a->c, b->c));
    }
    break;
  case ULT:
    if (a == b) return mkC(1, 0);
    if (wa == 1) return mkAnd(mkNot(a), b);
    if (isC(b)) {
      if (b->v == 0) return mkC(1, 0);
      if (b->v == 1) return mkEq(a, mkC(wa, 0));
      if (a->op == ZEXT) { if (b->v > maskw(a->a->w)) return mkC(1, 1); return mkBin(ULT, a->a, mkC(a->a->w, b->v)); }
    }
    if (isC(a)) {
      if (a->v == m) return mkC(1, 0);
      if (a->v == 0) return mkNot(mkEq(b, a));
      if (b->op == ZEXT) { if (a->v >= maskw(b->a->w)) return mkC(1, 0); return mkBin(ULT, mkC(b->a->w, a->v), b->a); }
    }
    if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(ULT, a->a, b->a);
    break;
  case ULE:
    if (a == b) return mkC(1, 1);
    if (wa == 1) return mkOr(mkNot(a), b);
    if (isC(b)) {
      if (b->v == m) return mkC(1, 1);
      if (b->v == 0) return mkEq(a, b);
      if (a->op == ZEXT) { if (b->v >= maskw(a->a->w)) return mkC(1, 1); return mkBin(ULE, a->a, mkC(a->a->w, b->v)); }
    }
    if (isC(a)) {
      if (a->v == 0) return mkC(1, 1);
      if (a->v == m) return mkEq(a, b);
      if (a->v == 1) return mkNot(mkEq(b, mkC(wa, 0)));
      if (b->op == ZEXT) { if (a->v > maskw(b->a->w)) return mkC(1, 0); return mkBin(ULE, mkC(b->a->w, a->v), b->a); }
    }
    if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(ULE, a->a, b->a);
    break;
  case SLT: case SLE: {
    if (a == b) return mkC(1, op == SLE);
    if (wa == 1) break;
    uint64_t smin = 1ull << (wa - 1), smax = smin - 1;
    if (isC(b)) {
      if (op == SLT && b->v == smin) return mkC(1, 0);
      if (op == SLE && b->v == smax) return mkC(1, 1);
      if (a->op == ZEXT) { // a >= 0
        if (sx64(b->v, wa) < 0) return mkC(1, 0);
        return mkBin(op == SLT ? ULT : ULE, a, b);
      }
      if (a->op == SEXT) {
        unsigned n = a->a->w; int64_t lo = -(1ll << (n - 1)), hi = (1ll << (n - 1)) - 1, k = sx64(b->v, wa);
        if (op == SLT) { if (k > hi) return mkC(1, 1); if (k <= lo) return mkC(1, 0); }
        else { if (k >= hi) return mkC(1, 1); if (k < lo) return mkC(1, 0); }
        return mkBin(op, a->a, mkC(n, (uint64_t)k));
      }
      if (a->op == CONCAT && isC(a->b) && a->b->v == 0 && sx64(b->v, wa) == 0 && op == SLT) return mkBin(SLT, a->a, mkC(a->a->w, 0));
    }
    if (isC(a)) {
      if (op == SLT && a->v == smax) return mkC(1, 0);
      if (op == SLE && a->v == smin) return mkC(1, 1);
      if (b->op == ZEXT) {
        if (sx64(a->v, wa) < 0) return mkC(1, 1);
        return mkBin(op == SLT ? ULT : ULE, a, b);
      }
      if (b->op == SEXT) {
        unsigned n = b->a->w; int64_t lo = -(1ll << (n - 1)), hi = (1ll << (n - 1)) - 1, k = sx64(a->v, wa);
        if (op == SLT) { if (k < lo) return mkC(1, 1); if (k >= hi) return mkC(1, 0); }
        else { if (k <= lo) return mkC(1, 1); if (k > hi) return mkC(1, 0); }
        return mkBin(op, mkC(n, (uint64_t)k), b->a);
      }
    }
    if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
    if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(op == SLT ? ULT : ULE, a->a, b->a);
    break; }
  default: break;
  }
  // distribute over constant-leaf ite trees
  if (op != EQ || true) {
    if (isC(b) && a->op == ITE && constLeaves(a, 24) <= 24) { E bb = b; return mapLeaves(a, [&](E x) { return mkC(w, foldOp(op, w, wa, x->v, bb->v, 0)); }); }
    if (isC(a) && b->op == ITE && constLeaves(b, 24) <= 24) { E aa = a; return mapLeaves(b, [&](E x) { return mkC(w, foldOp(op, w, wa, aa->v, x->v, 0)); }); }
    if (a->op == ITE && b->op == ITE && a->a == b->a && (op == ADD || op == SUB || op == AND || op == OR || op == XOR) && isC(a->b) + isC(a->c) + isC(b->b) + isC(b->c) >= 2)
      return mkIte(a->a, mkBin(op, a->b, b->b), mkBin(op, a->c, b->c));
  }
  return intern(op, w, a, b, nullptr, 0);
}

// ---- evaluation -----------------------------------------------------------
uint64_t Model::eval(E e) {
  if (e->op == CONST) return e->v;
  if (e->op == VAR) { auto it = val.find((uint32_t)e->v); return it == val.end() ? 0 : it->second & maskw(e->w); }
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  uint64_t r;
  // iterative for deep structures
  if (e->depth > 2000) {
    std::vector<E> st{e};
    while (!st.empty()) {
      E x = st.back();
      if (x->op == CONST || x->op == VAR || memo.count(x->id)) { st.pop_back(); continue; }
      bool ready = true;
      for (E k : {x->a, x->b, x->c}) if (k && k->op != CONST && k->op != VAR && !memo.count(k->id)) { st.push_back(k); ready = false; }
      if (!ready) continue;
      st.pop_back();
      if (x->op == ITE) r = eval(x->a) ? eval(x->b) : eval(x->c);
      else if (x->op == CONCAT) r = (eval(x->a) << x->b->w) | eval(x->b);
      else r = foldOp(x->op, x->w, x->a->w, eval(x->a), x->b ? eval(x->b) : 0, x->v);
      memo[x->id] = r;
    }
    return memo[e->id];
  }
  if (e->op == ITE) r = eval(e->a) ? eval(e->b) : eval(e->c);
  else if (e->op == CONCAT) r = (eval(e->a) << e->b->w) | eval(e->b);
  else r = foldOp(e->op, e->w, e->a->w, eval(e->a), e->b ? eval(e->b) : 0, e->v);
  memo[e->id] = r;
  return r;
}

const std::vector<uint32_t>& varsOf(E e0) {
  static const std::vector<uint32_t> none;
  if (e0->vars) return *e0->vars;
  std::vector<E> st{e0};
  while (!st.empty()) {
    E x = st.back();
    if (x->vars) { st.pop_back(); continue; }
    bool ready = true;
    for (E k : {x->a, x->b, x->c}) if (k && !k->vars) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back();
    auto* v = new std::vector<uint32_t>();
    if (x->op == VAR) v->push_back((uint32_t)x->v);
    std::vector<uint32_t>* same = nullptr;
    for (E k : {x->a, x->b, x->c}) if (k && !k->vars->empty()) {
      if (v->empty() && !same) { same = k->vars; continue; }
      if (same) { if (same == k->vars) continue; *v = *same; same = nullptr; }
      std::vector<uint32_t> u; std::set_union(v->begin(), v->end(), k->vars->begin(), k->vars->end(), std::back_inserter(u)); v->swap(u);
    }
    if (same) { delete v; const_cast<Expr*>(x)->vars = same; }
    else const_cast<Expr*>(x)->vars = v;
  }
  return *e0->vars;
}

static const char* names[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "=", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext",
  "fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "frti", "flt", "fle", "feq", "fisnan", "ftos", "ftou", "stof", "utof", "fext", "ftrunc"};
std::string show(E e, int d) {
  if (!e) return "null";
  if (e->op == CONST) return std::to_string(e->v) + ":" + std::to_string(e->w);
  if (e->op == VAR) return g_vars[e->v].name;
  if (d <= 0) return "#" + std::to_string(e->id);
  std::string s = std::string("(") + names[e->op];
  if (e->op == EXTRACT) s += "[" + std::to_string(e->v) + "+" + std::to_string(e->w) + "]";
  for (E k : {e->a, e->b, e->c}) if (k) s += " " + show(k, d - 1);
  return s + ")";
}

} // namespace sx
