// Equivalence sweeping: before a hard query, prove pairs of sub-expressions equal (cheap queries, no path condition) and
// put sums into a canonical order, so that the two sides of a comparison share as much structure as possible.
static std::vector<std::unordered_map<uint32_t, uint64_t>> swVec;   // assignments
static std::unordered_map<uint32_t, E> swDone;                      // id -> proven-equal rebuilt form
struct SwRep { E e; std::vector<uint64_t> sig; };
static std::vector<SwRep> swReps;
static std::map<std::vector<uint64_t>, std::vector<size_t>> swClass;
static std::vector<Model> swModels;
static double swStop = 0;
static double cpu() { return (double)clock() / CLOCKS_PER_SEC; }
static std::vector<E> swFacts; static std::vector<uint32_t> swKey; // path conditions the merges below hold under
static uint64_t swRnd() { static uint64_t s = 0x9E3779B97F4A7C15ull; s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
static uint64_t swVarVal(size_t k, uint32_t v) {
  unsigned w = g_vars[v].w; uint64_t r = swRnd();
  if (w == 1) return k % 4 == 0 ? r & 1 : k % 4 == 1 ? (r & 7) != 0 : k % 4 == 2 ? (r & 7) == 0 : (r & 1);
  switch (k % 3) { case 0: return r & maskw(w); case 1: return (uint64_t)((int64_t)(r % 9) - 4) & maskw(w); default: return (uint64_t)(-(int64_t)(r % 100) - 1) & maskw(w); }
}
static uint64_t swEval(size_t k, E e) {
  Model& m = swModels[k];
  for (uint32_t v : varsOf(e)) if (!m.val.count(v)) m.val[v] = swVarVal(k, v);
  return m.eval(e);
}
static std::vector<uint64_t> swSig(E e) { std::vector<uint64_t> s; for (size_t k = 0; k < swModels.size(); k++) s.push_back(swEval(k, e)); return s; }
// ---- sums
typedef std::map<uint32_t, std::pair<E, uint64_t>> Lin; // term id -> (term, coefficient); constant separately
struct LinS { Lin t; uint64_t k = 0; };
static void linAdd(LinS& a, const LinS& b, uint64_t c, uint64_t msk) { a.k = (a.k + c * b.k) & msk; for (auto& x : b.t) { auto& y = a.t[x.first]; y.first = x.second.first; y.second = (y.second + c * x.second.second) & msk; if (!y.second) a.t.erase(x.first); } }
static E linBuild(const LinS& a, unsigned w) {
  E r = nullptr;
  for (auto& x : a.t) { E t = x.second.second == 1 ? x.second.first : mkBin(MUL, x.second.first, mkC(w, x.second.second)); bool neg = x.second.second == maskw(w); if (neg) { r = r ? mkBin(SUB, r, x.second.first) : mkBin(SUB, mkC(w, 0), x.second.first); continue; } r = r ? mkBin(ADD, r, t) : t; }
  if (!r) return mkC(w, a.k);
  return a.k ? mkBin(ADD, r, mkC(w, a.k)) : r;
}
static std::unordered_map<uint32_t, LinS> linMemo;
static const LinS& lin(E e) {
  auto it = linMemo.find(e->id); if (it != linMemo.end()) return it->second;
  unsigned w = e->w; uint64_t msk = maskw(w); LinS r;
  auto atom = [&](E x) { r.t[x->id] = {x, 1}; };
  switch (e->op) {
  case CONST: r.k = e->v; break;
  case ADD: r = lin(e->a); linAdd(r, lin(e->b), 1, msk); break;
  case SUB: r = lin(e->a); linAdd(r, lin(e->b), msk, msk); break;
  case MUL: if (isC(e->b)) { linAdd(r, lin(e->a), e->b->v, msk); break; } if (isC(e->a)) { linAdd(r, lin(e->b), e->a->v, msk); break; } atom(e); break;
  case SHL: if (isC(e->b) && e->b->v < w) { linAdd(r, lin(e->a), 1ull << e->b->v, msk); break; } atom(e); break;
  case ITE: {
    LinS t = lin(e->b), f = lin(e->c), com;
    for (auto& x : t.t) { auto y = f.t.find(x.first); if (y != f.t.end() && y->second.second == x.second.second) com.t[x.first] = x.second; }
    for (auto& x : com.t) { t.t.erase(x.first); f.t.erase(x.first); }
    if (t.t.empty() && !f.t.empty() && !t.k) { // keep the zero in the else branch
      bool neg = sx64(f.t.begin()->second.second, w) < 0; LinS z; linAdd(z, f, neg ? msk : 1, msk);
      E x = mkIte(mkNot(e->a), linBuild(z, w), mkC(w, 0)); r = com; LinS one; one.t[x->id] = {x, 1}; linAdd(r, one, neg ? msk : 1, msk); break; }
    if (f.t.empty() && !f.k && !t.t.empty()) {
      bool neg = sx64(t.t.begin()->second.second, w) < 0; LinS z; linAdd(z, t, neg ? msk : 1, msk);
      E x = mkIte(e->a, linBuild(z, w), mkC(w, 0)); r = com; LinS one; one.t[x->id] = {x, 1}; linAdd(r, one, neg ? msk : 1, msk); break; }
    if (com.t.empty()) { atom(e); break; }
    E x = mkIte(e->a, linBuild(t, w), linBuild(f, w)); r = com; if (isC(x)) r.k = (r.k + x->v) & msk; else { LinS one; one.t[x->id] = {x, 1}; linAdd(r, one, 1, msk); } break; }
  default: atom(e);
  }
  return linMemo[e->id] = r;
}
static E rebuild(E e, E a, E b, E c) {
  switch (e->op) {
  case CONST: case VAR: return e;
  case ITE: return mkIte(a, b, c);
  case CONCAT: return mkConcat(a, b);
  case EXTRACT: return mkExtract(a, (unsigned)e->v, e->w);
  case ZEXT: return mkZext(a, e->w);
  case SEXT: return mkSext(a, e->w);
  case FSQRT: case FRTI: case FISNAN: case FTOS: case FTOU: case STOF: case UTOF: case FEXT: case FTRUNC: return mkUn(e->op, a, e->w, e->v);
  default: return mkBin(e->op, a, b);
  }
}
static void swAddVec(const std::vector<std::pair<uint32_t, uint64_t>>& m) {
  swModels.emplace_back(); for (auto& kv : m) swModels.back().val[kv.first] = kv.second;
  size_t k = swModels.size() - 1;
  swClass.clear();
  for (size_t i = 0; i < swReps.size(); i++) { swReps[i].sig.push_back(swEval(k, swReps[i].e)); swClass[swReps[i].sig].push_back(i); }
}
static SR swAsk(E ne, std::vector<std::pair<uint32_t, uint64_t>>& m, unsigned lim) {
  std::set<uint32_t> vs; for (uint32_t v : varsOf(ne)) vs.insert(v);
  std::vector<E> q{ne}; std::vector<char> used(swFacts.size()); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < swFacts.size(); i++) if (!used[i]) { bool hit = false; for (uint32_t v : varsOf(swFacts[i])) hit |= vs.count(v) != 0; if (hit) { used[i] = 1; ch = true; q.push_back(swFacts[i]); for (uint32_t v : varsOf(swFacts[i])) vs.insert(v); } } }
  return solve1(q, m, lim);
}
static E swMerge(E n) {
  if (isC(n) || n->op == VAR || n->fp || cpu() > swStop) return n;
  if (n->w > 1 && !(n->op == ITE || n->op == ADD || n->op == SUB || n->op == ZEXT || n->op == CONCAT || n->op == EXTRACT)) return n;
  unsigned lim = n->w == 1 ? 1500 : 400;
  for (int round = 0; round < 12; round++) {
    auto sig = swSig(n); bool again = false;
    if (n->w == 1) { // constant?
      bool all0 = true, all1 = true; for (auto x : sig) { all0 &= x == 0; all1 &= x == 1; }
      if (all0 || all1) { std::vector<std::pair<uint32_t, uint64_t>> m; SR r = swAsk(all0 ? n : mkNot(n), m, lim); if (r == SR::UNSAT) { g_sstats.merged++; return mkC(1, all1); } if (r == SR::SAT) { swAddVec(m); continue; } else g_sstats.unknown--; } }
    auto cl = swClass.find(sig);
    if (cl != swClass.end()) { int tries = 0; for (size_t i : cl->second) { E e = swReps[i].e; if (e->w != n->w) continue; if (e == n) return n; if (tries++ >= 3) break;
      E q = mkNot(mkEq(e, n)); std::vector<std::pair<uint32_t, uint64_t>> m; if (isFalse(q)) return e; SR r = swAsk(q, m, lim);
      if (r == SR::UNSAT) { g_sstats.merged++; return e; }
      if (r == SR::SAT) { swAddVec(m); again = true; break; } else g_sstats.unknown--; } }
    if (again) continue;
    if (n->w == 1) { auto inv = sig; for (auto& x : inv) x ^= 1; auto c2 = swClass.find(inv);
      if (c2 != swClass.end()) for (size_t i : c2->second) { E e = swReps[i].e; if (e->w != 1) continue; E q = mkEq(e, n); std::vector<std::pair<uint32_t, uint64_t>> m; if (isFalse(q)) return mkNot(e); SR r = swAsk(q, m, lim); if (r == SR::UNSAT) { g_sstats.merged++; return mkNot(e); } if (r == SR::SAT) { swAddVec(m); again = true; } else g_sstats.unknown--; break; } }
    if (again) continue;
    swReps.push_back({n, sig}); swClass[sig].push_back(swReps.size() - 1);
    return n;
  }
  return n;
}
static std::vector<E> sweepAll(const std::vector<E>& cs) {
  // cs[0] is the goal, the rest path conditions: the small ones are used as facts
  std::vector<uint32_t> key; std::vector<E> facts;
  for (size_t i = 1; i < cs.size(); i++) if (varsOf(cs[i]).size() <= 24 && cs[i]->depth < 60 && !cs[i]->fp) { facts.push_back(cs[i]); key.push_back(cs[i]->id); }
  std::sort(key.begin(), key.end());
  if (key != swKey || swModels.empty()) {
    swKey = key; swFacts = facts; swDone.clear(); swReps.clear(); swClass.clear(); swModels.clear(); swModels.resize(24);
    for (size_t k = 0; k < swModels.size(); k++) for (E f : swFacts) {
      std::vector<uint32_t> mine; for (uint32_t v : varsOf(f)) if (!swModels[k].val.count(v)) mine.push_back(v);
      for (int t = 0; t < 200; t++) { for (uint32_t v : mine) swModels[k].val[v] = swVarVal(k + (t > 20 ? t : 0), v); swModels[k].memo.clear(); if (swModels[k].eval(f)) break; } }
  }
  swStop = cpu() + std::max(10.0, g_timeoutMs / 1000.0 / 2);
  std::vector<E> out;
  for (E root : {cs[0]}) {
    std::vector<E> st{root};
    while (!st.empty()) {
      E x = st.back(); if (swDone.count(x->id)) { st.pop_back(); continue; }
      bool ready = true; for (E k : {x->a, x->b, x->c}) if (k && !swDone.count(k->id)) { st.push_back(k); ready = false; }
      if (!ready) continue;
      st.pop_back();
      auto g = [&](E k) -> E { return k ? swDone[k->id] : nullptr; };
      E n = rebuild(x, g(x->a), g(x->b), g(x->c));
      if (n->w > 1 && (n->op == ADD || n->op == SUB || n->op == ITE) && !n->fp) { E l = linBuild(lin(n), n->w); n = l; }
      swDone[x->id] = swMerge(n);
    }
    out.push_back(swDone[root->id]);
  }
  out.insert(out.end(), cs.begin() + 1, cs.end());
  return out;
}
