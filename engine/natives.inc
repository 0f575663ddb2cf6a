// ---- wide (65..128 bit) integers as limb vectors -------------------------
static bool isWide(Type* t);
static std::vector<E> limbs(const Val& v, Type* t) { std::vector<E> r; for (unsigned i = 0; i < aggN(t); i++) r.push_back(toE((*v.a)[i], widthOf(aggT(t, i)))); return r; }
static Val unlimb(const std::vector<E>& v) { std::vector<Val> r; for (E e : v) r.push_back(Val::of(e)); return Val::agg(std::move(r)); }
static Val wideOp(Item&, unsigned op, Type* t, const Val& a, const Val& b) {
  auto x = limbs(a, t), y = limbs(b, t);
  if (t->getIntegerBitWidth() != 128) throw Unsupported("wide int width");
  switch (op) {
  case Instruction::And: return unlimb({mkBin(AND, x[0], y[0]), mkBin(AND, x[1], y[1])});
  case Instruction::Or: return unlimb({mkBin(OR, x[0], y[0]), mkBin(OR, x[1], y[1])});
  case Instruction::Xor: return unlimb({mkBin(XOR, x[0], y[0]), mkBin(XOR, x[1], y[1])});
  case Instruction::Add: { E lo = mkBin(ADD, x[0], y[0]); E c = mkZext(mkBin(ULT, lo, x[0]), 64); return unlimb({lo, mkBin(ADD, mkBin(ADD, x[1], y[1]), c)}); }
  case Instruction::Sub: { E br = mkZext(mkBin(ULT, x[0], y[0]), 64); return unlimb({mkBin(SUB, x[0], y[0]), mkBin(SUB, mkBin(SUB, x[1], y[1]), br)}); }
  case Instruction::Mul: {
    auto p = [&](E u, E v) { return mkBin(MUL, u, v); };
    E m32 = mkC(64, 32); auto lo32 = [&](E u) { return mkZext(mkExtract(u, 0, 32), 64); }; auto hi32 = [&](E u) { return mkZext(mkExtract(u, 32, 32), 64); };
    E a0 = lo32(x[0]), a1 = hi32(x[0]), b0 = lo32(y[0]), b1 = hi32(y[0]);
    E p00 = p(a0, b0), p01 = p(a0, b1), p10 = p(a1, b0), p11 = p(a1, b1);
    E mid = mkBin(ADD, mkBin(ADD, hi32(p00), lo32(p01)), lo32(p10));
    E hi = mkBin(ADD, mkBin(ADD, p11, hi32(p01)), mkBin(ADD, hi32(p10), mkBin(LSHR, mid, m32)));
    return unlimb({p(x[0], y[0]), mkBin(ADD, hi, mkBin(ADD, p(x[0], y[1]), p(x[1], y[0])))}); }
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    if (!isC(y[0])) throw Unsupported("symbolic wide shift");
    uint64_t k = y[0]->v; E z = mkC(64, 0); E sg = op == Instruction::AShr ? mkBin(ASHR, x[1], mkC(64, 63)) : z;
    if (k == 0) return a;
    if (op == Instruction::Shl) { if (k >= 128) return unlimb({z, z}); if (k >= 64) return unlimb({z, mkBin(SHL, x[0], mkC(64, k - 64))}); return unlimb({mkBin(SHL, x[0], mkC(64, k)), mkBin(OR, mkBin(SHL, x[1], mkC(64, k)), mkBin(LSHR, x[0], mkC(64, 64 - k)))}); }
    Op so = op == Instruction::AShr ? ASHR : LSHR;
    if (k >= 128) return unlimb({sg, sg});
    if (k >= 64) return unlimb({mkBin(so, x[1], mkC(64, k - 64)), sg});
    return unlimb({mkBin(OR, mkBin(LSHR, x[0], mkC(64, k)), mkBin(SHL, x[1], mkC(64, 64 - k))), mkBin(so, x[1], mkC(64, k))}); }
  case Instruction::UDiv: case Instruction::URem: {
    for (E e : {x[0], x[1], y[0], y[1]}) if (!isC(e)) throw Unsupported("symbolic 128-bit division");
    unsigned __int128 u = ((unsigned __int128)x[1]->v << 64) | x[0]->v, v = ((unsigned __int128)y[1]->v << 64) | y[0]->v; if (!v) throw Unsupported("wide div 0");
    unsigned __int128 q = op == Instruction::UDiv ? u / v : u % v; return unlimb({mkC(64, (uint64_t)q), mkC(64, (uint64_t)(q >> 64))}); }
  default: throw Unsupported("wide op");
  }
}
static E wideCmp(int p, const Val& a, const Val& b, Type* t) {
  auto x = limbs(a, t), y = limbs(b, t);
  E eqh = mkEq(x[1], y[1]), eql = mkEq(x[0], y[0]);
  switch (p) {
  case CmpInst::ICMP_EQ: return mkAnd(eqh, eql); case CmpInst::ICMP_NE: return mkNot(mkAnd(eqh, eql));
  case CmpInst::ICMP_ULT: return mkOr(mkBin(ULT, x[1], y[1]), mkAnd(eqh, mkBin(ULT, x[0], y[0])));
  case CmpInst::ICMP_UGT: return mkOr(mkBin(ULT, y[1], x[1]), mkAnd(eqh, mkBin(ULT, y[0], x[0])));
  case CmpInst::ICMP_ULE: return mkNot(mkOr(mkBin(ULT, y[1], x[1]), mkAnd(eqh, mkBin(ULT, y[0], x[0]))));
  case CmpInst::ICMP_UGE: return mkNot(mkOr(mkBin(ULT, x[1], y[1]), mkAnd(eqh, mkBin(ULT, x[0], y[0]))));
  default: throw Unsupported("wide cmp");
  }
}
static Val wideCast(unsigned op, const Val& a, Type* ft, Type* tt) {
  if (isWide(ft) && isWide(tt)) throw Unsupported("wide-wide cast");
  if (isWide(ft)) { unsigned w = widthOf(tt); if (op != Instruction::Trunc) throw Unsupported("wide cast"); E e = toE((*a.a)[0], 64); return Val::of(mkTrunc(e, w)); }
  unsigned wf = widthOf(ft); E e = toE(a, wf);
  if (op == Instruction::ZExt) return unlimb({mkZext(e, 64), mkC(64, 0)});
  if (op == Instruction::SExt) { E l = mkSext(e, 64); return unlimb({l, mkBin(ASHR, l, mkC(64, 63))}); }
  throw Unsupported("wide cast");
}

// ---- block memory ----------------------------------------------------------
static void rangeCheck(Item& it, uint64_t a, uint64_t n, const char* what, Instruction* I) {
  if (it.st.mem.valid(a, n)) return;
  ModelP m = it.st.model; if (!m) query(it.st.pc, mkC(1, 1), nullptr, &m);
  oob(it.st, what, a, n, I, m); throw Kill{};
}
static void memCopyRaw(Mem& m, uint64_t d, uint64_t s, uint64_t n) {
  if (n <= 64 || (d < s + n && s < d + n)) { m.copy(d, s, n); return; }
  while (n) {
    uint64_t k = std::min<uint64_t>(n, 256 - (s & 255));
    const Page* p = m.rd(s); unsigned o = s & 255; bool fast = p != nullptr;
    if (fast) for (unsigned i = 0; i < k && fast; i++) if (!p->isDef(o + i) || (p->sym && p->sym[o + i].e)) fast = false;
    if (fast) { uint8_t tmp[256]; memcpy(tmp, p->data + o, k); m.putBytes(d, tmp, k); } else m.copy(d, s, k);
    s += k; d += k; n -= k;
  }
}
static void doCopy(Item& it, const Val& dv, const Val& sv, uint64_t n, Instruction* I) {
  uint64_t d = concretize(it, dv, 64, "memcpy destination"), s = concretize(it, sv, 64, "memcpy source");
  rangeCheck(it, s, n, "read", I); rangeCheck(it, d, n, "write", I);
  if (parLog && it.st.tid >= 0) { logAccess(it.st, s, n, false, mkC(1, 1), I); logAccess(it.st, d, n, true, mkC(1, 1), I); }
  memCopyRaw(it.st.mem, d, s, n);
}
static void doSet(Item& it, const Val& dv, const Val& v, uint64_t n, Instruction* I) {
  uint64_t d = concretize(it, dv, 64, "memset destination");
  rangeCheck(it, d, n, "write", I);
  if (parLog && it.st.tid >= 0) logAccess(it.st, d, n, true, mkC(1, 1), I);
  if (v.conc()) it.st.mem.fill(d, n, v.c & 255);
  else for (uint64_t i = 0; i < n; i++) it.st.mem.storeE(d + i, 1, mkTrunc(v.e, 8));
}
static uint64_t parSp = 0;
static std::set<std::tuple<uint64_t, uint32_t, bool, int, PC*, uint32_t>> parSeen;
struct ParRec { uint64_t a; uint32_t n; bool w; int tid; E cond; PCP pc; ModelP model; TRP trace; Instruction* I; std::string fn; };
static std::vector<ParRec> parRecs;
static void logAccess(State& s, uint64_t a, unsigned n, bool w, E cond, Instruction* I) {
  if (a >= parSp && a < A_HEAP) return;
  if (!parSeen.insert({a, n, w, s.tid, s.pc.get(), cond->id}).second) return;
  parRecs.push_back({a, n, w, s.tid, cond, s.pc, s.model, s.trace, I, g_curFn});
}

// ---- maths library: concrete evaluation, or a sound over-approximation (fresh result) -------------
static uint64_t mathOver = 0;
static Val mathCall(Item& it, const std::string& nm, unsigned w, const std::vector<Val>& a) {
  bool conc = true; for (auto& v : a) conc &= v.conc();
  auto toD = [&](const Val& v) { if (w == 32) { uint32_t u = v.c; float f; memcpy(&f, &u, 4); return (double)f; } double d; memcpy(&d, &v.c, 8); return d; };
  auto fromD = [&](double d) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return Val(u); } uint64_t u; memcpy(&u, &d, 8); return Val(u); };
  if (conc) {
    double x = toD(a[0]);
    if (w == 32) { float f = (float)x; 
      if (nm == "exp") return fromD(expf(f)); if (nm == "log") return fromD(logf(f)); if (nm == "cosh") return fromD(coshf(f)); if (nm == "tanh") return fromD(tanhf(f)); if (nm == "exp2") return fromD(exp2f(f)); if (nm == "log2") return fromD(log2f(f)); if (nm == "log10") return fromD(log10f(f)); if (nm == "sin") return fromD(sinf(f)); if (nm == "cos") return fromD(cosf(f)); if (nm == "pow") return fromD(powf(f, (float)toD(a[1]))); if (nm == "log1p") return fromD(log1pf(f)); if (nm == "expm1") return fromD(expm1f(f)); }
    else {
      if (nm == "exp") return fromD(exp(x)); if (nm == "log") return fromD(log(x)); if (nm == "cosh") return fromD(cosh(x)); if (nm == "tanh") return fromD(tanh(x)); if (nm == "exp2") return fromD(exp2(x)); if (nm == "log2") return fromD(log2(x)); if (nm == "log10") return fromD(log10(x)); if (nm == "sin") return fromD(sin(x)); if (nm == "cos") return fromD(cos(x)); if (nm == "pow") return fromD(pow(x, toD(a[1]))); if (nm == "log1p") return fromD(log1p(x)); if (nm == "expm1") return fromD(expm1(x)); }
    throw Unsupported("math " + nm);
  }
  mathOver++;
  E x = toE(a[0], w);
  E r = mkVar(w, "math:" + nm);
  tr(it.st, TR::SYM, "math:" + nm, r);
  auto fc = [&](double d) { Val v = fromD(d); return mkC(w, v.c); };
  E isn = mkUn(FISNAN, r, 1), xn = mkUn(FISNAN, x, 1);
  E c = mkC(1, 1);
  if (nm == "cosh") c = mkIte(xn, isn, mkBin(FLE, fc(1.0), r));
  else if (nm == "exp" || nm == "exp2") c = mkIte(xn, isn, mkAnd(mkBin(FLE, fc(0.0), r), mkIte(mkBin(FLE, x, fc(0.0)), mkBin(FLE, r, fc(1.0)), mkBin(FLE, fc(1.0), r))));
  else if (nm == "log" || nm == "log2" || nm == "log10") c = mkIte(mkOr(xn, mkBin(FLT, x, fc(0.0))), isn, mkAnd(mkNot(isn), mkIte(mkBin(FLE, fc(1.0), x), mkBin(FLE, fc(0.0), r), mkBin(FLE, r, fc(0.0)))));
  else if (nm == "sin" || nm == "cos" || nm == "tanh") c = mkOr(isn, mkAnd(mkBin(FLE, fc(-1.0), r), mkBin(FLE, r, fc(1.0))));
  addPC(it.st, c); it.st.model = nullptr;
  ModelP m; SR q = query(it.st.pc, mkC(1, 1), nullptr, &m); if (q == SR::UNSAT) throw Kill{}; if (q == SR::SAT) it.st.model = m;
  return Val::of(r);
}

// ---- natives -----------------------------------------------------------------
typedef std::function<void(Item&, DInst&, std::vector<Val>&, Val&, std::vector<Outcome>&)> NatFn;
static std::vector<std::pair<std::string, NatFn>> nats;
static std::unordered_map<std::string, int> natIx;
static std::vector<Outcome> callFunction(DFunc* f, std::vector<Val> args, State&& st, CallBase* cb);
static void callNative(int id, Item& it, DInst& d, std::vector<Val>& a, Val& ret, std::vector<Outcome>& outs) { nats[id].second(it, d, a, ret, outs); }
static uint64_t freshCount = 0, rngTagOff = 0; static const uint64_t RNG_TAG = 0x5D5A7100ull; static std::vector<std::string> rngNames;
static bool rngAlways = false;
static int numThreadsReq = 0;

static bool useRngStub(Item& it, const Val& self) {
  if (rngAlways) return true;
  if (!rngTagOff) return false;
  uint64_t g = concretize(it, self, 64, "generator"), tag = 0;
  return it.st.mem.loadC(g + rngTagOff, 4, tag) && (tag & ~0xffull) == RNG_TAG;
}
static E bool8(E c, unsigned w) { return mkZext(c, w); }

static void defNatives() {
  auto def = [&](const std::string& n, NatFn f) { natIx[n] = nats.size(); nats.push_back({n, f}); };
#define NAT [](Item& it, DInst& d, std::vector<Val>& a, Val& ret, std::vector<Outcome>& outs)
#define UNUSED (void)it; (void)d; (void)a; (void)ret; (void)outs
  def("__inline_asm", NAT { UNUSED; });
  auto nop = NAT { UNUSED; ret = Val(0); };
  for (auto n : {"__cxa_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_guard_abort", "__kmpc_push_num_threads_dummy", "__kmpc_end_serialized_parallel", "__kmpc_for_static_fini", "__kmpc_barrier", "_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13random_device7_M_finiEv", "__cxa_thread_atexit", "_ZNSt15__exception_ptr13exception_ptrC1Ev"}) def(n, nop);
  // ---------------- harness API
  def("sx_var", NAT { UNUSED; // (name, bits)
    std::string nm = readStr(it.st, a[0].c); unsigned bits = a[1].c; 
    E v = mkVar(bits, nm); tr(it.st, TR::SYM, nm, v); ret = Val::of(mkZext(v, 64)); });
  def("sx_syms", NAT { UNUSED; // (ptr, count, elem bytes, name)
    uint64_t p = a[0].c, n = a[1].c, sz = a[2].c; std::string nm = readStr(it.st, a[3].c);
    rangeCheck(it, p, n * sz, "write", d.I);
    for (uint64_t i = 0; i < n; i++) { E v = mkVar(8 * sz, nm + "[" + std::to_string(i) + "]"); tr(it.st, TR::SYM, nm, v); it.st.mem.storeE(p + i * sz, sz, v); } });
  def("sx_assume", NAT { UNUSED; 
    Val v = a[0]; if (v.conc()) { if (!(v.c & maskw(32))) throw Kill{}; return; }
    E c = mkNot(mkEq(v.e, mkC(v.e->w, 0)));
    ModelP m; SR r = query(it.st.pc, c, it.st.model, &m); if (r == SR::UNSAT) throw Kill{};
    assumePC(it.st, c); it.st.model = r == SR::SAT ? m : nullptr; });
  // conditions that must hold together: proved as a group, or in halves when the group is too hard
  auto assertAll = [](Item& it, DInst& d, std::vector<E> cs, const std::string& id) {
    AssertRec& R = asserts[id]; R.n += cs.size();
    { std::vector<E> k; std::set<uint32_t> seen; for (E c : cs) { if (isTrue(c)) { R.proved++; continue; } if (!seen.insert(c->id).second) { R.proved++; continue; } k.push_back(c); } cs.swap(k); }
    std::function<void(size_t, size_t)> go = [&](size_t lo, size_t hi) {
      if (lo >= hi) return;
      if (now() - tStart > tBudget) throw Unsupported("time budget exhausted");
      E bad = mkC(1, 0); for (size_t i = lo; i < hi; i++) bad = mkOr(bad, mkNot(cs[i]));
      ModelP m; unsigned full = g_timeoutMs; if (hi - lo > 1) g_timeoutMs = std::min(full, 1000u);
      SR r = query(it.st.pc, bad, it.st.model, &m); g_timeoutMs = full;
      if (r == SR::UNSAT) { R.proved += hi - lo; return; }
      if (hi - lo > 1) { size_t mid = (lo + hi) / 2; go(lo, mid); go(mid, hi); return; }
      if (r == SR::UNKNOWN) { R.unknown++; inconclusive["solver gave no answer for assertion " + id]++; return; }
      R.failed++; E c = cs[lo];
      { State t = it.st; addPC(t, mkNot(c)); report(t, "assert", id, id, m, d.I); }
      ModelP m2; r = query(it.st.pc, c, it.st.model, &m2); if (r == SR::UNSAT) throw Kill{};
      addPC(it.st, c); it.st.model = r == SR::SAT ? m2 : nullptr; };
    go(0, cs.size()); };
  auto flat = [](E c, std::vector<E>& out) { std::vector<E> st{c}; while (!st.empty()) { E x = st.back(); st.pop_back(); if (x->op == AND && x->w == 1) { st.push_back(x->b); st.push_back(x->a); } else out.push_back(x); } };
  auto truth = [](const Val& v) -> E { return v.conc() ? mkC(1, (v.c & maskw(32)) != 0) : mkNot(mkEq(v.e, mkC(v.e->w, 0))); };
  def("sx_assert", [assertAll, flat, truth](Item& it, DInst& d, std::vector<Val>& a, Val& ret, std::vector<Outcome>& outs) { UNUSED; // (cond, id)
    std::string id = readStr(it.st, a[1].c); std::vector<E> cs; flat(truth(a[0]), cs); assertAll(it, d, cs, id); });
  def("sx_assert_all", [assertAll, flat, truth](Item& it, DInst& d, std::vector<Val>& a, Val& ret, std::vector<Outcome>& outs) { UNUSED; // (int const * conds, count, id)
    std::string id = readStr(it.st, a[2].c); std::vector<E> cs; for (uint64_t i = 0; i < a[1].c; i++) { flat(truth(loadScalar(it, Val(a[0].c + 4 * i), 4, 32, d.I)), cs); } assertAll(it, d, cs, id); });
  def("sx_cover", NAT { UNUSED; // (cond, id)
    Val v = a[0]; std::string id = readStr(it.st, a[1].c); ReachRec& R = reached[id];
    if (v.conc() && !(v.c & maskw(32))) return;
    if (R.n >= 3) return;
    E c = v.conc() ? mkC(1, 1) : mkNot(mkEq(v.e, mkC(v.e->w, 0)));
    ModelP m; SR r = query(it.st.pc, c, it.st.model, &m); if (r != SR::SAT) return;
    R.n++; if (R.n == 1) { State t = it.st; addPC(t, c); R.trace = t.trace; R.model = m; R.pc = t.pc; } });
  def("sx_observe", NAT { UNUSED; std::string nm = readStr(it.st, a[0].c); tr(it.st, TR::OBS, nm, toE(a[1], 64)); });
  def("sx_strtod", NAT { UNUSED; std::string t = readStr(it.st, a[0].c); double x = strtod(t.c_str(), nullptr); uint64_t u; memcpy(&u, &x, 8); ret = Val(u); });
  def("sx_param", NAT { UNUSED; std::string nm = readStr(it.st, a[0].c); auto p = params.find(nm); ret = p == params.end() ? a[1] : Val((uint64_t)strtoll(p->second.c_str(), nullptr, 0)); });
  def("sx_rng", NAT { UNUSED; // (generator, tag cell, first cell, name): the upcoming draws of the generator and its copies become solver variables
    std::string nm = readStr(it.st, a[3].c); uint64_t off = a[1].c - a[0].c; if (rngTagOff && rngTagOff != off) throw Unsupported("generator layouts differ"); rngTagOff = off;
    size_t id = std::find(rngNames.begin(), rngNames.end(), nm) - rngNames.begin(); if (id == rngNames.size()) rngNames.push_back(nm);
    it.st.mem.storeC(a[1].c, 4, RNG_TAG | id); });
  def("sx_concretize", NAT { UNUSED; ret = Val(concretize(it, a[0], 64, "sx_concretize")); });
  def("sx_pin", NAT { UNUSED; it.st.pin = it.st.pin * 1000003 + a[0].c + 1; });
  def("sx_native", NAT { UNUSED; ret = Val(0); });
  def("sx_symbolic_run", NAT { UNUSED; ret = Val(1); });
  def("sx_is_concrete", NAT { UNUSED; ret = Val(a[0].conc()); });
  def("sx_print", NAT { UNUSED; std::string nm = readStr(it.st, a[0].c); fprintf(stderr, "sx_print %s = %s\n", nm.c_str(), a[1].e ? show(a[1].e, 6).c_str() : std::to_string((int64_t)a[1].c).c_str()); });
  // ---------------- generator stub
  auto draw = [](Item& it, const Val& self, bool flt) -> Val {
    uint64_t g = concretize(it, self, 64, "generator");
    E v = mkVar(32, flt ? "fdraw" : "idraw");
    if (parLog && it.st.tid >= 0) logAccess(it.st, g, 4, true, mkC(1, 1), nullptr);
    uint64_t tag = 0; std::string gname_ = "?"; if (rngTagOff && it.st.mem.loadC(g + rngTagOff, 4, tag) && (tag & ~0xffull) == RNG_TAG) gname_ = rngNames[tag & 255];
    tr(it.st, TR::DRAW, gname_, v, g);
    if (flt) { assumePC(it.st, mkAnd(mkBin(ULE, mkC(32, 0x2F000000u), v), mkBin(ULE, v, mkC(32, 0x3F800000u))));
      if (it.st.model) { auto m = std::make_shared<Model>(); m->val = it.st.model->val; m->val[(uint32_t)v->v] = 0x3F000000u; it.st.model = m; } }
    // index bookkeeping as in the real generator
    Mem& m = it.st.mem; E ix = m.loadE(g, 4); E last = mkC(32, 624 * 8 - 1);
    m.storeE(g, 4, mkIte(mkEq(ix, last), mkC(32, 0), mkBin(ADD, ix, mkC(32, 1))));
    return Val::of(v); };
  def("sx_rand_i", [draw](Item& it, DInst&, std::vector<Val>& a, Val& ret, std::vector<Outcome>&) { ret = draw(it, a[0], false); });
  def("sx_rand_f", [draw](Item& it, DInst&, std::vector<Val>& a, Val& ret, std::vector<Outcome>&) { ret = draw(it, a[0], true); });
  // ---------------- heap
  auto alloc = NAT { UNUSED; uint64_t n = concretize(it, a[0], 64, "allocation size"); ret = Val(heapAlloc(it.st, n, 16)); };
  for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) def(n, alloc);
  def("calloc", NAT { UNUSED; uint64_t n = concretize(it, a[0], 64, "allocation size"), m = concretize(it, a[1], 64, "allocation size"); uint64_t p = heapAlloc(it.st, n * m, 16); it.st.mem.fill(p, n * m, 0); ret = Val(p); });
  def("realloc", NAT { UNUSED; uint64_t p = concretize(it, a[0], 64, "realloc"), n = concretize(it, a[1], 64, "realloc size"); uint64_t q = heapAlloc(it.st, n, 16); if (p) { uint64_t o = 0; it.st.mem.loadC(p - 16, 8, o); memCopyRaw(it.st.mem, q, p, std::min(o, n)); heapFree(it, p, d.I); } ret = Val(q); });
  auto alloca_ = NAT { UNUSED; uint64_t n = concretize(it, a[0], 64, "allocation size"), al = concretize(it, a[1], 64, "alignment"); ret = Val(heapAlloc(it.st, n, al)); };
  for (auto n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}) def(n, alloca_);
  def("aligned_alloc", NAT { UNUSED; uint64_t al = concretize(it, a[0], 64, "alignment"), n = concretize(it, a[1], 64, "allocation size"); ret = Val(heapAlloc(it.st, n, al)); });
  def("posix_memalign", NAT { UNUSED; uint64_t al = concretize(it, a[1], 64, "alignment"), n = concretize(it, a[2], 64, "allocation size"); uint64_t p = heapAlloc(it.st, n, al); storeScalar(it, a[0], 8, 64, Val(p), d.I); ret = Val(0); });
  auto fre = NAT { UNUSED; uint64_t p = concretize(it, a[0], 64, "free"); heapFree(it, p, d.I); };
  for (auto n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) def(n, fre);
  // ---------------- mem/str
  def("memcpy", NAT { UNUSED; uint64_t n = concretize(it, a[2], 64, "memcpy size"); if (n) doCopy(it, a[0], a[1], n, d.I); ret = a[0]; });
  def("memmove", NAT { UNUSED; uint64_t n = concretize(it, a[2], 64, "memcpy size"); if (n) doCopy(it, a[0], a[1], n, d.I); ret = a[0]; });
  def("memset", NAT { UNUSED; uint64_t n = concretize(it, a[2], 64, "memset size"); if (n) doSet(it, a[0], Val::of(mkTrunc(toE(a[1], 32), 8)), n, d.I); ret = a[0]; });
  auto cmp = NAT { UNUSED;
    uint64_t n = concretize(it, a[2], 64, "memcmp size"); if (!n) { ret = Val(0); return; }
    uint64_t x = concretize(it, a[0], 64, "memcmp"), y = concretize(it, a[1], 64, "memcmp");
    rangeCheck(it, x, n, "read", d.I); rangeCheck(it, y, n, "read", d.I);
    if (parLog && it.st.tid >= 0) { logAccess(it.st, x, n, false, mkC(1, 1), d.I); logAccess(it.st, y, n, false, mkC(1, 1), d.I); }
    E r = mkC(32, 0);
    for (uint64_t i = n; i-- > 0;) { uint64_t u, v; E eu = it.st.mem.loadC(x + i, 1, u) ? mkC(8, u) : it.st.mem.loadE(x + i, 1); E ev = it.st.mem.loadC(y + i, 1, v) ? mkC(8, v) : it.st.mem.loadE(y + i, 1); if (eu == ev) continue; r = mkIte(mkEq(eu, ev), r, mkIte(mkBin(ULT, eu, ev), mkC(32, ~0ull), mkC(32, 1))); }
    ret = Val::of(r); };
  def("memcmp", cmp); 
  def("bcmp", NAT { UNUSED;
    uint64_t n = concretize(it, a[2], 64, "memcmp size"); if (!n) { ret = Val(0); return; }
    uint64_t x = concretize(it, a[0], 64, "memcmp"), y = concretize(it, a[1], 64, "memcmp");
    rangeCheck(it, x, n, "read", d.I); rangeCheck(it, y, n, "read", d.I);
    E eq = mkC(1, 1);
    for (uint64_t i = 0; i < n;) { unsigned k = n - i >= 8 ? 8 : n - i >= 4 ? 4 : n - i >= 2 ? 2 : 1; uint64_t u, v; E eu = it.st.mem.loadC(x + i, k, u) ? mkC(8 * k, u) : it.st.mem.loadE(x + i, k); E ev = it.st.mem.loadC(y + i, k, v) ? mkC(8 * k, v) : it.st.mem.loadE(y + i, k); eq = mkAnd(eq, mkEq(eu, ev)); i += k; }
    ret = Val::of(mkIte(eq, mkC(32, 0), mkC(32, 1))); });
  def("strlen", NAT { UNUSED; uint64_t p = concretize(it, a[0], 64, "strlen"), n = 0; while (true) { rangeCheck(it, p + n, 1, "read", d.I); uint64_t c; if (!it.st.mem.loadC(p + n, 1, c)) c = concretize(it, Val::of(it.st.mem.loadE(p + n, 1)), 8, "strlen"); if (!c) break; n++; } ret = Val(n); });
  def("memchr", NAT { UNUSED; uint64_t p = concretize(it, a[0], 64, "memchr"), n = concretize(it, a[2], 64, "memchr"), ch = concretize(it, a[1], 32, "memchr") & 255; ret = Val(0); for (uint64_t i = 0; i < n; i++) { rangeCheck(it, p + i, 1, "read", d.I); uint64_t c; if (!it.st.mem.loadC(p + i, 1, c)) c = concretize(it, Val::of(it.st.mem.loadE(p + i, 1)), 8, "memchr"); if (c == ch) { ret = Val(p + i); break; } } });
  def("strcmp", NAT { UNUSED; std::string x = readStr(it.st, a[0].c), y = readStr(it.st, a[1].c); int r = x.compare(y); ret = Val((uint64_t)(r < 0 ? 0xffffffffu : r > 0)); });
  // ---------------- exceptions
  def("__cxa_allocate_exception", NAT { UNUSED; uint64_t p = heapAlloc(it.st, a[0].c + 32, 16) + 32; ret = Val(p); });
  def("__cxa_free_exception", NAT { UNUSED; });
  def("__cxa_throw", NAT { UNUSED; uint64_t o = concretize(it, a[0], 64, "throw"); it.st.mem.putBytes(o - 32, &a[1].c, 8); throw CxxThrow{{o, a[1].c}}; });
  def("__cxa_begin_catch", NAT { UNUSED; uint64_t o = a[0].c, ti = 0; it.st.mem.loadC(o - 32, 8, ti); it.st.caught.push_back({o, ti}); ret = Val(o); });
  def("__cxa_get_exception_ptr", NAT { UNUSED; ret = a[0]; });
  def("__cxa_end_catch", NAT { UNUSED; if (!it.st.caught.empty()) it.st.caught.pop_back(); });
  def("__cxa_rethrow", NAT { UNUSED; Exc e = it.st.caught.back(); throw CxxThrow{e}; });
  auto term = NAT { UNUSED; ModelP m = it.st.model; if (!m) query(it.st.pc, mkC(1, 1), nullptr, &m); report(it.st, "crash", "terminate", "std::terminate/abort reached", m, d.I); throw Kill{}; };
  for (auto n : {"_ZSt9terminatev", "abort", "__cxa_pure_virtual", "__assert_fail", "exit", "_exit", "__cxa_throw_bad_array_new_length_x", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "__stack_chk_fail"}) def(n, term);
  def("__cxa_guard_acquire", NAT { UNUSED; uint64_t c = 0; it.st.mem.loadC(a[0].c, 1, c); ret = Val(!c); });
  def("__cxa_guard_release", NAT { UNUSED; it.st.mem.storeC(a[0].c, 1, 1); });
  // ---------------- misc environment: arbitrary values
  def("_ZNSt6thread20hardware_concurrencyEv", NAT { UNUSED; E v = mkVar(32, "hardware_concurrency"); tr(it.st, TR::SYM, "env:hardware_concurrency", v); ret = Val::of(v); });
  def("_ZNSt13random_device9_M_getvalEv", NAT { UNUSED; E v = mkVar(32, "random_device"); tr(it.st, TR::SYM, "env:random_device", v); ret = Val::of(v); });
  for (auto n : {"exp", "log", "cosh", "tanh", "exp2", "log2", "log10", "sin", "cos", "pow", "log1p", "expm1"}) {
    std::string nm = n;
    def(nm, [nm](Item& it, DInst&, std::vector<Val>& a, Val& ret, std::vector<Outcome>&) { ret = mathCall(it, nm, 64, a); });
    def(nm + "f", [nm](Item& it, DInst&, std::vector<Val>& a, Val& ret, std::vector<Outcome>&) { ret = mathCall(it, nm, 32, a); });
  }
  for (auto p : {std::make_pair("nearbyint", 0), {"rint", 0}, {"round", 1}, {"ceil", 2}, {"floor", 3}, {"trunc", 4}}) {
    int m = p.second;
    def(p.first, [m](Item&, DInst&, std::vector<Val>& a, Val& ret, std::vector<Outcome>&) { ret = Val::of(mkUn(FRTI, toE(a[0], 64), 64, m)); });
    def(std::string(p.first) + "f", [m](Item&, DInst&, std::vector<Val>& a, Val& ret, std::vector<Outcome>&) { ret = Val::of(mkUn(FRTI, toE(a[0], 32), 32, m)); });
  }
  def("sqrt", NAT { UNUSED; ret = Val::of(mkUn(FSQRT, toE(a[0], 64), 64)); });
  def("sqrtf", NAT { UNUSED; ret = Val::of(mkUn(FSQRT, toE(a[0], 32), 32)); });
  // ---------------- OpenMP (parallel-for checks): threads run one after another; their footprints are compared
  def("__kmpc_global_thread_num", NAT { UNUSED; ret = Val((uint64_t)std::max(0, it.st.tid)); });
  def("omp_get_thread_num", NAT { UNUSED; ret = Val((uint64_t)std::max(0, it.st.tid)); });
  def("__kmpc_push_num_threads", NAT { UNUSED; numThreadsReq = (int)concretize(it, a[2], 32, "num_threads"); });
  def("__kmpc_serialized_parallel", NAT { UNUSED; });
  auto sinit = [](unsigned w, bool sg) { return [w, sg](Item& it, DInst& d, std::vector<Val>& a, Val& ret, std::vector<Outcome>& outs) { UNUSED;
    unsigned nb = w / 8; int T = std::max(1, (int)strtol(params.count("omp_threads_now") ? params["omp_threads_now"].c_str() : "1", nullptr, 0));
    int tid = it.st.tid < 0 ? 0 : it.st.tid; if (it.st.tid < 0) T = 1;
    Val lo = loadScalar(it, a[4], nb, w, d.I), up = loadScalar(it, a[5], nb, w, d.I);
    uint64_t L = concretize(it, lo, w, "loop bound"), U = concretize(it, up, w, "loop bound");
    int64_t l = sg ? sx64(L, w) : (int64_t)L, u = sg ? sx64(U, w) : (int64_t)U; int64_t trip = u >= l ? u - l + 1 : 0;
    int64_t chunk = trip / T, extra = trip % T; int64_t nl = l + tid * chunk + std::min<int64_t>(tid, extra), nu = nl + chunk - (tid < extra ? 0 : 1);
    storeScalar(it, a[3], 4, 32, Val((uint64_t)(tid == T - 1)), d.I);
    storeScalar(it, a[4], nb, w, Val((uint64_t)nl & maskw(w)), d.I); storeScalar(it, a[5], nb, w, Val((uint64_t)nu & maskw(w)), d.I); storeScalar(it, a[6], nb, w, Val((uint64_t)trip & maskw(w)), d.I); }; };
  def("__kmpc_for_static_init_4", sinit(32, true)); def("__kmpc_for_static_init_4u", sinit(32, false)); def("__kmpc_for_static_init_8", sinit(64, true)); def("__kmpc_for_static_init_8u", sinit(64, false));
  def("__kmpc_fork_call", NAT { UNUSED;
    uint64_t fa = a[2].c; auto fi = faddr.find(fa); if (fi == faddr.end()) throw Unsupported("parallel region target");
    int T = numThreadsReq > 0 ? numThreadsReq : 1; numThreadsReq = 0;
    params["omp_threads_now"] = std::to_string(T);
    State st = it.st; uint64_t sp0 = st.sp; 
    uint64_t g = (st.sp + 31) / 16 * 16; st.mem.alloc(g, 8); st.sp = g + 8;
    uint64_t savedSp = parSp; parSp = sp0; parRecs.clear(); parSeen.clear();
    static std::vector<ParLog> dummy; parLog = &dummy;
    std::vector<Outcome> cur; cur.push_back({std::move(st), Val(), false, {0, 0}});
    for (int t = 0; t < T; t++) {
      std::vector<Outcome> nx;
      for (auto& o : cur) {
        o.st.tid = t; o.st.mem.storeC(g, 4, t); o.st.mem.storeC(g + 4, 4, t);
        std::vector<Val> args{Val(g), Val(g + 4)}; for (size_t k = 3; k < a.size(); k++) args.push_back(a[k]);
        auto r = callFunction(fi->second, args, std::move(o.st), nullptr);
        for (auto& x : r) nx.push_back(std::move(x));
      }
      cur = std::move(nx);
    }
    parLog = nullptr; parSp = savedSp;
    // conflicting accesses by different threads?
    std::map<uint64_t, std::vector<size_t>> byByte; std::set<std::pair<Instruction*, Instruction*>> done; uint64_t pairs = 0;
    for (size_t i = 0; i < parRecs.size(); i++) for (uint32_t k = 0; k < parRecs[i].n; k++) byByte[parRecs[i].a + k].push_back(i);
    std::set<std::pair<size_t, size_t>> tested;
    for (auto& bb : byByte) { auto& v = bb.second; bool anyW = false, multi = false; for (size_t x : v) { anyW |= parRecs[x].w; multi |= parRecs[x].tid != parRecs[v[0]].tid; } if (!anyW || !multi) continue;
      for (size_t x : v) for (size_t y : v) { auto &p = parRecs[x], &q = parRecs[y]; if (x >= y || p.tid == q.tid || !(p.w || q.w)) continue; if (!tested.insert({x, y}).second || done.count({p.I, q.I})) continue; pairs++;
        E all = mkAnd(p.cond, q.cond); for (PC* c = p.pc.get(); c; c = c->up.get()) all = mkAnd(all, c->c);
        ModelP m; SR r = query(q.pc, all, nullptr, &m);
        if (r == SR::SAT) { done.insert({p.I, q.I}); State t = it.st; t.trace = q.trace; t.pc = q.pc; report(t, "crash", "race", "conflicting accesses by two threads of a parallel region (" + p.fn + ")", m, p.w ? p.I : q.I); }
        else if (r == SR::UNKNOWN) inconclusive["solver unknown: race query"]++; } }
    asserts["parallel region: thread footprints disjoint"].n++; if (done.empty()) asserts["parallel region: thread footprints disjoint"].proved++; else asserts["parallel region: thread footprints disjoint"].failed++;
    for (auto& o : cur) { if (o.thrown) { report(o.st, "crash", "terminate", "exception leaves a parallel region", o.st.model, d.I); continue; } o.st.tid = -1; o.st.mem.dealloc(sp0, o.st.sp - sp0); o.st.sp = sp0; outs.push_back(std::move(o)); }
    if (outs.empty()) throw Kill{}; });
}
static int nativeId(const std::string& n) { auto it = natIx.find(n); return it == natIx.end() ? -1 : it->second; }
