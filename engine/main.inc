// ---- program set-up, entry point, result output --------------------------------
static void initGlobal(Mem& m, uint64_t a, const Constant* c) {
  Type* t = c->getType();
  if (isa<UndefValue>(c)) { m.fill(a, DL->getTypeAllocSize(t), 0); return; }
  if (isa<ConstantAggregateZero>(c) || c->isNullValue()) { m.fill(a, DL->getTypeAllocSize(t), 0); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); m.putBytes(a, r.data(), r.size()); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { m.fill(a, DL->getTypeAllocSize(t), 0); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(m, a + aggOff(t, i), ca->getOperand(i)); return; }
  Val v = constVal(c);
  if (v.a) { for (unsigned i = 0; i < aggN(t); i++) m.storeC(a + aggOff(t, i), 8, (*v.a)[i].c); return; }
  m.storeC(a, (widthOf(t) + 7) / 8, v.c);
}
static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
// linearise a trace under a model
static void linear(TRP t, Model& m, std::vector<TR*>& out) {
  std::vector<std::pair<TR*, TR*>> st; // iterative: collect backwards
  std::vector<TR*> rev;
  std::function<void(TR*, TR*)> go = [&](TR* x, TR* stop) {
    while (x && x != stop) {
      if (x->k == TR::MERGE) { TR* side = m.eval(x->e) ? x->l.get() : x->r.get(); go(side, x->up.get()); x = x->up.get(); }
      else { rev.push_back(x); x = x->up.get(); }
    }
  };
  go(t.get(), nullptr);
  out.assign(rev.rbegin(), rev.rend());
}
static void writeReplay(FILE* f, TRP trace, const ModelP& mp) {
  Model m; if (mp) m.val = mp->val;
  std::vector<TR*> v; linear(trace, m, v);
  fprintf(f, "[");
  bool first = true;
  for (TR* t : v) {
    std::string s;
    if (t->k == TR::SYM) s = "sym " + t->name + " " + std::to_string(m.eval(t->e));
    else if (t->k == TR::DRAW) s = "draw " + t->name + " " + std::to_string(m.eval(t->e));
    else if (t->k == TR::OBS) s = "obs " + t->name + " " + std::to_string(m.eval(t->e));
    else continue;
    fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false;
  }
  fprintf(f, "]");
}

static int sxRun(const std::string& bc, const std::string& outFile) {
  LLVMContext C; SMDiagnostic err;
  auto mod = parseIRFile(bc, err, C);
  if (!mod) { err.print("sx", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  defNatives();
  tStart = now();
  if (params.count("timeout_ms")) g_timeoutMs = atoi(params["timeout_ms"].c_str());
  if (params.count("budget")) tBudget = atof(params["budget"].c_str());
  if (params.count("nomerge")) noMerging = atoi(params["nomerge"].c_str());
  if (params.count("loopcap")) loopCap = atoi(params["loopcap"].c_str());
  if (params.count("addrcap")) addrCap = atoi(params["addrcap"].c_str());
  if (params.count("rng") && params["rng"] == "stub") rngAlways = true;
  State st; 
  // addresses
  uint64_t fa = A_FUNC, ga = A_GLOB; int rngStubs = 0;
  for (Function& F : *M) {
    auto* d = new DFunc(); d->f = &F; d->name = F.getName().str(); d->decl = F.isDeclaration(); d->pretty = llvm::demangle(d->name); if (d->pretty.size() > 160) d->pretty.resize(160);
    d->addr = fa; fa += 16; fmap[&F] = d; faddr[d->addr] = d; gaddr[&F] = d->addr; gname[d->addr] = d->name;
    int n = nativeId(d->name);
    if (n >= 0 && (d->decl || d->name.rfind("sx_", 0) == 0)) d->native = n;
    if (!d->decl && d->name.find("8BasePRNGI") != std::string::npos && d->name.size() > 7 && d->name.compare(d->name.size() - 7, 7, "4randEv") == 0) {
      size_t p = d->name.find("8BasePRNGI") + 10; d->rngStub = nativeId(d->name[p] == 'f' ? "sx_rand_f" : "sx_rand_i"); rngStubs++; }
  }
  for (GlobalVariable& G : M->globals()) {
    uint64_t al = std::max<uint64_t>(16, G.getAlign().valueOrOne().value()); ga = (ga + al - 1) / al * al; gaddr[&G] = ga; gname[ga] = G.getName().str();
    uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 16; if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 64); ga += sz + 32; }
  for (GlobalAlias& A : M->aliases()) { (void)A; }
  for (GlobalVariable& G : M->globals()) { uint64_t a = gaddr[&G]; uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 16; if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 64); if (sz) st.mem.alloc(a, sz); st.mem.fill(a, sz, 0); }
  std::string fatal;
  std::vector<Outcome> outs;
  std::vector<std::pair<TRP, ModelP>> finals; 
  try {
    for (GlobalVariable& G : M->globals()) if (G.hasInitializer() && !G.getName().starts_with("llvm.")) initGlobal(st.mem, gaddr[&G], G.getInitializer());
    std::vector<std::pair<int, Function*>> ctors;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    st.model = std::make_shared<Model>();
    for (auto& c : ctors) { auto o = callFunction(fmap[c.second], {}, std::move(st), nullptr); if (o.size() != 1 || o[0].thrown) throw Unsupported("static constructor"); st = std::move(o[0].st); }
    Function* mainF = M->getFunction("sx_main"); if (!mainF) throw Unsupported("no sx_main");
    outs = callFunction(fmap[mainF], {}, std::move(st), nullptr);
    for (auto& o : outs) if (o.thrown) { std::string tn = gname.count(o.ex.ti) ? llvm::demangle(gname[o.ex.ti]) : "?"; ModelP m = o.st.model; if (!m) query(o.st.pc, mkC(1, 1), nullptr, &m); report(o.st, "crash", "exception", "uncaught exception " + tn, m, nullptr); }
  } catch (Unsupported& u) { fatal = u.what(); if (!g_curFn.empty()) fatal += " [in " + g_curFn + "]"; }
  catch (Kill&) { fatal = "set-up killed"; }
  FILE* f = fopen(outFile.c_str(), "w"); if (!f) return 3;
  fprintf(f, "{\"fatal\":%s%s%s", fatal.empty() ? "null" : "\"", jesc(fatal).c_str(), fatal.empty() ? "" : "\"");
  fprintf(f, ",\"violations\":[");
  for (size_t i = 0; i < violations.size(); i++) { auto& v = violations[i]; 
    if (!v.model) { ModelP m; if (query(v.pc, mkC(1, 1), nullptr, &m) == SR::SAT) v.model = m; }
    fprintf(f, "%s{\"kind\":\"%s\",\"id\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"replay\":", i ? "," : "", jesc(v.kind).c_str(), jesc(v.id).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str()); writeReplay(f, v.trace, v.model); fprintf(f, "}"); }
  fprintf(f, "],\"covers\":{");
  bool first = true;
  for (auto& r : reached) {
    // extend to a full execution
    TRP t = r.second.trace; ModelP m = r.second.model; bool full = false;
    if (r.second.n) { E all = mkC(1, 1); for (PC* c = r.second.pc.get(); c; c = c->up.get()) all = mkAnd(all, c->c);
      for (auto& o : outs) if (!o.thrown) { ModelP mm; if (o.st.model && o.st.model->eval(all)) { mm = o.st.model; } else if (query(o.st.pc, all, nullptr, &mm) != SR::SAT) continue; t = o.st.trace; m = mm; full = true; break; } }
    fprintf(f, "%s\"%s\":{\"n\":%llu,\"full\":%s,\"replay\":", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second.n, full ? "true" : "false");
    if (r.second.n) writeReplay(f, t, m); else fprintf(f, "[]");
    fprintf(f, "}"); first = false; }
  fprintf(f, "},\"asserts\":{"); first = true;
  for (auto& r : asserts) { fprintf(f, "%s\"%s\":{\"n\":%llu,\"proved\":%llu,\"failed\":%llu,\"unknown\":%llu}", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second.n, (unsigned long long)r.second.proved, (unsigned long long)r.second.failed, (unsigned long long)r.second.unknown); first = false; }
  fprintf(f, "},\"inconclusive\":{"); first = true;
  for (auto& r : inconclusive) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second); first = false; }
  fprintf(f, "},\"cuts\":{"); first = true;
  for (auto& r : cuts) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second); first = false; }
  fprintf(f, "},\"functions\":["); first = true;
  std::set<std::string> fns; for (auto* sp : touched) { if (!sp) continue; std::string file = sp->getFilename().str(); if (file.find("/lib/src/") == std::string::npos && file.find("/lib/include/") == std::string::npos) continue; if (file.find("/json/") != std::string::npos) continue; std::string n = llvm::demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()); size_t p = n.find('('); if (n.size() > 140) n = sp->getName().str(); (void)p; size_t q = file.find("/lib/"); fns.insert(file.substr(q + 1) + ":" + sp->getName().str()); }
  for (auto& n : fns) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(n).c_str()); first = false; }
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  fprintf(f, "],\"stats\":{\"instructions\":%llu,\"calls\":%llu,\"forks\":%llu,\"merges\":%llu,\"refused\":%llu,\"dead_paths\":%llu,\"final_states\":%zu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"sweeps\":%llu,\"merged\":%llu,\"abstractions\":%llu,\"repaired\":%llu,\"solver_time\":%.3f,\"max_query\":%.3f,\"time\":%.3f,\"exprs\":%llu,\"vars\":%zu,\"maxrss_kb\":%ld,\"math_overapprox\":%llu,\"rng_stubs\":%d}}\n",
    (unsigned long long)nInst, (unsigned long long)nCalls, (unsigned long long)nForks, (unsigned long long)nMerges, (unsigned long long)nRefused, (unsigned long long)nStatesEnd, outs.size(), (unsigned long long)g_sstats.queries, (unsigned long long)g_sstats.sat, (unsigned long long)g_sstats.unsat, (unsigned long long)g_sstats.unknown, (unsigned long long)g_sstats.cacheHits, (unsigned long long)g_sstats.modelHits, (unsigned long long)g_sstats.sweeps, (unsigned long long)g_sstats.merged, (unsigned long long)g_sstats.abstractions, (unsigned long long)g_sstats.repaired, g_sstats.time, g_sstats.maxTime, now() - tStart, (unsigned long long)g_nexprs, g_vars.size(), ru.ru_maxrss, (unsigned long long)mathOver, rngStubs);
  fclose(f);
  fflush(stdout); fflush(stderr);
  _exit(0); // skip slow teardown
}
int linkMain(int argc, char** argv);
static int sxMain(int argc, char** argv) {
  if (argc >= 2 && std::string(argv[1]) == "link") return linkMain(argc - 1, argv + 1);
  if (argc < 4 || std::string(argv[1]) != "run") { fprintf(stderr, "usage: sx run FILE.bc OUT.json [param=value...] | sx link OUT.bc IN.bc...\n"); return 3; }
  for (int i = 4; i < argc; i++) { std::string s = argv[i]; size_t p = s.find('='); if (p != std::string::npos) params[s.substr(0, p)] = s.substr(p + 1); }
  debugMerge = getenv("SX_DEBUG_MERGE") != nullptr;
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); 
  return sxRun(argv[2], argv[3]);
}
