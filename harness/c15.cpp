// C15: parameters, from JSON values and named arguments.
#include "c15.hpp"
#include "json/json.hpp"
using json = nlohmann::json;
static json const * gDoc; static int gParsed;
extern "C" json sx_json_parse(string const &) { gParsed = 1; return *gDoc; } // stands in for the parser in the symbolic run
static string textOf(json const & d) { gDoc = &d; if (sx_symbolic_run()) return "?"; gParsed = 1; return d.dump(); }
static string anyString(char const * n, int len) { string s((size_t)len, 'a'); for (auto & c : s) { c = (char)sx_var(n, 8); sx_assume((c >= 0x20) & (c < 0x7f)); } return s; }
// put a value of the chosen JSON type under the key; returns 1 right, 0 wrong, 2 either (then what it stands for is in w)
static int put(json & d, Key const & k, Want & w, int type, int slen) {
  int64_t asInt = 0; int isNum = 0, sure = 1; double asDbl = 0; json v;
  switch (type) {
    case 0: { int64_t x = (int64_t)sx_var("int", 64); sx_assume(x < 0); v = x; asInt = x; isNum = 1; asDbl = (double)x; break; }
    case 1: { uint64_t x = sx_var("uint", 64); v = x; asInt = x >> 62 ? INT64_MAX : (int64_t)x; isNum = 1; asDbl = (double)x; break; }
    case 2: { uint64_t u = sx_var("dbl", 64); double x; memcpy(&x, &u, 8); sx_assume((u & 0x7FF0000000000000ull) != 0x7FF0000000000000ull); v = x; asDbl = x; isNum = 2; break; }
    case 3: { bool b = sx_bool("bool"); v = b; if (k.type == 'b') { *k.b = b; d[k.name] = v; return 1; } d[k.name] = v; if (k.type == 's') return 0; isNum = 1; asInt = b; asDbl = b; sure = 2; break; }
    case 4: d[k.name] = nullptr; return k.type == 'r';
    case 5: { string s = anyString("chr", slen); d[k.name] = s; if (k.type == 's') { *k.s = s; return 1; } return 0; }
    case 6: d[k.name] = json::array(); return 0;
    case 7: d[k.name] = json::object(); return 0;
    default: d[k.name] = json::array({16}); return 0;
  }
  d[k.name] = v; if (k.type == 's' || k.type == 'b') return 0;
  if (k.type == 'f') { float const f = type == 1 ? (float)v.get<uint64_t>() : type == 0 ? (float)v.get<int64_t>() : (float)asDbl; uint32_t const u = fbits(f); if ((u & 0x7F800000u) == 0x7F800000u) return 0; *k.f = f; return sure; }
  bool const seed = k.type == 'r'; int64_t const lo = seed ? 0 : INT32_MIN, hi = seed ? UINT32_MAX : INT32_MAX;
  if (isNum == 2) { if (!((asDbl >= (double)lo) & (asDbl <= (double)hi))) return 0; asInt = (int64_t)asDbl; if ((double)asInt != asDbl) return 0; sure = 2; } // a whole number written as a float may be accepted
  else if (!((asInt >= lo) & (asInt <= hi))) return 0;
  if (seed) { w.seeded = true; w.seed = (unsigned)asInt; } else *k.i = (int)asInt;
  return sure;
}
static void jsonOne() { // one key, alone or after others
  Want w; auto ks = keys(w); json d = json::object();
  int const ki = P("key", -1) < 0 ? sx_pick("key", (int)ks.size()) : P("key", 0), slen = P("slen", 4); int const tp = P("type", -1) < 0 ? sx_pick("type", 9) : P("type", 0);
  int r = put(d, ks[ki], w, tp, slen);
  if (P("two", 0)) { int const kj = sx_pick("key2", (int)ks.size()); if (kj == ki) return; int const q = put(d, ks[kj], w, ks[kj].type == 's' ? 5 : ks[kj].type == 'b' ? 3 : 1, slen); r = r && q ? (r | q) : 0; } // 1|2 = 3: either
  string const t = textOf(d); Got const g = fromJson(t); if (!gParsed) return;
  int const accept = r != 0 && valid(w);
  if (r >= 2 && !g.threw && !g.ok) { sx_assert(g.code == S_BAD_JSON, "bad parameters are reported as such"); return; }
  judge(g, accept, w); sx_cover(g.ok, "accepted"); sx_cover(!g.ok, "rejected"); sx_observe("ok", g.ok);
}
static void jsonKeys() { // unknown keys, of another family, documents of other types
  Want w; json d = json::object(); int const c = sx_pick("case", 8); int accept = 0; size_t extra = 0;
  if (c == 0) { d[anyString("k", P("klen", 1))] = 16; if (P("klen", 1) == 1) { auto const & k = d.begin().key(); int const s = k[0] == 's'; if (s) { w.s = 16.0f; accept = 1; } } }
  if (c == 1) { d["n_jobs"] = 2; w.jobs = 2; d[string("n_job") + (char)0x53] = 2; }
  if (c == 2) d["number_of_labels"] = 3;
  if (c == 3) d["number_of_features"] = 3;
  if (c == 4) d = json::array({1, 2});
  if (c == 5) d = sx_i32("doc");
  if (c == 6) d = anyString("doc", 2);
  if (c == 7) accept = 1; // {}
  string const t = textOf(d); Got const g = fromJson(t); if (!gParsed) return; judge(g, accept, w, extra); sx_cover(g.ok, "accepted"); sx_observe("ok", g.ok);
}
// ---- named arguments
template<class... A> static Got named(A &&... a) { Got g; try {
  if constexpr ((std::is_same_v<std::decay_t<A>, number_of_physical_classifier_clauses_per_label_t> || ...)) { if (kindOf() == 0) return outcome(make_classifier_classic(std::forward<A>(a)...), true); return outcome(make_classifier_bitwise(std::forward<A>(a)...), true); }
  else if constexpr ((std::is_same_v<std::decay_t<A>, number_of_physical_regressor_clauses_t> || ...) || (std::is_same_v<std::decay_t<A>, loss_fn_name_t> || ...) || (std::is_same_v<std::decay_t<A>, loss_fn_C1_t> || ...) || (std::is_same_v<std::decay_t<A>, box_muller_flag_t> || ...)) { if (kindOf() == 2) return outcome(make_regressor_classic(std::forward<A>(a)...), true); return outcome(make_regressor_bitwise(std::forward<A>(a)...), true); }
  else switch (kindOf()) { case 0: return outcome(make_classifier_classic(std::forward<A>(a)...), true); case 1: return outcome(make_classifier_bitwise(std::forward<A>(a)...), true); case 2: return outcome(make_regressor_classic(std::forward<A>(a)...), true); default: return outcome(make_regressor_bitwise(std::forward<A>(a)...), true); }
  } catch (...) { g.threw = 1; } return g; }
static void namedArgs() {
  Want w; int const how = P("how", 0), ctl = P("ctl", 4), lol = P("lol", 3);
  using CL = number_of_physical_classifier_clauses_per_label_t; using RL = number_of_physical_regressor_clauses_t;
  int const a0 = sx_i32("clauses"), a1 = sx_i32("states"), a3 = sx_i32("threshold"), a5 = sx_i32("maxw"), a7 = sx_i32("jobs"), a10 = sx_i32("tile"); float const a2 = sx_f32("s"), c1 = sx_f32("C1"); bool const a4 = sx_bool("weighted"), a6 = sx_bool("boost"), a8 = sx_bool("verbose"), bx = sx_bool("box"); unsigned const seed = (unsigned)sx_var("seed", 32); string const ct = anyString("ct", ctl), lo = anyString("lo", lol);
  auto all = [&] { w.clauses = a0; w.states = a1; w.threshold = a3; w.maxw = a5; w.jobs = a7; w.tile = a10; w.s = a2; w.C1 = c1; w.weighted = a4; w.boost = a6; w.verbose = a8; w.box = bx; w.ct = ct; w.loss = lo; w.seeded = true; w.seed = seed; };
  number_of_states_t st{a1}; specificity_t sp{a2}; threshold_t th{a3}; weighted_flag_t wf{a4}; max_weight_t mw{a5}; boost_tpf_t bo{a6}; number_of_jobs_t nj{a7}; verbosity_t ve{a8}; counting_type_t cy{ct}; clause_output_tile_size_t ti{a10}; random_seed_t rs{seed}; loss_fn_name_t ln{lo}; loss_fn_C1_t lc{c1}; box_muller_flag_t bm{bx}; CL cl{a0}; RL rl{a0};
  Got g;
  if (how == 0) { all(); g = w.clf ? named(CL{a0}, number_of_states_t{a1}, specificity_t{a2}, threshold_t{a3}, weighted_flag_t{a4}, max_weight_t{a5}, boost_tpf_t{a6}, number_of_jobs_t{a7}, verbosity_t{a8}, counting_type_t{ct}, clause_output_tile_size_t{a10}, random_seed_t{seed})
      : named(RL{a0}, number_of_states_t{a1}, specificity_t{a2}, threshold_t{a3}, weighted_flag_t{a4}, max_weight_t{a5}, boost_tpf_t{a6}, number_of_jobs_t{a7}, verbosity_t{a8}, counting_type_t{ct}, clause_output_tile_size_t{a10}, loss_fn_name_t{lo}, loss_fn_C1_t{c1}, box_muller_flag_t{bx}, random_seed_t{seed}); }
  else if (how == 1) { all(); g = w.clf ? named(random_seed_t{seed}, ti, cy, ve, nj, bo, mw, wf, th, sp, st, cl) : named(rs, bm, lc, ln, ti, cy, ve, nj, bo, mw, wf, th, sp, st, rl); } // the other way round, from variables
  else if (how == 2) { all(); auto const & ccy = cy; auto const & crs = rs; auto const & cln = ln; g = w.clf ? named(th, CL{a0}, ccy, bo, number_of_states_t{a1}, crs, sp, mw, ti, nj, ve, wf) : named(lc, th, RL{a0}, ccy, bo, number_of_states_t{a1}, cln, crs, sp, mw, ti, nj, bm, ve, wf); } // variables, constants and temporaries
  else if (how == 3) { // twice from the same variables
    all(); Got f = w.clf ? named(cl, st, sp, th, wf, mw, bo, nj, ve, cy, ti, rs) : named(rl, st, sp, th, wf, mw, bo, nj, ve, cy, ti, ln, lc, bm, rs); sx_assert(same(value_of(cy), ct) & same(value_of(ln), lo) & (value_of(rs) == seed) & (value_of(st) == a1) & (value_of(th) == a3), "arguments passed as variables keep their values");
    g = w.clf ? named(rs, cl, st, sp, th, wf, mw, bo, nj, ve, cy, ti) : named(rs, rl, st, sp, th, wf, mw, bo, nj, ve, cy, ti, ln, lc, bm); sx_assert(f.ok == g.ok, "the same variables build alike"); }
  else if (how == 4) { // one argument alone
    int const k = sx_pick("arg", w.clf ? 12 : 15);
    switch (k) { case 0: w.clauses = a0; g = w.clf ? named(cl) : named(rl); break; case 1: w.states = a1; g = named(st); break; case 2: w.s = a2; g = named(sp); break; case 3: w.threshold = a3; g = named(th); break; case 4: w.weighted = a4; g = named(wf); break; case 5: w.maxw = a5; g = named(mw); break;
      case 6: w.boost = a6; g = named(bo); break; case 7: w.jobs = a7; g = named(nj); break; case 8: w.verbose = a8; g = named(ve); break; case 9: w.ct = ct; g = named(cy); break; case 10: w.tile = a10; g = named(ti); break; case 11: w.seeded = true; w.seed = seed; g = named(rs); break;
      case 12: w.loss = lo; g = named(ln); break; case 13: w.C1 = c1; g = named(lc); break; default: w.box = bx; g = named(bm); } }
  else if (how == 5) { g = named(); int differ = 0; int const rounds = P("probe", 0) ? 20 : 1; unsigned first = 0; if (auto p = val<seed_type>(g.p, "random_state")) first = *p;
    for (int i = 0; i < rounds; ++i) { Got h = named(); if (auto p = val<seed_type>(h.p, "random_state")) differ |= *p != first; }
    if (P("probe", 0)) sx_assert(differ, "estimators built without a seed get fresh ones"); else sx_reach(differ, "estimators built without a seed get fresh ones"); }
  sx_assert(!g.threw, "building from named arguments never throws"); if (g.threw) return;
  sx_assert(g.ok == valid(w), "accepted exactly when every argument is in range"); if (g.ok) kept(g.p, w); else sx_assert(g.code == S_BAD_JSON, "bad parameters are reported as such");
  sx_cover(g.ok, "accepted"); sx_cover(!g.ok || how == 5, "rejected"); sx_observe("ok", g.ok);
}
void sx_main() { switch (P("mode", 0)) { case 0: namedArgs(); break; case 1: jsonOne(); break; default: jsonKeys(); } }
