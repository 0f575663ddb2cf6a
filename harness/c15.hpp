// Expected parameters, shared by the value level (c15.cpp) and the text level (c15t.cpp).
#pragma once
#include "sx.h"
#include "tsetlini.hpp"
#include "tsetlini_params.hpp"
#include <string>
#include <vector>
using namespace Tsetlini; using std::string; using std::vector;
static int P(char const * n, int d) { return (int)sx_param(n, d); }
static int kindOf() { return P("kind", 0); } // 0, 1 classifiers; 2, 3 regressors
static bool isClf() { return kindOf() < 2; }
struct Want {
  bool clf = isClf(); int clauses = clf ? 12 : 20, states = 100, threshold = 15, maxw = 2147483647, boost = 0, jobs = -1, tile = 16; float s = 2.0f, C1 = 0.0f;
  bool weighted = !clf, verbose = false, box = false; string ct = "auto", loss = "MSE"; bool seeded = false; unsigned seed = 0;
};
static int same(string const & a, char const * b) { size_t const n = strlen(b); if (a.size() != n) return 0; int r = 1; for (size_t i = 0; i < n; ++i) r &= a[i] == b[i]; return r; }
static int same(string const & a, string const & b) { if (a.size() != b.size()) return 0; int r = 1; for (size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r; }
static int oneOf(string const & s, std::initializer_list<char const *> l) { int r = 0; for (auto x : l) r |= same(s, x); return r; }
static uint32_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
// the documented ranges
static int valid(Want const & w) {
  uint32_t const u = fbits(w.s); int const sOk = (u >= 0x3F800000u) & (u < 0x7F800000u); // [1, infinity)
  int ok = (w.clauses >= 1) & (w.clauses % (w.clf ? 4 : 2) == 0) & (w.states >= 1) & (w.threshold >= 1) & (w.maxw >= 1) & (w.boost >= 0) & (w.boost <= 1) & ((w.jobs == -1) | (w.jobs >= 1));
  ok &= (w.tile == 16) | (w.tile == 32) | (w.tile == 64) | (w.tile == 128); ok &= sOk & oneOf(w.ct, {"auto", "int8", "int16", "int32"});
  if (!w.clf) ok &= oneOf(w.loss, {"MSE", "L2", "MAE", "L1", "berHu", "L1+2"});
  return ok;
}
template<class T> static T const * val(params_t const & p, char const * k) { auto i = p.find(k); return i == p.end() ? nullptr : std::get_if<T>(&i->second); }
template<class T> static int is(params_t const & p, char const * k, T v) { auto const q = val<T>(p, k); return q && *q == v; }
static void kept(params_t const & p, Want const & w, size_t extra = 0) {
  vector<int> c;
  c.push_back(is<int>(p, w.clf ? "number_of_clauses_per_label" : "number_of_regressor_clauses", w.clauses)); c.push_back(is<int>(p, "number_of_states", w.states)); c.push_back(is<int>(p, "threshold", w.threshold));
  c.push_back(is<int>(p, "max_weight", w.maxw)); c.push_back(is<int>(p, "boost_true_positive_feedback", w.boost)); c.push_back(is<int>(p, "clause_output_tile_size", w.tile));
  c.push_back(is<bool>(p, "weighted", w.weighted)); c.push_back(is<bool>(p, "verbose", w.verbose));
  { auto q = val<float>(p, "s"); c.push_back(q && fbits(*q) == fbits(w.s)); } { auto q = val<string>(p, "counting_type"); c.push_back(q && same(*q, w.ct)); }
  if (!w.clf) { auto q = val<string>(p, "loss_fn"); c.push_back(q && same(*q, w.loss)); auto f = val<float>(p, "loss_fn_C1"); c.push_back(f && fbits(*f) == fbits(w.C1)); c.push_back(is<bool>(p, "box_muller", w.box)); }
  sx_assert_all(c.data(), c.size(), "every given parameter is kept as given, every other takes its default");
  auto const j = val<int>(p, "n_jobs"); sx_assert(j != nullptr && (w.jobs == -1 ? *j >= 1 : *j == w.jobs), "the job count is kept, or positive for -1");
  auto const s = val<seed_type>(p, "random_state"); sx_assert(s != nullptr && (!w.seeded || *s == w.seed), "the seed is kept, or a number");
  c.clear(); c.push_back(val<int>(p, "number_of_labels") == nullptr); c.push_back(val<int>(p, "number_of_features") == nullptr); sx_assert_all(c.data(), c.size(), "labels and features are not known before training");
  sx_assert(p.size() <= (w.clf ? 14u : 16u) + extra, "no parameters beyond the documented ones");
}
// outcome of building the parameters or the estimator itself
struct Got { int ok = 0, code = 0, threw = 0; params_t p; };
template<class E> static Got outcome(E && e, bool est) { Got g; (void)est; if (e.isLeft) { g.code = (int)e.leftValue.first; return g; } g.ok = 1; if constexpr (std::is_same_v<std::decay_t<decltype(e.rightValue)>, params_t>) g.p = e.rightValue; else g.p = e.rightValue.read_params(); return g; }
static Got fromJson(string const & t) {
  Got g;
  try { if (!P("est", 0)) return isClf() ? outcome(make_classifier_params_from_json(t), false) : outcome(make_regressor_params_from_json(t), false);
    switch (kindOf()) { case 0: return outcome(make_classifier_classic_from_json(t), true); case 1: return outcome(make_classifier_bitwise_from_json(t), true); case 2: return outcome(make_regressor_classic_from_json(t), true); default: return outcome(make_regressor_bitwise_from_json(t), true); }
  } catch (...) { g.threw = 1; }
  return g;
}
static void judge(Got const & g, int accept, Want const & w, size_t extra = 0) {
  sx_assert(!g.threw, "building from text never throws"); if (g.threw) return;
  sx_assert(g.ok == accept, "accepted exactly when every value has the right type and range");
  if (g.ok) kept(g.p, w, extra); else sx_assert(g.code == S_BAD_JSON, "bad parameters are reported as such");
}
struct Key { char const * name; char type; int * i = nullptr; float * f = nullptr; bool * b = nullptr; string * s = nullptr; bool cross = false; };
static vector<Key> keys(Want & w) {
  vector<Key> k; auto I = [&](char const * n, int & v) { k.push_back({n, 'i', &v}); }; auto B = [&](char const * n, bool & v) { k.push_back({n, 'b', nullptr, nullptr, &v}); }; auto S = [&](char const * n, string & v) { k.push_back({n, 's', nullptr, nullptr, nullptr, &v}); };
  I(w.clf ? "number_of_clauses_per_label" : "number_of_regressor_clauses", w.clauses); I("number_of_states", w.states); I("threshold", w.threshold); I("max_weight", w.maxw); I("boost_true_positive_feedback", w.boost); I("n_jobs", w.jobs); I("clause_output_tile_size", w.tile);
  k.push_back({"s", 'f', nullptr, &w.s}); B("weighted", w.weighted); B("verbose", w.verbose); S("counting_type", w.ct); k.push_back({"random_state", 'r'});
  if (!w.clf) { S("loss_fn", w.loss); k.push_back({"loss_fn_C1", 'f', nullptr, &w.C1}); B("box_muller", w.box); }
  return k; // 12 for classifiers, 15 for regressors
}
