// C14: what training and queries accept and reject, and that a rejected call changes nothing.
#include "step.hpp"
#include <set>
using namespace H;
// a sample of f features with arbitrary content; ok becomes whether it is well formed
template<class K> static typename K::Sample anySample(int f, int & ok) {
  if constexpr (K::bit) {
    int const extra = (int)sx_param("extra", 0); int const nb = (f + 63) / 64 + extra; using V = typename bit_vector_uint64::aligned_vector;
    V v(nb); for (int b = 0; b < nb; ++b) v[b] = sx_var("blk", 64);
    for (int b = 0; b < nb; ++b) { int lo = f - 64 * b; if (lo < 64) ok &= (lo <= 0 ? v[b] : v[b] >> lo) == 0; }
    return bit_vector_uint64((size_t)f, std::move(v));
  } else { aligned_vector_char v(f); for (int i = 0; i < f; ++i) { v[i] = (char)sx_var("x", 8); ok &= (v[i] == 0) | (v[i] == 1); } return v; } }
template<class K> static void expect(int code, int want, char const * id) { sx_assert(code == want, id); }
template<class K> static void run() {
  Cfg c; int const R = c.rows<K>(), what = (int)sx_param("what", 0), nx = (int)sx_param("nx", 1), ny = (int)sx_param("ny", nx), isFit = (int)sx_param("fitted", 1), Fm = (int)sx_param("Fm", c.F), epochs = (int)sx_param("epochs", 0);
  int ok = 1; vector<typename K::Sample> X;
  for (int i = 0; i < nx; ++i) { int f = i == nx - 1 && nx > 1 ? (int)sx_param("Flast", c.F) : c.F; if (i && f != c.F) ok = 0; X.push_back(anySample<K>(f, ok)); }
  Cfg m = c; m.F = Fm;
  params_t ps = params<K>(m); if (K::clf) ps.erase("number_of_labels"); ps.erase("number_of_features");
  typename K::State s0(ps); s0.igen.index = 1;
  if (isFit) { auto p = fitted<K>(m); arbitrary<K>(*p, m, true, 3); s0.m_params = p->m_params; s0.ta_state = p->ta_state; s0.cache = p->cache; s0.igen = p->igen; s0.fgen = p->fgen; }
  if (what == 0) { // training
    bool const partial = sx_param("partial", 0) != 0; bool const onFitted = isFit && partial; // what the data is measured against
    vector<int> y; int const ask = (int)sx_param("ask", c.L); // requested labels
    int ylo = 1, yhi = 1, ycount = 0, one = 1;
    for (int i = 0; i < ny; ++i) { int v = sx_i32("y"); if (K::clf) { int cap = onFitted ? 2147483647 : 3; sx_assume(v <= cap); ylo &= v >= 0; yhi &= !onFitted | (v < c.L); one &= v <= 0; if (onFitted && ny == 1 && v >= c.L) { sx_assume((v <= c.L + 2) | (v == 127) | (v == 128) | (v == 255) | (v == 256) | (v == 2147483647)); v = (int)sx_concretize((uint32_t)v); } else if (onFitted && ny > 1) { sx_assume((v >= -2) & (v <= c.L + 1)); v = (int)sx_concretize((uint32_t)v); } else if (v >= 0 && v < (onFitted ? c.L : 4)) v = (int)sx_concretize(v); } else { ylo &= v >= 0; yhi &= v <= c.T; }
      y.push_back(v); ++ycount; }
    ok &= (nx > 0) & (ny > 0) & (nx == ny) & ylo & yhi; if (onFitted) ok &= c.F == Fm;
    if (K::clf && !onFitted) ok &= !(one & (ask < 2)); // a single label cannot be told from others
    typename K::Est e(s0); status_message_t r;
    sx_cover(ok, "well-formed data"); sx_cover(!ok, "malformed data");
    r = train<K>(e, X, y, ask, epochs, partial);
    sx_assert((r.first == S_OK) == ok, ok ? "training accepts exactly the well-formed data" : "training accepts exactly the well-formed data");
    if (r.first != S_OK) { sx_assert(r.first == S_VALUE_ERROR, "malformed data is answered with a value error"); sx_assert(!r.second.empty(), "a rejection carries a message");
      auto after = e.clone_state(); if (isFit) { sameModel<K>(s0, *after, R, Fm, "a rejected call leaves the model unchanged", true); sx_assert(s0.cache.clause_output.size() == after->cache.clause_output.size(), "a rejected call leaves the model unchanged"); } else { sx_assert(after->m_params == ps, "a rejected call leaves the parameters unchanged"); int rows = 0; std::visit([&](auto const & mm) { rows = (int)mm.rows(); }, after->ta_state.matrix); sx_assert(rows == 0, "a rejected call leaves the model unfitted"); sx_assert(s0.igen == after->igen && s0.fgen == after->fgen, "a rejected call leaves the streams unchanged"); } }
    else sx_cover(1, "accepted");
    sx_observe("code", r.first);
  } else { // queries
    typename K::Est e(s0);
    auto code = [](auto && r) { return r.isLeft ? (int)r.leftValue.first : (int)S_OK; };
    int ok1 = 1; auto x = anySample<K>(c.F, ok1); ok1 &= c.F == Fm;
    ok &= (nx > 0) & (c.F == Fm);
    int const w1 = !isFit ? S_NOT_FITTED_ERROR : ok1 ? S_OK : S_VALUE_ERROR, wn = !isFit ? S_NOT_FITTED_ERROR : ok ? S_OK : S_VALUE_ERROR;
    sx_cover(ok1, "well-formed sample"); sx_cover(!ok, "malformed batch");
    { auto r = e.predict(x); sx_assert(code(r) == w1, "predict answers by the rules for one sample"); }
    { auto r = e.predict(X); sx_assert(code(r) == wn, "predict answers by the rules for a batch"); if (!r.isLeft) sx_assert((int)r.rightValue.size() == nx, "one answer per sample"); }
    if constexpr (K::clf) {
      { auto r = e.decision_function(x); sx_assert(code(r) == w1, "decision function answers by the rules for one sample"); }
      { auto r = e.decision_function(X); sx_assert(code(r) == wn, "decision function answers by the rules for a batch"); if (!r.isLeft) sx_assert((int)r.rightValue.size() == nx, "one answer per sample"); }
      { vector<int> y; for (int i = 0; i < ny; ++i) y.push_back(sx_i32("y")); auto r = e.evaluate(X, y); sx_assert(code(r) == (!isFit ? S_NOT_FITTED_ERROR : ok & (nx == ny) ? S_OK : S_VALUE_ERROR), "evaluate answers by the rules"); }
    }
    auto after = e.clone_state(); if (isFit) sameModel<K>(s0, *after, R, Fm, "queries leave the model unchanged", true); else sx_assert(after->m_params == ps, "queries leave the model unchanged");
    sx_observe("ok", ok);
  }
}
void sx_main() { dispatch((int)sx_param("kind", 0), [](auto k) { run<decltype(k)>(); }); }
