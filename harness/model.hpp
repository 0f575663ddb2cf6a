// Model construction shared by the harnesses: arbitrary fitted models, samples, and the reference semantics.
#pragma once
#include "sx.h"
#include "tsetlini.hpp"
#include "tsetlini_types.hpp"
#include "tsetlini_params.hpp"
#include "estimator_state.hpp"
#include "tsetlini_state_json.hpp"
#include "basic_bit_vector_companion.hpp"
#include <vector>
#include <string>
#include <variant>
#include <utility>
namespace H {
using namespace Tsetlini;
using std::vector; using std::string;

struct CC { using State = ClassifierStateClassic; using Est = ClassifierClassic; using Sample = aligned_vector_char; static constexpr bool clf = true, bit = false; };
struct CB { using State = ClassifierStateBitwise; using Est = ClassifierBitwise; using Sample = bit_vector_uint64; static constexpr bool clf = true, bit = true; };
struct RC { using State = RegressorStateClassic; using Est = RegressorClassic; using Sample = aligned_vector_char; static constexpr bool clf = false, bit = false; };
struct RB { using State = RegressorStateBitwise; using Est = RegressorBitwise; using Sample = bit_vector_uint64; static constexpr bool clf = false, bit = true; };

// ---- configuration of a run --------------------------------------------------------------------
struct Cfg {
  int F = (int)sx_param("F", 3), L = (int)sx_param("L", 2), C = (int)sx_param("C", 4); // features, labels, clauses (per label / total)
  int N = (int)sx_param("N", 100), T = (int)sx_param("T", 15), tile = (int)sx_param("tile", 16), jobs = (int)sx_param("jobs", 1);
  int weighted = (int)sx_param("weighted", 1), boost = (int)sx_param("boost", 0), ct = (int)sx_param("ct", 8), box = (int)sx_param("box", 0);
  int wmax = (int)sx_param("wmax", 2147483647), loss = (int)sx_param("loss", 0), seed = (int)sx_param("seed", 7), s100 = (int)sx_param("s100", 200);
  int perLabel() const { return C / 2; }             // clauses (each one positive and one negated automaton row)
  template<class K> int clauses() const { return K::clf ? L * (C / 2) : C / 2; }
  template<class K> int rows() const { return 2 * clauses<K>(); }
};
inline char const * lossName(int l) { static char const * n[] = {"MSE", "MAE", "L1+2", "berHu", "L1", "L2"}; return n[l]; }
inline char const * ctName(int b) { return b == 8 ? "int8" : b == 16 ? "int16" : b == 32 ? "int32" : "auto"; }

template<class K> inline params_t params(Cfg const & c) {
  params_t p;
  auto get = [&](auto && e) { e.rightMap([&](auto && est) { p = est.read_params(); return 0; }); };
  number_of_states_t const st{c.N}; threshold_t const th{c.T}; weighted_flag_t const wf{c.weighted != 0}; max_weight_t const mw{c.wmax}; boost_tpf_t const bt{c.boost != 0};
  number_of_jobs_t const nj{c.jobs}; counting_type_t const ct{string(ctName(c.ct))}; clause_output_tile_size_t const ts{c.tile}; random_seed_t const rs{(seed_type)c.seed}; specificity_t const sp{(float)c.s100 / 100.0f};
  if constexpr (K::clf) {
    number_of_physical_classifier_clauses_per_label_t const nc{c.C};
    if constexpr (K::bit) get(make_classifier_bitwise(st, th, wf, mw, bt, nj, ct, ts, rs, sp, nc)); else get(make_classifier_classic(st, th, wf, mw, bt, nj, ct, ts, rs, sp, nc));
    p["number_of_labels"] = param_value_t(c.L);
  } else {
    number_of_physical_regressor_clauses_t const nc{c.C}; box_muller_flag_t const bm{c.box != 0}; loss_fn_name_t const lf{string(lossName(c.loss))}; loss_fn_C1_t const c1{0.5f};
    if constexpr (K::bit) get(make_regressor_bitwise(st, th, wf, mw, bt, nj, ct, ts, rs, sp, nc, bm, lf, c1)); else get(make_regressor_classic(st, th, wf, mw, bt, nj, ct, ts, rs, sp, nc, bm, lf, c1));
  }
  p["number_of_features"] = param_value_t(c.F);
  return p;
}

// ---- states ------------------------------------------------------------------------------------
template<class Mx> inline int cell(Mx const & m, int r, int f) { return (int)m.row_data(r)[f]; }
template<class St> inline int cellOf(St const & s, int r, int f) { int v = 0; std::visit([&](auto const & m) { v = cell(m, r, f); }, s.ta_state.matrix); return v; }

// wide models: features below symF0 are concrete, but for every symMod-th
inline bool symbolicFeature(int f) { static int const f0 = (int)sx_param("symF0", 0), md = (int)sx_param("symMod", 0); return f >= f0 || (md && f % md == md - 1); }
template<class M> inline void fillMatrix(M & m, int rows, int F, int N, bool symbolic) {
  using V = typename M::value_type;
  m = M(rows, F);
  if (!symbolic) return;
  int const r0 = (int)sx_param("symR0", 0); // rows below are concrete
  for (int r = 0; r < rows; ++r) {
    V * p = m.row_data(r);
    int ok = 1;
    for (int f = 0; f < F; ++f)
      if (r >= r0 && symbolicFeature(f)) { sx_syms(p + f, 1, sizeof (V), "ta"); ok &= (p[f] >= -N) & (p[f] <= N - 1); }
      else p[f] = r % 8 == 2 ? (f % 3 == 0 ? 0 : -1) : r % 8 == 7 && f == 5 ? 0 : -1; // even clauses: nothing; of the odd ones, by turns, some true literals and one false literal
    if (r >= r0) sx_assume(ok);
  }
}
// inclusion bits from signs
template<class St> inline void polarityFromMatrix(St & s, int rows, int F) {
  s.ta_state.polarity = bit_matrix_uint64(rows, F);
  for (int r = 0; r < rows; ++r) {
    auto * b = const_cast<uint64_t *>(s.ta_state.polarity.row_data(r));
    for (int f = 0; f < F; ++f) b[f / 64] |= (uint64_t)(cellOf(s, r, f) >= 0) << (f % 64);
  }
}
// a fitted model with arbitrary automata and weights
template<class K> inline void arbitrary(typename K::State & s, Cfg const & c, bool symbolic = true, int wmax = 0) {
  int const R = c.rows<K>();
  auto & m = s.ta_state.matrix;
  if (c.ct == 8) { m = numeric_matrix_int8(0, 0); fillMatrix(std::get<numeric_matrix_int8>(m), R, c.F, c.N, symbolic); }
  else if (c.ct == 16) { m = numeric_matrix_int16(0, 0); fillMatrix(std::get<numeric_matrix_int16>(m), R, c.F, c.N, symbolic); }
  else { m = numeric_matrix_int32(0, 0); fillMatrix(std::get<numeric_matrix_int32>(m), R, c.F, c.N, symbolic); }
  if constexpr (K::bit) polarityFromMatrix(s, R, c.F);
  s.ta_state.weights.clear();
  if (c.weighted) {
    int const n = c.clauses<K>(); s.ta_state.weights.resize(n);
    if (symbolic) { sx_syms(s.ta_state.weights.data(), n, 4, "w"); int ok = 1; for (int i = 0; i < n; ++i) ok &= s.ta_state.weights[i] < (uint32_t)(wmax ? wmax : c.wmax); if (int cap = (int)sx_param("wcap", 0)) for (int i = 0; i < n; ++i) ok &= s.ta_state.weights[i] < (uint32_t)cap; sx_assume(ok); }
  }
}
// scratch buffers with arbitrary contents, as earlier calls may have left them
template<class K> inline void arbitraryCache(typename K::State & s, Cfg const & c) {
  int const n = c.clauses<K>();
  s.cache.clause_output.resize(n); sx_syms(s.cache.clause_output.data(), n, 1, "scratch");
  if constexpr (K::clf) {
    s.cache.feedback_to_clauses.resize(n); sx_syms(s.cache.feedback_to_clauses.data(), n, 1, "scratch");
    s.cache.label_sum.resize(c.L); sx_syms(s.cache.label_sum.data(), c.L, 4, "scratch");
  }
}
// fitted through the public interface (zero epochs), the model content then replaced
template<class K> inline typename K::Sample zeroSample(int F) { if constexpr (K::bit) return bit_vector_uint64(F); else return aligned_vector_char(F); }
template<class K> struct Holder { decltype(std::declval<typename K::Est>().clone_state()) p; typename K::State & operator*() { return *p; } typename K::State * operator->() { return p.get(); } };
template<class K> inline auto fitted(Cfg const & c) {
  typename K::State st0(params<K>(c));
  typename K::Est e(st0);
  vector<typename K::Sample> X(1, zeroSample<K>(c.F)); vector<int> y(1, 0);
  status_message_t r;
  if constexpr (K::clf) r = e.fit(X, y, max_number_of_labels_t{c.L}, number_of_epochs_t{0}); else r = e.fit(X, y, number_of_epochs_t{0});
  sx_assert(r.first == S_OK, "fit accepts valid data");
  return e.clone_state();
}

// ---- samples -----------------------------------------------------------------------------------
inline aligned_vector_char symBytes(int F, char const * name = "x") { aligned_vector_char v(F); for (int i = 0; i < F; ++i) v[i] = symbolicFeature(i) ? (char)sx_var(name, 1) : 1; return v; }
inline bit_vector_uint64 symBits(int F, char const * name = "x") {
  bit_vector_uint64 v(F); uint64_t * d = const_cast<uint64_t *>(v.data());
  for (int i = 0; i < F; ++i) d[i / 64] |= (symbolicFeature(i) ? (uint64_t)sx_var(name, 1) : 1ull) << (i % 64);
  return v; }
template<class K> inline typename K::Sample symSample(int F, char const * name = "x") { if constexpr (K::bit) return symBits(F, name); else return symBytes(F, name); }
inline int at(aligned_vector_char const & v, int i) { return v[i]; }
inline int at(bit_vector_uint64 const & v, int i) { return (int)((v.data()[i / 64] >> (i % 64)) & 1); }

// ---- reference semantics -----------------------------------------------------------------------
// clause o over rows 2o (plain literals) and 2o+1 (negated literals)
template<class St, class S> inline int includes(St const & s, int o, int F) { (void)sizeof(S*); int any = 0; for (int f = 0; f < F; ++f) any |= (cellOf(s, 2 * o, f) >= 0) | (cellOf(s, 2 * o + 1, f) >= 0); return any; }
template<class St, class S> inline int holds(St const & s, S const & x, int o, int F) { // every included literal is true
  int ok = 1;
  for (int f = 0; f < F; ++f) { int b = at(x, f); ok &= !((cellOf(s, 2 * o, f) >= 0) & !b); ok &= !((cellOf(s, 2 * o + 1, f) >= 0) & b); }
  return ok; }
template<class St, class S> inline int matches(St const & s, S const & x, int o, int F) { return holds(s, x, o, F) & includes<St, S>(s, o, F); }
template<class St> inline int64_t weight(St const & s, Cfg const & c, int o) { return c.weighted ? (int64_t)1 + s.ta_state.weights[o] : 1; }
inline int64_t clamp64(int64_t v, int64_t lo, int64_t hi) { return v < lo ? lo : v > hi ? hi : v; }
template<class St> inline int64_t labelScore(St const & s, Cfg const & c, int const * m, int label, int64_t T) {
  int64_t a = 0; int const n = c.perLabel();
  for (int k = 0; k < n; ++k) { int64_t v = m[label * n + k] ? weight(s, c, label * n + k) : 0; a += k % 2 == 0 ? v : -v; }
  return clamp64(a, -T, T); }

// dispatch on the flavour parameter: kind 0..3 = CC, CB, RC, RB
template<class Fn> inline void dispatch(int kind, Fn && fn) { switch (kind) { case 0: fn(CC{}); break; case 1: fn(CB{}); break; case 2: fn(RC{}); break; default: fn(RB{}); } }
} // namespace H
