// One training presentation on an arbitrary fitted model, and the feedback rules it may apply.
#pragma once
#include "model.hpp"
namespace H {
inline int maxN(int ct) { return ct == 8 ? 127 : ct == 16 ? 32767 : 2147483647; }
// symbolic number of states and maximum weight; call before arbitrary()
template<class St> inline void symLimits(St & s, Cfg & c) {
  if (sx_param("symN", 1)) { c.N = sx_range("N", 1, maxN(c.ct)); s.m_params["number_of_states"] = param_value_t(c.N); }
  if (c.weighted && sx_param("symW", 1)) { c.wmax = sx_range("max_weight", 1, 2147483647); s.m_params["max_weight"] = param_value_t(c.wmax); }
}
struct Snap { int R, F; vector<int> ta; vector<uint32_t> w; int at(int r, int f) const { return ta[r * F + f]; } };
template<class St> inline Snap snap(St const & s, int R, int F) { Snap r{R, F, vector<int>(R * F), vector<uint32_t>(s.ta_state.weights.begin(), s.ta_state.weights.end())}; for (int i = 0; i < R; ++i) for (int f = 0; f < F; ++f) r.ta[i * F + f] = cellOf(s, i, f); return r; }

struct Rules { Snap const & a; Snap const & b; int N; int64_t wmax; bool boost, weighted; bool sparse = false; int hits = 0;
  // sparse: that many draws with replacement per row, an automaton drawn twice moves twice
  int wsame(int o) const { return weighted ? (int)(a.w[o] == b.w[o]) : 1; }
  int wup(int o) const { return weighted ? (int)((int64_t)b.w[o] == ((int64_t)a.w[o] + 1 < wmax ? (int64_t)a.w[o] + 1 : (int64_t)a.w[o])) : 1; }
  int wdown(int o) const { return weighted ? (int)(b.w[o] == (a.w[o] != 0 ? a.w[o] - 1 : 0)) : 1; }
  int inc(int v) const { return v < N - 1 ? v + 1 : v; }
  int dec(int v) const { return v > -N ? v - 1 : v; }
  int none(int o) const { int ok = 1; for (int r = 2 * o; r < 2 * o + 2; ++r) for (int f = 0; f < a.F; ++f) ok &= a.at(r, f) == b.at(r, f); return ok; }
  // the rules, one condition per automaton
  template<class S> void typeIc(vector<int> & out, int o, S const & x, int m) const {
    for (int f = 0; f < a.F; ++f) { int t = H::at(x, f); int p = a.at(2 * o, f), q = b.at(2 * o, f), n = a.at(2 * o + 1, f), k = b.at(2 * o + 1, f);
      int pUp = (q == inc(p)) | (!boost & (q == p)), pDn = (q == dec(p)) | (q == p), nUp = (k == inc(n)) | (!boost & (k == n)), nDn = (k == dec(n)) | (k == n);
      int pl = sparse ? (q <= p) & (q >= -N) & ((int64_t)p - q <= hits) : pDn, nl = sparse ? (k <= n) & (k >= -N) & ((int64_t)n - k <= hits) : nDn;
      int pm = t ? pUp : pDn, nm = t ? nDn : nUp;
      out.push_back(m ? pm : pl); out.push_back(m ? nm : nl); } }
  template<class S> void typeIIc(vector<int> & out, int o, S const & x, int m) const {
    for (int f = 0; f < a.F; ++f) { int t = H::at(x, f); int p = a.at(2 * o, f), q = b.at(2 * o, f), n = a.at(2 * o + 1, f), k = b.at(2 * o + 1, f);
      out.push_back(q == (m & !t & (p < 0) ? p + 1 : p)); out.push_back(k == (m & t & (n < 0) ? n + 1 : n)); } }
  // the weight moves with its clause: typeI says which feedback the clause may get
  template<class S> void weightc(vector<int> & out, int o, S const & x, int m, bool typeI) const {
    int const same = wsame(o), move = typeI ? wup(o) : wdown(o), un = none(o);
    out.push_back(same | (m & move)); // only its own direction, only when it matches
    out.push_back(!m | un | move);    // the automata got feedback: so did the weight
    if (!typeI || boost) { int must = 0; // some automaton has to move when feedback is given
      for (int f = 0; f < a.F; ++f) { int t = H::at(x, f), p = a.at(2 * o, f), n = a.at(2 * o + 1, f); must |= typeI ? (t ? p < N - 1 : n < N - 1) : (t ? n < 0 : p < 0); }
      out.push_back(!(un & must) | same); } }
  static int all(vector<int> const & v) { int ok = 1; for (int c : v) ok &= c; return ok; }
};
template<class E, class X, class Y> inline status_message_t trainOne(E & e, vector<X> const & x, vector<Y> const & y, int L, int epochs, bool partial, std::true_type) { (void)L; return partial ? e.partial_fit(x, y, max_number_of_labels_t{L}, number_of_epochs_t{epochs}) : e.fit(x, y, max_number_of_labels_t{L}, number_of_epochs_t{epochs}); }
template<class E, class X, class Y> inline status_message_t trainOne(E & e, vector<X> const & x, vector<Y> const & y, int, int epochs, bool partial, std::false_type) { return partial ? e.partial_fit(x, y, number_of_epochs_t{epochs}) : e.fit(x, y, number_of_epochs_t{epochs}); }
template<class K> inline status_message_t train(typename K::Est & e, vector<typename K::Sample> const & X, vector<int> const & y, int L, int epochs = 1, bool partial = true) { return trainOne(e, X, y, L, epochs, partial, std::integral_constant<bool, K::clf>{}); }
template<class K> inline int coherent(typename K::State const & s, int R, int F) {
  int ok = 1;
  if constexpr (K::bit) {
    auto const & P = s.ta_state.polarity;
    ok &= (int)P.rows() == R; ok &= (int)P.cols() == F;
    for (int r = 0; r < R; ++r) { uint64_t const * d = P.row_data(r); int nb = P.row_blocks();
      for (int b = 0; b < nb; ++b) { uint64_t want = 0; for (int f = b * 64; f < F && f < b * 64 + 64; ++f) want |= (uint64_t)(cellOf(s, r, f) >= 0) << (f % 64); ok &= d[b] == want; } }
  }
  return ok; }
// everything a model consists of, compared
template<class K> inline void sameModel(typename K::State const & a, typename K::State const & b, int R, int F, char const * id, bool params = false) {
  vector<int> v; std::visit([&](auto const & m) { v.push_back((int)m.rows() == R); v.push_back((int)m.cols() == F); }, a.ta_state.matrix); std::visit([&](auto const & m) { v.push_back((int)m.rows() == R); v.push_back((int)m.cols() == F); }, b.ta_state.matrix);
  sx_assert_all(v.data(), v.size(), id); Snap x = snap(a, R, F), y = snap(b, R, F);
  for (size_t i = 0; i < x.ta.size(); ++i) v.push_back(x.ta[i] == y.ta[i]);
  v.push_back(x.w.size() == y.w.size()); for (size_t i = 0; i < x.w.size() && i < y.w.size(); ++i) v.push_back(x.w[i] == y.w[i]);
  if constexpr (K::bit) for (int r = 0; r < R; ++r) { auto const * p = a.ta_state.polarity.row_data(r); auto const * q = b.ta_state.polarity.row_data(r); for (int k = 0; k < (F + 63) / 64; ++k) v.push_back(p[k] == q[k]); }
  v.push_back(a.igen == b.igen); v.push_back(a.fgen == b.fgen);
  if (params) v.push_back(a.m_params == b.m_params);
  sx_assert_all(v.data(), v.size(), id); }
} // namespace H
