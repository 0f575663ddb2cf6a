// C05, C06, C07 at the start: what fit makes, whatever the number of states, the counting type, the model before and the draws.
#include "step.hpp"
using namespace H;
template<class K> static void run() {
  Cfg c; int const R = c.rows<K>(), what = (int)sx_param("what", 5), mode = (int)sx_param("mode", 0);
  typename K::State st0(params<K>(c)); int const N = c.N = sx_range("N", 1, 2147483647); int const W = sx_range("max_weight", 1, 2147483647);
  st0.m_params["number_of_states"] = param_value_t(N); st0.m_params["max_weight"] = param_value_t(W); st0.m_params.erase("number_of_features"); if (K::clf) st0.m_params.erase("number_of_labels");
  if (mode == 3) { // an arbitrary earlier model of the same shape
    c.N = (int)sx_param("N0", 100); auto p0 = fitted<K>(c); if (!c.ct) c.ct = 8; arbitrary<K>(*p0, c, true, c.wmax); p0->m_params["number_of_states"] = param_value_t(N); p0->m_params["max_weight"] = param_value_t(W); st0 = *p0; c.N = N; }
  typename K::Est e(st0); vector<typename K::Sample> X{symSample<K>(c.F)}; vector<int> y{0};
  if (mode == 1) { // an earlier model of another shape
    vector<typename K::Sample> Z(1, zeroSample<K>((int)sx_param("F2", 3))); sx_assert(train<K>(e, Z, y, c.L + 1, 0, false).first == S_OK, "fit accepts valid data"); }
  sx_assert(train<K>(e, X, y, c.L, 0, mode == 2).first == S_OK, "fit accepts valid data");
  auto p = e.clone_state(); auto const & s = *p;
  int64_t cap = 0; std::visit([&](auto const & m) { using V = typename std::decay_t<decltype(m)>::value_type; cap = (int64_t)std::numeric_limits<V>::max(); }, s.ta_state.matrix);
  if (what == 5) { sx_assert((int64_t)N - 1 <= cap && -(int64_t)N >= -cap - 1, "the storage width holds every state of the automata");
    vector<int> v; for (int r = 0; r < R; ++r) for (int f = 0; f < c.F; ++f) { int const t = cellOf(s, r, f); v.push_back((t >= -N) & (t <= N - 1)); } sx_assert_all(v.data(), v.size(), "initial automata lie in range"); sx_cover(N > 40000, "many states"); sx_cover(N == 1, "one state"); }
  else if (what == 6) { vector<int> v{(int)s.ta_state.weights.size() == (c.weighted ? c.clauses<K>() : 0)}; for (auto w : s.ta_state.weights) v.push_back(w == 0); sx_assert_all(v.data(), v.size(), "initial weights are one"); sx_cover(1, "fitted"); }
  else { sx_assert(coherent<K>(s, R, c.F), "inclusion bits equal automaton signs after initialisation");
    typename K::Est e2(s); auto q = e2.clone_state(); sx_assert(coherent<K>(*q, R, c.F), "inclusion bits equal automaton signs in a copy"); sx_cover(mode == 3 || cellOf(s, 0, 0) < 0, "fitted"); }
  sx_observe("w", (uint64_t)cap);
}
void sx_main() { dispatch((int)sx_param("kind", 0), [](auto k) { run<decltype(k)>(); }); }
