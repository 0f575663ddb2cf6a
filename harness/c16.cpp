// C16: the shape of a model follows its data and parameters, and stays.
#include "step.hpp"
#include <algorithm>
using namespace H;
template<class K> static void shape(typename K::State const & s, int L, int clauses, int F, bool weighted, char const * id) {
  vector<int> v; int const R = 2 * clauses;
  std::visit([&](auto const & m) { v.push_back((int)m.rows() == R); v.push_back((int)m.cols() == F); }, s.ta_state.matrix);
  v.push_back(s.ta_state.weights.size() == (weighted ? (size_t)clauses : 0u));
  if constexpr (K::bit) { v.push_back((int)s.ta_state.polarity.rows() == R); v.push_back((int)s.ta_state.polarity.cols() == F); }
  if constexpr (K::clf) v.push_back(std::get<int>(s.m_params.at("number_of_labels")) == L);
  v.push_back(std::get<int>(s.m_params.at("number_of_features")) == F);
  sx_assert_all(v.data(), v.size(), id); }
template<class K> static void answersShape(typename K::Est & e, typename K::Sample const & x, int L, int T) {
  auto p = e.predict(x); sx_assert(!p.isLeft, "a well-formed sample is predicted");
  vector<typename K::Sample> B{x, x}; auto pb = e.predict(B); sx_assert(!pb.isLeft && pb.rightValue.size() == 2, "one prediction per sample");
  if constexpr (K::clf) { auto d = e.decision_function(x); sx_assert(!d.isLeft && (int)d.rightValue.size() == L, "one decision score per label"); auto db = e.decision_function(B); sx_assert(!db.isLeft && db.rightValue.size() == 2 && (int)db.rightValue[0].size() == L && (int)db.rightValue[1].size() == L, "one decision score per label, for every sample");
    sx_assert((p.rightValue >= 0) & (p.rightValue < L), "a predicted label is one of the model's"); }
  else sx_assert((p.rightValue >= 0) & (p.rightValue <= T), "a predicted response is within range"); }
template<class K> static void run() {
  Cfg c; int const n = (int)sx_param("n", 2), ymax = K::clf ? (int)sx_param("ymax", 3) : c.T;
  params_t ps = params<K>(c); if (K::clf) ps.erase("number_of_labels"); ps.erase("number_of_features");
  typename K::State s0(ps); typename K::Est e(s0);
  if (sx_param("before", 0)) { // fitted before on another shape
    Cfg o = c; o.F = (int)sx_param("F2", c.F + 1); o.L = (int)sx_param("L2", c.L + 2); auto p = fitted<K>(o); arbitrary<K>(*p, o, true); arbitraryCache<K>(*p, o); e = typename K::Est(*p); }
  vector<typename K::Sample> X; vector<int> y; int top = -1;
  for (int i = 0; i < n; ++i) { X.push_back(symSample<K>(c.F)); int v = (int)sx_param("ybase", 0) + (int)sx_concretize(sx_range("y", 0, ymax)); y.push_back(v); top = v > top ? v : top; }
  int const ask = K::clf ? (int)sx_concretize(sx_range("ask", (int)sx_param("asklo", -1), (int)sx_param("askhi", 5))) : 0;
  int const L = K::clf ? (top + 1 > ask ? top + 1 : ask) : 1;
  auto r = train<K>(e, X, y, ask, (int)sx_param("epochs", 0), sx_param("partial", 0) != 0);
  if (K::clf && L < 2) { sx_assert(r.first == S_VALUE_ERROR, "a classifier needs at least two labels"); return; }
  sx_assert(r.first == S_OK, "fit accepts valid data");
  int const cl = K::clf ? L * (c.C / 2) : c.C / 2;
  { auto p = e.clone_state(); shape<K>(*p, L, cl, c.F, c.weighted != 0, "the model has the shape of its data and parameters");
    auto rp = e.read_params(); sx_assert(rp == p->m_params, "the parameters read are those of the model"); }
  auto x = symSample<K>(c.F, "x2"); answersShape<K>(e, x, L, c.T);
  // later partial fits: any label of the model, any label count
  for (int k = 0; k < (int)sx_param("later", 1); ++k) {
    int const y2 = K::clf ? (int)sx_concretize(sx_range("y2", std::max(0, L - (int)sx_param("y2last", L)), L - 1)) : (int)sx_concretize(sx_range("y2", 0, c.T)), ask2 = sx_i32("ask2");
    vector<typename K::Sample> X2{x}; auto r2 = train<K>(e, X2, {y2}, ask2, (int)sx_param("epochs2", 1), true);
    sx_assert(r2.first == S_OK, "partial fit accepts every label of the model and any requested label count");
    auto p = e.clone_state(); shape<K>(*p, L, cl, c.F, c.weighted != 0, "later partial fits leave the shape alone");
    answersShape<K>(e, x, L, c.T); }
  sx_cover(1, "trained"); sx_cover(K::clf ? L > top + 1 : 1, "more labels than the data");
  sx_observe("L", L);
}
void sx_main() { dispatch((int)sx_param("kind", 0), [](auto k) { run<decltype(k)>(); }); }
