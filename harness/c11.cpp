// C11 refit and initialisation, C12 queries change nothing, C21 copies are equal and independent.
#include "step.hpp"
using namespace H;
template<class E, class X> static void ask(E & e, X const & x, int y, std::true_type) { vector<X> B{x, x}; (void)e.predict(x); (void)e.decision_function(x); (void)e.predict(B); (void)e.decision_function(B); (void)e.evaluate(B, {y, y}); }
template<class E, class X> static void ask(E & e, X const & x, int, std::false_type) { vector<X> B{x, x}; (void)e.predict(x); (void)e.predict(B); }
template<class K> static void askAll(typename K::Est & e, typename K::Sample const & x, int y) { ask(e, x, y, std::integral_constant<bool, K::clf>{}); }
// answers of a model to one question
template<class K> static vector<int> answers(typename K::Est & e, typename K::Sample const & x) {
  vector<int> r; auto p = e.predict(x); sx_assert(p.isLeft == 0, "prediction accepts a well-formed sample"); r.push_back(p.rightValue);
  if constexpr (K::clf) { auto d = e.decision_function(x); for (int v : d.rightValue) r.push_back(v); }
  return r; }
static void same(vector<int> const & a, vector<int> const & b, char const * id) { vector<int> v{a.size() == b.size()}; for (size_t i = 0; i < a.size() && i < b.size(); ++i) v.push_back(a[i] == b[i]); sx_assert_all(v.data(), v.size(), id); }
template<class K> static int label(Cfg const & c, char const * n = "y") { return (int)sx_concretize(sx_range(n, 0, K::clf ? c.L - 1 : c.T)); }
template<class K> static void streams(typename K::State & s) {
  int const idx = (int)sx_param("idx", 1); // position in the streams
  if (sx_param("real", 0)) { s.igen.init(5); s.fgen.init(6); if (idx) { s.igen.generate(); s.fgen.generate(); } s.igen.index = s.fgen.index = (unsigned)idx; return; }
  sx_table(s.igen, (unsigned)sx_param("igen", 40), "igen"); sx_ftable(s.fgen, (unsigned)sx_param("fgen", 16), "fgen"); }
template<class K> static void run() {
  Cfg c; int const R = c.rows<K>(), what = (int)sx_param("what", 0), epochs = (int)sx_param("epochs", 1);
  if (what <= 2) {
    // the model before: fitted on another shape, arbitrary content, streams anywhere
    Cfg o = c; o.F = (int)sx_param("F2", c.F); o.L = (int)sx_param("L2", c.L);
    vector<typename K::Sample> X; vector<int> y; int const n = (int)sx_param("n", 1);
    for (int i = 0; i < n; ++i) { X.push_back(symSample<K>(c.F)); y.push_back(label<K>(c)); }
    auto fit = [&](typename K::Est & e, bool partial) { sx_assert(train<K>(e, X, y, c.L, epochs, partial).first == S_OK, "fit accepts valid data"); return e.clone_state(); };
    params_t ps = params<K>(c); if (K::clf) ps.erase("number_of_labels"); ps.erase("number_of_features");
    if (what == 2) { // unfitted
      typename K::State s0(ps); typename K::Est a(s0), b(s0);
      auto p = fit(a, false), q = fit(b, true);
      sameModel<K>(*p, *q, R, c.F, "partial fit of an unfitted model equals fit", true); return; }
    auto op = fitted<K>(o); arbitrary<K>(*op, o, true); arbitraryCache<K>(*op, o);
    if (sx_param("rng", 0) == 0) streams<K>(*op);
    typename K::Est a(*op); auto p = fit(a, false);
    if (what == 0) { // initial state
      vector<int> v; std::visit([&](auto const & m) { v.push_back((int)m.rows() == R); v.push_back((int)m.cols() == c.F); }, p->ta_state.matrix); sx_assert_all(v.data(), v.size(), "an initialised model has the shape of its data");
      Snap s = snap(*p, R, c.F); v.clear(); int lo = 0, hi = 0;
      for (int t : s.ta) { v.push_back((t == 0) | (t == -1)); lo |= t == -1; hi |= t == 0; }
      sx_assert_all(v.data(), v.size(), "a freshly initialised automaton is next to the decision boundary");
      v.assign(1, (int)s.w.size() == (c.weighted ? c.clauses<K>() : 0)); for (auto w : s.w) v.push_back(w == 0); sx_assert_all(v.data(), v.size(), "a freshly initialised model has weights equal to one");
      sx_assert(coherent<K>(*p, R, c.F), "inclusion bits equal automaton signs after initialisation");
      sx_cover(lo & hi, "both initial states occur"); return; }
    typename K::State s0(ps); typename K::Est b(s0); auto q = fit(b, false);
    sameModel<K>(*p, *q, R, c.F, "fit of a fitted model equals fit of a fresh one", true);
    auto x = symSample<K>(c.F, "x2"); same(answers<K>(a, x), answers<K>(b, x), "a refitted model answers like a fresh one");
    if (sx_param("more", 0)) { // continued training: later random behaviour
      vector<typename K::Sample> X2{x}; vector<int> y2{0}; sx_assert(train<K>(a, X2, y2, c.L).first == S_OK && train<K>(b, X2, y2, c.L).first == S_OK, "training accepts valid data");
      auto p2 = a.clone_state(), q2 = b.clone_state(); sameModel<K>(*p2, *q2, R, c.F, "a refitted model trains on like a fresh one", true); }
    sx_observe("ta", (uint64_t)(int64_t)cellOf(*p, 0, 0));
    return; }
  auto ap = fitted<K>(c); auto & s = *ap; arbitrary<K>(s, c, true, (int)sx_param("wcap", 0)); arbitraryCache<K>(s, c); streams<K>(s);
  auto x = symSample<K>(c.F), x2 = symSample<K>(c.F, "x2"); int const y = label<K>(c);
  vector<typename K::Sample> X{x}; vector<int> Y{y};
  if (what == 3) { // queries
    typename K::Est e(s), plain(s); auto before = e.clone_state();
    auto r1 = answers<K>(e, x2); askAll<K>(e, x, y); (void)e.read_params();
    auto wide = zeroSample<K>(c.F + 1); askAll<K>(e, x, y); (void)e.predict(wide);
    auto r2 = answers<K>(e, x2); same(r1, r2, "the same question gives the same answer");
    same(r1, answers<K>(plain, x2), "answers do not depend on what was asked before");
    auto after = e.clone_state(); sameModel<K>(*before, *after, R, c.F, "queries leave the model unchanged", true); sameModel<K>(s, *after, R, c.F, "queries and copies leave the model unchanged", true);
    if (sx_param("train", 1)) { askAll<K>(e, X[0], y); (void)e.predict(X); if constexpr (K::clf) (void)e.evaluate(X, Y); // the very samples trained on next
      sx_assert(train<K>(e, X, Y, c.L).first == S_OK && train<K>(plain, X, Y, c.L).first == S_OK, "training accepts valid data");
      auto p = e.clone_state(), q = plain.clone_state(); sameModel<K>(*p, *q, R, c.F, "training after queries gives what it would have given without them", true);
      int diff = 0; for (int r = 0; r < R; ++r) for (int f = 0; f < c.F; ++f) diff |= cellOf(s, r, f) != cellOf(*p, r, f); sx_cover(diff, "the training changes the model"); }
    sx_observe("answer", (uint64_t)(int64_t)r1[0]);
  } else { // what == 4: copies
    typename K::Est e(s); auto cp = e.clone_state(); sameModel<K>(s, *cp, R, c.F, "a copy equals its source", true); sx_assert(s == *cp, "a copy compares equal to its source");
    auto orig = e.clone_state(); vector<int> ans = answers<K>(e, x2);
    { typename K::Est e2(*cp); same(ans, answers<K>(e2, x2), "a copy answers like its source");
      sx_assert(train<K>(e2, X, Y, c.L).first == S_OK, "training accepts valid data"); auto t2 = e2.clone_state();
      auto n = e.clone_state(); sameModel<K>(*n, *orig, R, c.F, "training a copy leaves the source alone", true);
      typename K::Est e3(std::move(e2)); // moved-to estimators go on
      if (sx_param("refit", 1)) { vector<typename K::Sample> Z{zeroSample<K>(c.F + 1)}; sx_assert(train<K>(e3, Z, {0}, c.L, 0, false).first == S_OK, "fit accepts valid data"); }
      typename K::Est e1(*orig); sx_assert(train<K>(e1, X, Y, c.L).first == S_OK, "training accepts valid data"); auto t1 = e1.clone_state();
      sameModel<K>(*t1, *t2, R, c.F, "a copy trains like its source", true);
      int diff = 0; for (int r = 0; r < R; ++r) for (int f = 0; f < c.F; ++f) diff |= cellOf(s, r, f) != cellOf(*t1, r, f); sx_cover(diff, "the training changes the copy"); }
    auto n = e.clone_state(); sameModel<K>(*n, *orig, R, c.F, "refitting and destroying a copy leaves the source alone", true); sameModel<K>(*cp, *orig, R, c.F, "training a copy leaves the state it was made from alone", true);
    same(ans, answers<K>(e, x2), "the source answers as before");
    sx_observe("answer", (uint64_t)(int64_t)ans[0]);
  }
}
void sx_main() { dispatch((int)sx_param("kind", 0), [](auto k) { run<decltype(k)>(); }); }
