// C04: job count, tile size and storage width influence nothing; parallel jobs do not conflict (runs with omp: conflicting accesses are implicit violations).
#include "step.hpp"
using namespace H;
template<class K> static void samePrediction(typename K::State const & sa, typename K::State const & sb, typename K::Sample const & x, int y, char const * id) {
  typename K::Est a(sa), b(sb); vector<int> v; vector<typename K::Sample> X{x, x};
  auto pa = a.predict(x), pb = b.predict(x); sx_assert(pa.isLeft == 0 && pb.isLeft == 0, "prediction accepts a well-formed sample"); v.push_back(pa.rightValue == pb.rightValue);
  auto qa = a.predict(X), qb = b.predict(X); sx_assert(qa.isLeft == 0 && qb.isLeft == 0, "prediction accepts a well-formed batch");
  v.push_back(qa.rightValue[0] == qb.rightValue[0]); v.push_back(qa.rightValue[1] == qb.rightValue[1]); v.push_back(qa.rightValue[1] == pa.rightValue);
  if constexpr (K::clf) {
    auto da = a.decision_function(x), db = b.decision_function(x); for (size_t l = 0; l < da.rightValue.size(); ++l) v.push_back(da.rightValue[l] == db.rightValue[l]);
    if (sx_param("eval", 0)) { auto ea = a.evaluate(X, {y, y}), eb = b.evaluate(X, {y, y}); v.push_back(ea.rightValue == eb.rightValue); } }
  sx_assert_all(v.data(), v.size(), id);
  sx_observe("prediction", (uint64_t)(int64_t)pa.rightValue); }
template<class K> static void run() {
  Cfg c, d; d.ct = (int)sx_param("ct2", c.ct); d.tile = (int)sx_param("tile2", c.tile); d.jobs = (int)sx_param("jobs2", c.jobs);
  int const what = (int)sx_param("what", 0); // 0: predictions; 1: one presentation; 2: fit from one seed
  int const R = c.rows<K>();
  if (what < 2) {
    auto ap = fitted<K>(c), bp = fitted<K>(d); auto & a = *ap; auto & b = *bp;
    arbitrary<K>(a, c, true, (int)sx_param("wcap", 0)); arbitrary<K>(b, d, false);
    for (int r = 0; r < R; ++r) for (int f = 0; f < c.F; ++f) std::visit([&](auto & m) { m.row_data(r)[f] = cellOf(a, r, f); }, b.ta_state.matrix);
    if constexpr (K::bit) b.ta_state.polarity = a.ta_state.polarity;
    b.ta_state.weights = a.ta_state.weights;
    arbitraryCache<K>(a, c); arbitraryCache<K>(b, d);
    auto x = symSample<K>(c.F);
    if (what == 0) { samePrediction<K>(a, b, x, 0, "predictions and scores do not depend on jobs, tile size or storage width"); return; }
    if (!sx_param("real", 0)) { sx_table(a.igen, (unsigned)sx_param("igen", 40), "igen"); sx_ftable(a.fgen, (unsigned)sx_param("fgen", 16), "fgen"); }
    b.igen = a.igen; b.fgen = a.fgen;
    int const y = (int)sx_concretize(sx_range("y", 0, K::clf ? c.L - 1 : c.T));
    typename K::Est ea(a), eb(b);
    sx_assert(train<K>(ea, {x}, {y}, c.L).first == S_OK, "training accepts valid data"); sx_assert(train<K>(eb, {x}, {y}, c.L).first == S_OK, "training accepts valid data");
    auto qa = ea.clone_state(), qb = eb.clone_state();
    sameModel<K>(*qa, *qb, R, c.F, "training does not depend on jobs, tile size or storage width");
    int diff = 0; for (int r = 0; r < R; ++r) for (int f = 0; f < c.F; ++f) diff |= cellOf(a, r, f) != cellOf(*qa, r, f);
    sx_cover(diff, "the presentation changes the model");
  } else {
    typename K::State sa(params<K>(c)), sb(params<K>(d)); typename K::Est ea(sa), eb(sb);
    auto x = symSample<K>(c.F); int const y = (int)sx_concretize(sx_range("y", 0, K::clf ? c.L - 1 : c.T));
    int const epochs = (int)sx_param("epochs", 1);
    sx_assert(train<K>(ea, {x}, {y}, c.L, epochs, false).first == S_OK, "training accepts valid data"); sx_assert(train<K>(eb, {x}, {y}, c.L, epochs, false).first == S_OK, "training accepts valid data");
    auto qa = ea.clone_state(), qb = eb.clone_state();
    sameModel<K>(*qa, *qb, R, c.F, "a model fitted from one seed does not depend on jobs, tile size or storage width");
    samePrediction<K>(*qa, *qb, x, y, "predictions of a fitted model do not depend on jobs, tile size or storage width");
    sx_cover(cellOf(*qa, 0, 0) != 0, "model differs from one value");
  }
}
void sx_main() { dispatch((int)sx_param("kind", 0), [](auto k) { run<decltype(k)>(); }); }
