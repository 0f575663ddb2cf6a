// C02: the predicted label is the first best-scoring label; batches and accuracy agree.
#include "model.hpp"
using namespace H;
template<class K> static int bestLabel(typename K::State const & s, Cfg const & c, typename K::Sample const & x, int64_t T) {
  int const n = c.clauses<K>(); vector<int> m(n); for (int o = 0; o < n; ++o) m[o] = matches(s, x, o, c.F);
  int best = 0; int64_t top = labelScore(s, c, m.data(), 0, T);
  for (int l = 1; l < c.L; ++l) { int64_t v = labelScore(s, c, m.data(), l, T); int g = v > top; best = g ? l : best; top = g ? v : top; }
  return best; }
template<class K> static void run() {
  Cfg c;
  auto sp = fitted<K>(c); auto & s = *sp;
  arbitrary<K>(s, c); arbitraryCache<K>(s, c);
  int T = sx_range("T", 1, 2147483647); s.m_params["threshold"] = param_value_t(T);
  int const B = (int)sx_param("batch", 1);
  int const D = (int)sx_param("distinct", B); // the batch repeats its first D samples
  vector<typename K::Sample> X; for (int i = 0; i < B; ++i) X.push_back(i < D ? symSample<K>(c.F) : X[i % D]);
  typename K::Est e(s);
  vector<int> want(B), y(B);
  for (int i = 0; i < B; ++i) {
    if (i >= D) { want[i] = want[i % D]; y[i] = y[i % D]; continue; }
    want[i] = bestLabel<K>(s, c, X[i], T);
    auto r = e.predict(X[i]);
    sx_assert(r.isLeft == 0, "prediction accepts a well-formed sample");
    sx_assert(r.rightValue == want[i], "predicted label is the first best-scoring one");
    sx_observe("label", (uint64_t)r.rightValue);
    sx_cover(want[i] == c.L - 1, "last label wins"); sx_cover(want[i] == 0, "first label wins");
    y[i] = sx_i32("y"); }
  auto rb = e.predict(X);
  sx_assert(rb.isLeft == 0, "prediction accepts a well-formed batch");
  sx_assert((int)rb.rightValue.size() == B, "one label per sample");
  for (int i = 0; i < B; ++i) if (i < 8 || i > B - 3) sx_assert(rb.rightValue[i] == want[i], "batch prediction equals single predictions");
  if (sx_param("eval", 1)) {
    int wrong = 0; for (int i = 0; i < B; ++i) if (i < D) wrong += (want[i] != y[i]) * (B / D + (i < B % D));
    wrong = (int)sx_concretize(wrong);
    auto re = e.evaluate(X, y);
    sx_assert(re.isLeft == 0, "evaluation accepts well-formed data");
    double d = (double)re.rightValue - (1.0 - (double)wrong / B);
    sx_assert(d < 1e-6 && d > -1e-6, "accuracy is one minus the fraction of wrong labels");
    sx_cover(wrong == B, "all wrong"); sx_cover(wrong == 0, "all right"); }
}
void sx_main() { if (sx_param("kind", 0) == 0) run<CC>(); else run<CB>(); }
