// C03: a regressor predicts the sum of the weights of its matching clauses, limited to [0, threshold].
#include "model.hpp"
using namespace H;
template<class K> static void run() {
  Cfg c;
  auto sp = fitted<K>(c); auto & s = *sp;
  arbitrary<K>(s, c); arbitraryCache<K>(s, c);
  int T = sx_range("T", 1, 2147483647); s.m_params["threshold"] = param_value_t(T);
  int const B = (int)sx_param("batch", 1), n = c.clauses<K>();
  int const D = (int)sx_param("distinct", B); // the batch repeats its first D samples
  vector<typename K::Sample> X; for (int i = 0; i < B; ++i) X.push_back(i < D ? symSample<K>(c.F) : X[i % D]);
  typename K::Est e(s);
  vector<int64_t> want(B);
  for (int i = 0; i < B; ++i) {
    if (i >= D) { want[i] = want[i % D]; continue; }
    int64_t a = 0; int any = 0, all = 1;
    for (int o = 0; o < n; ++o) { int m = matches(s, X[i], o, c.F); a += m ? weight(s, c, o) : 0; any |= m; all &= m; }
    want[i] = clamp64(a, 0, T);
    auto r = e.predict(X[i]);
    sx_assert(r.isLeft == 0, "prediction accepts a well-formed sample");
    sx_assert((int64_t)r.rightValue == want[i], "prediction equals the clamped weight sum of matching clauses");
    sx_observe("response", (uint64_t)(int64_t)r.rightValue);
    sx_cover(any == 0, "no clause matches"); sx_cover((a < T) & all, "all clauses match, below threshold"); sx_cover(a > T, "clamped at threshold"); }
  auto rb = e.predict(X);
  sx_assert(rb.isLeft == 0, "prediction accepts a well-formed batch");
  sx_assert((int)rb.rightValue.size() == B, "one response per sample");
  for (int i = 0; i < B; ++i) sx_assert((int64_t)rb.rightValue[i] == want[i], "batch prediction equals single predictions");
}
void sx_main() { if (sx_param("kind", 2) == 2) run<RC>(); else run<RB>(); }
