// C01: decision scores equal the clamped weighted votes of the matching clauses.
#include "model.hpp"
using namespace H;
template<class K> static void run() {
  Cfg c;
  auto sp = fitted<K>(c); auto & s = *sp;
  arbitrary<K>(s, c); arbitraryCache<K>(s, c);
  int T = sx_range("T", 1, 2147483647); s.m_params["threshold"] = param_value_t(T);
  int const B = (int)sx_param("batch", 1);
  int const D = (int)sx_param("distinct", B); // the batch repeats its first D samples
  vector<typename K::Sample> X; for (int i = 0; i < B; ++i) X.push_back(i < D ? symSample<K>(c.F) : X[i % D]);
  typename K::Est e(s);
  int const n = c.clauses<K>();
  vector<vector<int64_t>> wants;
  for (int i = 0; i < D; ++i) { wants.emplace_back();
    vector<int> m(n); for (int o = 0; o < n; ++o) m[o] = matches(s, X[i], o, c.F);
    auto r = e.decision_function(X[i]);
    sx_assert(r.isLeft == 0, "scoring accepts a well-formed sample");
    auto const & got = r.rightValue;
    sx_assert((int)got.size() == c.L, "one score per label");
    for (int l = 0; l < c.L; ++l) { int64_t want = labelScore(s, c, m.data(), l, T); wants[i].push_back(want); sx_assert((int64_t)got[l] == want, "score equals clamped weighted votes"); sx_observe("score", (uint64_t)(int64_t)got[l]);
      sx_cover(want > 0, "positive score"); sx_cover((want < 0) & (want > -T), "negative unclamped score"); sx_cover(want == -T, "score at -T"); }
    sx_cover(m[0] & (m[n - 1] == 0), "some clause matches, some does not");
  }
  if (B > 1) {
    auto rb = e.decision_function(X);
    sx_assert(rb.isLeft == 0, "scoring accepts a well-formed batch");
    auto const & got = rb.rightValue;
    sx_assert((int)got.size() == B, "one row per sample");
    vector<int> v; for (int i = 0; i < B; ++i) for (int l = 0; l < c.L; ++l) v.push_back((int64_t)got[i][l] == wants[i % D][l]);
    sx_assert_all(v.data(), v.size(), "batch score equals clamped weighted votes");
  }
}
void sx_main() { if (sx_param("kind", 0) == 0) run<CC>(); else run<CB>(); }
