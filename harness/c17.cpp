// C17: every epoch presents every sample once, paired with a different other label.
// Sample i is the i-th unit vector; clauses are empty (so they match), feedback is always granted (low draws, far thresholds),
// s = 1 and boosting make every feedback move known automata, so the automata count who was presented to which clause.
#include "step.hpp"
using namespace H;
template<class K> static auto counter(Cfg const & c) {
  auto p = fitted<K>(c); int const R = c.rows<K>();
  std::visit([&](auto & m) { for (int r = 0; r < R; ++r) for (int f = 0; f < c.F; ++f) m.row_data(r)[f] = -64; }, p->ta_state.matrix);
  if constexpr (K::bit) polarityFromMatrix(*p, R, c.F);
  for (auto & w : p->ta_state.weights) w = 50;
  float const low = 0.1f; for (int i = 0; i < 600; ++i) memcpy(p->fgen.RESp() + 1 + i, &low, 4); p->fgen.index = 1;
  return p; }
template<class K> static vector<typename K::Sample> units(Cfg const & c, int n) { vector<typename K::Sample> X; for (int i = 0; i < n; ++i) { auto x = zeroSample<K>(c.F); if constexpr (K::bit) x.set(i); else x[i] = 1; X.push_back(x); } return X; }
template<class K> static void run() {
  Cfg c; int const n = (int)sx_param("n", 3), E = (int)sx_param("epochs", 1), L = c.L, probe = (int)sx_param("probe", 0);
  sx_assert(c.F >= n, "set-up");
  vector<int> y(n); int code = (int)sx_param("y", 12); for (int i = n; i-- > 0; code /= 10) y[i] = code % 10;
  if (int const k = (int)sx_param("yfrom", 0)) for (int i = 0; i < n; ++i) y[i] = (k + i) % L; // many labels
  auto X = units<K>(c, n); int const per = K::clf ? c.perLabel() : c.C / 2, R = c.rows<K>();
  vector<int> seen(n * L);
  for (int round = 0; round < (probe ? 300 : 1); ++round) {
    Cfg cc = c; if (probe) cc.seed = round + 1;
    auto p = counter<K>(cc); auto & s = *p;
    if (!probe) { int const k = (int)sx_param("draws", n); if (k) sx_table(s.igen, (unsigned)k, "igen"); }
    typename K::Est e(s); auto r = train<K>(e, X, y, c.L, E); sx_assert(r.first == S_OK, "training accepts valid data");
    auto q = e.clone_state(); vector<int> ok, pair, tot(n);
    auto D = [&](int r, int f) { return cellOf(*q, r, f) + 64; };
    if constexpr (K::clf) {
      for (int l = 0; l < L; ++l) {
        int const ev = 2 * (l * per), od = 2 * (l * per + 1); // rows of the first clause for and the first clause against the label
        int const U = D(ev, 0) + D(ev + 1, 0), Tt = D(od, 0) + D(od + 1, 0); // presentations as the other label, as the target
        int want = 0; for (int i = 0; i < n; ++i) want += y[i] == l ? E : 0;
        ok.push_back(Tt == want);
        for (int j = 0; j < n; ++j) { int const t = y[j] == l ? E : 0;
          ok.push_back(D(ev, j) + D(ev + 1, j) == U); ok.push_back(D(od, j) + D(od + 1, j) == Tt);
          int const u = D(ev + 1, j) - Tt + 2 * t; // sample j presented with l as its other label
          ok.push_back(D(od + 1, j) == U - 2 * u + t);
          pair.push_back((u >= 0) & (u <= E)); if (y[j] == l) pair.push_back(u == 0); tot[j] += u;
          if (y[j] != l) { if (probe) seen[j * L + l] |= u > 0; else if (E > 0) sx_reach(u > 0, ("sample " + std::to_string(j) + " of label " + std::to_string(y[j]) + " is paired with label " + std::to_string(l)).c_str()); } }
        for (int k = 2; k < per; ++k) for (int f = 0; f < c.F; ++f) { int const o = 2 * (l * per + k), b = k % 2 ? od : ev; ok.push_back(D(o, f) == D(b, f)); ok.push_back(D(o + 1, f) == D(b + 1, f)); }
        if (c.weighted) for (int k = 0; k < per; ++k) ok.push_back((int)q->ta_state.weights[l * per + k] == 50 + (k % 2 ? U - Tt : Tt - U)); }
      for (int j = 0; j < n; ++j) pair.push_back(tot[j] == E);
      sx_assert_all(ok.data(), ok.size(), "every sample is presented once per epoch, with its own label");
      sx_assert_all(pair.data(), pair.size(), "the other label is a valid one, different from the sample's own");
    } else { // responses 0 and 2 with one unweighted clause and threshold 2: recognition for 2, rejection for 0, nothing for 1
      int Tt = 0, U = 0; for (int i = 0; i < n; ++i) { Tt += y[i] == 2 ? E : 0; U += y[i] == 0 ? E : 0; }
      for (int j = 0; j < c.F; ++j) { int const t = j < n && y[j] == 2 ? E : 0, u = j < n && y[j] == 0 ? E : 0; ok.push_back(D(1, j) == Tt - 2 * t + u); ok.push_back(D(0, j) == 2 * t - Tt + U - u); }
      sx_assert_all(ok.data(), ok.size(), "every sample is presented once per epoch, with its own response"); }
    sx_cover(1, "trained"); if (!probe) sx_observe("ta", (uint64_t)(int64_t)cellOf(*q, 0, 0));
    (void)R;
  }
  if (probe && K::clf && E > 0) for (int j = 0; j < n; ++j) for (int l = 0; l < L; ++l) if (l != y[j]) sx_assert(seen[j * L + l], "every other label can be drawn");
}
void sx_main() { dispatch((int)sx_param("kind", 0), [](auto k) { run<decltype(k)>(); }); }
