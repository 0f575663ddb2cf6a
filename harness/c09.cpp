// C09: feedback is granted clause by clause with a probability set by the votes.
// Every granted clause shows: s = 1, boosting, one feature, weights away from their limits.
#include "step.hpp"
#include <cmath>
using namespace H;
static int pick(char const * n, int k) { return sx_pick(n, k); }
template<class K> static void run() {
  Cfg c; int const mode = (int)sx_param("mode", 0), n = c.clauses<K>(), R = 2 * n, per = c.perLabel(), y = (int)sx_param("y", 0);
  auto p = fitted<K>(c); auto & s = *p; arbitrary<K>(s, c, false);
  // clauses: empty (matches), matching, not matching; automata at a few depths
  int const x1 = (int)sx_param("x", 1), full = (int)sx_param("full", 1); vector<int> m(n);
  for (int o = 0; o < n; ++o) { int const k = full ? pick("clause", full > 1 ? 2 : 3) : 0; m[o] = k != 1; int const tr = 2 * o + !x1, fa = 2 * o + x1; // rows of the true and of the false literal
    std::visit([&](auto & mm) { mm.row_data(tr)[0] = k == 2 ? 3 : -7; mm.row_data(fa)[0] = k == 1 ? 5 : -9; }, s.ta_state.matrix); }
  if constexpr (K::bit) polarityFromMatrix(s, R, c.F);
  // effective weights: a choice per label
  int64_t const T = c.T; int64_t const ch[] = {2, T / 2 + 1, T - 1, T, T + 1, 3};
  int const nw = (int)sx_param("nw", 4); int64_t const cap = 2147483600;
  if (c.weighted) for (int l = 0; l < c.L; ++l) for (int h = 0; h < 2; ++h) { int64_t const w = std::max<int64_t>(2, std::min<int64_t>(cap, ch[h == (int)sx_param("odd", 0) ? pick("weight", nw) : 0])); for (int k = h; k < per; k += 2) s.ta_state.weights[l * per + k] = (uint32_t)w - 1; }
  auto x = zeroSample<K>(1); if (x1) { if constexpr (K::bit) x.set(0); else x[0] = 1; }
  s.igen.index = 1; s.fgen.index = 1;
  vector<int64_t> v(c.L); for (int l = 0; l < c.L; ++l) v[l] = labelScore(s, c, m.data(), l, T);
  Snap a = snap(s, R, 1);
  auto present = [&](typename K::State & st, vector<int> & out) { typename K::Est e(st); auto r = train<K>(e, {x}, {y}, c.L); sx_assert(r.first == S_OK, "training accepts valid data"); auto q = e.clone_state(); Snap b = snap(*q, R, 1);
    out.assign(n, 0); for (int o = 0; o < n; ++o) { int d = a.at(2 * o, 0) != b.at(2 * o, 0) || a.at(2 * o + 1, 0) != b.at(2 * o + 1, 0); if (c.weighted) d |= a.w[o] != b.w[o]; out[o] = d; } };
  auto typeI = [&](int o) { return ((o % per) % 2 == 0) == (o / per == y); };
  if (mode == 0) { // all draws alike
    uint32_t const u = (uint32_t)sx_var("draw", 32); sx_assume((u >= 0x2F000000u) & (u <= 0x3F800000u));
    for (int i = 0; i < 64; ++i) memcpy(s.fgen.RESp() + 1 + i, &u, 4);
    vector<int> g; present(s, g); vector<int> yes, no, sure;
    for (int o = 0; o < n; ++o) { int const l = o / per; if (l != y && c.L > 2) continue;
      double const thr = (double)(l == y ? T - v[l] : T + v[l]) / (2.0 * (double)T), tol = 1.0 / 1048576;
      float const lo = (float)(thr * (1 - tol)), hi = (float)(thr * (1 + tol)); uint32_t ul, uh; memcpy(&ul, &lo, 4); memcpy(&uh, &hi, 4); // positive floats compare like their bits
      int const shows = m[o] | typeI(o); // feedback changes the clause
      if (shows) yes.push_back(!(u <= ul) | g[o]); no.push_back(!(u > uh) | !g[o]);
      if (l == y ? v[l] == T : v[l] == -T) no.push_back(!g[o]);
      if ((l == y ? v[l] == -T : v[l] == T) && shows) sure.push_back(g[o]); }
    sx_assert_all(yes.data(), yes.size(), "a draw below the vote-dependent probability grants feedback");
    sx_assert_all(no.data(), no.size(), "a draw above the vote-dependent probability grants none");
    if (!sure.empty()) sx_assert_all(sure.data(), sure.size(), "at the extreme score against the label every draw grants feedback");
    sx_cover(g[y * per] & g[y * per + 1], "feedback granted"); sx_cover(!(g[y * per] | g[y * per + 1]), "feedback withheld"); sx_observe("granted", g[0]);
  } else { // draws arbitrary; one of them changed
    int const K16 = (int)sx_param("draws", 12); sx_ftable(s.fgen, (unsigned)K16, "draw"); auto t = fitted<K>(c); *t = s;
    int const i = pick("which", K16); uint32_t const u = (uint32_t)sx_var("other", 32); sx_assume((u >= 0x2F000000u) & (u <= 0x3F800000u)); memcpy(t->fgen.RESp() + 1 + i, &u, 4);
    vector<int> g, h; present(s, g); present(*t, h); int diff = 0; for (int o = 0; o < n; ++o) diff += g[o] != h[o];
    sx_assert(diff <= 1, "one draw decides at most one clause"); sx_cover(diff == 1, "the draw decides"); sx_observe("granted", g[0]); }
}
void sx_main() { if (sx_param("kind", 0) == 0) run<CC>(); else run<CB>(); }
