// C05, C06, C07, C10: one sample presented to a regressor (param what selects the assertions).
#include "step.hpp"
#include <cmath>
using namespace H;
// documented loss of a relative error
static double loss(int l, double x, double C1) { double a = x < 0 ? -x : x; switch (l) { case 0: case 5: return x * x; case 1: case 4: return a; case 2: return C1 * a + (1 - C1) * x * x; default: return a <= C1 ? a : x * x - (C1 * C1 + C1); } }
template<class K> static void run() {
  Cfg c; int const what = (int)sx_param("what", 10), mode = (int)sx_param("mode", 0); // mode 1: all clauses match, number of updates
  auto sp = fitted<K>(c); auto & s = *sp;
  if (mode == 0) symLimits(s, c);
  arbitrary<K>(s, c, true, c.wmax); arbitraryCache<K>(s, c);
  int const n = c.clauses<K>(), R = 2 * n;
  if (mode == 1) for (int r = 0; r < R; ++r) for (int f = 0; f < c.F; ++f) sx_assume(cellOf(s, r, f) < 0);
  if (mode == 1) { int64_t lo = sx_param("wlo", n); for (auto w : s.ta_state.weights) sx_assume((w >= lo) & (w <= lo + sx_param("wwin", n))); }
  if (!sx_param("real", 0)) sx_gen(s.igen, "igen"); // else: the draws of one seed
  sx_gen(s.fgen, "fgen");
  auto x = symSample<K>(c.F);
  int y = sx_range("y", (int)sx_param("ylo", 0), (int)sx_param("yhi", c.T)); if (sx_param("ysplit", 0)) y = (int)sx_concretize(y);
  Snap a = snap(s, R, c.F);
  vector<int> m(n); for (int o = 0; o < n; ++o) m[o] = holds(s, x, o, c.F);
  int64_t sum = 0; for (int o = 0; o < n; ++o) { int64_t w = m[o] ? (c.weighted ? (int64_t)1 + a.w[o] : 1) : 0; sum += w; }
  int const v = (int)clamp64(sum, 0, c.T);
  typename K::Est e(s);
  auto r = train<K>(e, {x}, {y}, 0);
  sx_assert(r.first == S_OK, "training accepts valid data");
  auto qp = e.clone_state(); auto & q = *qp;
  Snap b = snap(q, R, c.F);
  int const low = v < y, high = v > y;
  auto check = [](vector<int> const & k, char const * id) { sx_assert_all(k.data(), k.size(), id); };
  if (mode == 0) {
    int const toss = K::bit ? n * ((c.F * 100 + c.s100 - 1) / c.s100) : n; // at most so many moves of one automaton
    vector<int> in, step, dir, wok, wdir;
    for (size_t i = 0; i < b.ta.size(); ++i) { in.push_back((b.ta[i] >= -c.N) & (b.ta[i] <= c.N - 1)); int64_t d = (int64_t)b.ta[i] - a.ta[i]; step.push_back((d >= -toss) & (d <= n)); }
    for (auto w : b.w) wok.push_back((int64_t)w + 1 <= c.wmax);
    for (int o = 0; o < n; ++o) {
      for (int f = 0; f < c.F; ++f) { int t = H::at(x, f); int64_t p = a.at(2 * o, f), p2 = b.at(2 * o, f), k = a.at(2 * o + 1, f), k2 = b.at(2 * o + 1, f);
        int64_t dp = p2 - p, dk = k2 - k;
        dir.push_back(low | high | ((dp == 0) & (dk == 0)));
        dir.push_back(!low | m[o] | ((dp <= 0) & (dk <= 0))); // recognition, clause does not match
        dir.push_back(!low | !m[o] | (t ? (dp >= 0) & (dk <= 0) : (dp <= 0) & (dk >= 0))); // recognition, clause matches
        dir.push_back(!high | ((dp >= 0) & (dk >= 0) & ((dp == 0) | (m[o] & !t & (p < 0) & (p2 <= 0))) & ((dk == 0) | (m[o] & t & (k < 0) & (k2 <= 0))))); } // rejection
      if (c.weighted) { int64_t dw = (int64_t)b.w[o] - a.w[o]; wdir.push_back((dw >= -n) & (dw <= n)); wdir.push_back((dw == 0) | (m[o] & (dw > 0 ? low : high))); }
    }
    // a rejected clause takes all its steps together: some number of updates explains automata and weight
    vector<int> whole;
    for (int o = 0; o < n; ++o) { int any = 0; for (int k = 0; k <= n; ++k) { int ok = 1;
        for (int f = 0; f < c.F; ++f) { int t = H::at(x, f); int64_t p = a.at(2 * o, f), g = a.at(2 * o + 1, f); int64_t pe = (!t & (p < 0)) ? (p + k < 0 ? p + k : 0) : p, ge = (t & (g < 0)) ? (g + k < 0 ? g + k : 0) : g; ok &= (b.at(2 * o, f) == pe) & (b.at(2 * o + 1, f) == ge); }
        if (c.weighted && what == 6) ok &= b.w[o] == (a.w[o] > (uint32_t)k ? a.w[o] - k : 0);
        any |= ok; }
      whole.push_back(!high | !m[o] | any); }
    // recognition of matching clauses with boosting: the same
    if (c.boost) for (int o = 0; o < n; ++o) { int any = 0; for (int k = 0; k <= n; ++k) { int ok = 1;
        for (int f = 0; f < c.F; ++f) { int t = H::at(x, f); int64_t p = t ? a.at(2 * o, f) : a.at(2 * o + 1, f), p2 = t ? b.at(2 * o, f) : b.at(2 * o + 1, f); ok &= p2 == (p + k < c.N - 1 ? p + k : c.N - 1); }
        if (c.weighted && what == 6) ok &= (int64_t)b.w[o] == ((int64_t)a.w[o] + k < c.wmax - 1 ? (int64_t)a.w[o] + k : c.wmax - 1);
        any |= ok; }
      whole.push_back(!low | !m[o] | any); }
    if (what == 5) { check(in, "every automaton stays within its range"); check(step, "an automaton moves by at most one step per update"); }
    if (what == 6) { sx_assert(b.w.size() == (c.weighted ? (size_t)n : 0u), "one weight per clause when weighted, none otherwise"); check(wok, "every weight stays within [1, max_weight]"); check(wdir, "a weight grows only with recognition, shrinks only with rejection of its matching clause"); check(whole, "weights move exactly with the feedback of their clause"); }
    if (what == 7) sx_assert(coherent<K>(q, R, c.F), "inclusion bits equal the automaton signs, padding clear");
    if (what == 10) { check(dir, "automata move only in the direction that corrects the error"); check(whole, "each update applies the whole rule to its clause"); }
    int diff = 0; for (size_t i = 0; i < b.ta.size(); ++i) diff |= a.ta[i] != b.ta[i];
    sx_cover(diff & low & m[0], "recognition"); sx_cover(diff & high, "rejection"); sx_cover(!low & !high, "no error");
    sx_observe("ta", (uint64_t)(int64_t)b.ta[0]);
  } else { // every clause matches and every weight has room: the weights count the updates
    int64_t up = 0, dn = 0; for (int o = 0; o < n; ++o) { int64_t d = (int64_t)b.w[o] - a.w[o]; up += d > 0 ? d : 0; dn += d < 0 ? -d : 0; }
    sx_assert((up == 0) | low, "weights grow only when the votes are too low"); sx_assert((dn == 0) | high, "weights shrink only when the votes are too high");
    int64_t const hits = up + dn;
    sx_assert(hits <= n, "at most as many updates as clauses");
    if (!c.box) {
      vector<int> ok; for (int err = -c.T; err <= c.T; ++err) {
        double e1 = n * loss(c.loss, (double)err / c.T, 0.5); int64_t lo, hi; double const eps = (c.T & (c.T - 1)) == 0 && c.loss < 2 ? 0 : 1e-4; // exact in single precision too when T is a power of two
        if (e1 < 0.5 - eps) { lo = 0; hi = e1 > 0 ? 1 : 0; } else if (eps > 0 && e1 < 0.5 + eps) { lo = 0; hi = 1; } else { lo = (int64_t)std::floor(e1 + 0.5 - eps); hi = (int64_t)std::floor(e1 + 0.5 + eps); }
        if (lo < 0) lo = 0; if (hi > n) hi = n; if (lo > n) lo = n;
        if (err == 0) lo = hi = 0;
        ok.push_back((v - y != err) | ((hits >= lo) & (hits <= hi))); }
      check(ok, "number of updates is the rounded share of clauses given by the loss");
      sx_cover(hits == n, "all updates"); sx_cover(hits == 0, "no update"); sx_cover(hits == 1, "one update");
    } else { // a normal draw is never 7 standard deviations away from its mean; the generators cannot produce that
      vector<int> ok; for (int err = -c.T; err <= c.T; ++err) {
        double P = loss(c.loss, (double)err / c.T, 0.5), mean = n * P, sd = std::sqrt(n * P * (1 - P));
        int64_t hi = (int64_t)std::floor(mean + 7 * sd + 0.5 + 1e-4), lo = (int64_t)std::ceil(mean - 7 * sd - 0.5 - 1e-4);
        if (err == 0) hi = 0;
        ok.push_back((v - y != err) | ((hits >= lo) & (hits <= hi))); }
      check(ok, "number of updates is a draw around the share of clauses given by the loss");
      sx_cover(hits == n, "all updates"); sx_cover((hits == 0) & (low | high), "no update");
    }
    sx_observe("hits", (uint64_t)hits);
  }
}
void sx_main() { if (sx_param("kind", 2) == 2) run<RC>(); else run<RB>(); }
