// C05, C06, C07, C08: one sample presented to a classifier (param what: 5, 6, 7, 8 selects the assertions).
#include "step.hpp"
using namespace H;
template<class K> static void run() {
  Cfg c; int const what = (int)sx_param("what", 8);
  auto sp = fitted<K>(c); auto & s = *sp;
  symLimits(s, c);
  arbitrary<K>(s, c, true, c.wmax); arbitraryCache<K>(s, c);
  if (!sx_param("real", 0)) sx_gen(s.igen, "igen"); // else: the coin tosses of one seed
  sx_gen(s.fgen, "fgen");
  auto x = symSample<K>(c.F);
  int const y = (int)sx_concretize(sx_range("y", 0, c.L - 1));
  int const n = c.clauses<K>(), R = 2 * n;
  Snap a = snap(s, R, c.F);
  vector<int> m(n); for (int o = 0; o < n; ++o) m[o] = holds(s, x, o, c.F);
  typename K::Est e(s);
  auto r = train<K>(e, {x}, {y}, c.L);
  sx_assert(r.first == S_OK, "training accepts valid data");
  auto qp = e.clone_state(); auto & q = *qp;
  Snap b = snap(q, R, c.F);
  int const hits = (c.F * 100 + c.s100 - 1) / c.s100; // F / s rounded up
  Rules ru{a, b, c.N, c.wmax, c.boost != 0, c.weighted != 0, K::bit, hits};
  int const per = c.perLabel();
  auto check = [](vector<int> const & v, char const * id) { sx_assert_all(v.data(), v.size(), id); };
  auto typeI = [&](int o, bool target) { return ((o % per) % 2 == 0) == target; };
  auto conds = [&](vector<int> & v, int o, bool target) { if (typeI(o, target)) ru.typeIc(v, o, x, m[o]); else ru.typeIIc(v, o, x, m[o]); };
  if (what == 8) {
    auto voter = [&](int o, bool target) { int const un = ru.none(o) & ru.wsame(o); vector<int> v; conds(v, o, target); for (int & k : v) k |= un; check(v, "clause untouched or given the feedback its vote calls for"); };
    for (int o = 0; o < n; ++o) if (c.L == 2 || o / per == y) voter(o, o / per == y);
    if (c.L > 2) { // some other label, alone, takes the rules for the other label
      vector<int> un(c.L, 1), okl(c.L, 1);
      for (int o = 0; o < n; ++o) { int l = o / per; if (l == y) continue; int nn = ru.none(o) & ru.wsame(o); vector<int> v; conds(v, o, false); un[l] &= nn; okl[l] &= nn | Rules::all(v); }
      for (int l = 0; l < c.L; ++l) if (l != y) { sx_assert(okl[l], "clauses of another label follow the rules for the other label"); for (int k = l + 1; k < c.L; ++k) if (k != y) sx_assert(un[l] | un[k], "at most one other label is touched"); }
    }
  }
  if (what == 5) { // ranges
    vector<int> in, step; for (size_t i = 0; i < b.ta.size(); ++i) { in.push_back((b.ta[i] >= -c.N) & (b.ta[i] <= c.N - 1)); int64_t d = (int64_t)b.ta[i] - a.ta[i]; step.push_back((d >= (K::bit ? -hits : -1)) & (d <= 1)); }
    check(in, "every automaton stays within its range");
    check(step, "an automaton moves by at most one step per draw");
  }
  if (what == 6) {
    sx_assert(b.w.size() == (c.weighted ? (size_t)n : 0u), "one weight per clause when weighted, none otherwise");
    vector<int> wok; for (auto w : b.w) wok.push_back((int64_t)w + 1 <= c.wmax); check(wok, "every weight stays within [1, max_weight]");
    if (c.weighted) for (int o = 0; o < n; ++o) { vector<int> v; ru.weightc(v, o, x, m[o], typeI(o, o / per == y)); check(v, "a weight moves exactly with the feedback of its matching clause"); }
  }
  if (what == 7) sx_assert(coherent<K>(q, R, c.F), "inclusion bits equal the automaton signs, padding clear");
  int o0 = y * per; // first clause of the target label
  if (what == 8) { sx_cover(!ru.none(o0) & m[o0], "recognition of a matching clause"); sx_cover(!ru.none(o0) & !m[o0], "recognition of a non-matching clause"); sx_cover(!ru.none(o0 + 1), "rejection"); }
  if (what == 6 && c.weighted) { sx_cover(b.w[o0] > a.w[o0], "weight grows"); sx_cover(b.w[o0 + 1] < a.w[o0 + 1], "weight shrinks"); }
  if (what == 5 || what == 7) { int up = 0, dn = 0; for (size_t i = 0; i < b.ta.size(); ++i) { up |= (a.ta[i] < 0) & (b.ta[i] >= 0); dn |= (a.ta[i] >= 0) & (b.ta[i] < 0); } sx_cover(up, "an automaton starts to include"); sx_cover(dn, "an automaton stops including"); }
  sx_observe("ta", (uint64_t)(int64_t)b.ta[0]); if (c.weighted) sx_observe("w", b.w[o0]);
}
void sx_main() { if (sx_param("kind", 0) == 0) run<CC>(); else run<CB>(); }
