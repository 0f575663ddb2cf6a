// C19: random streams.
#include "model.hpp"
#include "mt.hpp"
using namespace H;
template<class G> static uint32_t bitsOf(typename G::value_type v) { uint32_t u; memcpy(&u, &v, 4); return u; }
// a generator with arbitrary content (whole, or around the places used) at one of the interesting positions
template<class G> static void any(G & g, int pos) {
  unsigned const n = G::MTSZ * G::NS; if (sx_param("mt", 0)) sx_syms(g.MTp(), n, 4, "mt");
  if constexpr (std::is_same_v<typename G::value_type, unsigned>) sx_syms(g.RESp(), n, 4, "res");
  else { g.index = 0; if (!sx_param("mt", 0)) g.next(); unsigned const a = pos < 8 ? 1 : (unsigned)pos - 7, b = a + 24 < n ? a + 24 : n; // floats: arbitrary around the places used
    sx_syms(g.RESp() + a, b - a, 4, "res"); for (unsigned i = a; i < b; ++i) { uint32_t u; memcpy(&u, g.RESp() + i, 4); sx_assume((u >= 0x2F000000u) & (u <= 0x3F800000u)); } }
  g.index = (unsigned)pos; }
template<class G> static void sameDraws(G & a, G & b, int k, char const * id) { vector<int> v; for (int i = 0; i < k; ++i) { auto x = a.next(), y = b.next(); v.push_back(bitsOf<G>(x) == bitsOf<G>(y)); } sx_assert_all(v.data(), v.size(), id); }
template<class G> static void run() {
  int const what = (int)sx_param("what", 0), pos = (int)sx_param("pos", 4988), k = (int)sx_param("k", 8); constexpr int n = (int)(G::MTSZ * G::NS);
  if (what == 0) { // copies
    G g((int)sx_param("seed", 3)); any(g, pos);
    G c(g), d(99), m(g); d.next(); d = g; auto const h = std::make_unique<G>(g); G mv(std::move(m)); vector<G> vec(2, g); vec.push_back(g);
    sx_assert((c == g) & (d == g) & (*h == g) & (mv == g) & (vec[2] == g), "a copy equals its source");
    for (int i = 0; i < k; ++i) (void)c.next(); // ahead of the others
    G g0(g); sx_assert(g0 == g, "drawing from a copy leaves the source alone");
    sameDraws(g, d, k, "a copy draws the values of its source"); sameDraws(g0, mv, k, "a moved generator draws the values of its source"); G e(c); sameDraws(c, g, k, "copies stay in step whatever the order of the draws"); sameDraws(vec[1], *h, k, "copies draw the same values");
    { G & self = e; e = self; G f(e); sameDraws(e, f, 2, "assigning a generator to itself changes nothing"); }
    sx_cover(1, "drawn"); sx_observe("draw", bitsOf<G>(g.next()));
  } else if (what == 1) { // comparison: one live cell or the position changed
    G g((int)sx_param("seed", 3)); if (pos) g.next(); g.index = (unsigned)pos; G h(g);
    int const cell = (int)sx_param("cell", n - 1), isMt = (int)sx_param("inmt", 0); uint32_t const v = (uint32_t)sx_var("cell", 32); uint32_t old;
    if (isMt) { old = h.MTp()[cell]; h.MTp()[cell] = v; } else { memcpy(&old, h.RESp() + cell, 4); memcpy(h.RESp() + cell, &v, 4); }
    if (!std::is_same_v<typename G::value_type, unsigned> && !isMt) sx_assume((v & 0x7F800000u) != 0x7F800000u && (v & 0x7FFFFFFFu) != 0); // floats: numbers other than zero
    sx_assert((g == h) == (v == old), "generators are equal exactly when all the values they can still draw are"); sx_assert((g == h) == (h == g), "comparison is symmetric");
    sx_cover(!(g == h), "differ"); sx_observe("eq", g == h);
  } else if (what == 2) { // seeds
    int const seed = sx_i32("seed"); G a(seed), b(seed); sx_assert(a == b, "generators seeded alike are equal");
    G c(5); any(c, 17); c.init(seed); sx_assert(c == a, "seeding again forgets the past");
    if (sx_param("draw", 1)) { sameDraws(a, b, k, "generators seeded alike draw the same values"); sameDraws(a, c, 0, ""); sx_assert(a == b, "generators seeded alike stay equal"); }
    sx_cover(1, "seeded"); sx_observe("mt", a.MTp()[0]);
  } else if (what == 3) { // bounds
    if constexpr (std::is_same_v<typename G::value_type, unsigned>) {
      G g(1); any(g, pos); int const lo = sx_i32("lo"), hi = sx_i32("hi"); int64_t const span = (int64_t)hi - lo; sx_assume((span >= 0) & (span < 4294967295ll)); if (int64_t sp = sx_param("span", 0)) sx_assume(span <= sp);
      int const r = (int)g.next(lo, hi); sx_assert((r >= lo) & (r <= hi), "a bounded draw lies within its bounds"); sx_cover((r == hi) & (lo < hi), "upper bound drawn"); sx_cover((r == lo) & (lo < hi), "lower bound drawn");
      unsigned const x = (unsigned)sx_var("x", 32); sx_assume(x != 0); if (int64_t sp = sx_param("span", 0)) sx_assume(x <= (uint64_t)sp); unsigned const q = g.next(x); sx_assert(q < x, "a draw below a limit is below it"); sx_observe("r", (uint64_t)(int64_t)r);
    }
  } else if (what == 4) { // floats from arbitrary generator content
    G g(1); sx_syms(g.MTp(), n, 4, "mt"); g.index = 0;
    vector<int> v; for (int i = 0; i < k; ++i) { float f = (float)g.next(); v.push_back((f > 0.0f) & (f <= 1.0f)); } sx_assert_all(v.data(), v.size(), "a float draw lies in (0, 1]");
    g.index = (unsigned)(n - 1); float f = (float)g.next(); sx_assert((f > 0.0f) & (f <= 1.0f), "a float draw lies in (0, 1]"); sx_cover(f == 1.0f, "one is drawn"); sx_observe("f", bitsOf<FRNG>(f));
  }
}
void sx_main() { if (sx_param("kind", 0) == 0) run<IRNG>(); else run<FRNG>(); }
