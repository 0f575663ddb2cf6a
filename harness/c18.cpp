// C18: how many automata a recognition touches.  One presentation; every second clause of the target matches (empty), the others do not.
// mode 0: every draw of integers is D*M + i with one arbitrary D (M a multiple of F, D*M covers the 32-bit range), so draws agree in size and cycle over the features.
// mode 1: draws arbitrary.  mode 2: as 0, with an arbitrary specificity.
#include "step.hpp"
#include <cmath>
using namespace H;
template<class K> static void run() {
  Cfg c; int const mode = (int)sx_param("mode", 0), F = c.F, R = c.rows<K>();
  double s; if (int64_t const u = sx_param("sbits", 0)) { float f; uint32_t b = (uint32_t)u; memcpy(&f, &b, 4); s = f; } else s = (float)c.s100 / 100.0f;
  float sf = (float)s;
  if (mode == 2) { sf = sx_f32("s"); sx_assume((sf >= 1.0f) & (sf <= 1000.0f)); }
  typename K::Sample x = zeroSample<K>(F); for (int f = 0; f < F; ++f) if (mode == 1 ? sx_pick("x", 2) : f % 3 != 0) { if constexpr (K::bit) x.set(f); else x[f] = 1; }
  params_t ps = params<K>(c); ps["s"] = param_value_t(sf); if (K::clf) ps.erase("number_of_labels"); ps.erase("number_of_features");
  typename K::State s0(ps); s0.igen.index = s0.fgen.index = 1; typename K::Est e0(s0);
  { vector<typename K::Sample> X(1, x); sx_assert(train<K>(e0, X, {0}, c.L, 0, false).first == S_OK, "fit accepts valid data"); }
  auto p = e0.clone_state(); auto & st = *p;
  int const mid = -(c.N / 2), shift = (int)sx_param("shift", 0); // clauses at even places among the target's recognised ones do not match
  auto fails = [&](int o) { return K::clf ? (o / 2 + shift) % 2 == 0 : (o + shift) % 2 == 0; };
  std::visit([&](auto & m) { for (int r = 0; r < R; ++r) for (int f = 0; f < F; ++f) m.row_data(r)[f] = f == 0 && fails(r / 2) && (r % 2 == 1) == (at(x, 0) == 1) ? c.N / 2 : mid; }, st.ta_state.matrix);
  if constexpr (K::bit) polarityFromMatrix(st, R, F);
  float const low = 0.001f; for (int i = 0; i < 64; ++i) memcpy(st.fgen.RESp() + 1 + i, &low, 4); st.fgen.index = 1;
  uint32_t D = 0; uint32_t const M = (uint32_t)((4294967296ull - F) / ((uint64_t)F << 20)) * (uint32_t)F; if (mode != 1) { D = (uint32_t)sx_var("D", 20); st.igen.index = 1; for (int i = 0; i < 4900; ++i) st.igen.RESp()[1 + i] = D * M + (uint32_t)(i % F); } else sx_gen(st.igen, "igen");
  Snap a = snap(st, R, F); typename K::Est e(st);
  auto r = train<K>(e, {x}, {K::clf ? 0 : c.T}, c.L); sx_assert(r.first == S_OK, "training accepts valid data");
  auto q = e.clone_state(); Snap b = snap(*q, R, F);
  double const share = F / s, tol = share / 4194304 + 1e-9;
  double const up23 = s == 1 ? 0 : share / 4194304, lo = std::floor(share - up23), hi = std::ceil(share + up23); // single precision
  vector<int> ok, up; int seenLo = 0, seenHi = 0;
  for (int o = 0; o < (K::clf ? c.perLabel() : c.C / 2); o += K::clf ? 2 : 1) { int const nm = fails(o);
    for (int r = 2 * o; r < 2 * o + 2; ++r) { int n = 0;
      for (int f = 0; f < F; ++f) { int const d = a.at(r, f) - b.at(r, f), tr = at(x, f) == (r % 2 == 0); if (nm) n += d; else n += tr ? (c.boost ? d > 0 : d != -1) : d == 1; }
      if (mode == 2) { // floor or ceiling of F / s, up to rounding
        double const sd = sf; up.push_back((n >= 0) & (n <= F) & ((double)(n - 1) * sd < F * (1 + 1e-6)) & ((double)(n + 1) * sd > F * (1 - 1e-6))); continue; }
      if (c.boost && !nm) { int fl = 0; for (int f = 0; f < F; ++f) fl += at(x, f) != (r % 2 == 0); up.push_back((n >= 0) & (n <= (hi < fl ? hi : fl)) & (n >= lo - (F - fl))); continue; } // only the false literals show
      ok.push_back((n >= (int)lo) & (n <= (int)hi)); seenLo |= n == (int)lo; seenHi |= n == (int)hi;
      if (mode == 0) { double const fr = share - lo, h0 = 4294967296.0 * (fr - tol) - 1 - F, h1 = 4294967296.0 * (fr + tol) + 1;
        if (hi == lo + 1) { uint64_t const DF = (uint64_t)D * M; up.push_back(!((int64_t)DF <= (int64_t)std::floor(h0)) | (n == (int)hi)); up.push_back(!((int64_t)DF >= (int64_t)std::ceil(h1)) | (n == (int)lo)); } } } }
  sx_assert_all(ok.data(), ok.size(), "a recognition draws the floor or the ceiling of F/s automata of each polarity");
  if (!up.empty()) sx_assert_all(up.data(), up.size(), mode == 2 ? "a recognition draws F/s automata, rounded down or up" : "the larger number is drawn with the probability of the fraction");
  if (mode != 2) { sx_cover(seenLo, "rounded down"); sx_cover(seenHi, "rounded up"); } sx_observe("ta", (uint64_t)(int64_t)b.at(0, 0));
}
void sx_main() { dispatch((int)sx_param("kind", 0), [](auto k) { run<decltype(k)>(); }); }
