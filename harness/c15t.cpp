// C15: parameters, from JSON text through the real parser.
#include "c15.hpp"
static char sym(char const * n, char lo, char hi) { char c = (char)sx_var(n, 8); sx_assume((c >= lo) & (c <= hi)); return c; }
static void number() { // a number of so many digits, decimals and an exponent
  Want w; auto ks = keys(w); Key const k = ks[P("key", 0)]; int const n = P("digits", 3), frac = P("frac", 0), neg = P("neg", 0), ex = P("exp", -1); string num; uint64_t v = 0; int big = 0;
  if (neg) num += '-';
  for (int i = 0; i < n; ++i) { char const c = sym("digit", i == 0 && n > 1 ? '1' : '0', '9'); num += c; if (v > 999999999999999999ull) big = 1; else v = v * 10 + (uint64_t)(c - '0'); }
  uint64_t f = 0, den = 1; if (frac) { num += '.'; for (int i = 0; i < frac; ++i) { char const c = sym("decimal", '0', '9'); num += c; f = f * 10 + (uint64_t)(c - '0'); den *= 10; } }
  if (ex >= 0) { num += 'e'; num += (char)('0' + ex); }
  string const t = string("{\"") + k.name + "\": " + num + "}"; Got const g = fromJson(t);
  int ok = 1, either = 0; bool const seed = k.type == 'r';
  if (k.type == 'b' || k.type == 's') ok = 0;
  else if (k.type == 'f') { double d = frac ? (double)(v * den + f) / (double)den : (double)v; if (neg) d = -d; float const x = (float)d; *k.f = x; }
  else { int64_t const x = neg ? -(int64_t)v : (int64_t)v; uint64_t const lim = seed ? (neg ? 0ull : 4294967295ull) : neg ? 2147483648ull : 2147483647ull; ok = !big & (v <= lim); if (frac) { ok &= f == 0; either = 1; } if (ok) { if (seed) { w.seeded = true; w.seed = (unsigned)x; } else *k.i = (int)x; } }
  if (either && !g.threw && !g.ok) { sx_assert(g.code == S_BAD_JSON, "bad parameters are reported as such"); return; }
  judge(g, ok && valid(w), w); sx_cover(g.ok, "accepted"); sx_cover(!g.ok, "rejected"); sx_observe("ok", g.ok);
}
static void words() { // string values
  Want w; auto ks = keys(w); Key const k = ks[P("key", 10)]; string v; for (int i = 0; i < P("len", 4); ++i) { char const c = sym("chr", 0x20, 0x7e); sx_assume((c != '"') & (c != '\\')); v += c; }
  int const ok = k.type == 's'; if (ok) *k.s = v; string const t = string("{\"threshold\" :7,\n\"") + k.name + "\": \"" + v + "\"}"; w.threshold = 7; Got const g = fromJson(t); judge(g, ok && valid(w), w); sx_cover(g.ok, "accepted"); sx_observe("ok", g.ok);
}
static void whole() { // every text of so many bytes
  int const n = P("bytes", 2); string t; vector<int> c; for (int i = 0; i < n; ++i) { t += (char)sx_var("byte", 8); } Want w; Got const g = fromJson(t);
  auto ws = [&](char x) { return (x == ' ') | (x == '\t') | (x == '\n') | (x == '\r'); }; int ok = 0;
  for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) { int one = (t[a] == '{') & (t[b] == '}'); for (int i = 0; i < n; ++i) if (i != a && i != b) one &= ws(t[i]); ok |= one; }
  judge(g, ok, w); sx_cover(g.ok || n < 2, "accepted"); sx_cover(!g.ok, "rejected"); sx_observe("ok", g.ok);
}
static void damaged() { // a good text with one arbitrary byte
  string t = "{\"n_jobs\": 2, \"weighted\":true}"; size_t const p = (size_t)P("pos", 0); char const was = t[p]; char const c = t[p] = (char)sx_var("byte", 8); Got const g = fromJson(t);
  sx_assert(!g.threw, "building from text never throws"); if (g.threw) return; Want w; w.jobs = 2; w.weighted = true;
  if (c == was) sx_assert(g.ok, "a good text is accepted"); if (!g.ok) sx_assert(g.code == S_BAD_JSON, "bad parameters are reported as such"); else { if (p == 11) w.jobs = c >= '1' && c <= '9' ? c - '0' : 2; kept(g.p, w); }
  if (P("must", 0)) sx_assert(g.ok == (c == was), "a damaged text is rejected"); sx_cover(!g.ok, "rejected"); sx_observe("ok", g.ok);
}
void sx_main() { switch (P("mode", 0)) { case 0: number(); break; case 1: words(); break; case 2: whole(); break; default: damaged(); } }
