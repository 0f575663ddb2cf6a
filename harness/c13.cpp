// C13: saving and restoring a model as JSON text. In the symbolic run the text is stood for by the document itself,
// passed through what JSON text can carry (non-negative integers come back unsigned, infinities and NaN as null).
#include "step.hpp"
#include "json/json.hpp"
using namespace H; using json = nlohmann::json;
static json * gDoc; static int gSaved, gLoaded;
static void throughText(json & d) {
  if (d.is_structured()) { for (auto & e : d) throughText(e); return; }
  unsigned char * tag = reinterpret_cast<unsigned char *>(&d); // the first byte is the type
  if (d.is_number_integer() && !d.is_number_unsigned()) { int64_t v = d.get<int64_t>(); *tag = (unsigned char)(v >= 0 ? json::value_t::number_unsigned : json::value_t::number_integer); }
  else if (d.is_number_float()) { double v = d.get<double>(); uint64_t u; memcpy(&u, &v, 8); sx_assume((u & 0x7FF0000000000000ull) != 0x7FF0000000000000ull); }
}
extern "C" string sx_json_dump(json const & d) { gSaved = 1; delete gDoc; gDoc = new json(d); throughText(*gDoc); return "?"; }
extern "C" json sx_json_parse(string const &) { gLoaded = 1; return *gDoc; }
static int bits(float f) { int u; memcpy(&u, &f, 4); return u; }
static void sameParams(params_t const & a, params_t const & b) {
  vector<int> v{a.size() == b.size()};
  for (auto const & [k, x] : a) { auto i = b.find(k); if (i == b.end()) { v.push_back(0); continue; } auto const & y = i->second; v.push_back(x.index() == y.index()); if (x.index() != y.index()) continue;
    if (auto p = std::get_if<int>(&x)) v.push_back(*p == std::get<int>(y)); else if (auto p = std::get_if<seed_type>(&x)) v.push_back(*p == std::get<seed_type>(y)); else if (auto p = std::get_if<float>(&x)) v.push_back(bits(*p) == bits(std::get<float>(y))); else if (auto p = std::get_if<bool>(&x)) v.push_back(*p == std::get<bool>(y)); else if (auto p = std::get_if<string>(&x)) v.push_back(*p == std::get<string>(y)); }
  sx_assert_all(v.data(), v.size(), "a restored model has the same parameters, with the same types"); }
template<class K> static vector<int> answers(typename K::Est & e, typename K::Sample const & x) {
  vector<int> r; auto p = e.predict(x); sx_assert(p.isLeft == 0, "prediction accepts a well-formed sample"); r.push_back(p.rightValue);
  if constexpr (K::clf) { auto d = e.decision_function(x); for (int v : d.rightValue) r.push_back(v); }
  return r; }
static void same(vector<int> const & a, vector<int> const & b, char const * id) { vector<int> v{a.size() == b.size()}; for (size_t i = 0; i < a.size() && i < b.size(); ++i) v.push_back(a[i] == b[i]); sx_assert_all(v.data(), v.size(), id); }
template<class K> static void run() {
  Cfg c; int const R = c.rows<K>(), what = (int)sx_param("what", 0);
  auto sp = fitted<K>(c); auto & s = *sp;
  if (what == 0) { // every parameter arbitrary where it may be, streams anywhere
    symLimits(s, c); s.m_params["threshold"] = param_value_t(sx_range("threshold", 1, 2147483647)); s.m_params["random_state"] = param_value_t((seed_type)sx_var("seed", 32)); s.m_params["boost_true_positive_feedback"] = param_value_t(sx_bool("boost")); s.m_params["verbose"] = param_value_t((bool)sx_bool("verbose")); s.m_params["n_jobs"] = param_value_t(sx_range("jobs", 1, 2147483647));
    { float f = sx_f32("s"); uint32_t u = (uint32_t)bits(f); sx_assume((u >= 0x3F800000u) & (u < 0x7F800000u)); s.m_params["s"] = param_value_t(f); }
    if (!K::clf) { float f = sx_f32("C1"); sx_assume((bits(f) & 0x7F800000) != 0x7F800000); s.m_params["loss_fn_C1"] = param_value_t(f); s.m_params["box_muller"] = param_value_t((bool)sx_bool("box")); } }
  arbitrary<K>(s, c, true, (int)sx_param("wcap", 0)); arbitraryCache<K>(s, c);
  if (what == 0) { int const at = (int)sx_param("at", 1), n = (int)sx_param("cells", 24); constexpr int all = (int)(IRNG::MTSZ * IRNG::NS);
    s.igen.next(); s.fgen.next(); for (int i = 0; i < n; ++i) { int k = (at + i) % all; uint32_t v = (uint32_t)sx_var("res", 32), w = (uint32_t)sx_var("mt", 32), x = (uint32_t)sx_var("fmt", 32), y = (uint32_t)sx_var("fres", 32); sx_assume((y >= 0x2F000000u) & (y <= 0x3F800000u)); s.igen.RESp()[k] = v; s.igen.MTp()[k] = w; s.fgen.MTp()[k] = x; memcpy(s.fgen.RESp() + k, &y, 4); }
    s.igen.index = (unsigned)sx_range("iindex", 0, all - 1); s.fgen.index = (unsigned)sx_range("findex", 0, all - 1); }
  else if (sx_param("real", 0)) s.igen.index = s.fgen.index = (unsigned)sx_param("idx", 4990);
  else { sx_table(s.igen, (unsigned)sx_param("igen", 40), "igen"); sx_ftable(s.fgen, (unsigned)sx_param("fgen", 16), "fgen"); }
  auto keep = typename K::Est(s).clone_state();
  string const t = to_json_string(s);
  typename K::State r{params_t{}};
  if (int F2 = (int)sx_param("F2", 0)) { Cfg o = c; o.F = F2; int const other = (int)sx_param("other", 0); if (other == 2) o.s100 = 2 * c.s100 + 300; if (other == 0) { if (K::clf) o.L = c.L + 1; else o.C = c.C + 2; o.ct = c.ct == 8 ? 16 : 8; o.N = 100; o.weighted = !c.weighted; } auto op = fitted<K>(o); arbitraryCache<K>(*op, o); r = *op; } // restored over another model
  from_json_string(r, t);
  if (sx_symbolic_run() && !(gSaved & gLoaded)) return;
  if constexpr (K::bit) if (sx_param("bits", 0)) { // C07: only the inclusion bits, of the restored model, of a copy of it and of a copy made over another model
    sx_assert(coherent<K>(r, R, c.F), "a restored model has the inclusion bits of its automata, and clear padding");
    typename K::State k(r), o{params_t{}}; o = k; sx_assert(coherent<K>(k, R, c.F) & coherent<K>(o, R, c.F) & coherent<K>(*keep, R, c.F), "a copy has the inclusion bits of its automata, and clear padding");
    sx_cover(cellOf(r, 0, 0) < 0, "a negative automaton is restored"); sx_cover(cellOf(r, R - 1, c.F - 1) >= 0, "a non-negative automaton is restored"); sx_observe("ta", (uint64_t)(int64_t)cellOf(r, R - 1, c.F - 1)); return; }
  sameModel<K>(s, r, R, c.F, "a restored model equals the saved one", false); sameParams(s.m_params, r.m_params); sx_assert(s == r, "a restored model compares equal to the saved one");
  { vector<int> v{(int)(s.ta_state.matrix.index() == r.ta_state.matrix.index())}; sx_assert_all(v.data(), 1, "a restored model stores its automata alike"); }
  sameModel<K>(s, *keep, R, c.F, "saving leaves the model alone", true);
  if constexpr (K::bit) sx_assert(coherent<K>(r, R, c.F), "a restored model has the inclusion bits of its automata, and clear padding");
  sx_cover(cellOf(r, 0, 0) < 0, "a negative automaton is restored"); if (c.weighted) sx_cover(r.ta_state.weights[0] > 70000u || what, "a large weight is restored"); sx_observe("ta", (uint64_t)(int64_t)cellOf(r, R - 1, c.F - 1));
  if (what == 0) return;
  typename K::Est a(s), b(r); auto x = symSample<K>(c.F), x2 = symSample<K>(c.F, "x2"); int const y = (int)sx_concretize(sx_range("y", 0, K::clf ? c.L - 1 : c.T));
  same(answers<K>(a, x2), answers<K>(b, x2), "a restored model answers like the saved one");
  vector<typename K::Sample> X{x}; vector<int> Y{y};
  sx_assert(train<K>(a, X, Y, c.L).first == S_OK && train<K>(b, X, Y, c.L).first == S_OK, "training accepts valid data");
  auto p = a.clone_state(), q = b.clone_state(); sameModel<K>(*p, *q, R, c.F, "a restored model trains on like the saved one", false); sameParams(p->m_params, q->m_params);
  int diff = 0; for (int i = 0; i < R; ++i) for (int f = 0; f < c.F; ++f) diff |= cellOf(s, i, f) != cellOf(*p, i, f); sx_cover(diff, "the training changes the model");
}
void sx_main() { dispatch((int)sx_param("kind", 0), [](auto k) { run<decltype(k)>(); }); }
