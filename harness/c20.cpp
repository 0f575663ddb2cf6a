// C20: containers.
#include "sx.h"
#include <cstddef>
#include <limits>
#include <forward_list>
#include <memory>
#include <new>
#include "basic_bit_vector.hpp"
#include "basic_bit_vector_companion.hpp"
#include "basic_bit_matrix.hpp"
#include "basic_numeric_matrix.hpp"
#include "aligned_array.hpp"
using std::vector;
static int P(char const * n, int d) { return (int)sx_param(n, d); }
struct All { vector<int> v; void operator()(int c) { v.push_back(c); } void done(char const * id) { sx_assert_all(v.data(), v.size(), id); v.clear(); } };
static All all;
template<class B> static unsigned bitOf(B const * d, size_t i) { constexpr unsigned bb = 8 * sizeof (B); return (unsigned)(d[i / bb] >> (i % bb)) & 1u; }
static vector<int> bits(size_t n, char const * name) { vector<int> v(n); for (auto & x : v) x = sx_bool(name); return v; }

template<class V> static void same(V const & v, vector<int> const & ref, char const * id) {
  using B = typename V::block_type; constexpr size_t bb = 8 * sizeof (B); size_t const n = ref.size(), cb = (n + bb - 1) / bb;
  all((v.size() == n) & (v.content_blocks() == cb) & (v.tail_bits() == n % bb) & (v.capacity_blocks() >= cb)); all.done("sizes and block counts agree with the number of bits");
  for (size_t i = 0; i < n; ++i) all(v[i] == (unsigned)ref[i]); all.done(id);
  for (size_t i = 0; i < n; ++i) all(bitOf(v.data(), i) == (unsigned)ref[i]); all.done("the packed blocks hold the bits in order");
  for (size_t i = n; i < v.capacity_blocks() * bb; ++i) all(!bitOf(v.data(), i)); all.done("the padding is clear");
  all(((uintptr_t)v.data() % V::alignment) == 0); all.done("storage is aligned");
}
template<class V> static void applyOp(V & v, vector<int> & ref, int op, size_t p, bool val) {
  switch (op) { case 0: v.set(p); break; case 1: v.clear(p); break; case 2: v.flip(p); break; case 3: v.assign(p, val); break; default: v.XOR(p, val); }
  for (size_t i = 0; i < ref.size(); ++i) { int const o = ref[i], n = op == 0 ? 1 : op == 1 ? 0 : op == 2 ? !o : op == 3 ? (int)val : (o ^ (int)val); ref[i] = i == p ? n : o; }
}
template<class B, unsigned A> static void vec() {
  using V = basic_bit_vector<B, A>; size_t const n = (size_t)P("n", 65); int const steps = P("steps", 1);
  V v; vector<int> ref;
  switch (P("from", 0)) {
    case 0: { vector<uint8_t> x(n); sx_syms(x.data(), n, 1, "x"); for (auto b : x) ref.push_back(b != 0); v = basic_bit_vectors::from_range<B, vector<uint8_t>::iterator, A>(x.begin(), x.end()); break; }
    case 1: { vector<int> x(n); sx_syms(x.data(), n, 4, "x"); for (auto b : x) ref.push_back(b != 0); v = basic_bit_vectors::from_range<B, vector<int>::const_iterator, A>(x.cbegin(), x.cend()); break; }
    case 2: { std::forward_list<int64_t> x; auto at = x.before_begin(); for (size_t i = 0; i < n; ++i) { at = x.insert_after(at, (int64_t)sx_var("x", 64)); ref.push_back(*at != 0); } v = basic_bit_vectors::from_range<B, std::forward_list<int64_t>::iterator, A>(x.begin(), x.end()); break; }
    case 3: { V w(n); ref.assign(n, 0); same(w, ref, "a fresh bit vector is clear"); ref = bits(n, "x"); for (size_t i = 0; i < n; ++i) w.assign(i, ref[i]); v = w; break; }
    case 4: { // around given blocks
      constexpr size_t bb = 8 * sizeof (B); size_t const nb = (size_t)P("blocks", 2); typename V::aligned_vector s(nb); size_t const fit = n < nb * bb ? n : nb * bb; for (size_t i = 0; i < fit; ++i) { ref.push_back(sx_bool("x")); s[i / bb] |= (B)((B)ref.back() << (i % bb)); }
      V w(n, std::move(s)); sx_assert((w.size() == fit) & (w.capacity_blocks() == nb), "a bit vector around given blocks holds the bits they have room for"); v = std::move(w); break; }
    case 5: { vector<float> x(n); for (auto & f : x) { f = sx_f32("x"); uint32_t u; memcpy(&u, &f, 4); ref.push_back((u << 1) != 0); } v = basic_bit_vectors::from_range<B, float *, A>(x.data(), x.data() + n); break; }
  }
  same(v, ref, "every element is kept in order");
  if (!ref.size()) return;
  V const before(v); auto const refBefore = ref;
  for (int s = 0; s < steps; ++s) {
    size_t const p = (size_t)sx_range("p", 0, (int)ref.size() - 1); bool const val = sx_bool("val"); int const op = P("op", -1) < 0 ? sx_pick("op", 5) : P("op", 0);
    applyOp(v, ref, op, p, val);
    int want = 0; for (size_t i = 0; i < ref.size(); ++i) want = i == p ? ref[i] : want; sx_assert(v[p] == (unsigned)want, "the element written reads back");
    same(v, ref, "only the element addressed changes");
  }
  same(before, refBefore, "a copy is independent");
  V moved(std::move(v)); same(moved, ref, "moving keeps the bits"); sx_cover(moved[0], "bit set"); sx_observe("b0", bitOf(moved.data(), 0));
}
template<class M> static void sameM(M & m, vector<vector<int>> const & ref, unsigned cols, char const * id) {
  using B = typename M::block_type; constexpr size_t bb = 8 * sizeof (B); unsigned const rows = (unsigned)ref.size();
  all((m.rows() == rows) & (m.cols() == cols) & (m.shape() == std::pair<unsigned, unsigned>(rows, cols)) & (m.row_blocks() * bb >= cols)); all.done("the shape is kept");
  for (unsigned r = 0; r < rows; ++r) {
    for (unsigned c = 0; c < cols; ++c) all((m.test(r, c) == (unsigned)ref[r][c]) & (m[{r, c}] == (unsigned)ref[r][c])); all.done(id);
    auto row = m.row(r); all((row.content_blocks() == (cols + bb - 1) / bb) & (row.tail_bits() == cols % bb) & (row.data() == m.row_data(r)) & ((uintptr_t)m.row_data(r) % M::alignment == 0)); all.done("row views agree with the matrix");
    for (unsigned c = 0; c < cols; ++c) all((row.test(c) == (unsigned)ref[r][c]) & (row[c] == (unsigned)ref[r][c]) & (bitOf(m.row_data(r), c) == (unsigned)ref[r][c])); all.done("row views read the stored bits");
    for (size_t c = cols; c < m.row_blocks() * bb; ++c) all(!bitOf(m.row_data(r), c)); all.done("the row padding is clear");
  }
}
template<class B, unsigned A> static void mat() {
  using M = basic_bit_matrix<B, A>; unsigned const rows = (unsigned)P("rows", 3), cols = (unsigned)P("n", 65);
  M m(rows, cols); vector<vector<int>> ref(rows, vector<int>(cols, 0)); sameM(m, ref, cols, "a fresh matrix is clear");
  for (unsigned r = 0; r < rows; ++r) { ref[r] = bits(cols, "x"); auto row = m[r]; for (unsigned c = 0; c < cols; ++c) { if (r & 1) { if (ref[r][c]) row.set(c); else row.clear(c); } else if (ref[r][c]) m.set(r, c); } }
  sameM(m, ref, cols, "every bit reads back"); M const before(m); auto const ref0 = ref; sx_assert((before == m) & (m == before), "a copy is equal");
  for (int s = 0; s < P("steps", 1); ++s) {
    unsigned const p = (unsigned)sx_range("row", 0, (int)rows - 1), q = (unsigned)sx_range("col", 0, (int)cols - 1); int const op = P("op", -1) < 0 ? sx_pick("op", 6) : P("op", 0);
    switch (op) { case 0: m.set(p, q); break; case 1: m.clear(p, q); break; case 2: m.flip(p, q); break; case 3: m.row(p).set(q); break; case 4: m[p].clear(q); break; default: m.row(p).flip(q); }
    int diff = 0; for (unsigned r = 0; r < rows; ++r) for (unsigned c = 0; c < cols; ++c) { int const o = ref[r][c], n = op % 3 == 0 ? 1 : op % 3 == 1 ? 0 : !o; ref[r][c] = (r == p) & (c == q) ? n : o; diff |= ref[r][c] != ref0[r][c]; }
    sx_assert((m == before) == !diff, "matrices are equal exactly when all bits are"); sx_assert(m.test(p, q) == m[{p, q}], "both ways of reading agree"); sameM(m, ref, cols, "only the bit addressed changes");
  }
  M b(before); sameM(b, ref0, cols, "a copy is independent"); M other(1, 3); other = m; sameM(other, ref, cols, "assignment copies every bit"); sx_assert(other == m, "an assigned matrix is equal");
  M mv(std::move(other)); sameM(mv, ref, cols, "moving keeps the bits"); M ma; ma = std::move(mv); sameM(ma, ref, cols, "moving keeps the bits"); sx_assert(!(ma == M(rows, cols + 1)) & !(ma == M(rows + 1, cols)), "matrices of another shape differ");
  sx_cover(ma.test(rows - 1, cols - 1), "bit set"); sx_observe("b", ma.test(0, 0));
}
template<class T> static T any(char const * n) { return (T)sx_var(n, 8 * sizeof (T)); }
template<class T, unsigned A> static void num() {
  using M = basic_numeric_matrix<T, A>; unsigned const rows = (unsigned)P("rows", 3), cols = (unsigned)P("n", 17);
  M m(rows, cols); vector<vector<T>> ref(rows, vector<T>(cols, T{}));
  auto same = [&](M const & m, vector<vector<T>> const & ref, char const * id) {
    all((m.rows() == rows) & (m.cols() == cols) & (m.shape() == std::pair<unsigned, unsigned>(rows, cols)) & (m.row_items() >= cols)); all.done("the shape is kept");
    for (unsigned r = 0; r < rows; ++r) { all(((uintptr_t)m.row_data(r) % M::alignment) == 0); for (unsigned c = 0; c < cols; ++c) all((m[{r, c}] == ref[r][c]) & (m.row_data(r)[c] == ref[r][c])); } all.done(id);
    for (unsigned r = 0; r < rows; ++r) for (unsigned c = cols; c < m.row_items(); ++c) all(m.row_data(r)[c] == T{}); all.done("the row padding is clear"); };
  same(m, ref, "a fresh matrix is zero");
  for (unsigned r = 0; r < rows; ++r) for (unsigned c = 0; c < cols; ++c) m.row_data(r)[c] = ref[r][c] = any<T>("x");
  same(m, ref, "every element reads back"); M const before(m); auto const ref0 = ref; sx_assert((before == m) & (m == before), "a copy is equal");
  unsigned const p = (unsigned)sx_range("row", 0, (int)rows - 1), q = (unsigned)sx_range("col", 0, (int)cols - 1); T const v = any<T>("v"); m.row_data(p)[q] = v; sx_assert(m[{p, q}] == v, "the element written reads back");
  int diff = 0; for (unsigned r = 0; r < rows; ++r) for (unsigned c = 0; c < cols; ++c) { if ((r == p) & (c == q)) ref[r][c] = v; diff |= ref[r][c] != ref0[r][c]; }
  same(m, ref, "only the element addressed changes"); sx_assert((m == before) == !diff, "matrices are equal exactly when all elements are");
  M b(before); same(b, ref0, "a copy is independent"); M other(2, 5); other = m; same(other, ref, "assignment copies every element"); M mv(std::move(other)); same(mv, ref, "moving keeps the elements"); M ma; ma = std::move(mv); same(ma, ref, "moving keeps the elements");
  sx_assert(!(ma == M(rows, cols + 1)) & !(ma == M(rows + 1, cols)), "matrices of another shape differ"); sx_cover(diff, "element changed"); sx_observe("e", (uint64_t)m[{0, 0}]);
}
template<class T, size_t N, size_t A> static void arr() {
  using R = AlignedArray<T, N, A>; unsigned const off = (unsigned)P("off", 0) * alignof (R), off2 = (unsigned)P("off2", 3) * alignof (R); vector<unsigned char> s(sizeof (R) + 4 * A), s2(sizeof (R) + 4 * A);
  R & a = *new (s.data() + off) R; vector<T> ref; for (size_t i = 0; i < N; ++i) { ref.push_back(any<T>("x")); a[i] = ref[i]; }
  R & b = *new (s2.data() + off2) R(a); R c; c = a; size_t const p = (size_t)sx_range("p", 0, (int)N - 1); T const v = any<T>("v"), o = a[p]; b[p] = v; auto const * ca = &a;
  for (size_t i = 0; i < N; ++i) all((a[i] == ref[i]) & ((*ca)[i] == ref[i]) & (c[i] == ref[i]) & (b[i] == (i == p ? v : ref[i])) & (*(a.begin() + i) == ref[i])); all.done("aligned arrays keep their elements");
  all(((uintptr_t)a.data() % A == 0) & ((uintptr_t)b.data() % A == 0) & ((uintptr_t)c.data() % A == 0) & (a.end() - a.begin() == (ptrdiff_t)N) & (a.cend() - a.cbegin() == (ptrdiff_t)N)); all.done("aligned arrays are aligned");
  sx_assert(((a == b) == (v == o)) & ((a != b) == (v != o)) & (a == c), "aligned arrays are equal exactly when all elements are");
  sx_cover(a != b, "differ"); sx_observe("a0", (uint64_t)a[0]);
}
template<unsigned A> static void width() {
  int const what = P("what", 0), w = P("w", 64);
  if (what == 0) { if (w == 8) vec<uint8_t, A>(); else if (w == 16) vec<uint16_t, A>(); else if (w == 32) vec<uint32_t, A>(); else vec<uint64_t, A>(); }
  if (what == 1) { if (w == 8) mat<uint8_t, A>(); else if (w == 16) mat<uint16_t, A>(); else if (w == 32) mat<uint32_t, A>(); else mat<uint64_t, A>(); }
  if (what == 2) { if (w == 8) num<int8_t, A>(); else if (w == 16) num<int16_t, A>(); else if (w == 32) num<int32_t, A>(); else num<int64_t, A>(); }
}
void sx_main() {
  if (P("what", 0) == 3) { switch (P("shape", 0)) { case 0: arr<int, 5, 64>(); break; case 1: arr<uint8_t, 33, 16>(); break; case 2: arr<int64_t, 9, 32>(); break; default: arr<int16_t, 1, 8>(); } return; }
  int const a = P("align", 64); if (a == 64) width<64>(); else if (a == 16) width<16>(); else width<128>();
}
