// Library code the linked program needs in IR form: string instantiations, hashing policy, red-black tree primitives, exception classes.
#include <string>
#include <stdexcept>
#include <new>
#include <exception>
#include <typeinfo>
#include <functional>
#include <unordered_map>
#include <map>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <cerrno>
#include <clocale>
template class std::basic_string<char>;
namespace std {
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { // any deterministic function of the bytes is a valid hash
  const unsigned char* c = (const unsigned char*)p; size_t h = seed ^ 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const unsigned t[] = {2, 3, 5, 7, 11, 13, 17, 23, 29, 37, 47, 59, 73, 97, 127, 151, 197, 251, 313, 397, 499, 631, 797, 1009, 1259, 1597, 2011, 2539, 3203, 4027, 5087, 6421, 8089, 10193, 12853, 16193, 20399, 25717, 32401, 40823, 51437, 64811};
  for (unsigned v : t) if (v >= n) { _M_next_resize = (size_t)(v * (double)_M_max_load_factor); return v; }
  _M_next_resize = (size_t)-1; return n | 1; }
size_t _Prime_rehash_policy::_M_bkt_for_elements(size_t n) const;
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    double mb = (double)(ne + ni > (_M_next_resize ? 0 : 11) ? ne + ni : 11) / (double)_M_max_load_factor;
    if (mb >= (double)nb) { size_t w = (size_t)mb + 1; if (w < nb * 2) w = nb * 2; return {true, _M_next_bkt(w)}; }
    _M_next_resize = (size_t)(nb * (double)_M_max_load_factor); return {false, 0}; }
  return {false, 0}; }
}
// ---- red-black tree primitives (unbalanced insertion is a valid implementation of the interface) ----
static _Rb_tree_node_base* rbInc(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x; }
static _Rb_tree_node_base* rbDec(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return rbInc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return rbInc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return rbDec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return rbDec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black; // header stays red, all nodes black
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
  _Rb_tree_node_base* nx = rbInc(z); bool wasL = h._M_left == z, wasR = h._M_right == z; _Rb_tree_node_base* pv = wasR && h._M_parent != z ? rbDec(z) : 0; if (wasR && h._M_parent == z && z->_M_left) pv = rbDec(z);
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else { _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (wasL) h._M_left = h._M_parent ? nx : &h;
  if (wasR) h._M_right = h._M_parent ? pv : &h;
  return z; }
// ---- exceptions ----
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
static char* cowDup(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = cowDup("", 0); }
__cow_string::__cow_string(const std::string& s) { _M_p = cowDup(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = cowDup(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = cowDup(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { char* q = cowDup(o._M_p, strlen(o._M_p)); free((void*)_M_p); _M_p = q; return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = cowDup("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
#define BASEX(N) N::N(const string& s) : _M_msg(s) {} N::N(const char* s) : _M_msg(s, strlen(s)) {} N::N(N&& o) noexcept : exception(o), _M_msg(static_cast<__cow_string&&>(o._M_msg)) {} N& N::operator=(N&& o) noexcept { _M_msg = static_cast<__cow_string&&>(o._M_msg); return *this; } N::N(const N& o) noexcept : exception(o), _M_msg(o._M_msg) {} N& N::operator=(const N& o) noexcept { _M_msg = o._M_msg; return *this; } N::~N() noexcept {} const char* N::what() const noexcept { return _M_msg._M_p; }
BASEX(logic_error) BASEX(runtime_error)
#define DERX(N, B) N::N(const string& s) : B(s) {} N::N(const char* s) : B(s) {} N::~N() noexcept {}
DERX(domain_error, logic_error) DERX(invalid_argument, logic_error) DERX(length_error, logic_error) DERX(out_of_range, logic_error)
DERX(range_error, runtime_error) DERX(overflow_error, runtime_error) DERX(underflow_error, runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_exception() { throw bad_exception(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_bad_function_call() { throw bad_function_call(); }
type_info::~type_info() {}
}
extern "C" {
static int sxDigit(char c) { return c >= '0' && c <= '9' ? c - '0' : 99; }
unsigned long long strtoull(const char* s, char** e, int) noexcept { // decimal
  bool neg = *s == '-'; if (neg || *s == '+') s++; unsigned long long v = 0; bool ov = false;
  while (sxDigit(*s) < 10) { unsigned d = sxDigit(*s++); if (v > (~0ull - d) / 10) ov = true; v = v * 10 + d; }
  if (e) *e = (char*)s; if (ov) { errno = ERANGE; return ~0ull; } return neg ? -v : v; }
long long strtoll(const char* s, char** e, int) noexcept {
  bool neg = *s == '-'; if (neg || *s == '+') s++; unsigned long long v = 0, lim = neg ? 1ull << 63 : (1ull << 63) - 1; bool ov = false;
  while (sxDigit(*s) < 10) { unsigned d = sxDigit(*s++); if (v > (lim - d) / 10) ov = true; v = v * 10 + d; }
  if (e) *e = (char*)s; if (ov) { errno = ERANGE; return neg ? (long long)(1ull << 63) : (long long)lim; } return neg ? (long long)-v : (long long)v; }
unsigned long strtoul(const char* s, char** e, int b) noexcept { return strtoull(s, e, b); }
long strtol(const char* s, char** e, int b) noexcept { return strtoll(s, e, b); }
static int sxErrno;
int* __errno_location() noexcept { return &sxErrno; }
int snprintf(char* b, size_t n, const char*, ...) noexcept { if (n) b[0] = 0; return 0; } // messages only
uint64_t sx_strtod(const char* s); // concrete text, by the host
double strtod(const char* s, char** e) noexcept { // exact where both the digits and the power of ten are exact
  const char* p = s; bool neg = *p == '-'; if (neg || *p == '+') p++; uint64_t v = 0; int ten = 0; bool big = false;
  for (; sxDigit(*p) < 10; p++) { if (v >= 900719925474099ull) big = true; v = v * 10 + sxDigit(*p); }
  if (*p == '.') for (p++; sxDigit(*p) < 10; p++) { if (v >= 900719925474099ull) big = true; v = v * 10 + sxDigit(*p); ten--; }
  if (*p == 'e' || *p == 'E') { p++; bool n = *p == '-'; if (n || *p == '+') p++; int x = 0; for (; sxDigit(*p) < 10; p++) if (x < 1000) x = x * 10 + sxDigit(*p); ten += n ? -x : x; }
  if (e) *e = (char*)p;
  static const double pw[] = {1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
  double d; if (big || ten > 22 || ten < -22) { uint64_t u = sx_strtod(s); memcpy(&d, &u, 8); return d; }
  d = (double)v; if (ten < 0) d /= pw[-ten]; else d *= pw[ten]; return neg ? -d : d; }
std::string sx_number_text() { return "<number>"; }
static char sxDot[] = ".", sxEmpty[] = "";
struct lconv* localeconv() noexcept { static struct lconv l; l.decimal_point = sxDot; l.thousands_sep = sxEmpty; l.grouping = sxEmpty; return &l; }
}
