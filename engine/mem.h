// Copy-on-write byte memory: concrete bytes + definedness + allocation bitmaps + symbolic overlay.
#pragma once
#include "expr.h"
#include <cstring>
#include <cstdlib>
#include <utility>

namespace sx {

constexpr uint64_t MBASE = 0x7f0000000000ull;
constexpr uint64_t MSIZE = 1ull << 29;
constexpr uint64_t A_FUNC = MBASE + 0x1000, A_GLOB = MBASE + 0x200000, A_STACK = MBASE + 0x4000000, A_HEAP = MBASE + 0x8000000;
inline bool ptrLike(uint64_t v) { return v >= MBASE && v < MBASE + MSIZE; }

struct SymB { E e; uint32_t off; };

struct Page {
  int rc = 1;
  uint64_t def[4] = {0, 0, 0, 0}, alloc[4] = {0, 0, 0, 0};
  SymB* sym = nullptr;
  uint8_t data[256];
  Page() { memset(data, 0, sizeof data); }
  Page(const Page& o) { memcpy(def, o.def, 32); memcpy(alloc, o.alloc, 32); memcpy(data, o.data, 256); if (o.sym) { sym = (SymB*)malloc(sizeof(SymB) * 256); memcpy(sym, o.sym, sizeof(SymB) * 256); } }
  ~Page() { free(sym); }
  bool isDef(unsigned i) const { return def[i >> 6] >> (i & 63) & 1; }
  bool isAlloc(unsigned i) const { return alloc[i >> 6] >> (i & 63) & 1; }
  static void setBit(uint64_t* m, unsigned i, bool v) { if (v) m[i >> 6] |= 1ull << (i & 63); else m[i >> 6] &= ~(1ull << (i & 63)); }
  void needSym() { if (!sym) sym = (SymB*)calloc(256, sizeof(SymB)); }
};
template <class T> struct Node { int rc = 1; T* k[128]; Node() { memset(k, 0, sizeof k); }
  Node(const Node& o) { for (int i = 0; i < 128; i++) { k[i] = o.k[i]; if (k[i]) k[i]->rc++; } } };
typedef Node<Page> L1; typedef Node<L1> L2; typedef Node<L2> L3;
inline void unref(Page* p) { if (p && --p->rc == 0) delete p; }
template <class T> void unref(Node<T>* n) { if (n && --n->rc == 0) { for (int i = 0; i < 128; i++) unref(n->k[i]); delete n; } }

enum class MergeRes { OK, REFUSE };

struct Mem {
  L3* root;
  Mem() { root = new L3(); }
  Mem(const Mem& o) { root = o.root; root->rc++; }
  Mem(Mem&& o) { root = o.root; o.root = nullptr; }
  Mem& operator=(const Mem& o) { if (o.root) o.root->rc++; unref(root); root = o.root; return *this; }
  Mem& operator=(Mem&& o) { std::swap(root, o.root); return *this; }
  ~Mem() { unref(root); }
  static bool inRange(uint64_t a) { return a >= MBASE && a < MBASE + MSIZE; }
  const Page* rd(uint64_t a) const {
    if (!inRange(a)) return nullptr;
    uint64_t i = (a - MBASE) >> 8;
    L2* x = root->k[i >> 14]; if (!x) return nullptr;
    L1* y = x->k[(i >> 7) & 127]; if (!y) return nullptr;
    return y->k[i & 127];
  }
  template <class T> static T* own(T*& p) { if (!p) p = new T(); else if (p->rc > 1) { T* n = new T(*p); n->rc = 1; p->rc--; p = n; } return p; }
  Page* wr(uint64_t a) {
    if (!inRange(a)) throw Unsupported("write outside address space");
    uint64_t i = (a - MBASE) >> 8;
    own(root); L2* x = own(root->k[i >> 14]); L1* y = own(x->k[(i >> 7) & 127]); return own(y->k[i & 127]);
  }
  bool valid(uint64_t a, uint64_t n) const {
    if (!n) return true;
    if (!inRange(a) || !inRange(a + n - 1)) return false;
    while (n) {
      const Page* p = rd(a); if (!p) return false;
      unsigned o = a & 255, m = std::min<uint64_t>(n, 256 - o);
      for (unsigned i = 0; i < m;) {
        unsigned j = o + i;
        if ((j & 63) == 0 && m - i >= 64) { if (p->alloc[j >> 6] != ~0ull) return false; i += 64; continue; }
        if (!p->isAlloc(j)) return false;
        i++;
      }
      a += m; n -= m;
    }
    return true;
  }
  template <class F> void each(uint64_t a, uint64_t n, F f) {
    while (n) { Page* p = wr(a); unsigned o = a & 255, m = std::min<uint64_t>(n, 256 - o); f(p, o, m, a); a += m; n -= m; }
  }
  static void setRange(uint64_t* b, unsigned o, unsigned m, bool v) { for (unsigned i = o; i < o + m;) { if ((i & 63) == 0 && o + m - i >= 64) { b[i >> 6] = v ? ~0ull : 0; i += 64; } else { Page::setBit(b, i, v); i++; } } }
  void alloc(uint64_t a, uint64_t n) { each(a, n, [&](Page* p, unsigned o, unsigned m, uint64_t) { setRange(p->alloc, o, m, true); setRange(p->def, o, m, false); if (p->sym) memset(p->sym + o, 0, m * sizeof(SymB)); }); }
  void dealloc(uint64_t a, uint64_t n) { each(a, n, [&](Page* p, unsigned o, unsigned m, uint64_t) { setRange(p->alloc, o, m, false); setRange(p->def, o, m, false); memset(p->data + o, 0, m); if (p->sym) memset(p->sym + o, 0, m * sizeof(SymB)); }); }
  void undef(uint64_t a, uint64_t n) { each(a, n, [&](Page* p, unsigned o, unsigned m, uint64_t) { setRange(p->def, o, m, false); memset(p->data + o, 0, m); if (p->sym) memset(p->sym + o, 0, m * sizeof(SymB)); }); }
  void fill(uint64_t a, uint64_t n, uint8_t v) { each(a, n, [&](Page* p, unsigned o, unsigned m, uint64_t) { setRange(p->def, o, m, true); memset(p->data + o, v, m); if (p->sym) memset(p->sym + o, 0, m * sizeof(SymB)); }); }
  void putBytes(uint64_t a, const void* src, uint64_t n) { const uint8_t* s = (const uint8_t*)src; each(a, n, [&](Page* p, unsigned o, unsigned m, uint64_t) { setRange(p->def, o, m, true); memcpy(p->data + o, s, m); s += m; if (p->sym) memset(p->sym + o, 0, m * sizeof(SymB)); }); }

  struct B { E e = nullptr; uint32_t off = 0; uint8_t c = 0; bool def = false; };
  B getB(uint64_t a) const { B b; const Page* p = rd(a); if (!p) return b; unsigned i = a & 255; b.def = p->isDef(i); b.c = p->data[i]; if (p->sym && p->sym[i].e) { b.e = p->sym[i].e; b.off = p->sym[i].off; } return b; }
  void putB(uint64_t a, const B& b) { Page* p = wr(a); unsigned i = a & 255; Page::setBit(p->def, i, b.def); p->data[i] = b.c; if (b.e) { p->needSym(); p->sym[i] = {b.e, b.off}; } else if (p->sym) p->sym[i] = {nullptr, 0}; }

  // concrete fast path; returns false if any byte symbolic or undefined
  bool loadC(uint64_t a, unsigned n, uint64_t& c) const {
    unsigned o = a & 255;
    if (o + n <= 256) {
      const Page* p = rd(a); if (!p) return false;
      uint64_t m; unsigned sh = o & 63; m = p->def[o >> 6] >> sh; if (sh + n > 64) m |= p->def[(o >> 6) + 1] << (64 - sh);
      uint64_t want = (1ull << n) - 1;
      if ((m & want) != want) return false;
      if (p->sym) for (unsigned i = 0; i < n; i++) if (p->sym[o + i].e) return false;
      c = 0; memcpy(&c, p->data + o, n); return true;
    }
    c = 0;
    for (unsigned i = 0; i < n; i++) { B b = getB(a + i); if (!b.def || b.e) return false; c |= (uint64_t)b.c << (8 * i); }
    return true;
  }
  // General load. Undefined bytes become fresh unconstrained values (written back so that re-reads agree).
  E loadE(uint64_t a, unsigned n) {
    B b[8];
    for (unsigned i = 0; i < n; i++) b[i] = getB(a + i);
    for (unsigned i = 0; i < n;) {
      if (b[i].def) { i++; continue; }
      unsigned j = i; while (j < n && !b[j].def) j++;
      E v = mkVar(8 * (j - i), "undef");
      for (unsigned k = i; k < j; k++) { b[k].def = true; b[k].e = v; b[k].off = 8 * (k - i); putB(a + k, b[k]); }
      i = j;
    }
    E r = nullptr;
    for (unsigned i = 0; i < n;) {
      E piece;
      if (b[i].e) {
        unsigned j = i + 1; while (j < n && b[j].e == b[i].e && b[j].off == b[i].off + 8 * (j - i)) j++;
        piece = mkExtract(b[i].e, b[i].off, 8 * (j - i)); i = j;
      } else {
        unsigned j = i; uint64_t c = 0; while (j < n && !b[j].e) { c |= (uint64_t)b[j].c << (8 * (j - i)); j++; }
        piece = mkC(8 * (j - i), c); i = j;
      }
      r = r ? mkConcat(piece, r) : piece;
    }
    return r;
  }
  void storeC(uint64_t a, unsigned n, uint64_t c) {
    unsigned o = a & 255;
    if (o + n <= 256) {
      Page* p = wr(a); memcpy(p->data + o, &c, n);
      uint64_t want = n >= 64 ? ~0ull : (1ull << n) - 1; unsigned sh = o & 63;
      p->def[o >> 6] |= want << sh; if (sh + n > 64) p->def[(o >> 6) + 1] |= want >> (64 - sh);
      if (p->sym) for (unsigned i = 0; i < n; i++) p->sym[o + i].e = nullptr;
      return;
    }
    for (unsigned i = 0; i < n; i++) { B b; b.def = true; b.c = c >> (8 * i); putB(a + i, b); }
  }
  void storeE(uint64_t a, unsigned n, E e) {
    if (isC(e)) { storeC(a, n, e->v); return; }
    // split zero-extended / concatenated values so constant parts stay concrete
    if (n > 1 && e->op == CONCAT && e->b->w % 8 == 0) { storeE(a, e->b->w / 8, e->b); storeE(a + e->b->w / 8, n - e->b->w / 8, e->a); return; }
    if (n > 1 && e->op == ZEXT && e->a->w <= 8 * (n - 1)) { unsigned k = (e->a->w + 7) / 8; storeE(a, k, mkZext(e->a, 8 * k)); storeC(a + k, n - k, 0); return; }
    for (unsigned i = 0; i < n; i++) { B b; b.def = true; b.e = e; b.off = 8 * i; putB(a + i, b); }
  }
  void copy(uint64_t d, uint64_t s, uint64_t n) {
    if (d == s) return;
    // page-chunk copy through a temporary (memmove semantics)
    std::vector<B> t(n);
    for (uint64_t i = 0; i < n; i++) t[i] = getB(s + i);
    for (uint64_t i = 0; i < n; i++) putB(d + i, t[i]);
  }
};

// Merge b into a (a' = ite(g, a, b)).  Refuses (returns false, a untouched) when live concrete pointers differ, unless force.
bool mergeMem(Mem& a, const Mem& b, E g, bool force);

} // namespace sx
