#include "mem.h"
namespace sx {
namespace {
template <class F> void diff(Page* x, Page* y, uint64_t base, F& f) { if (x != y) f(x, y, base); }
template <class T, class F> void diff(Node<T>* x, Node<T>* y, uint64_t base, uint64_t span, F& f);
template <class F> void diffK(Page* x, Page* y, uint64_t base, uint64_t, F& f) { diff(x, y, base, f); }
template <class T, class F> void diffK(Node<T>* x, Node<T>* y, uint64_t base, uint64_t span, F& f) { diff(x, y, base, span, f); }
template <class T, class F> void diff(Node<T>* x, Node<T>* y, uint64_t base, uint64_t span, F& f) {
  if (x == y) return;
  for (int i = 0; i < 128; i++) { T* p = x ? x->k[i] : nullptr; T* q = y ? y->k[i] : nullptr; if (p != q) diffK(p, q, base + i * span, span / 128, f); }
}
struct Rec { uint64_t base; Page* x; Page* y; };
inline bool symAt(const Page* p, unsigned i) { return p->sym && p->sym[i].e; }
inline bool same(const Page* x, const Page* y, unsigned i) {
  bool sx = symAt(x, i), sy = symAt(y, i);
  if (sx != sy) return false;
  if (sx) return x->sym[i].e == y->sym[i].e && x->sym[i].off == y->sym[i].off;
  return x->data[i] == y->data[i];
}
inline bool live(const Page* p, unsigned i) { return p && p->isDef(i); }
}
bool mergeMem(Mem& a, const Mem& b, E g, bool force) {
  std::vector<Rec> ds;
  auto f = [&](Page* x, Page* y, uint64_t base) { ds.push_back({base, x, y}); };
  diff(a.root, b.root, MBASE, 256ull * 128 * 128, f);
  if (!force) for (auto& r : ds) {
    if (!r.x || !r.y) continue;
    for (unsigned o = 0; o < 256; o += 8) {
      bool ok = true; bool df = false; 
      for (unsigned i = o; i < o + 8 && ok; i++) { if (!live(r.x, i) || !live(r.y, i) || symAt(r.x, i) || symAt(r.y, i)) ok = false; else if (r.x->data[i] != r.y->data[i]) df = true; }
      if (!ok || !df) continue;
      uint64_t u, v; memcpy(&u, r.x->data + o, 8); memcpy(&v, r.y->data + o, 8);
      if (ptrLike(u) || ptrLike(v)) return false;
      if (r.base >= A_HEAP) { // headers of live heap blocks (size, tag) must agree
        if (u == 0x5ea1 || v == 0x5ea1) return false;
        if (o + 16 <= 256) { uint64_t tx, ty; memcpy(&tx, r.x->data + o + 8, 8); memcpy(&ty, r.y->data + o + 8, 8); if (tx == 0x5ea1 && ty == 0x5ea1) return false; }
      }
    }
  }
  std::vector<std::pair<uint64_t, uint64_t>> dummy;
  for (auto& r : ds) {
    if (!r.y) continue; // only in a: keep
    if (!r.x) { // only in b: take
      for (unsigned i = 0; i < 256; i++) {
        if (!r.y->isAlloc(i) && !r.y->isDef(i)) continue;
        Page* p = a.wr(r.base); if (r.y->isAlloc(i)) Page::setBit(p->alloc, i, true);
        a.putB(r.base + i, b.getB(r.base + i));
      }
      continue;
    }
    // hold a reference to the old page of a
    r.x->rc++;
    Page* X = r.x; Page* Y = r.y;
    for (unsigned i = 0; i < 256;) {
      bool lx = live(X, i), ly = live(Y, i);
      if (Y->isAlloc(i) && !X->isAlloc(i)) { Page* p = a.wr(r.base); Page::setBit(p->alloc, i, true); }
      if (!ly) { i++; continue; }
      if (!lx) { a.putB(r.base + i, b.getB(r.base + i)); i++; continue; }
      if (same(X, Y, i)) { i++; continue; }
      // choose unit
      auto unit = [&](Page* p, Page* q) -> unsigned {
        if (symAt(p, i)) {
          if (p->sym[i].off != 0) return 1;
          E e = p->sym[i].e; unsigned n = (e->w + 7) / 8, k = 1;
          while (k < n && i + k < 256 && live(p, i + k) && symAt(p, i + k) && p->sym[i + k].e == e && p->sym[i + k].off == 8 * k) k++;
          return k;
        }
        unsigned k = 1; while (k < 8 && i + k < 256 && live(p, i + k) && !symAt(p, i + k)) k++;
        (void)q; return k;
      };
      unsigned u = std::min(unit(X, Y), unit(Y, X));
      unsigned n = u >= 8 ? 8 : u >= 4 ? 4 : u >= 2 ? 2 : 1;
      while (n > 1 && i % n) n /= 2;
      Mem& ma = a; Mem& mb = const_cast<Mem&>(b);
      E ea = ma.loadE(r.base + i, n), eb = mb.loadE(r.base + i, n);
      a.storeE(r.base + i, n, mkIte(g, ea, eb));
      // alloc bits for the rest of the unit
      for (unsigned k = 1; k < n; k++) if (Y->isAlloc(i + k) && !X->isAlloc(i + k)) { Page* p = a.wr(r.base); Page::setBit(p->alloc, i + k, true); }
      i += n;
    }
    unref(X);
  }
  return true;
}
} // namespace sx
