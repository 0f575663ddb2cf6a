// Harness interface, shared by the symbolic run (engine natives) and the native replay (native.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
extern "C" {
uint64_t sx_var(const char * name, unsigned bits);                            // fresh value of `bits` bits, zero-extended
void sx_syms(void * p, size_t count, size_t elem_bytes, const char * name);   // fill memory with fresh values
void sx_assume(int c);
void sx_assert(int c, const char * id);
void sx_assert_all(int const * c, size_t n, const char * id);                    // all of them
void sx_cover(int c, const char * id);                                        // vacuity witness
void sx_observe(const char * name, uint64_t v);                               // compared with the native run of a witness
int64_t sx_param(const char * name, int64_t dflt);                            // configuration of this run
void sx_rng(void * gen, void * tag_cell, void * first_cell, const char * name);
uint64_t sx_concretize(uint64_t v);
void sx_pin(uint64_t v); // states that called it with different values stay apart
int sx_symbolic_run(void);
void sx_print(const char * name, uint64_t v);
void sx_main(void);
}
// some assignment has to make it true; unreachable counts as a violation (the replay searches real seeds: parameter probe)
static inline void sx_reach(int c, const char * id) { char b[200]; const char * m = "must: "; int n = 0; for (; *m; ++m) b[n++] = *m; for (; *id && n < 199; ++id) b[n++] = *id; b[n] = 0; sx_cover(c, b); }
static inline int sx_i32(const char * n) { return (int)(uint32_t)sx_var(n, 32); }
static inline int sx_bool(const char * n) { return (int)sx_var(n, 1); }
// value in [lo, hi]
static inline int sx_range(const char * n, int lo, int hi) { int v = (int)(uint32_t)sx_var(n, 32); sx_assume((v >= lo) & (v <= hi)); return v; }
// one of 0 .. k-1, each followed on its own
static inline int sx_pick(const char * n, int k) { int v = (int)sx_concretize((uint64_t)sx_range(n, 0, k - 1)); sx_pin((uint64_t)v); return v; }
static inline float sx_f32(const char * n) { uint32_t u = (uint32_t)sx_var(n, 32); float f; memcpy(&f, &u, 4); return f; }
// From now on the draws of this generator (or of a copy of it) are arbitrary values, recorded by name.
template<class G> static inline void sx_gen(G & g, const char * name) { g.index = 1; sx_rng(&g, g.MTp(), g.RESp() + 1, name); }
// The next K draws of this generator are K fixed arbitrary values (copies of the generator share them).
template<class G> static inline void sx_table(G & g, unsigned k, const char * name) { g.index = 1; sx_syms(g.RESp() + 1, k, 4, name); }
// the same for a generator of floats: arbitrary values in (0, 1]
template<class G> static inline void sx_ftable(G & g, unsigned k, const char * name) { sx_table(g, k, name); for (unsigned i = 1; i <= k; ++i) { uint32_t u; memcpy(&u, g.RESp() + i, 4); sx_assume((u >= 0x2F000000u) & (u <= 0x3F800000u)); } }
