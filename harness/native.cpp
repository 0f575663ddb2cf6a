// Native replay runtime: the harness is compiled with the real code and driven by the values recorded by the solver.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <deque>
#include <string>
#include <vector>
#include <iostream>
static std::deque<std::pair<std::string, uint64_t>> syms; // program order
static std::map<std::string, std::vector<uint64_t>> draws;
static std::deque<std::pair<std::string, uint64_t>> obs;
static std::map<std::string, int64_t> prm;
static int failed = 0, mismatched = 0, assumeBroken = 0;
static void finish() {
  for (size_t i = 0; i < obs.size(); i++) {}
  printf("RESULT asserts_failed=%d obs_mismatch=%d assume_failed=%d\n", failed, mismatched, assumeBroken); fflush(stdout);
  _Exit(failed ? 10 : assumeBroken ? 12 : mismatched ? 11 : 0);
}
static uint64_t pop(const std::string & n) {
  while (!syms.empty() && (syms.front().first.rfind("math:", 0) == 0 || syms.front().first.rfind("env:", 0) == 0)) syms.pop_front();
  if (syms.empty()) return 0; // beyond the recorded execution
  if (syms.front().first != n) { printf("DESYNC wanted %s have %s\n", n.c_str(), syms.front().first.c_str()); fflush(stdout); _Exit(13); }
  uint64_t v = syms.front().second; syms.pop_front(); return v;
}
extern "C" {
uint64_t sx_var(const char * n, unsigned bits) { uint64_t v = pop(n); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
void sx_syms(void * p, size_t c, size_t e, const char * n) { for (size_t i = 0; i < c; i++) { uint64_t v = pop(n); memcpy((char *)p + i * e, &v, e); } }
void sx_assume(int c) { if (!c) { assumeBroken++; printf("ASSUME-FAILED\n"); finish(); } }
void sx_assert(int c, const char * id) { if (!c) { failed++; printf("ASSERT-FAILED %s\n", id); fflush(stdout); } }
void sx_assert_all(int const * c, size_t n, const char * id) { for (size_t i = 0; i < n; i++) if (!c[i]) { failed++; printf("ASSERT-FAILED %s [%zu]\n", id, i); fflush(stdout); } }
void sx_cover(int c, const char * id) { if (c) printf("COVER %s\n", id); }
void sx_observe(const char * n, uint64_t v) {
  if (obs.empty()) return;
  auto o = obs.front(); obs.pop_front();
  if (o.first != n || o.second != v) { mismatched++; if (mismatched < 6) printf("OBS-MISMATCH %s native=%llu solver(%s)=%llu\n", n, (unsigned long long)v, o.first.c_str(), (unsigned long long)o.second); }
}
int64_t sx_param(const char * n, int64_t d) { auto i = prm.find(n); return i == prm.end() ? d : i->second; }
void sx_rng(void *, void *, void * cell, const char * n) { auto & v = draws[n]; for (size_t i = 0; i < v.size() && i < 4980; i++) { uint32_t u = v[i]; memcpy((char *)cell + 4 * i, &u, 4); } }
uint64_t sx_concretize(uint64_t v) { return v; }
void sx_pin(uint64_t) {}
int sx_symbolic_run(void) { return 0; }
void sx_print(const char * n, uint64_t v) { printf("%s = %lld\n", n, (long long)v); }
}
int main(int argc, char ** argv) {
  std::ifstream f(argv[1]); std::string l;
  while (std::getline(f, l)) {
    size_t p = l.find(' '); if (p == std::string::npos) continue;
    size_t q = l.rfind(' '); std::string k = l.substr(0, p), n = q > p ? l.substr(p + 1, q - p - 1) : l.substr(p + 1); std::string vs = l.substr(q + 1);
    if (k == "sym") syms.push_back({n, strtoull(vs.c_str(), nullptr, 0)});
    else if (k == "draw") draws[n].push_back(strtoull(vs.c_str(), nullptr, 0));
    else if (k == "obs") obs.push_back({n, strtoull(vs.c_str(), nullptr, 0)});
    else if (k == "param") prm[n] = strtoll(vs.c_str(), nullptr, 0);
  }
  std::set_terminate([] { printf("TERMINATE\n"); fflush(stdout); _Exit(14); });
  try { sx_main(); } catch (...) { printf("EXCEPTION\n"); fflush(stdout); _Exit(14); }
  finish();
}
