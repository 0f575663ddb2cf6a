// A minimal OpenMP runtime over std::thread for native confirmation of races: ThreadSanitizer sees all of its synchronisation.
#include <cstdarg>
#include <cstdint>
#include <cstdlib>
#include <mutex>
#include <thread>
#include <vector>
#include <functional>
static thread_local int tid = 0, team = 1; static thread_local int want = 0; static std::recursive_mutex crit;
template<class T> static void sinit(int32_t * last, T * lo, T * hi, T * st, T inc) { // static schedule, contiguous blocks
  using U = std::make_unsigned_t<T>; U n = (U)(*hi - *lo) / (U)inc + 1; if (*hi < *lo) n = 0;
  U q = n / team, r = n % team, b = tid * q + ((U)tid < r ? tid : r), k = q + ((U)tid < r ? 1 : 0); T l = *lo;
  *lo = l + (T)(b * inc); *hi = *lo + (T)(k * inc) - inc; *st = inc; *last = k && b + k == n; if (!k) { *lo = 1; *hi = 0; } }
extern "C" {
int32_t __kmpc_global_thread_num(void *) { return tid; }
void __kmpc_push_num_threads(void *, int32_t, int32_t n) { want = n; }
void __kmpc_fork_call(void *, int32_t argc, void (* fn)(int32_t *, int32_t *, ...), ...) {
  void * a[16] = {}; va_list ap; va_start(ap, fn); for (int i = 0; i < argc && i < 16; ++i) a[i] = va_arg(ap, void *); va_end(ap);
  int n = want > 0 ? want : 4; want = 0;
  auto body = [&](int t) { int ot = tid, om = team; tid = t; team = n; int32_t g = t, b = t; fn(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]); tid = ot; team = om; };
  std::vector<std::thread> v; for (int t = 1; t < n; ++t) v.emplace_back(body, t); body(0); for (auto & t : v) t.join(); }
void __kmpc_serialized_parallel(void *, int32_t) {} void __kmpc_end_serialized_parallel(void *, int32_t) {}
void __kmpc_for_static_init_4(void *, int32_t, int32_t, int32_t * l, int32_t * a, int32_t * b, int32_t * s, int32_t i, int32_t) { sinit<int32_t>(l, a, b, s, i); }
void __kmpc_for_static_init_4u(void *, int32_t, int32_t, int32_t * l, int32_t * a, int32_t * b, int32_t * s, int32_t i, int32_t) { sinit<int32_t>(l, a, b, s, i); }
void __kmpc_for_static_init_8(void *, int32_t, int32_t, int32_t * l, int64_t * a, int64_t * b, int64_t * s, int64_t i, int64_t) { sinit<int64_t>(l, a, b, s, i); }
void __kmpc_for_static_init_8u(void *, int32_t, int32_t, int32_t * l, int64_t * a, int64_t * b, int64_t * s, int64_t i, int64_t) { sinit<int64_t>(l, a, b, s, i); }
void __kmpc_for_static_fini(void *, int32_t) {}
void __kmpc_critical(void *, int32_t, void *) { crit.lock(); } void __kmpc_end_critical(void *, int32_t, void *) { crit.unlock(); }
int32_t __kmpc_reduce_nowait(void *, int32_t, int32_t, size_t, void *, void *, void *) { crit.lock(); return 1; } void __kmpc_end_reduce_nowait(void *, int32_t, void *) { crit.unlock(); }
int omp_get_thread_num(void) { return tid; } int omp_get_num_threads(void) { return team; } int omp_get_max_threads(void) { return 4; } int omp_get_num_procs(void) { return 4; } void omp_set_num_threads(int n) { want = n; } int omp_in_parallel(void) { return team > 1; }
}
