// Scheduling points at the runtime's atomic operations (linked with --wrap).
#include <stdbool.h>
#include <stdint.h>
#include "sim.h"
#define W(ret, name, params, args) \
  ret __real_##name params; \
  ret __wrap_##name params { sim_yield(); return __real_##name args; }
W(int, lf_atomic_fetch_add, (int* p, int v), (p, v))
W(int64_t, lf_atomic_fetch_add64, (int64_t* p, int64_t v), (p, v))
W(int, lf_atomic_add_fetch, (int* p, int v), (p, v))
W(int64_t, lf_atomic_add_fetch64, (int64_t* p, int64_t v), (p, v))
W(bool, lf_atomic_bool_compare_and_swap, (int* p, int o, int n), (p, o, n))
W(bool, lf_atomic_bool_compare_and_swap64, (int64_t* p, int64_t o, int64_t n), (p, o, n))
W(int, lf_atomic_val_compare_and_swap, (int* p, int o, int n), (p, o, n))
W(int64_t, lf_atomic_val_compare_and_swap64, (int64_t* p, int64_t o, int64_t n), (p, o, n))
// The runtime's clock may be ahead of the real one by some ns, because it never reads the same when threads race.
int __real_lf_clock_gettime(int64_t* now);
int __wrap_lf_clock_gettime(int64_t* now) {
  int r = __real_lf_clock_gettime(now);
  sim_clock_read(*now);
  return r;
}
