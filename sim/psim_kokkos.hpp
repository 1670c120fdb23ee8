// Device seam: the parallel patterns of the (shadow) Kokkos_Serial.hpp hand their work items to the simulator through
// these calls. Included by the generated Kokkos_Serial.hpp only.
#pragma once
#include <typeinfo>
#include <cstring>
#include <cstddef>
namespace psim {
// Runs items [begin,end) of one kernel launch under the simulated device scheduler.
void launch_for(const char* name, long begin, long end, void (*body)(const void*, long), const void* ctx, size_t ctxSize);
// Reduction: `partials` = number of simulated workers, buffers are created by init() and combined by join().
struct ReduceOps {
  size_t bytes;
  void (*init)(const void* ctx, void* partial);
  void (*body)(const void* ctx, long i, void* partial);
  void (*join)(const void* ctx, void* dst, const void* src);
};
void launch_reduce(const char* name, long begin, long end, const ReduceOps& ops, const void* ctx, size_t ctxSize, void* result);
// Library (KokkosKernels, Kokkos itself) kernels keep the serial loop: only the repository's own kernels and the
// harness's kernels are scheduled.
template <class F> inline bool wants() {
  static const bool w = std::strstr(typeid(F).name(), "Plato") != nullptr || std::strstr(typeid(F).name(), "psim") != nullptr;
  return w;
}
bool active();
}
