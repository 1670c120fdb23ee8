#pragma once
#include "psim.hpp"
#include <cstdio>
namespace psim {
extern bool inRt;   // the simulator itself is running (its accesses and allocations are not part of the simulated program)
// heap (psim_heap.cpp)
extern uintptr_t heapLo, heapHi;
extern unsigned char* heapShadow;
void heap_bad(uintptr_t a, unsigned n, bool w);
static inline __attribute__((always_inline)) void heap_check(uintptr_t a, unsigned n, bool w) {
  if (a - heapLo >= heapHi - heapLo) return;
  size_t off = a - heapLo;
  unsigned char s = heapShadow[off >> 3];
  unsigned end = (unsigned)(off & 7) + (n < 8 ? n : 8);
  if (__builtin_expect(s != 0 && (s > 8 || end > s), 0)) { heap_bad(a, n, w); return; }
  if (n > 8) for (size_t o = off + 8; o < off + n; o += 8) { unsigned char t = heapShadow[o >> 3]; unsigned need = (unsigned)((off + n - (o & ~7ull)) < 8 ? (off + n - (o & ~7ull)) : 8); if (t != 0 && (t > 8 || need > t)) { heap_bad(a, n, w); return; } }
}
extern bool heapTrace;
void heap_verify();
void heap_seal_kokkos();
// io (psim_io.cpp or psim_noio.cpp)
FILE* real_fopen(const char* path, const char* mode);
int real_fclose(FILE* f);
}
