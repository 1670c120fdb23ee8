// Checking heap of the simulator: every allocation of the process comes from one arena with red zones and a shadow map,
// so that the tsan seam can tell valid from invalid addresses; allocation failures are injected here.
#include "psim_int.hpp"
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdio>
#include <new>
#include <unistd.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <link.h>
namespace psim {
uintptr_t heapLo = 0, heapHi = 0;
unsigned char* heapShadow = nullptr;
static const size_t ARENA = 3ull << 30;
static size_t bump = 0;
struct Hdr { uint32_t magic, cls; uint64_t size; Hdr* next; uint64_t base; };   // 32 bytes, right before the user block
static const uint32_t MAGIC = 0xA110C8ED, FREED = 0xF2EED0FF;
struct ClassList { Hdr* head; Hdr* tail; uint32_t n; };
static ClassList cls[256];
static uint64_t nTotal, nLive, nBytes;
static uint64_t failAt = ~0ull; static bool failPersist = false, failFired = false;
static bool poison = false; static uint64_t poisonKey = 0, poisonSeq = 0;
static volatile int lk = 0;
bool heapTrace = false;
static uint32_t classOf(size_t n, size_t* cap) {           // class capacities: 16-byte steps to 512, then ~12% geometric
  if (n <= 512) { uint32_t c = (uint32_t)((n + 15) / 16); if (!c) c = 1; *cap = c * 16; return c; }
  uint32_t c = 32; size_t s = 512;
  while (s < n) { s = (s + s / 4 + 15) & ~size_t(15); c++; }
  *cap = s; return c;
}
static void init() {
  void* m = mmap((void*)0x600000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void* s = mmap((void*)0x5f0000000000ull, ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED || s == MAP_FAILED) { write(2, "psim: no arena\n", 15); _exit(3); }
  heapShadow = (unsigned char*)s; heapLo = (uintptr_t)m; heapHi = heapLo + ARENA;
}
static const size_t RZ = 48;
static void mark(uintptr_t user, size_t n) {
  size_t o = user - heapLo; memset(heapShadow + (o >> 3), 0, n >> 3); if (n & 7) heapShadow[(o + n) >> 3] = (unsigned char)(n & 7);
}
static void unmark(uintptr_t user, size_t n) { size_t o = user - heapLo; memset(heapShadow + (o >> 3), 0xFF, (n + 7) >> 3); }
// after a fatal signal (possibly inside this allocator) the report is made with a heap of its own
static char emergMem[96 << 20]; static size_t emergTop = 0; static volatile int emerg = 0;
void heap_emergency() { emerg = 1; lk = 0; }
static void* alloc(size_t n, size_t align) {
  if (emerg) { size_t a = align < 16 ? 16 : align, o = (emergTop + a - 1) & ~(a - 1); if (o + n > sizeof emergMem) _exit(11); emergTop = o + n; return emergMem + o; }
  while (__sync_lock_test_and_set(&lk, 1)) {}
  if (!heapLo) init();
  if (failAt != ~0ull && !inRt) {
    if (failAt == 0) { failFired = true; if (heapTrace) { void* bt[24]; lk = 0; uint64_t keep = failAt; failAt = ~0ull; int n = backtrace(bt, 24); backtrace_symbols_fd(bt, n, 2); failAt = keep; lk = 1; } if (!failPersist) failAt = ~0ull; lk = 0; errno = ENOMEM; return nullptr; }
    failAt--;
  }
  size_t need = n + RZ + 32 + (align > 16 ? align : 0), cap;
  if (need < n || need > ARENA / 2) { lk = 0; errno = ENOMEM; return nullptr; }
  uint32_t c = classOf(need, &cap);
  uintptr_t base;
  ClassList& l = cls[c];
  if (l.n > (cap < 65536 ? 24u : 2u)) { Hdr* h = l.head; l.head = h->next; if (!l.head) l.tail = nullptr; l.n--; base = h->base; }
  else {
    if (bump + cap > ARENA) {
      if (l.n) { Hdr* h = l.head; l.head = h->next; if (!l.head) l.tail = nullptr; l.n--; base = h->base; goto have; }
      lk = 0; errno = ENOMEM; return nullptr;
    }
    base = heapLo + bump; bump += cap;
    memset(heapShadow + ((base - heapLo) >> 3), 0xFF, cap >> 3);
  }
have:
  uintptr_t u = base + 32;
  if (align > 16) u = (u + align - 1) & ~(align - 1);
  Hdr* h = (Hdr*)(u - 32);
  h->magic = MAGIC; h->cls = c; h->size = n; h->next = nullptr; h->base = base;
  memset((void*)(u + n), 0xCB, RZ);
  mark(u, n);
  if (poison && !inRt) {
    uint64_t k = mix(poisonKey, ++poisonSeq);
    switch (k & 3) {
      case 0: memset((void*)u, 0xFF, n); break;
      case 1: memset((void*)u, 0x41, n); break;
      case 2: { uint64_t v = k; unsigned char* p = (unsigned char*)u; for (size_t i = 0; i < n; i++) { v = v * 6364136223846793005ull + 1442695040888963407ull; p[i] = (unsigned char)(v >> 56); } break; }
      default: memset((void*)u, 0x7F, n);
    }
  }
  nTotal++; nLive++; nBytes += n;
  lk = 0;
  return (void*)u;
}
static void corrupt(Hdr* h, const char* how) {
  char b[160]; snprintf(b, sizeof b, "%s at heap block of %llu bytes", how, (unsigned long long)h->size);
  lk = 0;
  sim().fail("memory", b);
}
static void dealloc(void* p) {
  if (!p || emerg) return;
  uintptr_t u = (uintptr_t)p;
  if (u - heapLo >= heapHi - heapLo) return;               // not ours (early loader allocation)
  while (__sync_lock_test_and_set(&lk, 1)) {}
  Hdr* h = (Hdr*)(u - 32);
  if (h->magic == FREED) corrupt(h, "double free");
  if (h->magic != MAGIC) corrupt(h, "free of a corrupted block (header overwritten)");
  unsigned char* r = (unsigned char*)u + h->size;
  for (size_t i = 0; i < RZ; i++) if (r[i] != 0xCB) corrupt(h, "write past the end");
  h->magic = FREED; nLive--; nBytes -= h->size;
  unmark(u, h->size);
  memset((void*)u, 0xDD, h->size);
  ClassList& l = cls[h->cls];
  h->next = nullptr; if (l.tail) l.tail->next = h; else l.head = h; l.tail = h; l.n++;
  lk = 0;
}
static uintptr_t kLo = 0, kHi = 0; static int kState = 0;
static int findKokkos(struct dl_phdr_info* i, size_t, void*) {
  if (!i->dlpi_name || !strstr(i->dlpi_name, "kokkoscore")) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) { kLo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; kHi = kLo + i->dlpi_phdr[k].p_memsz; }
  return 0;
}
void heap_seal_kokkos() { dl_iterate_phdr(findKokkos, nullptr); kState = 1; }
static inline bool fromKokkos(uintptr_t pc) { return kState && pc - kLo < kHi - kLo; }
static void seal(uintptr_t a, size_t n) { memset(heapShadow + ((a - heapLo) >> 3), 0xFF, n >> 3); }
void heap_bad(uintptr_t a, unsigned n, bool w) {
  char b[256]; 
  // locate a neighbouring block for the report
  snprintf(b, sizeof b, "%s of %u bytes outside any live array", w ? "write" : "read", n);
  for (uintptr_t q = a & ~15ull; q > heapLo + 32 && a - q < 4096; q -= 16) {
    Hdr* h = (Hdr*)(q - 32);
    if (h->magic == MAGIC || h->magic == FREED) {
      snprintf(b, sizeof b, "%s of %u bytes at offset %lld of a%s array of %llu bytes", w ? "write" : "read", n, (long long)(a - q), h->magic == FREED ? " released" : "n", (unsigned long long)h->size); break;
    }
  }
  if (heapTrace) { void* bt[40]; int k = backtrace(bt, 40); backtrace_symbols_fd(bt, k, 2); }
  sim().fail("memory", b);
}
void heap_verify() {}
HeapStat heap_stat() { return {nLive, nBytes, nTotal}; }
void heap_fail_at(uint64_t k) { failPersist = false; failFired = false; failAt = k; }
void heap_fail_from(uint64_t k) { failPersist = true; failFired = false; failAt = k; }
void heap_disarm() { failAt = ~0ull; }
bool heap_failed() { return failFired; }
uint64_t heap_count() { return nTotal; }
void heap_poison(bool on, uint64_t key) { poison = on; poisonKey = key; poisonSeq = 0; }
}
extern "C" {
void* malloc(size_t n) {
  // Kokkos over-allocates (size + 8 + 64) and aligns by hand: place the block so that its slack is 8 bytes, and seal those
  if (n > 72 && n % 8 == 0 && psim::fromKokkos((uintptr_t)__builtin_return_address(0))) {
    void* p = psim::alloc(n, 64); if (p) psim::seal((uintptr_t)p + n - 8, 8); return p;
  }
  return psim::alloc(n, 16);
}
void free(void* p) { psim::dealloc(p); }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void* p = psim::alloc(n, 16); if (p) memset(p, 0, n); return p; }
void* realloc(void* p, size_t n) {
  if (!p) return psim::alloc(n, 16);
  if (!n) { psim::dealloc(p); return nullptr; }
  uintptr_t u = (uintptr_t)p; if (u - psim::heapLo >= psim::heapHi - psim::heapLo) return nullptr;
  size_t old = ((psim::Hdr*)(u - 32))->size; void* q = psim::alloc(n, 16); if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n); psim::dealloc(p); return q;
}
void* memalign(size_t al, size_t n) { return psim::alloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return psim::alloc(n, al); }
int posix_memalign(void** out, size_t al, size_t n) { void* p = psim::alloc(n, al); if (!p) return ENOMEM; *out = p; return 0; }
void* valloc(size_t n) { return psim::alloc(n, 4096); }
void* pvalloc(size_t n) { return psim::alloc((n + 4095) & ~4095ull, 4096); }
size_t malloc_usable_size(void* p) { return p ? ((psim::Hdr*)((uintptr_t)p - 32))->size : 0; }
}
