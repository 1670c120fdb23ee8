#include <iostream>
// Runtime of the simulator: fibers, seeded device scheduler, tsan-callback seam, checking heap, run driver, minimiser.
// Compiled WITHOUT -fsanitize=thread; the code under test is compiled with it and linked against the __tsan_* below.
#include "psim.hpp"
#include "psim_kokkos.hpp"
#include "psim_int.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <map>
#include <set>
#include <algorithm>
#include <new>
#include <exception>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <cxxabi.h>

namespace psim {
const char* const fault_name[F_COUNT] = {"alloc_failure", "open_failure", "read_eio", "short_read", "eintr", "torn_file",
  "write_eio", "disk_full", "short_write", "close_error", "crash", "rank_delay", "stalled_worker", "component_failure", "dirty_memory", "app_fault", "mpi_error", "solver_error", "solver_divergence", "solver_failure"};

// ---------------------------------------------------------------- shared statistics (parent <-> child)
struct Shared {
  uint64_t runs, episodes, steps, evals, launches, launchesInterleaved, accesses, switches, conflicts;
  double simtime;
  uint64_t faults[F_COUNT], faultOpp[F_COUNT];
  uint64_t policies[16];
  // distinct hashed interleavings / behaviours
  static const size_t TAB = 1u << 21;
  uint64_t nInter, nCover;
  uint64_t inter[TAB];
  uint64_t cover[TAB / 8];
  char samples[64][160]; uint64_t nSamples;
  char known[16][64]; int nKnown;
  // outcome of the last child
  int failed; uint64_t runHash; uint64_t failSeed;
  char cls[256]; char detail[4096];
  uint64_t lastSteps;
};
static Shared* sh;
static bool tabInsert(uint64_t* t, size_t n, uint64_t k) {
  if (!k) k = 1;
  size_t i = k & (n - 1);
  for (size_t p = 0; p < 64; p++, i = (i + 1) & (n - 1)) {
    if (t[i] == k) return false;
    if (!t[i]) { t[i] = k; return true; }
  }
  return false;
}

// ---------------------------------------------------------------- run state
struct Preempt { int e, s, l; uint64_t step; int next; };
struct FaultRec { int e, s, kind; uint64_t idx, param; };
struct Plan {
  bool explicitMode = false;
  bool faulty = false;
  uint64_t seed = 0;
  std::vector<int> episodes;                     // empty = all
  std::set<std::pair<int, int>> offSteps;
  std::vector<Preempt> pre;
  std::vector<FaultRec> faults;
};
static Plan plan;
static std::vector<Preempt>* recPre;
static std::vector<FaultRec>* recFault;
static std::string* stepLog;
static uint64_t runHash;
static int launchInStep;
static uint64_t faultIdx[F_COUNT];
static Rng faultRng(1);
static double swarm[F_COUNT];
static bool g_active = false;
static int g_serial = 0;
static Sim g_sim;
static const char* failOut = nullptr;      // replay file to write on failure
static bool inChild = false;
static bool verbose = false;
Sim& sim() { return g_sim; }
bool active() { return g_active && !g_serial; }
SerialScope::SerialScope() { saved = g_serial; g_serial = 1; }
SerialScope::~SerialScope() { g_serial = saved; }

static void writeReplay(const char* path, const Plan& p, const std::string& cls, const std::string& detail, uint64_t h);

void Sim::hash(const void* p, size_t n) {
  const unsigned char* c = (const unsigned char*)p;
  uint64_t h = runHash;
  while (n >= 8) { uint64_t v; memcpy(&v, c, 8); h = (h ^ v) * 0x9FB21C651E98DF25ull; h ^= h >> 29; c += 8; n -= 8; }
  for (size_t i = 0; i < n; i++) { h = (h ^ c[i]) * 1099511628211ull; }
  runHash = h ^ (h >> 32);
}
void Sim::simtime(double u) { sh->simtime += u; }
void Sim::evaluated(uint64_t n) { sh->evals += n; }
void Sim::cover(const std::string& key) {
  uint64_t h = 1469598103934665603ull;
  for (char c : key) h = (h ^ (unsigned char)c) * 1099511628211ull;
  h = mix(h);
  if (tabInsert(sh->cover, Shared::TAB / 8, h)) {
    sh->nCover++;
    if (sh->nSamples < 64) { snprintf(sh->samples[sh->nSamples], 160, "%s", key.c_str()); sh->nSamples++; }
  }
}
bool Sim::known(const char* key) {
  const char* l = getenv("PSIM_KNOWN"); if (!l) return false;
  std::string all = std::string(",") + l + ","; if (all.find(std::string(",") + key + ",") == std::string::npos) return false;
  for (int i = 0; i < sh->nKnown; i++) if (!strcmp(sh->known[i], key)) return true;
  if (sh->nKnown < 16) snprintf(sh->known[sh->nKnown++], 64, "%s", key);
  return true;
}
bool Sim::step(const char* label) {
  ++stepIdx; launchInStep = 0;
  for (auto& f : faultIdx) f = 0;
  w = Rng(mix(mix(seed, 0x5745), mix((uint64_t)episode, (uint64_t)stepIdx)));
  faultRng = Rng(mix(mix(seed, 0x4641), mix((uint64_t)episode, (uint64_t)stepIdx)));
  if (plan.offSteps.count({episode, stepIdx})) return false;
  sh->steps++;
  if (verbose) fprintf(stderr, "[psim] episode %d step %d: %s\n", episode, stepIdx, label);
  return true;
}
bool Sim::fault(Fault f, double p, uint64_t maxParam, uint64_t* param) {
  uint64_t idx = faultIdx[f]++;
  uint64_t val = 0; bool hit = false;
  if (faulty) {
    if (plan.explicitMode) {
      for (auto& r : plan.faults) if (r.e == episode && r.s == stepIdx && r.kind == f && r.idx == idx) { hit = true; val = r.param; }
    } else {
      double u = faultRng.uni(); uint64_t v = faultRng.next();
      if (u < p * swarm[f]) { hit = true; val = maxParam ? v % (maxParam + 1) : 0; }
    }
  }
  sh->faultOpp[f]++;
  if (hit) {
    sh->faults[f]++;
    recFault->push_back({episode, stepIdx, (int)f, idx, val});
    if (verbose) fprintf(stderr, "[psim]   fault %s #%llu param %llu\n", fault_name[f], (unsigned long long)idx, (unsigned long long)val);
    if (param) *param = val;
  }
  return hit;
}
void Sim::fail(const std::string& cls, const std::string& detail) {
  g_active = false;
  heap_disarm();
  snprintf(sh->cls, sizeof sh->cls, "%s", cls.c_str());
  snprintf(sh->detail, sizeof sh->detail, "%s", detail.c_str());
  sh->failed = 1; sh->failSeed = seed;
  hash(cls); hash(detail);
  sh->runHash = runHash;
  if (failOut) {
    Plan p = plan; p.explicitMode = true; p.seed = seed; p.faulty = faulty;
    if (p.episodes.empty()) for (int e = 0; e <= episode; e++) p.episodes.push_back(e);
    p.pre = *recPre; p.faults = *recFault;
    writeReplay(failOut, p, cls, detail, runHash);
  }
  if (!inChild) printf("FAILED class=%s hash=%016llx\n  %s\n", cls.c_str(), (unsigned long long)runHash, detail.c_str());
  fflush(stdout);
  _exit(10);
}

// ---------------------------------------------------------------- fibers
extern "C" void psim_switch(void** saveSp, void* newSp);
asm(R"(
.text
.globl psim_switch
.type psim_switch,@function
psim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size psim_switch,.-psim_switch
)");
extern "C" void* __cxa_get_globals();
static const size_t STACK = 512 * 1024;
struct EhState { void* a; unsigned b; };
struct Fiber { char* stack = nullptr; void* sp = nullptr; bool done = true; void (*fn)(void*) = nullptr; void* arg = nullptr; EhState eh{}; };
static std::vector<Fiber*>* fiberPool;
static Fiber mainFiber;
static Fiber* curFiber = &mainFiber;
bool inRt = false;      // guard: runtime code may itself call instrumented template instances
static uintptr_t stkLo = 0, stkHi = 0;     // current fiber's stack (0,0 on main)
static void switchTo(Fiber* f) {
  Fiber* from = curFiber;
  EhState* g = (EhState*)__cxa_get_globals();
  from->eh = *g; *g = f->eh;
  curFiber = f;
  if (f == &mainFiber) stkLo = stkHi = 0; else { stkLo = (uintptr_t)f->stack; stkHi = stkLo + STACK; }
  bool rt = inRt; inRt = false;
  psim_switch(&from->sp, f->sp);
  inRt = rt;
}
static Fiber* fiberBack = &mainFiber;
extern "C" void psim_fiber_main() {
  Fiber* f = curFiber;
  f->fn(f->arg);
  f->done = true;
  switchTo(fiberBack);
  abort();
}
Fiber* fiber_get(size_t i) {
  while (fiberPool->size() <= i) {
    Fiber* f = new Fiber;
    char* m = (char*)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); _exit(3); }
    mprotect(m, 4096, PROT_NONE);
    f->stack = m + 4096;
    fiberPool->push_back(f);
  }
  return (*fiberPool)[i];
}
static void fiber_start(Fiber* f, void (*fn)(void*), void* arg) {
  f->fn = fn; f->arg = arg; f->done = false; f->eh = EhState{};
  uint64_t* sp = (uint64_t*)(f->stack + STACK);
  *--sp = 0;
  *--sp = (uint64_t)&psim_fiber_main;   // return address (stack is 16-aligned + 8 at entry)
  for (int i = 0; i < 6; i++) *--sp = 0;
  --sp; uint32_t csr; uint16_t cw; asm volatile("stmxcsr %0" : "=m"(csr)); asm volatile("fnstcw %0" : "=m"(cw));
  ((uint32_t*)sp)[0] = csr; ((uint32_t*)sp)[1] = cw;
  f->sp = sp;
}

// ---------------------------------------------------------------- device scheduler
enum Policy { P_SERIAL, P_PERM, P_UNIFORM, P_LOCKSTEP, P_STALL, P_HOT, P_PCT, P_BURST };
struct AccessRec { uintptr_t addr; uint64_t epoch; const void* pc; int worker; bool wrote; bool multi; };
static const size_t AT = 1u << 15;
static AccessRec* acc; static uint64_t accEpoch = 0; static size_t accUsed = 0;
static const size_t HOTN = 1024;
static const void** hotPc; static size_t hotCount;
static bool isHot(const void* pc) { size_t i = mix((uintptr_t)pc) & (HOTN - 1); for (int k = 0; k < 8; k++) { if (hotPc[(i + k) & (HOTN - 1)] == pc) return true; } return false; }
static void addHot(const void* pc) {
  if (isHot(pc)) return; size_t i = mix((uintptr_t)pc) & (HOTN - 1);
  for (int k = 0; k < 8; k++) if (!hotPc[(i + k) & (HOTN - 1)]) { hotPc[(i + k) & (HOTN - 1)] = pc; hotCount++; return; }
}

struct Worker { Fiber* f; std::vector<long> items; size_t at; bool done; void* partial; uint64_t acc; int prio; bool stalled; };
struct Launch {
  long begin, end; int W; Policy pol; Rng rng{1};
  void (*body)(const void*, long) = nullptr; const ReduceOps* red = nullptr; const void* ctx = nullptr; uintptr_t ctxLo, ctxHi;
  std::vector<Worker> wk; int cur = 0; uint64_t step = 0; int key_s, key_l;
  bool dynamic = false; std::vector<long> queue; size_t qAt = 0;
  double p = 0; int stallWorker = -1; uint64_t stallAt = 0; std::vector<uint64_t> pctPoints; int pctNext = 0;
  std::vector<Preempt>::const_iterator ex, exEnd; std::vector<Preempt> exList;
  uint64_t ih = 1469598103934665603ull; int live = 0; uint64_t burstLeft = 0;
  bool threw = false, stallCounted = false; std::exception_ptr ep;
};
static Launch* L = nullptr;
static uint64_t runAccesses = 0;

static int pickNext(Launch& l, bool forced) {   // a runnable worker other than (if !forced) the current one
  int n = (int)l.wk.size();
  if (l.pol == P_LOCKSTEP) { for (int k = 1; k <= n; k++) { int i = (l.cur + k) % n; if (!l.wk[i].done) return i; } return l.cur; }
  if (l.pol == P_PCT) { int best = -1; for (int i = 0; i < n; i++) if (!l.wk[i].done && (best < 0 || l.wk[i].prio > l.wk[best].prio)) best = i; return best; }
  std::vector<int> c;
  for (int i = 0; i < n; i++) if (!l.wk[i].done && !l.wk[i].stalled) c.push_back(i);
  if (c.empty()) for (int i = 0; i < n; i++) if (!l.wk[i].done) { l.wk[i].stalled = false; c.push_back(i); }
  return c[l.rng.below(c.size())];
}
static void record(Launch& l, int next) {
  l.ih = (l.ih ^ (l.step * 1315423911u + next)) * 1099511628211ull;
  if (recPre->size() < 400000) recPre->push_back({g_sim.episode, l.key_s, l.key_l, l.step, next});
  sh->switches++;
}
static void yieldTo(Launch& l, int next) {
  if (next == l.cur || next < 0) return;
  record(l, next);
  l.cur = next;
  Fiber* f = l.wk[next].f;
  switchTo(f);
}
static void schedPoint(uintptr_t a, unsigned sz, bool w, const void* pc) {
  Launch& l = *L;
  Worker& me = l.wk[l.cur];
  l.step++; me.acc++; runAccesses++;
  if (l.step > 200000000ull) { g_sim.fail("no-progress", "kernel launch exceeded 200M shared accesses"); }
  bool hot = false;
  if (l.live > 1) {
    size_t i = mix(a >> 2) & (AT - 1); AccessRec* r = nullptr;
    for (int k = 0; k < 16; k++) {
      AccessRec& c = acc[(i + k) & (AT - 1)];
      if (c.epoch != accEpoch) { c.addr = a; c.epoch = accEpoch; c.worker = l.cur; c.wrote = w; c.multi = false; c.pc = pc; r = nullptr; break; }
      if (c.addr == a) { r = &c; break; }
    }
    if (r) {
      if ((r->worker != l.cur || r->multi) && (w || r->wrote)) { addHot(pc); addHot(r->pc); sh->conflicts++; }
      if (r->worker != l.cur) { r->multi = true; r->worker = l.cur; }
      r->wrote |= w; r->pc = pc;
    }
    hot = isHot(pc);
  }
  if (plan.explicitMode) {
    while (l.ex != l.exEnd && l.ex->step < l.step) ++l.ex;
    if (l.ex != l.exEnd && l.ex->step == l.step) {
      int nx = l.ex->next; ++l.ex;
      if (nx >= 0 && nx < (int)l.wk.size() && !l.wk[nx].done) yieldTo(l, nx);
    }
    return;
  }
  switch (l.pol) {
    case P_UNIFORM: if (l.rng.chance(l.p)) yieldTo(l, pickNext(l, false)); break;
    case P_LOCKSTEP: yieldTo(l, pickNext(l, false)); break;
    case P_STALL:
      if (l.cur == l.stallWorker && !me.stalled && me.acc >= l.stallAt) { me.stalled = true; if (!l.stallCounted) { l.stallCounted = true; sh->faults[F_STALL]++; sh->faultOpp[F_STALL]++; } yieldTo(l, pickNext(l, false)); }
      else if (l.rng.chance(l.p)) yieldTo(l, pickNext(l, false));
      break;
    case P_HOT: if (l.rng.chance(hot ? 0.5 : l.p)) yieldTo(l, pickNext(l, false)); break;
    case P_PCT:
      if (l.pctNext < (int)l.pctPoints.size() && l.step >= l.pctPoints[l.pctNext]) { me.prio = -1 - l.pctNext; l.pctNext++; }
      yieldTo(l, pickNext(l, false)); break;
    case P_BURST: if (l.burstLeft) { l.burstLeft--; yieldTo(l, pickNext(l, false)); } else if (l.rng.chance(l.p)) l.burstLeft = l.rng.below(40); break;
    default: break;
  }
}
static void workerMain(void* a) {
  Worker* me = (Worker*)a; Launch& l = *L;
  for (;;) {
    long it;
    if (l.dynamic) { if (l.qAt >= l.queue.size()) break; it = l.queue[l.qAt++]; }
    else { if (me->at >= me->items.size()) break; it = me->items[me->at++]; }
    try { if (l.red) l.red->body(l.ctx, it, me->partial); else l.body(l.ctx, it); }
    catch (...) { if (!l.threw) { l.threw = true; l.ep = std::current_exception(); } }
  }
  me->done = true; l.live--;
  // choose a successor; completion is a scheduling step of its own
  inRt = true;
  l.step++;
  if (l.live > 0) {
    int next = -1;
    if (plan.explicitMode) {
      while (l.ex != l.exEnd && l.ex->step < l.step) ++l.ex;
      if (l.ex != l.exEnd && l.ex->step == l.step) { int c = l.ex->next; ++l.ex; if (c >= 0 && c < (int)l.wk.size() && !l.wk[c].done) next = c; }
      if (next < 0) for (int i = 0; i < (int)l.wk.size(); i++) if (!l.wk[i].done) { next = i; break; }
    } else next = pickNext(l, true);
    record(l, next);
    l.cur = next;
    curFiber->done = true;
    switchTo(l.wk[next].f);
  }
  inRt = false;
}
static void configure(Launch& l, const char* name) {
  struct RtScope { bool k; RtScope() : k(inRt) { inRt = true; } ~RtScope() { inRt = k; } } rtScope;
  long n = l.end - l.begin;
  l.key_s = g_sim.stepIdx; l.key_l = launchInStep++;
  l.rng = Rng(mix(mix(g_sim.seed, 0x4C41), mix((uint64_t)g_sim.episode * 100003 + (uint64_t)g_sim.stepIdx, (uint64_t)l.key_l)));
  static const int Ws[] = {1, 2, 2, 3, 4, 5, 8, 16, 32, 64};
  int W = Ws[l.rng.below(10)];
  if (l.rng.chance(0.3)) W = 64;
  if (W > n) W = (int)n;
  if (W < 1) W = 1;
  l.W = W;
  Rng runr(mix(g_sim.seed, 0x504F));
  // swarm: each run favours one or two policies
  Policy fav = (Policy)(1 + runr.below(7));
  l.pol = l.rng.chance(0.4) ? fav : (Policy)(l.rng.below(8));
  if (n > 4000 && l.pol != P_SERIAL) l.pol = l.rng.chance(0.7) ? P_PERM : P_UNIFORM;
  static const double ps[] = {0.001, 0.01, 0.05, 0.2, 0.5};
  l.p = ps[l.rng.below(5)];
  if (l.pol == P_STALL) l.p = l.rng.chance(0.5) ? 0 : 0.05;
  if (l.pol == P_HOT) l.p = 0.01;
  l.dynamic = l.rng.chance(0.3);
  // item order
  std::vector<long> items; items.reserve(n);
  for (long i = l.begin; i < l.end; i++) items.push_back(i);
  int ord = (l.pol == P_SERIAL) ? 0 : (int)l.rng.below(4);
  if (ord == 1) std::reverse(items.begin(), items.end());
  if (ord >= 2) for (long i = n - 1; i > 0; i--) std::swap(items[i], items[l.rng.below(i + 1)]);
  l.wk.resize(W);
  for (int i = 0; i < W; i++) { Worker& k = l.wk[i]; k.at = 0; k.done = false; k.partial = nullptr; k.acc = 0; k.prio = (int)l.rng.below(1000000); k.stalled = false; }
  if (l.dynamic) l.queue = items;
  else {
    bool cyclic = l.rng.chance(0.4);
    for (long i = 0; i < n; i++) l.wk[cyclic ? i % W : (i * W) / n].items.push_back(items[i]);
  }
  l.stallWorker = (int)l.rng.below(W); l.stallAt = 1 + l.rng.below(l.rng.chance(0.5) ? 12 : 200);
  int d = 1 + (int)l.rng.below(4);
  for (int i = 0; i < d; i++) l.pctPoints.push_back(1 + l.rng.below(20 + n * 16));
  std::sort(l.pctPoints.begin(), l.pctPoints.end());
  if (plan.explicitMode) {
    for (auto& p : plan.pre) if (p.e == g_sim.episode && p.s == l.key_s && p.l == l.key_l) l.exList.push_back(p);
    l.ex = l.exList.begin(); l.exEnd = l.exList.end();
  }
  sh->launches++; sh->policies[l.pol]++;
  l.ih = mix(mix(W, ord), mix(l.dynamic, n));
  for (const char* c = name; *c; c++) l.ih = (l.ih ^ (unsigned char)*c) * 1099511628211ull;
}
static void runLaunch(Launch& l) {
  accEpoch++;
  l.live = (int)l.wk.size();
  if (l.wk.size() > 1 && (l.pol > P_PERM || plan.explicitMode)) {
    sh->launchesInterleaved++;
    for (size_t i = 0; i < l.wk.size(); i++) { l.wk[i].f = fiber_get(i); fiber_start(l.wk[i].f, workerMain, &l.wk[i]); }
    int first = 0;
    if (!plan.explicitMode) { first = (int)l.rng.below(l.wk.size()); }
    else { for (auto it = l.exList.begin(); it != l.exList.end(); ++it) if (it->step == 0) { first = it->next; break; } l.ex = l.exList.begin(); while (l.ex != l.exEnd && l.ex->step == 0) ++l.ex; if (first < 0 || first >= (int)l.wk.size()) first = 0; }
    l.cur = first; l.step = 0; record(l, first);
    Launch* saved = L; L = &l;
    // run until every worker is done; a finished worker hands over itself, the last one returns here
    Fiber* back = fiberBack; Fiber* self = curFiber; fiberBack = self;
    switchTo(l.wk[l.cur].f);
    fiberBack = back;
    L = saved;
  } else {
    // no preemption: plain loops in the seeded order, worker by worker
    Launch* saved = L; L = nullptr;
    Launch* keep = L; (void)keep;
    for (size_t i = 0; i < l.wk.size(); i++) {
      Worker& k = l.wk[i];
      auto& v = l.dynamic ? l.queue : k.items;
      if (l.dynamic && i) break;
      for (long it : v) { if (l.red) l.red->body(l.ctx, it, k.partial); else l.body(l.ctx, it); }
    }
    L = saved;
  }
  sh->accesses += l.step;
  if (tabInsert(sh->inter, Shared::TAB, mix(l.ih))) sh->nInter++;
  if (l.threw) std::rethrow_exception(l.ep);
}
void launch_for(const char* name, long b, long e, void (*body)(const void*, long), const void* ctx, size_t ctxSize) {
  if (e <= b) return;
  if (L || curFiber != &mainFiber) { for (long i = b; i < e; i++) body(ctx, i); return; }   // nested launch: in place
  Launch l; l.begin = b; l.end = e; l.body = body; l.ctx = ctx; l.ctxLo = (uintptr_t)ctx; l.ctxHi = l.ctxLo + ctxSize;
  configure(l, name);
  runLaunch(l);
}
void launch_reduce(const char* name, long b, long e, const ReduceOps& ops, const void* ctx, size_t ctxSize, void* result) {
  if (e <= b || L || curFiber != &mainFiber) { ops.init(ctx, result); for (long i = b; i < e; i++) ops.body(ctx, i, result); return; }
  Launch l; l.begin = b; l.end = e; l.red = &ops; l.ctx = ctx; l.ctxLo = (uintptr_t)ctx; l.ctxHi = l.ctxLo + ctxSize;
  configure(l, name);
  inRt = true;
  std::vector<std::vector<unsigned char>> part(l.wk.size(), std::vector<unsigned char>(ops.bytes + 16, 0));
  inRt = false;
  for (size_t i = 0; i < l.wk.size(); i++) { l.wk[i].partial = part[i].data(); ops.init(ctx, l.wk[i].partial); }
  runLaunch(l);
  // combine the partial results in a seeded pairing order
  inRt = true;
  std::vector<void*> q; for (auto& p : part) q.push_back(p.data());
  inRt = false;
  while (q.size() > 1) {
    size_t a = 0, c = 1;
    if (l.pol != P_SERIAL) { a = l.rng.below(q.size()); c = l.rng.below(q.size() - 1); if (c >= a) c++; }
    ops.join(ctx, q[a], q[c]); q.erase(q.begin() + c);
  }
  ops.init(ctx, result);
  ops.join(ctx, result, q[0]);
}

// ---------------------------------------------------------------- cooperative tasks: simulated processes (MPI ranks)
// Each task runs until it waits; the seeded scheduler then picks any task that can go on. Every pick that is not the default (stay, else
// the lowest-numbered) is recorded and replayed. The writable globals of the code under test (sections rankdata/rankbss of the objects
// listed under "ranked") are per process: they are swapped with the task.
extern "C" char __start_rankdata[] __attribute__((weak)); extern "C" char __stop_rankdata[] __attribute__((weak));
extern "C" char __start_rankbss[] __attribute__((weak)); extern "C" char __stop_rankbss[] __attribute__((weak));
struct Task { Fiber* f; int id; bool done, dead; bool (*ready)(void*); void* arg; uint64_t until; };
struct TaskRun { std::vector<Task> t; int cur; uint64_t step; void (*fn)(void*, int); void* arg; Rng rng{1}; };
static TaskRun* TR = nullptr;
static std::vector<std::vector<char>>* images; static std::vector<char>* image0;
static size_t dlen() { return __start_rankdata ? __stop_rankdata - __start_rankdata : 0; }
static size_t blen() { return __start_rankbss ? __stop_rankbss - __start_rankbss : 0; }
static void imageSave(std::vector<char>& v) { v.resize(dlen() + blen()); if (dlen()) memcpy(v.data(), __start_rankdata, dlen()); if (blen()) memcpy(v.data() + dlen(), __start_rankbss, blen()); }
static void imageLoad(const std::vector<char>& v) { if (dlen()) memcpy(__start_rankdata, v.data(), dlen()); if (blen()) memcpy(__start_rankbss, v.data() + dlen(), blen()); }
void tasks_boot(int n) { bool k = inRt; inRt = true; if (!image0) { image0 = new std::vector<char>; images = new std::vector<std::vector<char>>; imageSave(*image0); } images->assign(n, *image0); inRt = k; }
static void taskMain(void* a) { Task* t = (Task*)a; TaskRun* r = TR; r->fn(r->arg, t->id); inRt = true; t->done = true; t->f->done = true; inRt = false; }
int task_current() { return TR ? TR->cur : -1; }
uint64_t task_now() { return TR ? TR->step : 0; }
void task_wait(bool (*ready)(void*), void* arg, uint64_t delay) { Task& t = TR->t[TR->cur]; t.ready = ready; t.arg = arg; t.until = TR->step + delay; switchTo(&mainFiber); }
void task_die() { TR->t[TR->cur].dead = true; switchTo(&mainFiber); abort(); }
bool run_tasks(int n, void (*fn)(void*, int), void* arg, std::string* stuck) {
  struct RtScope { bool k; RtScope() : k(inRt) { inRt = true; } ~RtScope() { inRt = k; } } rtScope;
  TaskRun r; r.fn = fn; r.arg = arg; r.cur = 0; r.step = 0; int key_s = g_sim.stepIdx, key_l = launchInStep++;
  r.rng = Rng(mix(mix(g_sim.seed, 0x7A5C), mix((uint64_t)g_sim.episode * 100003 + (uint64_t)key_s, (uint64_t)key_l)));
  r.t.resize(n); for (int i = 0; i < n; i++) { Task& t = r.t[i]; t.f = fiber_get(i); t.id = i; t.done = t.dead = false; t.ready = nullptr; t.arg = nullptr; t.until = 0; fiber_start(t.f, taskMain, &t); }
  TR = &r; uint64_t ih = mix(n, 77); int mode = (int)r.rng.below(4), slow = (int)r.rng.below(n); sh->launches++; if (n > 1) sh->launchesInterleaved++;
  std::vector<char> home; imageSave(home); bool ok = true;
  for (;;) {
    std::vector<int> c; bool waiting = false, live = false; for (int i = 0; i < n; i++) { Task& t = r.t[i]; if (t.done || t.dead) continue; live = true; if (t.ready && !t.ready(t.arg)) continue; if (t.until > r.step) { waiting = true; continue; } c.push_back(i); }
    if (!live) break; r.step++; if (c.empty()) { if (waiting) continue; ok = false; if (stuck) { *stuck = ""; for (int i = 0; i < n; i++) if (!r.t[i].done && !r.t[i].dead) *stuck += " " + std::to_string(i); } break; }
    if (r.step > 2000000) g_sim.fail("no-progress", "simulated processes exceeded 2M scheduling steps");
    int dflt = c[0]; for (int i : c) if (i == r.cur) dflt = i; int next = dflt;
    if (plan.explicitMode) { for (auto& p : plan.pre) if (p.e == g_sim.episode && p.s == key_s && p.l == key_l && p.step == r.step) for (int i : c) if (i == p.next) next = i; }
    else { switch (mode) { case 0: next = c[r.rng.below(c.size())]; break; case 1: next = c.back(); break; case 2: { std::vector<int> q; for (int i : c) if (i != slow) q.push_back(i); next = q.empty() ? slow : q[r.rng.below(q.size())]; break; } default: if (r.rng.chance(0.3)) next = c[r.rng.below(c.size())]; } }
    if (next != dflt) { recPre->push_back({g_sim.episode, key_s, key_l, r.step, next}); sh->switches++; }
    ih = (ih ^ (uint64_t)(next + 1)) * 1099511628211ull; r.cur = next; Task& t = r.t[next]; t.ready = nullptr;
    if (images && (size_t)next < images->size()) imageLoad((*images)[next]); Fiber* back = fiberBack; fiberBack = &mainFiber; switchTo(t.f); fiberBack = back; if (images && (size_t)next < images->size()) imageSave((*images)[next]);
  }
  imageLoad(home); TR = nullptr; if (tabInsert(sh->inter, Shared::TAB, mix(ih))) sh->nInter++; return ok;
}

// ---------------------------------------------------------------- tsan seam
static inline __attribute__((always_inline)) void onAccess(uintptr_t a, unsigned sz, bool w, const void* pc) {
  if (__builtin_expect(inRt, 0)) return;
  heap_check(a, sz, w);
  if (!L) return;
  if (a - stkLo < stkHi - stkLo) return;
  if (a - L->ctxLo < L->ctxHi - L->ctxLo && !w) return;
  inRt = true;                 // switchTo() clears it while another fiber runs
  schedPoint(a, sz, w, pc);
  inRt = false;
}
}  // namespace psim

using psim::onAccess;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void* a) { onAccess((uintptr_t)a, N, false, PC); } \
  void __tsan_write##N(void* a) { onAccess((uintptr_t)a, N, true, PC); } \
  void __tsan_unaligned_read##N(void* a) { onAccess((uintptr_t)a, N, false, PC); } \
  void __tsan_unaligned_write##N(void* a) { onAccess((uintptr_t)a, N, true, PC); } \
  void __tsan_volatile_read##N(void* a) { onAccess((uintptr_t)a, N, false, PC); } \
  void __tsan_volatile_write##N(void* a) { onAccess((uintptr_t)a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { if (n) onAccess((uintptr_t)a, (unsigned)n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { if (n) onAccess((uintptr_t)a, (unsigned)n, true, PC); }
void __tsan_vptr_update(void** a, void*) { onAccess((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void** a) { onAccess((uintptr_t)a, 8, false, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT_(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int) { onAccess((uintptr_t)a, sizeof(T), false, PC); return *a; } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) { onAccess((uintptr_t)a, sizeof(T), true, PC); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { onAccess((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { onAccess((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { onAccess((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { onAccess((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { onAccess((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { onAccess((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { onAccess((uintptr_t)a, sizeof(T), true, PC); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { onAccess((uintptr_t)a, sizeof(T), true, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { onAccess((uintptr_t)a, sizeof(T), true, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { onAccess((uintptr_t)a, sizeof(T), true, PC); T o = *a; if (o == c) *a = v; return o; }
AT_(8, uint8_t) AT_(16, uint16_t) AT_(32, uint32_t) AT_(64, uint64_t) AT_(128, __uint128_t)
}

// ---------------------------------------------------------------- driver
namespace psim {
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static void writeReplay(const char* path, const Plan& p, const std::string& cls, const std::string& detail, uint64_t h) {
  std::string tmp = std::string(path) + ".tmp";
  FILE* f = real_fopen(tmp.c_str(), "w");
  if (!f) { perror(path); _exit(3); }
  fprintf(f, "psim-replay 1\nproperty %s\nseed %llu\nfaulty %d\nepisodes", harness.property, (unsigned long long)p.seed, (int)p.faulty);
  for (int e : p.episodes) fprintf(f, " %d", e);
  fprintf(f, "\n");
  for (auto& o : p.offSteps) fprintf(f, "offstep %d %d\n", o.first, o.second);
  for (auto& x : p.faults) fprintf(f, "fault %d %d %s %llu %llu\n", x.e, x.s, fault_name[x.kind], (unsigned long long)x.idx, (unsigned long long)x.param);
  for (auto& x : p.pre) fprintf(f, "switch %d %d %d %llu %d\n", x.e, x.s, x.l, (unsigned long long)x.step, x.next);
  std::string d = detail; for (char& c : d) if (c == '\n') c = ' ';
  fprintf(f, "class %s\ndetail %s\nhash %016llx\n", cls.c_str(), d.c_str(), (unsigned long long)h);
  real_fclose(f);
  rename(tmp.c_str(), path);
}
static bool readReplay(const char* path, Plan& p, std::string& cls, std::string& detail, uint64_t& h) {
  FILE* f = real_fopen(path, "r");
  if (!f) return false;
  char* line = nullptr; size_t cap = 0; ssize_t n;
  std::string prop;
  while ((n = getline(&line, &cap, f)) > 0) {
    if (line[n - 1] == '\n') line[n - 1] = 0;
    unsigned long long a, b; int e, s, l, nx; char nm[64]; int off = 0;
    if (sscanf(line, "property %63s", nm) == 1) prop = nm;
    else if (sscanf(line, "seed %llu", &a) == 1) p.seed = a;
    else if (sscanf(line, "faulty %d", &e) == 1) p.faulty = e;
    else if (!strncmp(line, "episodes", 8)) { char* c = line + 8; while (sscanf(c, "%d%n", &e, &off) == 1) { p.episodes.push_back(e); c += off; } }
    else if (sscanf(line, "offstep %d %d", &e, &s) == 2) p.offSteps.insert({e, s});
    else if (sscanf(line, "fault %d %d %63s %llu %llu", &e, &s, nm, &a, &b) == 5) { for (int k = 0; k < F_COUNT; k++) if (!strcmp(nm, fault_name[k])) p.faults.push_back({e, s, k, a, b}); }
    else if (sscanf(line, "switch %d %d %d %llu %d", &e, &s, &l, &a, &nx) == 5) p.pre.push_back({e, s, l, a, nx});
    else if (!strncmp(line, "class ", 6)) cls = line + 6;
    else if (!strncmp(line, "detail ", 7)) detail = line + 7;
    else if (sscanf(line, "hash %llx", &a) == 1) h = a;
  }
  free(line); real_fclose(f);
  p.explicitMode = true;
  return prop == harness.property;
}

static void oneRun(const Plan& p) {
  plan = p;
  recPre->clear(); recFault->clear();
  runHash = mix(p.seed, 77);
  hotCount = 0; memset(hotPc, 0, HOTN * sizeof *hotPc);
  g_sim = Sim(); g_sim.seed = p.seed; g_sim.faulty = p.faulty;
  Rng cfg(mix(p.seed, 0x434647));
  for (int i = 0; i < F_COUNT; i++) { double u = cfg.uni(); swarm[i] = u < 0.35 ? 0.0 : (u < 0.7 ? 1.0 : 2.5); }
  Rng er(mix(p.seed, 0x4550));
  int E = harness_episodes(er);
  sh->runs++;
  g_active = true;
  for (int e = 0; e < E; e++) {
    if (!p.episodes.empty() && std::find(p.episodes.begin(), p.episodes.end(), e) == p.episodes.end()) continue;
    g_sim.episode = e; g_sim.stepIdx = -1; launchInStep = 0;
    for (auto& f : faultIdx) f = 0;
    g_sim.w = Rng(mix(mix(p.seed, 0x5745), (uint64_t)e));
    faultRng = Rng(mix(mix(p.seed, 0x4641), (uint64_t)e));
    sh->episodes++;
    harness_episode(g_sim);
    heap_disarm();
    heap_verify();
  }
  g_active = false;
  sh->runHash = runHash;
}

static const char* g_curOut;
// fork a child that performs one run; returns 0 ok, 10 violation, other = crash/timeout (converted to a violation by us)
static int childRun(const Plan& p, const char* out, int timeout) {
  sh->failed = 0; sh->cls[0] = sh->detail[0] = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(3); }
  if (!pid) {
    inChild = true; failOut = out;
    if (!verbose) { int nul = ::open("/dev/null", O_WRONLY); if (nul >= 0) { dup2(nul, 1); close(nul); } }   // the system's own console output
    struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = timeout; setitimer(ITIMER_PROF, &tv, nullptr);   // processor time: a loaded machine is not a hang
    alarm(5 * timeout);
    oneRun(p);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st)) return WEXITSTATUS(st);
  int sig = WTERMSIG(st);                                   // it ended before it could report
  bool hang = sig == SIGALRM || sig == SIGPROF; sh->failed = 1; sh->failSeed = p.seed; sh->runHash = p.seed;
  snprintf(sh->cls, sizeof sh->cls, "%s", hang ? "hang" : "crash"); snprintf(sh->detail, sizeof sh->detail, "simulated run ended by signal %d", sig);
  if (out) writeReplay(out, p, sh->cls, sh->detail, sh->runHash);
  return 10;
}
// crash handler in the child: turns a fatal signal into a recorded violation with its trace
static void onSignal(int sig) {
  signal(sig, SIG_DFL);
  heap_emergency(); g_active = false;
  bool hang = sig == SIGALRM || sig == SIGPROF; if (hang) { signal(SIGALRM, SIG_DFL); alarm(10); runHash = g_sim.seed; }
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : hang ? "timeout (no progress)" : sig == SIGILL ? "SIGILL" : "SIGBUS";
  g_sim.fail(hang ? "hang" : "crash", std::string("simulated run ended by ") + n);
}

static void usage() { fprintf(stderr, "usage: --search --from A --count N --out STATS --fail FILE [--faulty 0|1|2] [--time T] | --replay FILE | --minimise IN OUT [--time T] | --one SEED | --hashes A N\n"); exit(2); }
extern "C" void psim_kokkos_init(int, char**);

static void statsOut(const char* path, double wall) {
  FILE* f = real_fopen(path, "w"); if (!f) { perror(path); exit(3); }
  fprintf(f, "{\"runs\":%llu,\"episodes\":%llu,\"steps\":%llu,\"evals\":%llu,\"launches\":%llu,\"launches_interleaved\":%llu,\"accesses\":%llu,\"switches\":%llu,\"conflicts\":%llu,\"simtime\":%.17g,\"interleavings\":%llu,\"behaviours\":%llu,\"wall\":%.3f,\"faults\":{",
    (unsigned long long)sh->runs, (unsigned long long)sh->episodes, (unsigned long long)sh->steps, (unsigned long long)sh->evals, (unsigned long long)sh->launches, (unsigned long long)sh->launchesInterleaved,
    (unsigned long long)sh->accesses, (unsigned long long)sh->switches, (unsigned long long)sh->conflicts, sh->simtime, (unsigned long long)sh->nInter, (unsigned long long)sh->nCover, wall);
  bool first = true;
  for (int i = 0; i < F_COUNT; i++) if (sh->faultOpp[i] || sh->faults[i]) { fprintf(f, "%s\"%s\":[%llu,%llu]", first ? "" : ",", fault_name[i], (unsigned long long)sh->faults[i], (unsigned long long)sh->faultOpp[i]); first = false; }
  fprintf(f, "},\"policies\":[");
  for (int i = 0; i < 8; i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)sh->policies[i]);
  fprintf(f, "],\"samples\":[");
  for (uint64_t i = 0; i < sh->nSamples; i++) {
    std::string s = sh->samples[i], o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; }
    fprintf(f, "%s\"%s\"", i ? "," : "", o.c_str());
  }
  fprintf(f, "],\"known\":[");
  for (int i = 0; i < sh->nKnown; i++) fprintf(f, "%s\"%s\"", i ? "," : "", sh->known[i]);
  fprintf(f, "],\"cover\":[");
  first = true;
  for (size_t i = 0; i < Shared::TAB / 8; i++) if (sh->cover[i]) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)sh->cover[i]); first = false; }
  fprintf(f, "]}\n");
  real_fclose(f);
}

template <class V, class Test> static V ddmin(V v, Test test, double deadline) {
  // classic ddmin on a vector
  size_t n = 2;
  if (!v.empty() && test(V())) return V();
  while (v.size() >= 2 && now() < deadline) {
    size_t chunk = (v.size() + n - 1) / n; bool reduced = false;
    for (size_t i = 0; i < v.size() && now() < deadline; i += chunk) {
      V c(v.begin(), v.begin() + i); c.insert(c.end(), v.begin() + std::min(v.size(), i + chunk), v.end());
      if (test(c)) { v = c; n = std::max<size_t>(n - 1, 2); reduced = true; break; }
    }
    if (!reduced) { if (n >= v.size()) break; n = std::min(v.size(), n * 2); }
  }
  return v;
}

int driver_main(int argc, char** argv) {
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  acc = (AccessRec*)mmap(nullptr, AT * sizeof(AccessRec), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  hotPc = (const void**)mmap(nullptr, HOTN * sizeof(void*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  recPre = new std::vector<Preempt>; recFault = new std::vector<FaultRec>; fiberPool = new std::vector<Fiber*>;
  recPre->reserve(400001); recFault->reserve(4096);
  std::string mode; uint64_t from = 0, count = 0; std::string out, fail, in; double limit = 1e9; int faulty = 2; 
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() -> const char* { if (i + 1 >= argc) usage(); return argv[++i]; };
    if (a == "--search" || a == "--coverage") mode = a;
    else if (a == "--replay") { mode = a; in = nx(); }
    else if (a == "--minimise") { mode = a; in = nx(); out = nx(); }
    else if (a == "--one") { mode = a; from = strtoull(nx(), 0, 10); }
    else if (a == "--hashes") { mode = a; from = strtoull(nx(), 0, 10); count = strtoull(nx(), 0, 10); }
    else if (a == "--from") from = strtoull(nx(), 0, 10);
    else if (a == "--count") count = strtoull(nx(), 0, 10);
    else if (a == "--out") out = nx();
    else if (a == "--fail") fail = nx();
    else if (a == "--time") limit = atof(nx());
    else if (a == "--faulty") faulty = atoi(nx());
    else if (a == "--verbose") { verbose = true; heapTrace = true; }
    else usage();
  }
  static char altstack[65536];
  stack_t ss; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM, SIGPROF}) sigaction(s, &sa, nullptr);
  heap_seal_kokkos();
  fiber_get(79);
  harness_init();
  // warm-up: one fixed run, so that lazily created library state exists before every simulated run
  {
    int nul = ::open("/dev/null", O_WRONLY);
    (void)nul;
    Plan p; p.seed = 0xA11CE; p.faulty = false;
    inChild = false;
    // The warm-up runs in a child first: a violation there is found again by the search (same code), and must not end us.
    int rc = childRun(p, nullptr, 120);
    if (rc == 0) oneRun(p);
    memset(sh, 0, sizeof *sh);
  }
  auto pick = [&](uint64_t seed) { return faulty == 2 ? (int)(mix(seed, 0xFA) & 1) : faulty; };
  if (mode == "--search") {
    double t0 = now();
    for (uint64_t s = from; s < from + count && now() - t0 < limit; s++) {
      Plan p; p.seed = s; p.faulty = pick(s);
      int rc = childRun(p, fail.c_str(), 80);
      if (rc != 0) {
        if (rc != 10) { fprintf(stderr, "run of seed %llu ended with status %d without a report\n", (unsigned long long)s, rc); exit(4); }
        printf("FAIL seed=%llu class=%s detail=%s hash=%016llx\n", (unsigned long long)s, sh->cls, sh->detail, (unsigned long long)sh->runHash);
        statsOut(out.c_str(), now() - t0);
        return 10;
      }
    }
    statsOut(out.c_str(), now() - t0);
    return 0;
  }
  if (mode == "--hashes") {
    for (uint64_t s = from; s < from + count; s++) {
      Plan p; p.seed = s; p.faulty = pick(s);
      int rc = childRun(p, nullptr, 120);
      printf("%llu %d %016llx\n", (unsigned long long)s, rc, (unsigned long long)sh->runHash);
    }
    return 0;
  }
  if (mode == "--one") {
    Plan p; p.seed = from; p.faulty = pick(from);
    if (!fail.empty()) failOut = fail.c_str();
    alarm(300);
    oneRun(p);
    printf("OK hash=%016llx\n", (unsigned long long)sh->runHash);
    return 0;
  }
  if (mode == "--replay") {
    Plan p; std::string c, d; uint64_t h = 0;
    if (!readReplay(in.c_str(), p, c, d, h)) { fprintf(stderr, "bad replay file (or of another property): %s\n", in.c_str()); return 3; }
    int rc = childRun(p, nullptr, 80);
    if (rc == 10) {
      printf("REPLAY class=%s hash=%016llx detail=%s\n", sh->cls, (unsigned long long)sh->runHash, sh->detail);
      if (c == sh->cls && h == sh->runHash) { printf("REPRODUCED exactly\n"); return 10; }
      printf("DIFFERENT: file says class=%s hash=%016llx\n", c.c_str(), (unsigned long long)h); return 11;
    }
    printf("REPLAY found no violation (status %d)\n", rc);
    return 0;
  }
  if (mode == "--minimise") {
    Plan p; std::string c, d; uint64_t h = 0;
    if (!readReplay(in.c_str(), p, c, d, h)) { fprintf(stderr, "bad replay file: %s\n", in.c_str()); return 3; }
    double dl = now() + (limit > 1e8 ? 60 : limit);
    uint64_t tries = 0;
    auto fails = [&](const Plan& q) { tries++; int rc = childRun(q, nullptr, 80); return rc == 10 && c == sh->cls; };
    if (!fails(p)) { printf("minimise: input does not reproduce\n"); return 11; }
    { Plan q = p; q.pre.clear(); if (fails(q)) p = q; }
    { Plan q = p; q.faults.clear(); if (!p.faults.empty() && fails(q)) p = q; }
    p.episodes = ddmin(p.episodes, [&](const std::vector<int>& v) { if (v.empty()) return false; Plan q = p; q.episodes = v; return fails(q); }, dl);
    { // steps
      fails(p);
      std::vector<std::pair<int,int>> on;
      // discover the executed steps by trying: up to 400 per episode
      for (int e : p.episodes) for (int s = 0; s < 400; s++) on.push_back({e, s});
      auto rest = ddmin(on, [&](const std::vector<std::pair<int,int>>& v) { Plan q = p; std::set<std::pair<int,int>> keep(v.begin(), v.end()); q.offSteps.clear(); for (auto& x : on) if (!keep.count(x)) q.offSteps.insert(x); return fails(q); }, std::min(dl, now() + 15));
      std::set<std::pair<int,int>> keep(rest.begin(), rest.end()); Plan q = p; q.offSteps.clear();
      for (auto& x : on) if (!keep.count(x)) q.offSteps.insert(x);
      if (fails(q)) p = q;
    }
    p.faults = ddmin(p.faults, [&](const std::vector<FaultRec>& v) { Plan q = p; q.faults = v; return fails(q); }, dl);
    p.pre = ddmin(p.pre, [&](const std::vector<Preempt>& v) { Plan q = p; q.pre = v; return fails(q); }, dl);
    if (!fails(p)) { printf("minimise: lost the violation\n"); return 11; }
    writeReplay(out.c_str(), p, sh->cls, sh->detail, sh->runHash);
    printf("minimised after %llu replays: %zu switches, %zu faults\n", (unsigned long long)tries, p.pre.size(), p.faults.size());
    return 10;
  }
  usage();
  return 2;
}
}
#include <sys/personality.h>
int main(int argc, char** argv) {
  // fixed address space layout: a wild access of a broken build then behaves the same on every run
  int p = personality(0xffffffff);
  if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && !getenv("PSIM_REEXEC") && personality(p | ADDR_NO_RANDOMIZE) != -1) {
    setenv("PSIM_REEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  // what the code under test prints is not part of the verdict: std::cout goes to a null buffer (the driver itself uses stdio)
  static struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } } nb;
  std::cout.rdbuf(&nb);
  return psim::driver_main(argc, argv);
}
