// Deterministic simulator: public interface used by the harnesses.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cmath>
#include <string>
#include <vector>
namespace psim {

inline uint64_t mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) { return mix(a ^ (mix(b) + 0x632BE59BD9B4E019ull)); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  bool chance(double p) { return uni() < p; }
  // a "number a user could pass": mostly moderate, sometimes exact small integers, tiny or large magnitudes, zeros
  double value() {
    switch (below(10)) {
      case 0: return (double)range(-4, 4);
      case 1: return 0.0;
      case 2: return uni(-1, 1) * std::pow(10.0, range(-6, 6));
      default: return uni(-2, 2);
    }
  }
  double smooth() { return uni(-2, 2); }
  double positive() { return uni(0.05, 2); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

enum Fault { F_ALLOC, F_OPEN, F_READ_EIO, F_SHORT_READ, F_EINTR, F_TORN_FILE, F_WRITE_EIO, F_ENOSPC, F_SHORT_WRITE,
             F_CLOSE_ERR, F_CRASH, F_RANK_DELAY, F_STALL, F_GEOM, F_DIRTY_MEM, F_APP, F_MPI_ERR, F_SOLVER_ERR, F_SOLVER_DIVERGE, F_SOLVER_FAIL, F_COUNT };
extern const char* const fault_name[F_COUNT];

struct Sim {
  uint64_t seed = 0;
  int episode = 0, stepIdx = -1;
  bool faulty = false;         // fault-injecting configuration?
  Rng w{1};                    // workload stream of the current episode (re-keyed by step())

  // Asks for the next workload step; false = the minimiser removed it. Re-keys `w`, so steps are independent.
  bool step(const char* label);
  // One fault opportunity; fires with probability p in search, exactly where listed in replay.
  bool fault(Fault f, double p, uint64_t maxParam = 0, uint64_t* param = nullptr);
  void cover(const std::string& key);                 // a behaviour class was exercised (counted, distinct)
  void hash(const void* p, size_t n);                 // folded into the run hash
  void hash(double v) { hash(&v, sizeof v); }
  void hash(uint64_t v) { hash(&v, sizeof v); }
  void hash(const std::string& s) { hash(s.data(), s.size()); }
  void simtime(double units);                         // simulated time covered
  void evaluated(uint64_t n = 1);                     // oracle evaluations
  // Property violated: `cls` is the class (stable across schedules), `detail` free text. Does not return.
  [[noreturn]] void fail(const std::string& cls, const std::string& detail);
  bool known(const char* key);   // is this specific defect listed as a known finding? (recorded; anything else must fail)
  void check(bool ok, const char* cls, const std::string& detail) { evaluated(); if (!ok) fail(cls, detail); }
};
Sim& sim();

// --- device scheduler -------------------------------------------------------------------------------------------------
struct SerialScope { SerialScope(); ~SerialScope(); int saved; };   // kernels inside run in plain order (reference runs)

// --- heap ---------------------------------------------------------------------------------------------------------------
struct HeapStat { uint64_t live, bytes, total; };
HeapStat heap_stat();
void heap_fail_at(uint64_t k);      // the k-th allocation from now (0-based) fails once
void heap_fail_from(uint64_t k);    // every allocation from the k-th on fails, until heap_disarm()
void heap_disarm();
void heap_emergency();               // from now on the heap is a bump allocator of its own (used while reporting a fatal signal)
bool heap_failed();                 // did the armed failure fire?
uint64_t heap_count();              // allocations since process start
void heap_poison(bool on, uint64_t key);  // fresh blocks come filled with garbage derived from key

// --- supplied by each harness ---------------------------------------------------------------------------------------------
struct HarnessInfo { const char* property; const char* components_real; const char* components_stub; };
extern const HarnessInfo harness;
void harness_init();                 // once per process
int harness_episodes(Rng& r);        // number of episodes of this run
void harness_episode(Sim& s);
}

// --- file I/O (psim_io.cpp) ----------------------------------------------------------------------------------------------
#include <map>
namespace psim {
// While an IoScope lives, every file the simulated program opens lives in an in-memory disk; open, read, write, seek and close are
// decided by the simulator (short, interrupted, failing and torn operations, full disk, crash) and never reach the real one.
struct IoScope { IoScope(double p = 0.0); ~IoScope(); };
void fs_put(const std::string& path, const std::string& content);
bool fs_get(const std::string& path, std::string* content);
void fs_clear();
std::vector<std::string> fs_list();
void io_rate(double p);                  // probability of each fault at each operation (0 = none)
uint64_t io_count(Fault f);              // faults of this kind injected since the scope began
void io_crash_at(uint64_t k);            // the process dies in its k-th write: later operations leave no trace on the disk
bool io_crashed();
void fs_reboot();                        // restart on the disk as the crash left it
int io_open_files();
}

// --- simulated processes and MPI (psim_rt.cpp, psim_mpi.cpp) -----------------------------------------------------------------
namespace psim {
void tasks_boot(int n);                                                      // n fresh processes (their globals as at program start)
bool run_tasks(int n, void (*fn)(void*, int), void* arg, std::string* stuck);   // false: some can never go on
int task_current(); uint64_t task_now();
void task_wait(bool (*ready)(void*), void* arg, uint64_t delay);
[[noreturn]] void task_die();
// A world of n ranks and further communicators over subsets of it; MPI calls of the current task act as that rank.
void mpi_world(int n);
void* mpi_group(const std::vector<int>& worldRanks);    // a communicator (an MPI_Comm) over these ranks, in this order
void mpi_rates(double delay, double error, double crash);
void mpi_unstarted(int worldRank); uint64_t mpi_calls();
bool mpi_dead(int worldRank); bool mpi_started(int worldRank); bool mpi_ended(int worldRank);
// the error the given rank met in the collective it entered last (0 = none); set when that collective returned an error to it
int mpi_last_error(int worldRank);
}
