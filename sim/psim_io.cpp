// In-memory disk behind fopen/read/write/lseek/fclose (the calls libstdc++'s file streams make), with injected faults.
#include "psim_int.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
#include <string.h>
#include <sys/uio.h>
namespace psim {
static int active = 0; static double rate = 0; static uint64_t counts[F_COUNT]; static uint64_t crashAt = ~0ull, writes = 0; static bool dead = false; static int streak = 0;
typedef std::map<std::string, std::string> Disk; static Disk* disk; static Disk* durable;
struct Open { std::string path; size_t pos; bool rd, wr, app; bool ghost; };
static std::map<int, Open>* files;
template <class T> static T next(const char* n) { return (T)dlsym(RTLD_NEXT, n); }
FILE* real_fopen(const char* p, const char* m) { static auto f = next<FILE* (*)(const char*, const char*)>("fopen"); return f(p, m); }
int real_fclose(FILE* x) { static auto f = next<int (*)(FILE*)>("fclose"); return f(x); }
struct Rt { bool s; Rt() : s(inRt) { inRt = true; } ~Rt() { inRt = s; } };
static void need() { if (!disk) { disk = new Disk; files = new std::map<int, Open>; } }
static bool inject(Fault f, uint64_t max = 0, uint64_t* p = nullptr) { if (rate <= 0) return false; if (f == F_EINTR && streak >= 3) { streak = 0; return false; } bool hit = sim().fault(f, rate, max, p); if (f == F_EINTR) streak = hit ? streak + 1 : 0; if (hit) counts[f]++; return hit; }   // interruptions come in short bursts
IoScope::IoScope(double p) { Rt r; need(); active++; rate = p; disk->clear(); files->clear(); memset(counts, 0, sizeof counts); crashAt = ~0ull; writes = 0; streak = 0; dead = false; delete durable; durable = nullptr; }
IoScope::~IoScope() { active--; rate = 0; }
void fs_put(const std::string& a, const std::string& b) { Rt r; need(); (*disk)[a] = b; }
bool fs_get(const std::string& a, std::string* b) { Rt r; need(); auto i = disk->find(a); if (i == disk->end()) return false; if (b) { inRt = r.s; *b = i->second; inRt = true; } return true; }
void fs_clear() { Rt r; need(); disk->clear(); }
std::vector<std::string> fs_list() { std::vector<std::string> v; for (auto& x : *disk) v.push_back(x.first); return v; }
void io_rate(double p) { rate = p; }
uint64_t io_count(Fault f) { return counts[f]; }
void io_crash_at(uint64_t k) { crashAt = k; writes = 0; }
bool io_crashed() { return dead; }
void fs_reboot() { Rt r; if (dead && durable) { *disk = *durable; delete durable; durable = nullptr; } files->clear(); dead = false; crashAt = ~0ull; }
int io_open_files() { return files ? (int)files->size() : 0; }
static FILE* sim_open(const char* path, const char* mode) {
  Rt r; need(); uint64_t q = 0;
  if (inject(F_OPEN, 3, &q)) { static const int e[] = {EACCES, EMFILE, EIO, ENOENT}; errno = e[q & 3]; return nullptr; }
  bool rd = mode[0] == 'r' || strchr(mode, '+'), wr = mode[0] != 'r' || strchr(mode, '+'); auto it = disk->find(path);
  if (mode[0] == 'r' && it == disk->end()) { errno = ENOENT; return nullptr; }
  if (mode[0] == 'w' || it == disk->end()) (*disk)[path] = "";
  FILE* f = real_fopen("/dev/null", wr ? "w" : "r"); if (!f) return nullptr;
  (*files)[fileno(f)] = Open{path, 0, rd, wr, mode[0] == 'a', false}; return f;
}
static ssize_t sim_read(Open& o, void* buf, size_t n) {
  Rt r; uint64_t q = 0; if (!o.rd) { errno = EBADF; return -1; }
  if (inject(F_EINTR)) { errno = EINTR; return -1; }
  if (inject(F_READ_EIO)) { errno = EIO; return -1; }
  const std::string& c = (*disk)[o.path]; size_t left = o.pos < c.size() ? c.size() - o.pos : 0; if (n > left) n = left;
  if (n > 1 && inject(F_SHORT_READ, n - 2, &q)) n = 1 + q;
  memcpy(buf, c.data() + o.pos, n); o.pos += n; return n;
}
static void put(Open& o, const char* b, size_t n) { std::string& c = (*disk)[o.path]; if (o.app) o.pos = c.size(); if (c.size() < o.pos + n) c.resize(o.pos + n); memcpy(&c[o.pos], b, n); o.pos += n; }
static ssize_t sim_write(Open& o, const char* buf, size_t n) {
  Rt r; uint64_t q = 0; if (!o.wr) { errno = EBADF; return -1; }
  if (inject(F_EINTR)) { errno = EINTR; return -1; }
  if (inject(F_WRITE_EIO)) { errno = EIO; return -1; }
  if (inject(F_ENOSPC, n ? n - 1 : 0, &q)) { if (q == 0 || n == 0) { errno = ENOSPC; return -1; } n = q; }
  else if (n > 1 && inject(F_SHORT_WRITE, n - 2, &q)) n = 1 + q;
  if (!dead && writes++ >= crashAt) { dead = true; Disk before = *disk; size_t p = o.pos; uint64_t t = 0; counts[F_CRASH]++; size_t torn = n ? (size_t)(mix(sim().seed, n + writes) % (n + 1)) : 0; put(o, buf, torn); durable = new Disk(*disk); *disk = before; o.pos = p; (void)t; }
  put(o, buf, n); return n;
}
static Open* find(int fd) { if (!active || !files || inRt) return nullptr; auto i = files->find(fd); return i == files->end() ? nullptr : &i->second; }
}
using namespace psim;
extern "C" {
FILE* fopen(const char* p, const char* m) { if (active && !inRt) return sim_open(p, m); return real_fopen(p, m); }
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int fclose(FILE* f) {
  if (active && !inRt && files) { int fd = fileno(f); auto i = files->find(fd); if (i != files->end()) { Rt r; files->erase(i); bool e = inject(F_CLOSE_ERR); real_fclose(f); if (e) { errno = EIO; return EOF; } return 0; } }
  return real_fclose(f);
}
ssize_t read(int fd, void* b, size_t n) { if (Open* o = find(fd)) return sim_read(*o, b, n); static auto f = next<ssize_t (*)(int, void*, size_t)>("read"); return f(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (Open* o = find(fd)) return sim_write(*o, (const char*)b, n); static auto f = next<ssize_t (*)(int, const void*, size_t)>("write"); return f(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int k) {
  if (Open* o = find(fd)) { std::string all; { Rt r; for (int i = 0; i < k; i++) all.append((const char*)v[i].iov_base, v[i].iov_len); ssize_t x; inRt = r.s; x = sim_write(*o, all.data(), all.size()); inRt = true; { std::string().swap(all); } return x; } }
  static auto f = next<ssize_t (*)(int, const struct iovec*, int)>("writev"); return f(fd, v, k);
}
off_t lseek(int fd, off_t off, int wh) {
  if (Open* o = find(fd)) { Rt r; size_t sz = (*disk)[o->path].size(); long long p = wh == SEEK_SET ? off : wh == SEEK_CUR ? (long long)o->pos + off : (long long)sz + off; if (p < 0) { errno = EINVAL; return -1; } o->pos = p; return p; }
  static auto f = next<off_t (*)(int, off_t, int)>("lseek"); return f(fd, off, wh);
}
off64_t lseek64(int fd, off64_t off, int wh) { return lseek(fd, off, wh); }
}
