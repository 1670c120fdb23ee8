// Simulated MPI: defines the MPI entry points the code under test and Trilinos use, so that every rank is a task of the simulator in
// this process and every arrival order, delay, reduction order, error return and rank death is decided by the seed.
#include "psim.hpp"
#include "psim_int.hpp"
#include <mpi.h>
#include <cstring>
#include <cstdio>
#include <algorithm>
#include <cstdarg>
namespace psim {
static std::string fmt(const char* f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
enum Kind { BARRIER, BCAST, ALLREDUCE, REDUCE, ALLGATHER, GATHER, SCAN, DUP };
static const char* kname[] = {"barrier", "broadcast", "allreduce", "reduce", "allgather", "gather", "scan", "duplicate"};
struct Call { bool in = false, left = false; std::vector<char> data; };
struct Coll { Kind k; int count, root; MPI_Datatype t; MPI_Op op; std::vector<Call> c; int arrived = 0, gone = 0; bool done = false, error = false; std::vector<char> res; void* dup = nullptr; };
struct Comm { int id; std::vector<int> members; std::vector<uint64_t> seq; std::map<uint64_t, Coll*> live; int freed = 0; };
static std::vector<Comm*>* comms; static int N = 0; static std::vector<char> dead; static std::vector<int> lastErr; static double rDelay, rError, rCrash; static uint64_t calls; static char inited[64], finalized[64];
struct Rt { bool k; Rt() : k(inRt) { inRt = true; } ~Rt() { inRt = k; } };
static int me() { int t = task_current(); return t < 0 ? 0 : t; }
static Comm* self0;
static Comm* find(MPI_Comm c) { if (c == MPI_COMM_WORLD) return comms && comms->size() ? (*comms)[0] : nullptr; if (comms) for (auto* x : *comms) if ((void*)x == (void*)c) return x; return nullptr; }
static int local(Comm* c) { for (size_t i = 0; i < c->members.size(); i++) if (c->members[i] == me()) return (int)i; return -1; }
static Comm* add(const std::vector<int>& m) { Comm* c = new Comm; c->id = (int)comms->size(); c->members = m; c->seq.assign(m.size(), 0); comms->push_back(c); return c; }
void mpi_world(int n) { Rt r; if (!comms) comms = new std::vector<Comm*>; for (auto* c : *comms) { for (auto& x : c->live) delete x.second; delete c; } comms->clear(); N = n; dead.assign(n, 0); lastErr.assign(n, 0); std::vector<int> m(n); for (int i = 0; i < n; i++) m[i] = i; add(m); calls = 0; memset(inited, 1, 64); memset(finalized, 0, 64); rDelay = rError = rCrash = 0; }
void* mpi_group(const std::vector<int>& m) { Rt r; return add(m); }
void mpi_rates(double d, double e, double c) { rDelay = d; rError = e; rCrash = c; }
uint64_t mpi_calls() { return calls; }
void mpi_unstarted(int r) { inited[r] = 0; }   // this rank has not called MPI_Init yet
bool mpi_started(int r) { return inited[r]; } bool mpi_ended(int r) { return finalized[r]; }
bool mpi_dead(int r) { return dead[r]; }
int mpi_last_error(int r) { return lastErr[r]; }
static size_t width(MPI_Datatype t) { if (t == MPI_DOUBLE || t == MPI_LONG || t == MPI_LONG_LONG || t == MPI_UNSIGNED_LONG || t == MPI_UNSIGNED_LONG_LONG || t == MPI_INT64_T || t == MPI_UINT64_T) return 8; if (t == MPI_INT || t == MPI_UNSIGNED || t == MPI_FLOAT || t == MPI_INT32_T) return 4; if (t == MPI_SHORT) return 2; if (t == MPI_CHAR || t == MPI_BYTE || t == MPI_SIGNED_CHAR || t == MPI_UNSIGNED_CHAR) return 1; return 0; }
template <class T> static void comb1(MPI_Op op, T& a, T b) { if (op == MPI_SUM) a += b; else if (op == MPI_MAX) a = b > a ? b : a; else if (op == MPI_MIN) a = b < a ? b : a; else if (op == MPI_PROD) a *= b; else if (op == MPI_LAND) a = a && b; else if (op == MPI_LOR) a = a || b; else sim().fail("mpi", "reduction operation the simulated MPI does not provide"); }
template <class T> static void comb(MPI_Op op, char* a, const char* b, int n) { for (int i = 0; i < n; i++) { T x, y; memcpy(&x, a + i * sizeof(T), sizeof(T)); memcpy(&y, b + i * sizeof(T), sizeof(T)); comb1(op, x, y); memcpy(a + i * sizeof(T), &x, sizeof(T)); } }
static void combine(Coll* c, char* a, const char* b) { MPI_Datatype t = c->t; if (t == MPI_DOUBLE) comb<double>(c->op, a, b, c->count); else if (t == MPI_FLOAT) comb<float>(c->op, a, b, c->count); else if (t == MPI_INT) comb<int>(c->op, a, b, c->count); else if (t == MPI_UNSIGNED) comb<unsigned>(c->op, a, b, c->count); else if (width(t) == 8) comb<long>(c->op, a, b, c->count); else if (t == MPI_CHAR) comb<char>(c->op, a, b, c->count); else if (t == MPI_SHORT) comb<short>(c->op, a, b, c->count); else sim().fail("mpi", "datatype the simulated MPI cannot reduce"); }
static void complete(Comm* cm, Coll* c, uint64_t seq) {
  c->done = true; int n = (int)cm->members.size();
  if (c->k == ALLREDUCE || c->k == REDUCE) {   // any association order of the contributions
    Rng r(mix(mix(sim().seed, 0x4D5049), mix((uint64_t)cm->id * 1000003 + seq, (uint64_t)sim().episode))); std::vector<std::vector<char>> q; for (auto& x : c->c) q.push_back(x.data);
    while (q.size() > 1) { size_t a = r.below(q.size()), b = r.below(q.size() - 1); if (b >= a) b++; combine(c, q[a].data(), q[b].data()); q.erase(q.begin() + b); } c->res = q[0]; }
  if (c->k == BCAST) c->res = c->c[c->root].data;
  if (c->k == ALLGATHER || c->k == GATHER) { for (auto& x : c->c) c->res.insert(c->res.end(), x.data.begin(), x.data.end()); }
  if (c->k == DUP) c->dup = add(cm->members); (void)n;
}
struct Wait { Coll* c; Comm* cm; bool rootOnly; };
static bool lost(Comm* cm, Coll* c) { for (size_t i = 0; i < cm->members.size(); i++) if (dead[cm->members[i]] && !c->c[i].in) return true; return false; }
static bool ready(void* a) { Wait* w = (Wait*)a; if (w->c->done || lost(w->cm, w->c)) return true; return w->rootOnly && w->c->c[w->c->root].in; }
static bool now(void*) { return true; }
// One collective call of the current rank. Returns the instance (nullptr = error to report) once its result may be used.
static int collective(MPI_Comm mc, Kind k, int count, MPI_Datatype t, MPI_Op op, int root, const void* send, size_t bytes, Coll** out, Comm** outComm, int* rk) {
  Rt rt; Sim& s = sim(); calls++; Comm* cm = find(mc); if (!cm) s.fail("mpi", "call on a communicator that does not exist"); int r = local(cm); if (r < 0) s.fail("mpi", fmt("rank %d is not in the communicator it calls", me())); int w = cm->members[r]; lastErr[w] = 0;
  if (task_current() < 0 && cm->members.size() > 1) s.fail("mpi", "collective call outside the simulated ranks");
  uint64_t d = 0;
  if (task_current() >= 0) { if (s.fault(F_RANK_DELAY, rDelay, 25, &d)) task_wait(now, nullptr, d + 1); else task_wait(now, nullptr, 0); if (s.fault(F_CRASH, rCrash)) { dead[w] = 1; task_die(); } }
  uint64_t seq = cm->seq[r]++; Coll*& c = cm->live[seq]; if (!c) { c = new Coll; c->k = k; c->count = count; c->root = root; c->t = t; c->op = op; c->c.resize(cm->members.size()); }
  Coll* co = c; if (co->k != k || co->count != count || co->root != root || co->t != t || co->op != op) s.fail("mismatch", fmt("rank %d calls %s while others call %s (or with another count, type, operation or root)", w, kname[k], kname[co->k]));
  co->c[r].in = true; co->c[r].data.assign((const char*)send, (const char*)send + bytes); co->arrived++; if (co->arrived == (int)cm->members.size()) complete(cm, co, seq);
  bool sendOnly = (k == BCAST && r == root) || ((k == REDUCE || k == GATHER) && r != root);
  if (!sendOnly && task_current() >= 0) { Wait wt{co, cm, k == BCAST}; task_wait(ready, &wt, 0); }
  *out = co; *outComm = cm; *rk = r; int err = MPI_SUCCESS;
  if (!co->done && !sendOnly && !(k == BCAST && co->c[root].in)) err = MPI_ERR_OTHER;                      // a participant died
  if (k == BCAST && err == MPI_SUCCESS) co->res = co->c[root].data;
  if (err == MPI_SUCCESS && k != BCAST && s.fault(F_MPI_ERR, rError)) err = MPI_ERR_INTERN;
  lastErr[w] = err; return err;
}
static void leave(Comm* cm, Coll* c) { Rt rt; if (++c->gone == (int)cm->members.size()) { for (auto it = cm->live.begin(); it != cm->live.end(); ++it) if (it->second == c) { cm->live.erase(it); break; } delete c; } }
static void garbage(void* p, size_t n) { Rng r(mix(sim().seed, calls)); for (size_t i = 0; i < n; i++) ((char*)p)[i] = (char)r.next(); }
}
using namespace psim;
extern "C" {
int MPI_Init(int*, char***) { if (inited[me()]) return MPI_ERR_OTHER; inited[me()] = 1; return MPI_SUCCESS; }
int MPI_Init_thread(int*, char***, int req, int* prov) { if (inited[me()]) return MPI_ERR_OTHER; inited[me()] = 1; if (prov) *prov = req; return MPI_SUCCESS; }
int MPI_Initialized(int* f) { *f = inited[me()]; return MPI_SUCCESS; }
static struct { MPI_Comm_delete_attr_function* d; void* x; void* v; bool set; int rank; } keys[64]; static int nKey;
int MPI_Finalize() { for (int k = 0; k < 64; k++) if (keys[k].set && keys[k].rank == me()) { keys[k].set = false; if (keys[k].d) keys[k].d(MPI_COMM_SELF, k, keys[k].v, keys[k].x); } finalized[me()] = 1; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = finalized[me()]; return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int code) { sim().fail("abort", "MPI_Abort called"); }
int MPI_Comm_size(MPI_Comm c, int* n) { Comm* x = find(c); if (!x) return MPI_ERR_COMM; *n = (int)x->members.size(); return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int* n) { Comm* x = find(c); if (!x) return MPI_ERR_COMM; *n = local(x); if (*n < 0) sim().fail("mpi", "rank of a process that is not in the communicator"); return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm* c) { if (find(*c)) { find(*c)->freed++; *c = MPI_COMM_NULL; return MPI_SUCCESS; } return MPI_ERR_COMM; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_Error_string(int e, char* s, int* n) { *n = snprintf(s, MPI_MAX_ERROR_STRING, "simulated MPI error %d", e); return MPI_SUCCESS; }
int MPI_Error_class(int e, int* c) { *c = e; return MPI_SUCCESS; }
int MPI_Get_processor_name(char* s, int* n) { *n = snprintf(s, MPI_MAX_PROCESSOR_NAME, "sim%d", me()); return MPI_SUCCESS; }
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function*, MPI_Comm_delete_attr_function* d, int* k, void* x) { if (nKey >= 64) nKey = 0; keys[nKey] = {d, x, nullptr, false, 0}; *k = nKey++; return MPI_SUCCESS; }
int MPI_Comm_free_keyval(int* k) { *k = MPI_KEYVAL_INVALID; return MPI_SUCCESS; }
int MPI_Comm_set_attr(MPI_Comm, int k, void* v) { if (k < 0 || k >= 64) return MPI_ERR_KEYVAL; keys[k].v = v; keys[k].set = true; keys[k].rank = me(); return MPI_SUCCESS; }
int MPI_Comm_get_attr(MPI_Comm, int, void*, int* f) { *f = 0; return MPI_SUCCESS; }
double MPI_Wtime() { return 1e-6 * (double)task_now(); }
int MPI_Type_size(MPI_Datatype t, int* n) { *n = (int)width(t); return MPI_SUCCESS; }
#define COLL(K, COUNT, T, OP, ROOT, SEND, BYTES) Coll* c; Comm* cm; int r; int e = collective(comm, K, COUNT, T, OP, ROOT, SEND, BYTES, &c, &cm, &r)
int MPI_Barrier(MPI_Comm comm) { COLL(BARRIER, 0, MPI_BYTE, MPI_OP_NULL, 0, "", 0); leave(cm, c); return e; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm comm) { size_t w = width(t) * n; COLL(BCAST, n, t, MPI_OP_NULL, root, b, w); if (!e && r != root) memcpy(b, c->res.data(), w); leave(cm, c); return e; }
int MPI_Allreduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm) {
  size_t w = width(t) * n; if (!width(t)) sim().fail("mpi", "unknown datatype"); if (sb != MPI_IN_PLACE && n > 0) { const char* a = (const char*)sb; char* b = (char*)rb; if (a < b + w && b < a + w) return MPI_ERR_BUFFER; }
  COLL(ALLREDUCE, n, t, op, 0, sb == MPI_IN_PLACE ? rb : sb, w); if (!e && w) memcpy(rb, c->res.data(), w); if (e) garbage(rb, w); leave(cm, c); return e; }
int MPI_Reduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm comm) { size_t w = width(t) * n; COLL(REDUCE, n, t, op, root, sb == MPI_IN_PLACE ? rb : sb, w); if (!e && r == root && w) memcpy(rb, c->res.data(), w); leave(cm, c); return e; }
int MPI_Allgather(const void* sb, int n, MPI_Datatype t, void* rb, int m, MPI_Datatype u, MPI_Comm comm) { size_t w = width(t) * n; if (sb == MPI_IN_PLACE) { int k; MPI_Comm_rank(comm, &k); w = width(u) * m; sb = (char*)rb + k * w; n = m; t = u; } COLL(ALLGATHER, n, t, MPI_OP_NULL, 0, sb, w); if (!e && w) memcpy(rb, c->res.data(), c->res.size()); leave(cm, c); return e; }
int MPI_Gather(const void* sb, int n, MPI_Datatype t, void* rb, int m, MPI_Datatype u, int root, MPI_Comm comm) { size_t w = width(t) * n; COLL(GATHER, n, t, MPI_OP_NULL, root, sb, w); if (!e && r == root && w) memcpy(rb, c->res.data(), c->res.size()); leave(cm, c); return e; }
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm* o) { COLL(DUP, 0, MPI_BYTE, MPI_OP_NULL, 0, "", 0); if (!e) *o = (MPI_Comm)c->dup; leave(cm, c); return e; }
}
