// Parallel communication: on any set of ranks and communicators, every rank gets the same, right reduction of what all ranks contributed,
// for every arrival order, delay and reduction order; errors and dead ranks surface as exceptions, and nobody waits for ever.
#include "hk.hpp"
#include <alg/ParallelComm.hpp>
#include <Teuchos_DefaultComm.hpp>
#include <memory>
namespace psim {
const HarnessInfo harness = {"P11", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); mpi_world(1); }
int harness_episodes(Rng& r) { return 1 + (int)r.below(2); }
typedef Plato::Comm::Machine Machine;
enum Op { SUM, MAX, MIN, ALL, SIZE, EPETRA, BARRIER }; static const char* on[] = {"sum", "max", "min", "allReduce", "size and rank", "epetra sum", "barrier"};
struct Act { int comm; Op op; int n; std::vector<Vec> in; };   // what every member (by rank in the communicator) contributes
struct Got { bool did = false, threw = false, err = false; Vec out; };
struct World { int n; std::vector<std::vector<int>> comm; std::vector<MPI_Comm> handle; std::vector<std::vector<std::unique_ptr<Machine>>> m; std::vector<Act> acts; std::vector<std::vector<Got>> got; int session = -1; bool building = false; std::string note; };
static int pos(const std::vector<int>& v, int r) { for (size_t i = 0; i < v.size(); i++) if (v[i] == r) return (int)i; return -1; }
static void build(World& w, int rank) { for (size_t c = 0; c < w.comm.size(); c++) if (pos(w.comm[c], rank) >= 0) { if (w.m[c][rank]) continue; try { if (c == 0 && rank == w.session) { static char a0[] = "sim"; static char* av[] = {a0, nullptr}; int ac = 1; char** p = av; w.m[c][rank].reset(new Machine(&ac, &p)); } else { MPI_Comm h = w.handle[c]; w.m[c][rank].reset(new Machine(h)); } } catch (const std::exception&) { if (!mpi_last_error(rank)) { w.note = "machine could not be made although MPI reported no error"; } } } }
static void act(World& w, int rank) {
  for (size_t k = 0; k < w.acts.size(); k++) {
    const Act& a = w.acts[k]; int me = pos(w.comm[a.comm], rank); if (me < 0) continue; Machine* m = w.m[a.comm][rank].get(); if (!m) continue; Got& g = w.got[k][rank]; g.did = true; const Vec& in = a.in[me];
    try {
      switch (a.op) {
        case SUM: g.out = {Plato::Comm::sum(*m, in[0])}; break; case MAX: g.out = {Plato::Comm::max(*m, in[0])}; break; case MIN: g.out = {Plato::Comm::min(*m, in[0])}; break;
        case ALL: { Vec l = in, o(a.n + 2, -7.25); l.push_back(3.5); Plato::Comm::allReduce(*m, a.n, l.data(), o.data()); for (int i = 0; i < a.n; i++) if (!(l[i] == in[i])) w.note = "allReduce changed the local values"; if (o[a.n] != -7.25 || o[a.n + 1] != -7.25) w.note = "allReduce wrote past the end of the result"; o.resize(a.n); g.out = o; break; }
        case SIZE: g.out = {(double)Plato::Comm::size(*m), (double)Plato::Comm::rank(*m), (double)m->epetraComm->NumProc(), (double)m->epetraComm->MyPID()}; break;
        case EPETRA: { double x = in[0], o = 99; if (m->epetraComm->SumAll(&x, &o, 1) != 0) throw std::runtime_error("epetra error"); g.out = {o}; break; }
        default: m->teuchosComm->barrier();
      }
    } catch (const std::exception&) { g.threw = true; }
    g.err = mpi_last_error(rank) != 0;
  }
}
static void judge(Sim& s, World& w) {
  if (!w.note.empty()) s.fail("result", w.note);
  for (size_t k = 0; k < w.acts.size(); k++) {
    const Act& a = w.acts[k]; const auto& mem = w.comm[a.comm]; int p = (int)mem.size(); int ok = 0, bad = 0;
    for (int me = 0; me < p; me++) {
      int r = mem[me]; Got& g = w.got[k][r]; if (!g.did || mpi_dead(r)) continue; s.evaluated();
      if (a.op == SIZE) { if (g.threw) s.fail("size", "asking for size and rank failed"); if (g.out[0] != p || g.out[1] != me || g.out[2] != p || g.out[3] != me) s.fail("size", str("process %d of %d sees size %g rank %g (Epetra: %g, %g)", me, p, g.out[0], g.out[1], g.out[2], g.out[3])); continue; }
      if (g.err) { bad++; if (!g.threw) s.fail("error-hidden", str("%s returned normally on a process where MPI reported an error", on[a.op])); continue; }
      if (g.threw) s.fail("spurious-exception", str("%s failed on a process although MPI reported no error", on[a.op])); ok++;
      if (a.op == BARRIER) continue;
      for (int i = 0; i < a.n; i++) {
        Ref e; double mx = -INFINITY, mn = INFINITY; for (int q = 0; q < p; q++) { double x = a.in[q][i]; e.add(x); mx = std::max(mx, x); mn = std::min(mn, x); }
        if (a.op == MAX || a.op == MIN) { double x = a.op == MAX ? mx : mn; if (!(g.out[i] == x)) s.fail("reduction", str("%s over %d processes is %.17g on process %d, expected %.17g", on[a.op], p, g.out[i], me, x)); }
        else if (!close(g.out[i], (double)e.v, (double)e.a, 1e-13)) s.fail("reduction", str("%s over %d processes, entry %d of %d, is %.17g on process %d, expected %.17g", on[a.op], p, i, a.n, g.out[i], me, (double)e.v));
        s.hash(g.out[i]);
      }
    }
    const Vec* first = nullptr; for (int r : mem) { Got& g = w.got[k][r]; if (!g.did || g.err || mpi_dead(r) || a.op == SIZE) continue; if (!first) first = &g.out; else if (*first != g.out) s.fail("agreement", str("%s: processes disagree on the result", on[a.op])); }
    s.cover(str("%s on %s of %d processes%s", on[a.op], a.comm ? "group" : "world", p, bad ? ok ? ", errors on some" : ", errors" : ""));
  }
}
static void buildAll(void* a, int r) { build(*(World*)a, r); }
static void endAll(void* a, int r) { World& w = *(World*)a; for (size_t c = w.m.size(); c-- > 0;) w.m[c][r].reset(); }
static void actAll(void* a, int r) { act(*(World*)a, r); }
static double val(Rng& r, Op op) { if ((op == MAX || op == MIN) && r.chance(0.05)) return r.chance(0.5) ? INFINITY : -INFINITY; return r.chance(0.15) ? 0 : r.value(); }
void harness_episode(Sim& s) {
  Rng& w0 = s.w; World w; w.n = w0.chance(0.1) ? 1 : w0.range(2, w0.chance(0.2) ? 16 : 6); mpi_world(w.n); tasks_boot(w.n); int nc = w0.range(1, 4);
  for (int c = 0; c < nc; c++) { std::vector<int> m; for (int i = 0; i < w.n; i++) if (c == 0 || w0.chance(0.6)) m.push_back(i); if (m.empty()) m.push_back((int)w0.below(w.n)); if (c && w0.chance(0.5)) for (size_t i = m.size() - 1; i > 0; i--) std::swap(m[i], m[w0.below(i + 1)]); w.comm.push_back(m); w.handle.push_back(c ? (MPI_Comm)mpi_group(m) : MPI_COMM_WORLD); w.m.emplace_back(w.n); }
  if (w0.chance(0.3)) { w.session = (int)w0.below(w.n); mpi_unstarted(w.session); } std::string stuck; double delay = w0.chance(0.6) ? 0.15 : 0;
  s.step("make the machines"); mpi_rates(delay, 0, 0); if (!run_tasks(w.n, buildAll, &w, &stuck)) s.fail("deadlock", "processes" + stuck + " wait for ever while making their machines"); if (!w.note.empty()) s.fail("result", w.note);
  int phases = w0.range(1, 5); bool crash = w0.chance(0.3);
  for (int ph = 0; ph < phases; ph++) {
    if (!s.step("collectives")) continue; Rng& r = s.w; w.acts.clear(); w.got.clear(); int k = r.range(1, 7);
    for (int i = 0; i < k; i++) { Act a; a.comm = (int)r.below(w.comm.size()); a.op = (Op)r.below(7); a.n = a.op == ALL ? (r.chance(0.15) ? 0 : r.chance(0.1) ? r.range(50, 300) : r.range(1, 9)) : 1; bool neg = r.chance(0.3), same = r.chance(0.15); double sv = val(r, a.op); for (size_t q = 0; q < w.comm[a.comm].size(); q++) { Vec v(a.n); for (auto& x : v) { x = same ? sv : val(r, a.op); if (neg) x = -fabs(x) - 0.5; } a.in.push_back(v); } w.acts.push_back(a); }
    w.got.assign(w.acts.size(), std::vector<Got>(w.n)); mpi_rates(delay, 0.04, crash ? 0.01 : 0); s.simtime(k);
    if (!run_tasks(w.n, actAll, &w, &stuck)) s.fail("deadlock", "processes" + stuck + " wait for ever in a collective");
    judge(s, w); bool lost = false; for (int i = 0; i < w.n; i++) lost |= mpi_dead(i); if (lost) { s.cover("a process died"); break; }   // the survivors have been told; the job ends
  }
  mpi_rates(0, 0, 0); s.step("finish"); if (!run_tasks(w.n, endAll, &w, &stuck)) s.fail("deadlock", "processes" + stuck + " wait for ever while ending");
  for (int r = 0; r < w.n; r++) { s.evaluated(); if (!mpi_started(r)) s.fail("session", "a machine made from the command line did not start MPI"); if (mpi_ended(r) != (r == w.session)) s.fail("session", mpi_ended(r) ? "a machine made over a communicator ended MPI" : "a machine that started MPI did not end it"); }
  if (w.session >= 0) { s.cover(str("session on rank %d of %d", w.session, w.n)); }
}
}
