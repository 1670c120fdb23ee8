// Whole static analyses on generated meshes: the state a solve returns carries the prescribed values and balances every other equation of the
// discretised model; output fields are those of that state; this for every numbering, schedule and history, and a failed solve is reported.
#include "fem.hpp"
namespace psim {
const HarnessInfo harness = {"P20", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); std::cout.setstate(std::ios::failbit); }
int harness_episodes(Rng& r) { return 1; }
static Vec field2(const Plato::ScalarMultiVector& v) { return from_view2(v); }
static void state(Sim& s, const Fem& f, const Vec& u, const Vec& z) {
  for (auto& b : f.bc) near1(s, "prescribed", u[b.first], (double)b.second, 1, str("%s: prescribed value of node %d component %d", physName[f.ph], b.first / f.B, b.first % f.B).c_str(), 1e-12);
  if (!mild(f, z)) { s.cover("strongly nonlinear: balance not decided"); return; }
  std::vector<Ref> R = residual(f, u, z); std::vector<char> fixed(R.size(), 0); for (auto& b : f.bc) fixed[b.first] = 1; std::vector<LD> sc(f.B, 0); for (size_t i = 0; i < R.size(); i++) sc[i % f.B] = std::max(sc[i % f.B], R[i].a); s.evaluated(R.size());
  for (size_t i = 0; i < R.size(); i++) if (!fixed[i] && !(fabsl(R[i].v) <= 1e-8L * (R[i].a + sc[i % f.B]) + 1e-290L)) s.fail("balance", str("%s: node %zu component %zu is out of balance by %.6Lg (terms up to %.6Lg)", physName[f.ph], i / f.B, i % f.B, R[i].v, R[i].a));
  s.hash(u.data(), u.size() * 8);
}
static void fields(Sim& s, const Fem& f, Plato::DataMap& m, const Vec& u, const Vec& z, const std::vector<std::string>& want) {
  if (m.stateDataMaps.empty()) s.fail("output", "no output was kept for the state"); auto& d = m.stateDataMaps.back();
  for (auto& n : want) { int c = n == "Vonmises" ? 1 : n == "strain" || n == "stress" ? 3 : 2; Vec got; if (c == 1) { if (!d.scalarVectors.count(n)) s.fail("output", "requested field '" + n + "' is missing"); got = from_view(d.scalarVectors[n]); } else { if (!d.scalarMultiVectors.count(n)) s.fail("output", "requested field '" + n + "' is missing"); got = field2(d.scalarMultiVectors[n]); }
    std::vector<Ref> ref((size_t)f.ne * c); for (int e = 0; e < f.ne; e++) { ElemRef q = elem(f, u, z, e); LD ea = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < f.B && j < 2; j++) ea += fabsl(u[f.ev[3 * e + i] * f.B + j]) * (fabsl(q.g[i][0]) + fabsl(q.g[i][1])); LD ga = 0; for (int i = 0; i < 3; i++) ga += fabsl(u[f.ev[3 * e + i] * f.B + (f.ph == TH ? 0 : f.B - 1)]) * (fabsl(q.g[i][0]) + fabsl(q.g[i][1])); LD sm = q.sa[0] + q.sa[1] + q.sa[2];
      for (int i = 0; i < c; i++) { Ref& o = ref[(size_t)e * c + i]; LD w = q.w; if (n == "strain") { o.v = q.strain[i]; o.a = ea; } else if (n == "stress") { o.v = w * (q.stress[i] - q.pre[i]); o.a = w * q.sa[i]; } else if (n == "Vonmises") { LD a = (q.stress[0] - q.pre[0]) * w, b = (q.stress[1] - q.pre[1]) * w, t = (q.stress[2] - q.pre[2]) * w; o.v = sqrtl(a * a - a * b + b * b + 3 * t * t); o.a = w * sm; } else if (n == "tgrad" || n == "efield") { o.v = q.grad[i]; o.a = ga; } else { o.v = w * q.flux[i]; o.a = w * q.fa[i]; } } }
    near(s, "output", got, ref, (std::string(physName[f.ph]) + " output '" + n + "'").c_str(), 1e-9); s.cover(str("output %s %s", physName[f.ph], n.c_str())); }
}
static Vec density(Rng& r, int n) { Vec z(n); int k = (int)r.below(4); for (auto& x : z) x = k == 0 ? 1 : k == 1 ? r.uni(0.4, 1) : r.uni(0.2, 1); return z; }
void harness_episode(Sim& s) {
  Fem f; Rng g = s.w; Opts o; o.cell = true; make_problem(f, g, o); amgx_reset(); std::vector<std::string> want;
  if (g.chance(0.5)) { static const std::vector<std::string> av[4] = {{"tgrad", "flux"}, {"strain", "stress", "Vonmises"}, {"strain", "tgrad", "stress", "flux"}, {"strain", "efield", "stress", "edisp"}}; for (auto& n : av[f.ph]) if (g.chance(0.7)) want.push_back(n); if (!want.empty()) f.pl.sublist("Elliptic").set("Plottable", Teuchos::Array<std::string>(want)); }
  bool fatal = g.chance(0.7); if (fatal) f.pl.sublist("Linear Solver").set<bool>("Divergence is Fatal", true); Plato::Comm::Machine machine; Prob P(f, machine); s.cover(str("%s blocks=%d penalty=%d loads=%zu bodies=%zu bc=%zu nonlinear=%d cell=%d", physName[f.ph], f.nb, f.pen, f.loads.size(), f.bodies.size(), f.bc.size() / 2, f.nonlinear, f.cell >= 0));
  int steps = g.range(1, 4); for (int k = 0; k < steps; k++) {
    if (!s.step("solve")) continue; Rng& r = s.w; Vec z = density(r, f.nv); auto Z = to_view(z, "control"); int mode = s.faulty && k + 1 < steps ? (int)r.below(4) : 3; bool ended = false, threw = false, done = false; uint64_t n0 = amgx_badsolves(); Vec u;
    if (mode == 1) amgx_rates(0, 0.3, 0.3); if (mode == 2) amgx_rates(0, 0, 0);
    auto run = [&] { auto q = P.p->solution(Z); auto S = q.State; if (S.extent(0) != 1 || (int)S.extent(1) != f.nv * f.B) s.fail("state", str("state of %zux%zu values", (size_t)S.extent(0), (size_t)S.extent(1))); u = from_view2(S); };
    try { if (mode == 2) done = alloc_fault(s, 0.5, 400, run); else { run(); done = true; } } catch (const SolverAbort&) { ended = true; } catch (const std::exception& e) { threw = true; if (mode != 1) s.fail("refused", str("%s: the analysis failed: %s", physName[f.ph], e.what())); }
    int st = amgx_last_status(); bool bad = mode == 1 && amgx_badsolves() > n0; amgx_rates(0, 0, 0); (void)ended; s.simtime(1); s.cover(str("solve mode=%d -> %s", mode, done ? "returned" : threw ? "reported" : "allocation failed"));
    if (threw) s.check(st != 0, "spurious", "a solve that converged was reported as failed"); if (done && mode == 1) s.check(st != 1 && !(st == 2 && fatal), "unreported", str("%s: the linear solve %s, but the analysis returned as if it had succeeded", physName[f.ph], st == 1 ? "failed" : "diverged"));
    if (done && !(mode == 1 && bad)) { state(s, f, u, z); if (!want.empty()) fields(s, f, P.p->mDataMap, u, z, want); same(s, "inputs", from_view(Z), z, "the control"); }
  }
}
}
