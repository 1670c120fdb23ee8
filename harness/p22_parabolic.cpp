// Transient heat conduction and thermomechanics: every history a solve returns starts at the initial state, carries the prescribed values,
// obeys the trapezoid rule and balances the discretised equations at every step; criteria are those of the history they are given and their
// gradients are the rates at which they change when the analysis is repeated; for every numbering, schedule, history of calls and failed solve.
#define PSIM_NO_ELLIPTIC
#include "fem.hpp"
#include <parabolic/Problem.hpp>
namespace psim {
const HarnessInfo harness = {"P22", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); std::cout.setstate(std::ios::failbit); }
int harness_episodes(Rng& r) { return 1; }
enum CK { ENERGY, AVERAGE, VOLUME };
static const char* const ckn[] = {"energy", "temperature average", "volume"};
struct Crit { std::string name; CK k; int pen = 0; LD p = 1, pmin = 0; };
struct World { Fem f; int N = 1; double dt = 1, alpha = 0.5; std::vector<LD> rho, c0, c1; std::vector<std::array<LD, 3>> init /* per component: a + b x - c y */; bool uniform = true; std::vector<Crit> c; std::vector<std::string> want; };
struct Hist { std::vector<Vec> u, v; };
struct Run { std::unique_ptr<Plato::AbstractProblem> p;
  Run(Fem& f, Plato::Comm::Machine m) { Teuchos::ParameterList pl(f.pl); if (f.ph == TH) p.reset(new Plato::Parabolic::Problem<::Plato::Thermal<2>>(f.mesh, f.sets, pl, m)); else p.reset(new Plato::Parabolic::Problem<::Plato::Thermomechanics<2>>(f.mesh, f.sets, pl, m)); } };
static std::vector<Vec> rows(const Plato::ScalarMultiVector& m) { std::vector<Vec> r(m.extent(0), Vec(m.extent(1))); for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r[i].size(); j++) r[i][j] = m(i, j); return r; }
static Plato::ScalarMultiVector view(const std::vector<Vec>& r) { Plato::ScalarMultiVector m("kept", r.size(), r[0].size()); for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r[i].size(); j++) m(i, j) = r[i][j]; return m; }
static Hist hist(const Plato::Solution& s) { return {rows(s.State), rows(s.StateDot)}; }
static LD pw(const Crit& c, LD rho) { return c.pen == 0 ? c.pmin + (1 - c.pmin) * powl(rho, c.p) : c.pmin + (1 - c.pmin) * rho / (1 + c.p * (1 - rho)); }
static int tof(const Fem& f) { return f.ph == TH ? 0 : 2; }
static void make(World& w, Rng& r) {
  Fem& f = w.f; Opts o; o.maxn = 2; o.nopenalty = false; o.bodies = false; o.pressure = false; o.mask = 1 << TH | 1 << TM; o.pde = "Parabolic"; make_problem(f, r, o); Teuchos::ParameterList& P = f.pl;
  w.N = r.range(1, 5); w.dt = rnd(std::pow(10.0, r.uni(-2, 0.5)), 3); Teuchos::ParameterList& T = P.sublist("Time Integration"); T.set<int>("Number Time Steps", w.N); T.set<double>("Time Step", w.dt); if (r.chance(0.6)) { w.alpha = r.chance(0.3) ? 1.0 : rnd(r.uni(0.5, 1), 3); T.set<double>("Trapezoid Alpha", w.alpha); }
  for (int b = 0; b < f.nb; b++) { w.rho.push_back(rnd(r.uni(0.3, 3))); w.c0.push_back(rnd(r.uni(0.3, 3))); w.c1.push_back(0); Teuchos::ParameterList& m = P.sublist("Material Models").sublist(str("Material %d", b)).sublist("Thermal Mass"); m.set<double>("Mass Density", (double)w.rho[b]); if (f.nonlinear && r.chance(0.5)) { m.set<bool>("Temperature Dependent", true); w.c1[b] = rnd(r.uni(-0.02, 0.02)); Teuchos::ParameterList& q = m.sublist("Specific Heat"); q.set<double>("c0", (double)w.c0[b]); q.set<double>("c1", (double)w.c1[b]); } else m.set<double>("Specific Heat", (double)w.c0[b]); }
  w.init.assign(f.B, {0, 0, 0}); if (r.chance(0.7)) { static const char* const nm[4] = {"Displacement X", "Displacement Y", "Temperature", 0}; bool uni = r.chance(0.5); for (int d = 0; d < f.B; d++) if (r.chance(0.7)) { auto& a = w.init[d]; a[0] = fix4(r.uni(0, 0.5)); if (!uni) { a[1] = fix4(r.uni(0, 0.3)); a[2] = fix4(r.uni(0, 0.3)); w.uniform = false; } std::string cf = str("field %d", d); P.sublist("Computed Fields").sublist(cf).set<std::string>("Function", num(a[0]) + "+" + num(a[1]) + "*x-" + num(a[2]) + "*y"); P.sublist("Initial State").sublist(nm[f.ph == TH ? 2 : d]).set<std::string>("Computed Field", cf); } }
  if (!f.nonlinear && r.chance(0.3)) { P.sublist("Newton Iteration").set<int>("Maximum Iterations", r.range(2, 4)); P.sublist("Newton Iteration").set<double>("Residual Tolerance", 1e-11); }
  if (f.ph == TM && r.chance(0.5)) { for (auto n : {"strain", "stress"}) if (r.chance(0.7)) w.want.push_back(n); if (!w.want.empty()) { Teuchos::Array<std::string> a; for (auto& n : w.want) a.push_back(n); P.sublist("Parabolic").set("Plottable", a); } }
  Teuchos::ParameterList& C = P.sublist("Criteria"); int n = r.range(1, 3); for (int i = 0; i < n; i++) { Crit c; c.name = str("criterion %d", i); Teuchos::ParameterList& l = C.sublist(c.name); int k = (int)r.below(5); c.k = k < 2 ? ENERGY : k < 4 ? (f.ph == TH ? AVERAGE : ENERGY) : VOLUME; l.set<std::string>("Type", "Scalar Function"); l.set<std::string>("Scalar Function Type", c.k == VOLUME ? "Volume" : c.k == AVERAGE ? "Temperature Average" : f.ph == TH ? "Internal Thermal Energy" : "Internal Thermoelastic Energy"); if (c.k == VOLUME) l.set<bool>("Linear", true);
    c.pen = (int)r.below(2); c.p = c.pen == 0 ? r.range(1, 3) : rnd(r.uni(0, 4), 3); c.pmin = r.chance(0.5) ? 0 : rnd(r.uni(0, 0.3), 3); Teuchos::ParameterList q; q.set<std::string>("Type", c.pen == 0 ? "SIMP" : "RAMP"); q.set<double>("Exponent", (double)c.p); q.set<double>("Minimum Value", (double)c.pmin); l.set("Penalty Function", q); w.c.push_back(c); }
  P.sublist("Linear Solver").set<bool>("Divergence is Fatal", true);
}
static bool mild(const World& w, const Hist& h) { const Fem& f = w.f; if (!f.nonlinear) return true; LD q = 0, t = 0; for (int b = 0; b < f.nb; b++) q = std::max({q, fabsl(f.mat[b].k[1] / f.mat[b].k[0]), fabsl(w.c1[b] / w.c0[b])}); for (auto& u : h.u) for (double x : u) t = std::max(t, fabsl((LD)x)); return q * t <= 0.2L; }
static std::vector<Ref> resid(const World& w, const Vec& u, const Vec& v, const Vec& z) {
  const Fem& f = w.f; std::vector<Ref> R = residual(f, u, z); int so = tof(f); for (int e = 0; e < f.ne; e++) { ElemRef q = elem(f, u, z, e); const int* n = &f.ev[3 * e]; LD t = 0, a = 0; for (int i = 0; i < 3; i++) { t += (LD)v[n[i] * f.B + so] / 3; a += fabsl((LD)v[n[i] * f.B + so]) / 3; } int b = f.blk[e]; LD m = w.rho[b] * (w.c0[b] + w.c1[b] * q.T) * q.w * q.A / 3; for (int i = 0; i < 3; i++) { Ref& o = R[n[i] * f.B + so]; o.v += m * t; o.a += fabsl(m) * a; } } return R;
}
static void check(Sim& s, const World& w, const Hist& h, const Vec& z) {
  const Fem& f = w.f; size_t n = (size_t)f.nv * f.B; s.check((int)h.u.size() == w.N && (int)h.v.size() == w.N && h.u[0].size() == n && h.v[0].size() == n, "history", "a history of the wrong size"); bool ok = mild(w, h); if (!ok) s.cover("strongly nonlinear: balance not decided");
  for (size_t i = 0; i < n; i++) { auto& a = w.init[i % f.B]; LD x = f.x[2 * (i / f.B)], y = f.x[2 * (i / f.B) + 1], t = a[0] + a[1] * x - a[2] * y; near1(s, "initial", h.u[0][i], (double)t, 1, str("%s: initial value of node %zu component %zu", physName[f.ph], i / f.B, i % f.B).c_str(), 1e-12); s.check(h.v[0][i] == 0, "initial", "an initial rate that is not zero"); }
  for (int k = 1; k < w.N; k++) { const Vec &u = h.u[k], &v = h.v[k], &u0 = h.u[k - 1], &v0 = h.v[k - 1]; std::vector<char> fixed(n, 0);
    for (auto& b : f.bc) { fixed[b.first] = 1; near1(s, "prescribed", u[b.first], (double)b.second, 1, str("%s: step %d: prescribed value of node %d component %d", physName[f.ph], k, b.first / f.B, b.first % f.B).c_str(), 1e-11); }
    for (size_t i = 0; i < n; i++) { LD ad = (LD)w.alpha * w.dt, x = ((LD)u[i] - u0[i] - w.dt * (1 - (LD)w.alpha) * v0[i]) / ad, m = (fabsl(u[i]) + fabsl(u0[i]) + w.dt * fabsl(v0[i])) / ad; if (!(fabsl(v[i] - x) <= 1e-9L * (m + 1))) s.fail("rate", str("%s: step %d: node %zu component %zu changes at the rate %.12g, the trapezoid rule gives %.12Lg", physName[f.ph], k, i / f.B, i % f.B, v[i], x)); }
    if (ok) { std::vector<Ref> R = resid(w, u, v, z); std::vector<LD> sc(f.B, 0); for (size_t i = 0; i < n; i++) sc[i % f.B] = std::max(sc[i % f.B], R[i].a); for (size_t i = 0; i < n; i++) if (!fixed[i] && !(fabsl(R[i].v) <= 1e-8L * (R[i].a + sc[i % f.B]) + 1e-290L)) s.fail("balance", str("%s: step %d of %d: node %zu component %zu is out of balance by %.6Lg (terms up to %.6Lg)", physName[f.ph], k, w.N, i / f.B, i % f.B, R[i].v, R[i].a)); s.evaluated(n); }
    s.hash(u.data(), u.size() * 8); }
}
static void fields(Sim& s, const World& w, Plato::DataMap& m, const Hist& h, const Vec& z) {
  const Fem& f = w.f; if (w.want.empty()) return; s.check((int)m.stateDataMaps.size() == w.N, "output", str("%zu outputs kept for %d steps", m.stateDataMaps.size(), w.N)); for (int k = 0; k < w.N; k++) for (auto& nm : w.want) { auto& d = m.stateDataMaps[k]; if (!d.scalarMultiVectors.count(nm)) s.fail("output", "requested field '" + nm + "' is missing"); auto g = d.scalarMultiVectors[nm]; s.check((int)g.extent(0) == f.ne && (int)g.extent(1) == 3, "output", str("field '%s' of %zux%zu values for %d elements", nm.c_str(), (size_t)g.extent(0), (size_t)g.extent(1), f.ne)); Vec got = from_view2(g); std::vector<Ref> ref((size_t)f.ne * 3);
    for (int e = 0; e < f.ne; e++) { ElemRef q = elem(f, h.u[k], z, e); LD ea = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) ea += fabsl(h.u[k][f.ev[3 * e + i] * f.B + j]) * (fabsl(q.g[i][0]) + fabsl(q.g[i][1])); for (int i = 0; i < 3; i++) { Ref& o = ref[(size_t)e * 3 + i]; if (nm == "strain") { o.v = q.strain[i]; o.a = ea; } else { o.v = q.w * q.stress[i]; o.a = q.w * q.sa[i]; } } } near(s, "output", got, ref, str("step %d: output '%s'", k, nm.c_str()).c_str(), 1e-9); s.cover("output " + nm); }
}
static LD value(const World& w, const Crit& c, const Hist& h, const Vec& z) {
  const Fem& f = w.f; LD v = 0; if (c.k == VOLUME) { for (int e = 0; e < f.ne; e++) { ElemRef q = elem(f, h.u[0], z, e); v += pw(c, q.rho) * q.A; } return v; }
  for (int k = 1; k < w.N; k++) for (int e = 0; e < f.ne; e++) { ElemRef q = elem(f, h.u[k], z, e); LD x = pw(c, q.rho); if (c.k == AVERAGE) v += x * q.T * q.A; else { LD s = 0, t = 0; for (int i = 0; i < 3; i++) s += q.stress[i] * q.strain[i]; for (int d = 0; d < 2; d++) t += q.flux[d] * q.grad[d]; v += x * q.A * (f.ph == TH ? -t : s + t); } } return v;
}
static Vec density(Rng& r, int n) { Vec z(n); int k = (int)r.below(3); for (auto& x : z) x = k == 0 ? 0.9 : r.uni(0.4, 1); return z; }
static LD rate(World& w, const Crit& c, const Vec& z, const Vec& dir, bool shape, double len, LD stiff, LD& err) {
  SerialScope serial; LD top = 0; Plato::Comm::Machine machine; auto at = [&](double h) -> LD { Vec zz = z; Fem g = w.f; if (shape) { for (size_t i = 0; i < g.x.size(); i++) g.x[i] += h * dir[i]; g.mesh = Omega_h::Mesh(); g.mesh.build(2, g.ev, g.x); } else for (size_t i = 0; i < zz.size(); i++) zz[i] += h * dir[i]; Run P(g, machine); auto Z = to_view(zz, "z"); auto q = P.p->solution(Z); LD v = P.p->criterionValue(Z, q, c.name); top = std::max(top, fabsl(v)); return v; };
  auto fd = [&](double h) { return (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h); }; LD best = 0; err = 1e300L; for (int i = 0; i < 3; i++, len /= 8) { LD a = fd(len), b = fd(len / 2), noise = (1e-12L * top + 1e-14L * stiff) / len, q = fabsl(a - b); if (q + noise < err) { err = q + noise; best = b; } if (q <= 1e-5L * fabsl(b) + noise) break; } return best;
}
void harness_episode(Sim& s) {
  World w; Fem& f = w.f; Rng g = s.w; make(w, g); amgx_reset(); Plato::Comm::Machine machine; std::unique_ptr<Run> PP; try { PP.reset(new Run(f, machine)); } catch (const std::exception& e) { s.fail("refused", str("%s: the problem is refused: %.300s", physName[f.ph], e.what())); } Run& P = *PP;
  if (g.chance(0.1)) { SerialScope serial; Fem q = f; q.pl = Teuchos::ParameterList(f.pl); static const char* const no[] = {"Pressure", "Displacement Z", "temperature", "Velocity X"}; Teuchos::ParameterList& F = q.pl.sublist("Computed Fields").sublist("stray field"); F.set<std::string>("Function", "1.0"); q.pl.sublist("Initial State").sublist(no[g.below(4)]).set<std::string>("Computed Field", "stray field"); bool threw = false; try { Run R(q, machine); } catch (const std::exception&) { threw = true; } if (!threw) s.fail("accepted", str("%s: an initial value of a component the model does not have is accepted", physName[f.ph])); s.cover("unknown initial component refused"); }
  double stiff = 1; for (auto& m : f.mat) for (int i = 0; i < 3; i++) if (f.ph != TH) stiff = std::max(stiff, (double)m.D[i][i]); s.cover(str("%s steps=%d blocks=%d penalty=%d nonlinear=%d", physName[f.ph], w.N, f.nb, f.pen, f.nonlinear)); int steps = g.range(2, 5); Vec z, kz; Hist h, kh; bool have = false, kept = false; for (int k = 0; k < steps; k++) {
    if (!s.step("transient")) continue; Rng& r = s.w; bool bad = s.faulty && k + 1 < steps && r.chance(0.5); int alloc = s.faulty && !bad && k + 1 < steps && r.chance(0.2);
    auto guard = [&](const char* what, std::function<void()> fn, bool solves) { uint64_t n0 = amgx_badsolves(); bool done = false, threw = false; std::string msg; if (bad && solves) amgx_rates(0, 0.15, 0.15); try { if (alloc) done = alloc_fault(s, 0.5, 400, fn); else { fn(); done = true; } } catch (const SolverAbort&) { threw = true; } catch (const std::exception& e) { threw = true; msg = e.what(); } amgx_rates(0, 0, 0); bool hit = amgx_badsolves() > n0; if (threw && !hit && !alloc) s.fail("refused", str("%s: %s failed: %.300s", physName[f.ph], what, msg.c_str())); if (done && hit) s.fail("unreported", str("%s: a linear solve failed during %s, which returned as if it had succeeded", physName[f.ph], what)); return done; };
    if (!have || r.chance(0.5)) { if (have && r.chance(0.6)) { kz = z; kh = h; kept = true; } z = density(r, f.nv); auto Z = to_view(z, "control"); have = guard("the analysis", [&] { h = hist(P.p->solution(Z)); }, true); s.simtime(w.dt * (w.N - 1)); s.cover(have ? "analysis returned" : bad ? "analysis reported failure" : "allocation failed"); if (!have) continue; check(s, w, h, z); fields(s, w, P.p->mDataMap, h, z); same(s, "inputs", from_view(Z), z, "the control after an analysis"); }
    const Crit& c = w.c[r.below(w.c.size())]; bool old = kept && r.chance(0.4); const Hist& H = old ? kh : h; const Vec& y = old ? kz : z; auto Z = to_view(y, "control"); bool own = r.chance(0.5) && !old; Plato::Solution S = old ? Plato::Solution(view(kh.u), view(kh.v)) : P.p->getGlobalSolution();
    if (old && r.chance(0.3)) { P.p->setGlobalSolution(S); own = true; h = kh; z = kz; s.cover("solution put back"); } int op = (int)r.below(3); s.check(P.p->criterionIsLinear(c.name) == (c.k == VOLUME), "kind", "criterion of the wrong kind");
    if (op == 0) { double v = 0; if (!guard("a criterion value", [&] { v = own ? P.p->criterionValue(Z, c.name) : P.p->criterionValue(Z, S, c.name); }, false)) continue; LD ref = value(w, c, H, y); s.evaluated(); near1(s, "value", v, (double)ref, std::fabs((double)ref) + 1e-5 * stiff, str("%s: %s", physName[f.ph], ckn[c.k]).c_str(), 1e-7); s.cover(str("value %s %s%s", physName[f.ph], ckn[c.k], old ? " of an earlier history" : "")); s.hash(v); continue; }
    bool shape = op == 2; if (!mild(w, H) || (shape && !w.uniform)) continue; Vec gr; if (!guard("a criterion gradient", [&] { gr = from_view(shape ? (own ? P.p->criterionGradientX(Z, c.name) : P.p->criterionGradientX(Z, S, c.name)) : own ? P.p->criterionGradient(Z, c.name) : P.p->criterionGradient(Z, S, c.name)); }, true)) { Hist q = hist(P.p->getGlobalSolution()); for (int i = 0; i < w.N; i++) same(s, "state", q.u[i], h.u[i], "the state after a failed gradient"); continue; }
    { Hist q = hist(P.p->getGlobalSolution()); for (int i = 0; i < w.N; i++) { same(s, "state", q.u[i], h.u[i], "the state after a gradient"); same(s, "state", q.v[i], h.v[i], "the rate after a gradient"); } } same(s, "inputs", from_view(Z), y, "the control after a gradient"); size_t n = shape ? f.x.size() : y.size(); s.check(gr.size() == n, "size", str("gradient of %zu entries instead of %zu", gr.size(), n));
    Vec dir(n, 0); if (r.chance(0.5)) dir[r.below(n)] = 1; else for (auto& d : dir) d = r.uni(-1, 1); double hmin = 1e300; for (int e = 0; e < f.ne; e++) hmin = std::min(hmin, (double)sqrtl(elem(f, H.u[0], y, e).A)); LD err = 0, fd = rate(w, c, y, dir, shape, shape ? 2e-3 * hmin : 4e-3, stiff, err), got = 0, mag = 0; for (size_t i = 0; i < n; i++) { got += (LD)gr[i] * dir[i]; mag += fabsl((LD)gr[i] * dir[i]); } s.evaluated();
    if (err > 1e-3L * (fabsl(fd) + mag)) { s.cover("too curved for differences"); continue; } const char* kind = shape ? "shape" : "design"; s.cover(str("gradient %s %s %s%s", kind, physName[f.ph], ckn[c.k], old ? " of an earlier history" : "")); s.hash((double)got);
    if (!(fabsl(got - fd) <= 1e-5L * (fabsl(fd) + mag) + 8 * err + 1e-10L)) s.fail(str("%s-gradient", kind).c_str(), str("%s%s, %d steps: along a direction the %s gradient of the %s criterion%s is %.12Lg, the repeated analysis changes at the rate %.12Lg (+-%.1Lg)", physName[f.ph], f.nonlinear ? " (nonlinear)" : "", w.N, kind, ckn[c.k], old ? " of an earlier history" : "", got, fd, err));
  }
}
}
