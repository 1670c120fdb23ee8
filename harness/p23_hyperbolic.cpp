// Transient mechanics: every history a solve returns starts at the initial displacement and velocity, carries the prescribed (time dependent)
// values, obeys Newmark's rule and balances inertia, damping, stress and loads at every step; criteria are those of the history they are given and
// their gradients are the rates at which they change when the analysis is repeated; for every numbering, schedule, history of calls and failed solve.
#define PSIM_NO_ELLIPTIC
#include "fem.hpp"
#include <hyperbolic/HyperbolicMechanics.hpp>
#include <hyperbolic/HyperbolicProblem.hpp>
namespace psim {
const HarnessInfo harness = {"P23", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); std::cout.setstate(std::ios::failbit); }
int harness_episodes(Rng& r) { return 1; }
enum CK { ENERGY, NORM };
static const char* const ckn[] = {"energy", "stress norm"};
struct Crit { std::string name; CK k; int pen = 0; LD p = 1, pmin = 0; double e = 2; };
struct World { Fem f; int N = 1; double dt = 1, gamma = 0.5, beta = 0.25; std::vector<LD> rho, ra, rb; std::array<std::array<LD, 3>, 4> init {} /* ux uy vx vy: a + b x - c y */; bool uniform = true, shape = true; std::vector<Crit> c; std::vector<std::string> want; };
struct Hist { std::vector<Vec> u, v, a; };
typedef Plato::HyperbolicProblem<Plato::Hyperbolic::Mechanics<2>> Problem;
static std::vector<Vec> rows(const Plato::ScalarMultiVector& m) { std::vector<Vec> r(m.extent(0), Vec(m.extent(1))); for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r[i].size(); j++) r[i][j] = m(i, j); return r; }
static Plato::ScalarMultiVector view(const std::vector<Vec>& r) { Plato::ScalarMultiVector m("kept", r.size(), r[0].size()); for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r[i].size(); j++) m(i, j) = r[i][j]; return m; }
static Hist hist(const Plato::Solution& s) { return {rows(s.State), rows(s.StateDot), rows(s.StateDotDot)}; }
static std::unique_ptr<Problem> run(Fem& f, Plato::Comm::Machine m) { Teuchos::ParameterList pl(f.pl); return std::unique_ptr<Problem>(new Problem(f.mesh, f.sets, pl, m)); }
static LD pw(const Crit& c, LD rho) { return c.pen == 0 ? c.pmin + (1 - c.pmin) * powl(rho, c.p) : c.pmin + (1 - c.pmin) * rho / (1 + c.p * (1 - rho)); }
static void make(World& w, Rng& r) {
  Fem& f = w.f; Opts o; o.maxn = 2; o.nopenalty = false; o.mask = 1 << ME; o.pde = "Hyperbolic"; o.bcs = "Displacement Boundary Conditions"; o.timed = true; o.nonlinear = false; make_problem(f, r, o); Teuchos::ParameterList& P = f.pl;
  for (auto& L : f.loads) if (L.kind == 1) w.shape = false; if (!f.bodies.empty()) w.shape = false;
  w.N = r.range(1, 5); w.gamma = r.chance(0.4) ? 0.5 : rnd(r.uni(0.5, 1), 3); w.beta = r.chance(0.4) ? 0.25 : rnd(r.uni(0.15, 0.5), 3); double wave = 0; for (int b = 0; b < f.nb; b++) wave = std::max(wave, (double)f.mat[b].D[0][0]); w.dt = rnd(std::pow(10.0, r.uni(-1.5, 1)) / std::sqrt(wave), 3);
  Teuchos::ParameterList& T = P.sublist("Time Integration"); T.set<int>("Number Time Steps", w.N); T.set<double>("Time Step", w.dt); T.set<double>("Newmark Gamma", w.gamma); T.set<double>("Newmark Beta", w.beta);
  int damp = r.chance(0.5) ? 0 : r.range(1, 3); for (int b = 0; b < f.nb; b++) { Teuchos::ParameterList& m = P.sublist("Material Models").sublist(str("Material %d", b)); Teuchos::ParameterList& l = m.isSublist("Cubic Linear Elastic") ? m.sublist("Cubic Linear Elastic") : m.sublist("Isotropic Linear Elastic"); bool d = r.chance(0.7); w.rho.push_back(d ? rnd(r.uni(0.3, 3)) : 1); w.ra.push_back(0); w.rb.push_back(0); if (d) l.set<double>("Mass Density", (double)w.rho[b]); if (r.chance(0.75)) { if (damp & 1) { w.ra[b] = rnd(r.uni(0.05, 1) / w.dt); l.set<double>("RayleighA", (double)w.ra[b]); } if (damp & 2) { w.rb[b] = rnd(r.uni(0.05, 1) * w.dt); l.set<double>("RayleighB", (double)w.rb[b]); } } }
  if (r.chance(0.7)) { static const char* const nm[4] = {"Displacement X", "Displacement Y", "Velocity X", "Velocity Y"}; bool uni = r.chance(0.5); for (int d = 0; d < 4; d++) if (r.chance(0.6)) { auto& a = w.init[d]; a[0] = fix4(r.uni(0, 0.5)); if (!uni) { a[1] = fix4(r.uni(0, 0.3)); a[2] = fix4(r.uni(0, 0.3)); w.uniform = false; } std::string cf = str("field %d", d); P.sublist("Computed Fields").sublist(cf).set<std::string>("Function", num(a[0]) + "+" + num(a[1]) + "*x-" + num(a[2]) + "*y"); P.sublist("Initial State").sublist(nm[d]).set<std::string>("Computed Field", cf); } }
  if (r.chance(0.5)) { for (auto n : {"strain", "stress", "velgrad"}) if (r.chance(0.6) && (std::string(n) != "velgrad" || damp)) w.want.push_back(n); if (!w.want.empty()) { Teuchos::Array<std::string> a; for (auto& n : w.want) a.push_back(n); P.sublist("Hyperbolic").set("Plottable", a); } }
  Teuchos::ParameterList& C = P.sublist("Criteria"); int n = r.range(1, 3); for (int i = 0; i < n; i++) { Crit c; c.name = str("criterion %d", i); Teuchos::ParameterList& l = C.sublist(c.name); c.k = (CK)r.below(2); l.set<std::string>("Type", "Scalar Function"); l.set<std::string>("Scalar Function Type", c.k == NORM ? "Stress P-Norm" : "Internal Elastic Energy"); if (c.k == NORM) { c.e = r.range(2, 6); l.set<double>("Exponent", c.e); }
    c.pen = (int)r.below(2); c.p = c.pen == 0 ? r.range(1, 3) : rnd(r.uni(0, 4), 3); c.pmin = r.chance(0.5) ? 0 : rnd(r.uni(0, 0.3), 3); Teuchos::ParameterList q; q.set<std::string>("Type", c.pen == 0 ? "SIMP" : "RAMP"); q.set<double>("Exponent", (double)c.p); q.set<double>("Minimum Value", (double)c.pmin); l.set("Penalty Function", q); w.c.push_back(c); }
  P.sublist("Linear Solver").set<bool>("Divergence is Fatal", true);
}
static void strain(const Fem& f, const ElemRef& q, const Vec& u, int e, LD s[3], LD& mag) { s[0] = s[1] = s[2] = mag = 0; for (int i = 0; i < 3; i++) { int n = f.ev[3 * e + i]; LD a = u[2 * n], b = u[2 * n + 1]; s[0] += a * q.g[i][0]; s[1] += b * q.g[i][1]; s[2] += a * q.g[i][1] + b * q.g[i][0]; mag += (fabsl(a) + fabsl(b)) * (fabsl(q.g[i][0]) + fabsl(q.g[i][1])); } }
static void stress(const Fem& f, const Mat& m, const LD s[3], LD t[3]) { for (int i = 0; i < 3; i++) { t[i] = 0; for (int j = 0; j < 3; j++) t[i] += m.D[i][j] * s[j]; } }
static std::vector<Ref> resid(const World& w, const Hist& h, int k, double time, const Vec& z) {
  Fem f = w.f; f.t = time; const Vec &u = h.u[k], &v = h.v[k], &a = h.a[k]; std::vector<Ref> R = residual(f, u, z);
  for (int e = 0; e < f.ne; e++) { ElemRef q = elem(f, u, z, e); const int* n = &f.ev[3 * e]; int b = f.blk[e]; LD c[2] = {0, 0}, ca[2] = {0, 0}; for (int i = 0; i < 3; i++) for (int d = 0; d < 2; d++) { LD x = a[2 * n[i] + d], y = w.ra[b] * v[2 * n[i] + d], rnd = (fabsl(u[2 * n[i] + d]) + fabsl(h.u[k - 1][2 * n[i] + d]) + w.dt * fabsl(h.v[k - 1][2 * n[i] + d])) / (w.beta * w.dt * w.dt); c[d] += (x + y) / 3; ca[d] += (fabsl(x) + fabsl(y) + 1e-4L * rnd) / 3; }
    LD m = w.rho[b] * q.w * q.A / 3, s[3], t[3], mag; strain(f, q, v, e, s, mag); stress(f, f.mat[b], s, t); for (int i = 0; i < 3; i++) { for (int d = 0; d < 2; d++) { Ref& o = R[2 * n[i] + d]; o.v += m * c[d]; o.a += m * ca[d]; } LD W = q.w * q.A * w.rb[b]; R[2 * n[i]].v += W * (t[0] * q.g[i][0] + t[2] * q.g[i][1]); R[2 * n[i] + 1].v += W * (t[1] * q.g[i][1] + t[2] * q.g[i][0]); LD am = W * mag * (fabsl(q.g[i][0]) + fabsl(q.g[i][1])) * (fabsl(f.mat[b].D[0][0]) + fabsl(f.mat[b].D[0][1]) + fabsl(f.mat[b].D[2][2])); R[2 * n[i]].a += am; R[2 * n[i] + 1].a += am; } }
  return R;
}
static void check(Sim& s, const World& w, const Hist& h, const Vec& z) {
  const Fem& f = w.f; size_t n = (size_t)f.nv * 2; s.check((int)h.u.size() == w.N && (int)h.v.size() == w.N && (int)h.a.size() == w.N && h.u[0].size() == n && h.v[0].size() == n && h.a[0].size() == n, "history", "a history of the wrong size");
  for (size_t i = 0; i < n; i++) { LD x = f.x[2 * (i / 2)], y = f.x[2 * (i / 2) + 1]; for (int q = 0; q < 2; q++) { auto& a = w.init[2 * q + i % 2]; near1(s, "initial", (q ? h.v : h.u)[0][i], (double)(a[0] + a[1] * x - a[2] * y), 1, str("initial %s of node %zu component %zu", q ? "velocity" : "displacement", i / 2, i % 2).c_str(), 1e-12); } s.check(h.a[0][i] == 0, "initial", "an initial acceleration that is not zero"); }
  double time = 0; for (int k = 1; k < w.N; k++) { time += w.dt; const Vec &u = h.u[k], &v = h.v[k], &a = h.a[k], &u0 = h.u[k - 1], &v0 = h.v[k - 1], &a0 = h.a[k - 1]; std::vector<char> fixed(n, 0); LD dt = w.dt, be = w.beta, ga = w.gamma;
    for (auto& b : f.bc) { fixed[b.first] = 1; LD t = b.second + f.bct.at(b.first) * time; near1(s, "prescribed", u[b.first], (double)t, 1, str("step %d: prescribed value of node %d component %d", k, b.first / 2, b.first % 2).c_str(), 1e-11); }
    for (size_t i = 0; i < n; i++) { LD U = u0[i] + dt * v0[i] + dt * dt / 2 * ((1 - 2 * be) * a0[i] + 2 * be * a[i]), mu = fabsl(u[i]) + fabsl(u0[i]) + dt * fabsl(v0[i]) + dt * dt * (fabsl(a0[i]) + fabsl(a[i])); if (!(fabsl(u[i] - U) <= 1e-10L * (mu + 1))) s.fail("newmark", str("step %d: node %zu component %zu is displaced by %.12g, Newmark's rule gives %.12Lg", k, i / 2, i % 2, u[i], U));
      LD V = v0[i] + dt * ((1 - ga) * a0[i] + ga * a[i]), mv = fabsl(v[i]) + fabsl(v0[i]) + dt * (fabsl(a0[i]) + fabsl(a[i])) + mu / dt; if (!(fabsl(v[i] - V) <= 1e-10L * mv)) s.fail("newmark", str("step %d: node %zu component %zu moves at %.12g, Newmark's rule gives %.12Lg", k, i / 2, i % 2, v[i], V)); }
    std::vector<Ref> R = resid(w, h, k, time, z); LD sc = 0; for (auto& q : R) sc = std::max(sc, q.a); for (size_t i = 0; i < n; i++) if (!fixed[i] && !(fabsl(R[i].v) <= 1e-8L * (R[i].a + sc) + 1e-290L)) s.fail("balance", str("step %d of %d: node %zu component %zu is out of balance by %.6Lg (terms up to %.6Lg)", k, w.N, i / 2, i % 2, R[i].v, R[i].a)); s.evaluated(n); s.hash(u.data(), u.size() * 8); }
}
static bool damped(const World& w, int b) { return w.ra[b] != 0 || w.rb[b] != 0; }
static void fields(Sim& s, const World& w, Plato::DataMap& m, const Hist& h, const Vec& z) {
  const Fem& f = w.f; if (w.want.empty()) return; s.check((int)m.stateDataMaps.size() == w.N, "output", str("%zu outputs kept for %d steps", m.stateDataMaps.size(), w.N)); for (int k = 0; k < w.N; k++) for (auto& nm : w.want) { auto& d = m.stateDataMaps[k]; bool any = nm != "velgrad"; for (int b = 0; b < f.nb; b++) any = any || damped(w, b); if (!any) continue; if (!d.scalarMultiVectors.count(nm)) s.fail("output", "requested field '" + nm + "' is missing"); auto g = d.scalarMultiVectors[nm]; s.check((int)g.extent(0) == f.ne && (int)g.extent(1) == 3, "output", str("field '%s' of %zux%zu values for %d elements", nm.c_str(), (size_t)g.extent(0), (size_t)g.extent(1), f.ne)); Vec got = from_view2(g); std::vector<Ref> ref((size_t)f.ne * 3);
    for (int e = 0; e < f.ne; e++) { int b = f.blk[e]; ElemRef q = elem(f, h.u[k], z, e); LD sv[3], tv[3], mv, su[3], mu; strain(f, q, h.v[k], e, sv, mv); strain(f, q, h.u[k], e, su, mu); stress(f, f.mat[b], sv, tv); for (int i = 0; i < 3; i++) { Ref& o = ref[(size_t)e * 3 + i]; if (nm == "velgrad" && !damped(w, b)) { o.v = got[(size_t)e * 3 + i]; continue; } if (nm == "strain") { o.v = su[i]; o.a = mu; } else if (nm == "velgrad") { o.v = sv[i]; o.a = mv; } else { o.v = q.w * (q.stress[i] + w.rb[b] * tv[i]); o.a = q.w * (q.sa[i] + w.rb[b] * mv * (f.mat[b].D[0][0] + fabsl(f.mat[b].D[0][1]) + f.mat[b].D[2][2])); } } } near(s, "output", got, ref, str("step %d: output '%s'", k, nm.c_str()).c_str(), 1e-9); s.cover("output " + nm); }
}
static LD value(const World& w, const Crit& c, const Hist& h, const Vec& z) { const Fem& f = w.f; LD v = 0; for (int k = 1; k < w.N; k++) for (int e = 0; e < f.ne; e++) { ElemRef q = elem(f, h.u[k], z, e); LD x = pw(c, q.rho), s = 0; for (int i = 0; i < 3; i++) s += c.k == ENERGY ? x * q.stress[i] * q.strain[i] : x * x * q.stress[i] * q.stress[i]; v += q.A * (c.k == ENERGY ? s : powl(s, c.e / 2)); } return c.k == NORM ? powl(v, 1 / (LD)c.e) : v; }
static bool smooth(const World& w, const Crit& c, const Hist& h, const Vec& z) { if (c.k == ENERGY || w.N < 2) return c.k == ENERGY; const Fem& f = w.f; LD m = 0, lo = 1e300L; for (int k = 1; k < w.N; k++) for (int e = 0; e < f.ne; e++) { ElemRef q = elem(f, h.u[k], z, e); LD s = 0; for (int i = 0; i < 3; i++) s += fabsl(q.stress[i]); m = std::max(m, s); lo = std::min(lo, s); } return m > 1e-6L && lo > 1e-3L * m; }
static Vec density(Rng& r, int n) { Vec z(n); int k = (int)r.below(3); for (auto& x : z) x = k == 0 ? 0.9 : r.uni(0.4, 1); return z; }
static LD rate(World& w, const Crit& c, const Vec& z, const Vec& dir, bool shape, double len, LD stiff, LD& err) {
  SerialScope serial; LD top = 0; Plato::Comm::Machine machine; auto at = [&](double h) -> LD { Vec zz = z; Fem g = w.f; if (shape) { for (size_t i = 0; i < g.x.size(); i++) g.x[i] += h * dir[i]; g.mesh = Omega_h::Mesh(); g.mesh.build(2, g.ev, g.x); } else for (size_t i = 0; i < zz.size(); i++) zz[i] += h * dir[i]; auto P = run(g, machine); auto Z = to_view(zz, "z"); auto q = P->solution(Z); LD v = P->criterionValue(Z, q, c.name); top = std::max(top, fabsl(v)); return v; };
  auto fd = [&](double h) { return (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h); }; LD best = 0; err = 1e300L; for (int i = 0; i < 3; i++, len /= 8) { LD a = fd(len), b = fd(len / 2), noise = (1e-12L * top + 1e-14L * stiff) / len, q = fabsl(a - b); if (q + noise < err) { err = q + noise; best = b; } if (q <= 1e-5L * fabsl(b) + noise) break; } return best;
}
void harness_episode(Sim& s) {
  World w; Fem& f = w.f; Rng g = s.w; make(w, g); amgx_reset(); Plato::Comm::Machine machine; std::unique_ptr<Problem> PP; try { PP = run(f, machine); } catch (const std::exception& e) { s.fail("refused", str("the problem is refused: %.300s", e.what())); } Problem* P = PP.get();
  if (g.chance(0.1)) { SerialScope serial; Fem q = f; q.pl = Teuchos::ParameterList(f.pl); static const char* const no[] = {"Acceleration X", "Displacement Z", "Velocity Z", "velocity x"}; q.pl.sublist("Computed Fields").sublist("stray field").set<std::string>("Function", "1.0"); q.pl.sublist("Initial State").sublist(no[g.below(4)]).set<std::string>("Computed Field", "stray field"); bool threw = false; try { run(q, machine); } catch (const std::exception&) { threw = true; } if (!threw) s.fail("accepted", "an initial value of a component the model does not have is accepted"); s.cover("unknown initial component refused"); }
  double stiff = 1; for (auto& m : f.mat) for (int i = 0; i < 3; i++) stiff = std::max(stiff, (double)m.D[i][i]); s.cover(str("steps=%d blocks=%d penalty=%d damping=%d", w.N, f.nb, f.pen, damped(w, 0) + 2 * damped(w, f.nb - 1))); int steps = g.range(2, 5); Vec z, kz; Hist h, kh; bool have = false, kept = false; for (int k = 0; k < steps; k++) {
    if (!s.step("transient")) continue; Rng& r = s.w; bool bad = s.faulty && k + 1 < steps && r.chance(0.5); int alloc = s.faulty && !bad && k + 1 < steps && r.chance(0.2);
    auto guard = [&](const char* what, std::function<void()> fn, bool solves) { uint64_t n0 = amgx_badsolves(); bool done = false, threw = false; std::string msg; if (bad && solves) amgx_rates(0, 0.15, 0.15); try { if (alloc) done = alloc_fault(s, 0.5, 400, fn); else { fn(); done = true; } } catch (const SolverAbort&) { threw = true; } catch (const std::exception& e) { threw = true; msg = e.what(); } amgx_rates(0, 0, 0); bool hit = amgx_badsolves() > n0; if (threw && !hit && !alloc) s.fail("refused", str("%s failed: %.300s", what, msg.c_str())); if (done && hit) s.fail("unreported", str("a linear solve failed during %s, which returned as if it had succeeded", what)); return done; };
    if (!have || r.chance(0.5)) { if (have && r.chance(0.6)) { kz = z; kh = h; kept = true; } z = density(r, f.nv); auto Z = to_view(z, "control"); have = guard("the analysis", [&] { h = hist(P->solution(Z)); }, true); s.simtime(w.dt * (w.N - 1)); s.cover(have ? "analysis returned" : bad ? "analysis reported failure" : "allocation failed"); if (!have) continue; check(s, w, h, z); fields(s, w, P->mDataMap, h, z); same(s, "inputs", from_view(Z), z, "the control after an analysis"); }
    const Crit& c = w.c[r.below(w.c.size())]; bool old = kept && r.chance(0.4); const Hist& H = old ? kh : h; const Vec& y = old ? kz : z; auto Z = to_view(y, "control"); bool own = r.chance(0.5) && !old; Plato::Solution S = old ? Plato::Solution(view(kh.u), view(kh.v), view(kh.a)) : P->getGlobalSolution();
    if (old && r.chance(0.3)) { P->setGlobalSolution(S); own = true; h = kh; z = kz; s.cover("solution put back"); } std::unique_ptr<Problem> Q; Problem* X = P; if (r.chance(0.15)) { SerialScope serial; Q = run(f, machine); X = Q.get(); Plato::Solution S2(view(H.u), view(H.v), view(H.a)); X->setGlobalSolution(S2); s.cover("history given to a fresh problem"); } int op = (int)r.below(3);
    if (op == 0) { double v = 0; if (!guard("a criterion value", [&] { v = own ? X->criterionValue(Z, c.name) : X->criterionValue(Z, S, c.name); }, false)) continue; LD ref = value(w, c, H, y); s.evaluated(); near1(s, "value", v, (double)ref, std::fabs((double)ref) + 1e-5 * stiff, str("%s", ckn[c.k]).c_str(), 1e-7); s.cover(str("value %s%s", ckn[c.k], old ? " of an earlier history" : "")); s.hash(v); continue; }
    bool shape = op == 2; if (!smooth(w, c, H, y) || (shape && (!w.uniform || !w.shape))) continue; Vec gr; bool ok = guard("a criterion gradient", [&] { gr = from_view(shape ? (own ? X->criterionGradientX(Z, c.name) : X->criterionGradientX(Z, S, c.name)) : own ? X->criterionGradient(Z, c.name) : X->criterionGradient(Z, S, c.name)); }, true);
    { Hist q = hist(P->getGlobalSolution()); for (int i = 0; i < w.N; i++) { same(s, "state", q.u[i], h.u[i], "the displacement after a gradient"); same(s, "state", q.v[i], h.v[i], "the velocity after a gradient"); same(s, "state", q.a[i], h.a[i], "the acceleration after a gradient"); } } if (!ok) continue; same(s, "inputs", from_view(Z), y, "the control after a gradient"); size_t n = shape ? f.x.size() : y.size(); s.check(gr.size() == n, "size", str("gradient of %zu entries instead of %zu", gr.size(), n));
    Vec dir(n, 0); if (r.chance(0.5)) dir[r.below(n)] = 1; else for (auto& d : dir) d = r.uni(-1, 1); double hmin = 1e300; for (int e = 0; e < f.ne; e++) hmin = std::min(hmin, (double)sqrtl(elem(f, H.u[0], y, e).A)); LD err = 0, fd = rate(w, c, y, dir, shape, shape ? 2e-3 * hmin : 4e-3, stiff, err), got = 0, mag = 0; for (size_t i = 0; i < n; i++) { got += (LD)gr[i] * dir[i]; mag += fabsl((LD)gr[i] * dir[i]); } s.evaluated();
    if (err > 1e-3L * (fabsl(fd) + mag)) { s.cover("too curved for differences"); continue; } const char* kind = shape ? "shape" : "design"; s.cover(str("gradient %s %s%s", kind, ckn[c.k], old ? " of an earlier history" : "")); s.hash((double)got);
    if (!(fabsl(got - fd) <= 1e-5L * (fabsl(fd) + mag) + 8 * err + 1e-10L * stiff)) s.fail(str("%s-gradient", kind).c_str(), str("%d steps: along a direction the %s gradient of the %s criterion%s is %.12Lg, the repeated analysis changes at the rate %.12Lg (+-%.1Lg)", w.N, kind, ckn[c.k], old ? " of an earlier history" : "", got, fd, err));
  }
}
}
