// Criteria of whole static analyses: values are those of the state and design they are given, and gradients are the rates at which the
// criterion changes when the design or the node positions change and the analysis is repeated; for every history, schedule and failed solve.
#include "fem.hpp"
namespace psim {
const HarnessInfo harness = {"P21", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); std::cout.setstate(std::ios::failbit); }
int harness_episodes(Rng& r) { return 1; }
enum CK { ENERGY, NORM, VOLUME, SOLUTION, SUM, DIVISION, SQUARES, OTHER, EFFECTIVE };
static const char* const ckn[] = {"energy", "norm", "volume", "solution", "weighted sum", "division", "least squares", "other", "effective energy"};
struct Crit { std::string name; CK k; int pen = 0; LD p = 1, pmin = 0; bool linear = false, mag = false, norm = false; double e = 2; int ns = 1; Vec nrm; IVec kid; Vec w, gold; };
struct World { Fem f; std::vector<Crit> c; bool self = false; };
static LD pw(const Crit& c, LD rho) { return c.pen == 0 ? c.pmin + (1 - c.pmin) * powl(rho, c.p) : c.pmin + (1 - c.pmin) * rho / (1 + c.p * (1 - rho)); }
static LD value(const World& w, const Crit& c, const Vec& u, const Vec& z) {
  const Fem& f = w.f; LD v = 0;
  switch (c.k) {
    case EFFECTIVE: for (int e = 0; e < f.ne; e++) { ElemRef q = elem(f, u, z, e); for (int i = 0; i < 3; i++) v += pw(c, q.rho) * q.A * (q.pre[i] - q.stress[i]) * c.nrm[i]; } return v;
    case ENERGY: case NORM: case VOLUME: for (int e = 0; e < f.ne; e++) { ElemRef q = elem(f, u, z, e); LD x = pw(c, q.rho); if (c.k == VOLUME) v += x * q.A; else if (c.k == ENERGY) { LD s = 0, t = 0; for (int i = 0; i < 3; i++) s += q.stress[i] * q.strain[i]; for (int d = 0; d < 2; d++) t += q.flux[d] * q.grad[d]; v += x * q.A * (f.ph == TH ? -t : f.ph == ME ? 0.5L * s : f.ph == TM ? s + t : s - t); }
      else { LD s = 0; if (f.ph == TH) for (int d = 0; d < 2; d++) s += x * x * q.flux[d] * q.flux[d]; else for (int i = 0; i < 3; i++) s += x * x * q.stress[i] * q.stress[i]; v += powl(s, c.e / 2) * q.A; } } return c.k == NORM ? powl(v, 1 / (LD)c.e) : v;
    case SOLUTION: for (int n : f.nset[c.ns]) { LD s = 0; for (int d = 0; d < f.B; d++) { LD t = c.nrm[d] * (LD)u[n * f.B + d]; s += c.mag ? t * t : t; } v += c.mag ? sqrtl(s) : s; } return v / f.nset[c.ns].size();
    case SUM: for (size_t i = 0; i < c.kid.size(); i++) v += c.w[i] * value(w, w.c[c.kid[i]], u, z); return v;
    case DIVISION: return value(w, w.c[c.kid[0]], u, z) / value(w, w.c[c.kid[1]], u, z);
    case SQUARES: for (size_t i = 0; i < c.kid.size(); i++) { LD g = c.gold[i], n = fabs(c.gold[i]) > 0.1 ? fabsl(g) : 1, d = (value(w, w.c[c.kid[i]], u, z) - g) / n; v += c.w[i] * d * d; } return v;
    default: return NAN;
  }
}
static bool normalised(const World& w, const Crit& c) { if (c.norm) return true; for (int i : c.kid) if (normalised(w, w.c[i])) return true; return false; }   // scaled by the mass of the initial mesh: a constant
static bool valued(const World& w, const Crit& c) { if (c.k == OTHER) return false; for (int i : c.kid) if (!valued(w, w.c[i])) return false; return true; }
static bool defined(const World& w, const Crit& c, const Vec& u, const Vec& z) { for (int i : c.kid) if (!defined(w, w.c[i], u, z)) return false; if (c.k == DIVISION) { const Crit& d = w.c[c.kid[1]]; if (!valued(w, d) || !(fabsl(value(w, d, u, z)) > 1e-3L)) return false; } return true; }
static bool smooth(const World& w, const Crit& c, const Vec& u, const Vec& z) {
  for (int i : c.kid) if (!smooth(w, w.c[i], u, z)) return false; const Fem& f = w.f;
  if (c.k == NORM || c.k == OTHER) { LD m = 0, lo = 1e300L; for (int e = 0; e < f.ne; e++) { ElemRef q = elem(f, u, z, e); LD s = 0; if (f.ph == TH) for (int d = 0; d < 2; d++) s += fabsl(q.flux[d]); else for (int i = 0; i < 3; i++) s += fabsl(q.stress[i]); m = std::max(m, s); lo = std::min(lo, s); } if (!(m > 1e-6L) || lo < 1e-3L * m) return false; }
  if (c.k == SOLUTION && c.mag) { std::set<int> fx; for (auto& b : f.bc) fx.insert(b.first); LD m = 0; for (double x : u) m = std::max(m, (LD)fabs(x)); for (int n : f.nset[c.ns]) { LD s = 0; bool fixed = true; for (int d = 0; d < f.B; d++) { LD t = c.nrm[d] * (LD)u[n * f.B + d]; s += t * t; if (c.nrm[d] != 0) fixed &= fx.count(n * f.B + d) > 0; } if (!fixed && sqrtl(s) < 1e-2L * m) return false; } }
  return defined(w, c, u, z);
}
static void criteria(World& w, Rng& r) {
  Fem& f = w.f; Teuchos::ParameterList& C = f.pl.sublist("Criteria"); auto pens = [&](Crit& c, Teuchos::ParameterList& l, bool same) { c.pen = same ? f.pen : (int)r.below(2); c.p = same ? f.p : c.pen == 0 ? r.range(1, 3) : rnd(r.uni(0, 4), 3); c.pmin = same ? f.pmin : r.chance(0.5) ? 0 : rnd(r.uni(0, 0.3), 3); Teuchos::ParameterList q; q.set<std::string>("Type", c.pen == 0 ? "SIMP" : "RAMP"); q.set<double>("Exponent", (double)c.p); q.set<double>("Minimum Value", (double)c.pmin); l.set("Penalty Function", q); };
  static const char* const energy[4] = {"Internal Thermal Energy", "Internal Elastic Energy", "Internal Thermoelastic Energy", "Internal Electroelastic Energy"};
  int n = r.range(1, 4); for (int i = 0; i < n; i++) { Crit c; c.name = str("criterion %d", i); Teuchos::ParameterList& l = C.sublist(c.name); int k = w.self ? 0 : (int)r.below(f.cell >= 0 ? 6 : 5);
    if (k == 4 && f.ph != ME) k = 0; if (k == 1 && f.ph == TM) k = 2;   // the thermomechanical p-norm is not provided for static analyses
    if (k == 0) { c.k = ENERGY; l.set<std::string>("Type", "Scalar Function"); l.set<std::string>("Scalar Function Type", energy[f.ph]); pens(c, l, w.self); }
    else if (k == 1) { c.k = NORM; c.e = r.range(2, 8); l.set<std::string>("Type", "Scalar Function"); l.set<std::string>("Scalar Function Type", f.ph == TH ? "Flux P-Norm" : "Stress P-Norm"); l.set<double>("Exponent", c.e); pens(c, l, false); }
    else if (k == 2) { c.k = VOLUME; c.linear = true; l.set<std::string>("Type", "Scalar Function"); l.set<std::string>("Scalar Function Type", "Volume"); l.set<bool>("Linear", true); pens(c, l, false); }
    else if (k == 3) { c.k = SOLUTION; l.set<std::string>("Type", "Solution"); c.ns = r.range(1, 3); l.set<std::string>("Domain", str("ns_%d", c.ns)); c.mag = r.chance(0.4); if (c.mag || r.chance(0.3)) l.set<bool>("Magnitude", c.mag); if (f.B == 1 && r.chance(0.5)) c.nrm = Vec(1, 1.0); else { Teuchos::Array<double> a; for (int d = 0; d < f.B; d++) { c.nrm.push_back(r.chance(0.3) ? 0 : rnd(r.uni(-1, 1))); } int m = r.chance(0.8) ? f.B : r.range(1, f.B + 1); for (int d = 0; d < m; d++) a.push_back(d < f.B ? c.nrm[d] : 9.0); for (int d = m; d < f.B; d++) c.nrm[d] = 0; l.set("Normal", a); } }
    else if (k == 5) { c.k = EFFECTIVE; l.set<std::string>("Type", "Scalar Function"); l.set<std::string>("Scalar Function Type", "Effective Energy"); Teuchos::Array<double> a; for (int j = 0; j < 3; j++) { c.nrm.push_back(r.chance(0.3) ? 0 : rnd(r.uni(-1, 1))); a.push_back(c.nrm[j]); } l.set("Assumed Strain", a); pens(c, l, r.chance(0.3)); }
    else { c.k = OTHER; l.set<std::string>("Type", "Scalar Function"); c.norm = r.chance(0.5); l.set<std::string>("Scalar Function Type", c.norm ? "Stress Constraint General" : "Stress Constraint Quadratic"); l.set<double>("Stress Limit", rnd(r.uni(0.2, 1))); l.set<double>("Local Measure Limit", rnd(r.uni(0.2, 1))); l.set<std::string>("Local Measure", "VonMises"); pens(c, l, false); }
    w.c.push_back(c); }
  if (w.self) return; IVec kids; for (size_t i = 0; i < w.c.size(); i++) if (!w.c[i].linear) kids.push_back((int)i); if (kids.empty()) return;
  for (int i = 0, m = (int)r.below(3); i < m; i++) { Crit c; c.name = str("combined %d", i); Teuchos::ParameterList& l = C.sublist(c.name); int k = (int)r.below(3); auto pick = [&] { return kids[r.below(kids.size())]; }; c.k = k == 0 ? SUM : k == 1 ? DIVISION : SQUARES;
    if (k == 1) { c.kid = {pick(), pick()}; l.set<std::string>("Type", "Division"); l.set<std::string>("Numerator", w.c[c.kid[0]].name); l.set<std::string>("Denominator", w.c[c.kid[1]].name); }
    else { Teuchos::Array<std::string> nm; Teuchos::Array<double> wt, gd; for (int j = 0, q = r.range(1, 3); j < q; j++) { c.kid.push_back(pick()); c.w.push_back(rnd(r.uni(-1, 2))); c.gold.push_back(r.chance(0.3) ? rnd(r.uni(-0.05, 0.05)) : rnd(r.uni(-2, 2))); nm.push_back(w.c[c.kid.back()].name); wt.push_back(c.w.back()); gd.push_back(c.gold.back()); } l.set<std::string>("Type", k == 0 ? "Weighted Sum" : "Least Squares"); l.set("Functions", nm); l.set("Weights", wt); if (k == 2) l.set("Gold Values", gd); }
    w.c.push_back(c); kids.push_back((int)w.c.size() - 1); }
}
static Vec density(Rng& r, int n) { Vec z(n); int k = (int)r.below(3); for (auto& x : z) x = k == 0 ? 0.9 : r.uni(0.4, 1); return z; }
static Fem moved(const Fem& f, const Vec& x) { Fem g = f; g.x = x; g.mesh = Omega_h::Mesh(); g.mesh.build(2, g.ev, g.x); return g; }
// five-point difference of the repeated analysis along a direction; err: how far two step sizes disagree, plus the rounding of the values
static LD rate(World& w, const Crit& c, const Vec& z, const Vec& dir, bool shape, double len, LD stiff, LD& err) {
  SerialScope serial; LD top = 0; Plato::Comm::Machine machine; std::unique_ptr<Prob> P; if (!shape) P.reset(new Prob(w.f, machine)); auto at = [&](double h) -> LD { Vec zz = z; Fem g; if (shape) { Vec x = w.f.x; for (size_t i = 0; i < x.size(); i++) x[i] += h * dir[i]; g = moved(w.f, x); P.reset(); P.reset(new Prob(g, machine)); } else for (size_t i = 0; i < zz.size(); i++) zz[i] += h * dir[i]; auto Z = to_view(zz, "z"); auto q = P->p->solution(Z); LD v = P->p->criterionValue(Z, q, c.name); top = std::max(top, fabsl(v)); if (shape) P.reset(); return v; };
  auto fd = [&](double h) { return (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h); }; LD best = 0; err = 1e300L; for (int i = 0; i < 3; i++, len /= 8) { LD a = fd(len), b = fd(len / 2), noise = (1e-12L * top + 1e-14L * stiff) / len, q = fabsl(a - b); if (q + noise < err) { err = q + noise; best = b; } if (q <= 1e-5L * fabsl(b) + noise) break; } return best;
}
// magnitude of the terms whose sum a combined criterion's rate is (they may cancel)
static LD terms(World& w, Prob& P, const Plato::Solution& S, const Crit& c, const Vec& z, const Vec& dir, bool shape, double len, LD stiff) {
  if (c.kid.empty()) { LD e; return fabsl(rate(w, c, z, dir, shape, len, stiff, e)); }
  auto Z = to_view(z, "z"); Vec v, t; for (int i : c.kid) { v.push_back(P.p->criterionValue(Z, S, w.c[i].name)); t.push_back((double)terms(w, P, S, w.c[i], z, dir, shape, len, stiff)); } LD m = 0;
  if (c.k == DIVISION) return t[0] / fabsl(v[1]) + fabsl(v[0]) * t[1] / ((LD)v[1] * v[1]);
  for (size_t i = 0; i < t.size(); i++) { LD g = c.k == SQUARES ? c.gold[i] : 0, n = fabsl(g) > 0.1L ? fabsl(g) : 1; m += fabsl(c.w[i]) * t[i] * (c.k == SUM ? 1 : 2 * (fabsl(v[i]) + fabsl(g)) / (n * n)); } return m;
}
void harness_episode(Sim& s) {
  World w; Fem& f = w.f; Rng g = s.w; Opts o; o.maxn = 2; o.nopenalty = false; w.self = g.chance(0.15); if (g.chance(0.6)) o.bodies = o.pressure = false; if (w.self) { o.bodies = o.prescribed = o.nonlinear = false; } o.cell = !w.self; make_problem(f, g, o); if (f.ph > ME) w.self = false; if (w.self) f.pl.set<bool>("Self-Adjoint", true);
  criteria(w, g); amgx_reset(); f.pl.sublist("Linear Solver").set<bool>("Divergence is Fatal", true); Plato::Comm::Machine machine; std::unique_ptr<Prob> PP; try { PP.reset(new Prob(f, machine)); } catch (const std::exception& e) { s.fail("refused", str("%s: the problem is refused: %.300s", physName[f.ph], e.what())); } Prob& P = *PP;
  for (auto& c : w.c) s.check(P.p->criterionIsLinear(c.name) == c.linear, "kind", "criterion '" + c.name + "' of the wrong kind");
  double stiff = 1; for (auto& m : f.mat) for (int i = 0; i < 3; i++) if (f.ph != TH) stiff = std::max(stiff, (double)m.D[i][i]); int steps = g.range(2, 5); Vec z, u; bool have = false; for (int k = 0; k < steps; k++) {
    if (!s.step("criterion")) continue; Rng& r = s.w; bool bad = s.faulty && k + 1 < steps && r.chance(0.5); int alloc = s.faulty && !bad && k + 1 < steps && r.chance(0.2);
    auto guard = [&](const char* what, std::function<void()> fn, bool solves) { uint64_t n0 = amgx_badsolves(); bool done = false, threw = false; std::string msg; if (bad && solves) amgx_rates(0, 0.3, 0.3); try { if (alloc) done = alloc_fault(s, 0.5, 400, fn); else { fn(); done = true; } } catch (const SolverAbort&) { threw = true; } catch (const std::exception& e) { threw = true; msg = e.what(); } amgx_rates(0, 0, 0); bool hit = amgx_badsolves() > n0; if (threw && !hit && !alloc) s.fail("refused", str("%s: %s failed: %.300s", physName[f.ph], what, msg.c_str())); if (done && hit) s.fail("unreported", str("%s: a linear solve failed during %s, which returned as if it had succeeded", physName[f.ph], what)); return done; };
    if (!have || r.chance(0.5)) { z = density(r, f.nv); auto Z = to_view(z, "control"); have = guard("the analysis", [&] { u = from_view2(P.p->solution(Z).State); }, true); s.simtime(1); if (!have) continue; }
    auto Z = to_view(z, "control"); const Crit& c = w.c[r.below(w.c.size())]; if (!defined(w, c, u, z)) { s.cover("not defined here"); continue; } int op = (int)r.below(4); bool lag = false; for (auto& x : w.c) lag |= x.k == OTHER; if (lag && op == 3) op = 0; Plato::Solution S = P.p->getGlobalSolution(); LD ref = valued(w, c) ? value(w, c, u, z) : NAN;
    if (op == 3) { Vec got; if (!guard("updating the problem", [&] { P.p->updateProblem(Z, S); }, false)) continue; }
    if (op == 0 || op == 3) { double v = 0; bool own = r.chance(0.5); if (!guard("a criterion value", [&] { v = own ? P.p->criterionValue(Z, c.name) : P.p->criterionValue(Z, S, c.name); }, false)) continue; s.evaluated(); if (!std::isnan((double)ref)) near1(s, "value", v, (double)ref, std::fabs((double)ref) + 1e-5 * stiff, str("%s: %s", physName[f.ph], ckn[c.k]).c_str(), 1e-7); s.cover(str("value %s %s", physName[f.ph], ckn[c.k])); s.hash(v); continue; }
    bool shape = op == 2; if (shape && (w.self || normalised(w, c))) continue; if (!smooth(w, c, u, z) || !mild(f, z)) { s.cover("not differentiable here"); continue; }
    Vec gr; bool own = r.chance(0.5); if (!guard("a criterion gradient", [&] { gr = from_view(shape ? (own ? P.p->criterionGradientX(Z, c.name) : P.p->criterionGradientX(Z, S, c.name)) : own ? P.p->criterionGradient(Z, c.name) : P.p->criterionGradient(Z, S, c.name)); }, true)) { same(s, "state", from_view2(P.p->getGlobalSolution().State), u, "the state after a failed gradient"); continue; }
    same(s, "state", from_view2(S.State), u, "the state after a gradient"); same(s, "inputs", from_view(Z), z, "the control after a gradient"); size_t n = shape ? f.x.size() : z.size(); s.check(gr.size() == n, "size", str("gradient of %zu entries instead of %zu", gr.size(), n));
    Vec dir(n, 0); if (r.chance(0.5)) dir[r.below(n)] = 1; else for (auto& d : dir) d = r.uni(-1, 1); double hmin = 1e300; for (int e = 0; e < f.ne; e++) { ElemRef q = elem(f, u, z, e); hmin = std::min(hmin, (double)sqrtl(q.A)); } LD err = 0, fd = rate(w, c, z, dir, shape, shape ? 2e-3 * hmin : 4e-3, stiff, err), got = 0, mag = 0; for (size_t i = 0; i < n; i++) { got += (LD)gr[i] * dir[i]; mag += fabsl((LD)gr[i] * dir[i]); } s.evaluated();
    if (err > 1e-3L * (fabsl(fd) + mag)) { s.cover("too curved for differences"); continue; } LD tol = 1e-5L * (fabsl(fd) + mag) + 8 * err + 1e-10L; const char* kind = shape ? "shape" : "design"; s.cover(str("gradient %s %s %s%s%s", kind, physName[f.ph], ckn[c.k], w.self ? " self-adjoint" : "", f.bodies.empty() ? "" : " body loads")); s.hash((double)got);
    if (!(fabsl(got - fd) <= tol) && !c.kid.empty() && fabsl(got - fd) <= 1e-2L) { SerialScope serial; tol += 1e-5L * terms(w, P, S, c, z, dir, shape, shape ? 2e-3 * hmin : 4e-3, stiff); }
    if (!(fabsl(got - fd) <= tol)) { bool press = false; for (auto& l : f.loads) press |= l.kind == 1; if (shape && !f.bodies.empty() && s.known("body-load-shape-gradient")) continue; if (shape && press && s.known("pressure-shape-gradient")) continue; s.fail(str("%s-gradient", kind).c_str(), str("%s%s%s: along a direction the %s gradient of the %s criterion is %.12Lg, the repeated analysis changes at the rate %.12Lg (+-%.1Lg)", physName[f.ph], f.bodies.empty() ? "" : " with body loads", press ? " with pressure loads" : "", kind, ckn[c.k], got, fd, err)); }
  }
}
}
