// Rocket burn history: over any history of parameter changes, solves (some ended by a failing geometry or allocation), outputs through a
// faulty disk and re-initialisations, the recorded burn is the quasi-steady pressure balance of the burning geometry, step by step.
#include "cells.hpp"
#include <Plato_AlgebraicRocketModel.hpp>
#include <Plato_Cylinder.hpp>
#include <Plato_RocketMocks.hpp>
#include <stdexcept>
namespace psim {
const HarnessInfo harness = {"P12", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); }
int harness_episodes(Rng& r) { return 1 + (int)r.below(2); }
static const LD PI = acosl(-1.0L);
// A burning geometry driven by the simulator: mass rates follow a seeded sequence, calls are recorded, any call may fail.
struct Scripted : Plato::GeometryModel {
  std::vector<double> rate; size_t at = 0; std::vector<std::array<double, 2>> evolved; long calls = 0, failAt = -1; int outputs = 0; bool massAsked = false, misuse = false; int steps = 0;
  void tick() { if (++calls == failAt) throw std::runtime_error("geometry failed"); }
  Plato::Scalar area() override { return 1; }
  Plato::Scalar referenceMassProductionRate() override { tick(); massAsked = true; return rate[std::min(at, rate.size() - 1)]; }
  void output(bool) override { outputs++; }
  void gradient(std::vector<Plato::Scalar>&) override {}
  void initialize(const Plato::ProblemParams& p) override { steps = p.mNumTimeSteps; at = 0; }
  void updateGeometry(const Plato::ProblemParams&) override {}
  void evolveGeometry(const Plato::Scalar dt, const Plato::Scalar m) override { tick(); if (!massAsked) misuse = true; massAsked = false; evolved.push_back({dt, m}); at++; }
};
struct Phys { double alpha, pref, at, cs, amb, dt, total, tol; size_t maxit; int n; };
static LD balance(const Phys& p, LD mdot) { LD A = PI * p.at * p.at / 4; return powl(mdot * p.cs / (A * powl(p.pref, p.alpha)), 1 / (1 - (LD)p.alpha)); }
static LD mdot_for(const Phys& p, LD P) { LD A = PI * p.at * p.at / 4; return powl(P, 1 - (LD)p.alpha) * A * powl(p.pref, p.alpha) / p.cs; }
static void times(Rng& r, Phys& p) { p.dt = r.chance(0.4) ? 0.1 : r.uni(0.01, 0.5); p.n = r.chance(0.03) ? r.range(26, 300) : r.range(1, 25); static const double fr[] = {0, 0, 0.1, 0.5, 0.9}; p.total = (p.n - fr[r.below(5)]) * p.dt; p.tol = r.chance(0.6) ? 1e-8 : std::pow(10.0, -r.range(4, 9)) ; }
static Phys phys(Rng& r) { Phys p; p.alpha = r.chance(0.3) ? 0.38 : r.uni(0.1, 0.7); p.pref = r.uni(0.5e6, 8e6); p.at = r.uni(0.01, 0.1); p.cs = r.uni(900, 2000); p.amb = r.chance(0.3) ? 0 : r.uni(0, r.chance(0.2) ? 5e6 : 2e5); p.maxit = 1000; times(r, p); return p; }
static void defaults(Sim& s) { Plato::AlgebraicRocketInputs i; s.evaluated(); s.check(i.mAlpha == 0.38 && i.mDeltaTime == 0.1 && i.mRefPressure == 3.5e6 && i.mTotalBurnTime == 10 && i.mThroatDiameter == 0.04 && i.mNewtonTolerance == 1e-8 && i.mAmbientPressure == 101.325 && i.mCharacteristicVelocity == 1554.5 && i.mNumTimeSteps == 100 && i.mMaxNumNewtonItr == 1000, "defaults", "default inputs changed"); }
static void profile(Sim& s, const Phys& p, Plato::AlgebraicRocketModel& m, const std::vector<LD>& mdots, const char* what) {   // recorded burn = balance of these mass rates
  auto t = m.getTimeProfile(), f = m.getThrustProfile(), q = m.getPressuresProfile(); s.evaluated(3 * p.n);
  if ((int)t.size() != p.n || f.size() != t.size() || q.size() != t.size()) s.fail("length", str("%s: %zu times, %zu thrusts and %zu pressures recorded, expected %d (burn time %.17g, step %.17g)", what, t.size(), f.size(), q.size(), p.n, p.total, p.dt));
  LD A = PI * p.at * p.at / 4;
  for (int k = 0; k < p.n; k++) { LD P = k ? balance(p, mdots[k - 1]) : (LD)p.pref, T = k ? 269.0L * 9.8L * A * (P - p.amb) / p.cs : 0;
    if (!close(t[k], (double)(k * (LD)p.dt), p.dt, 1e-11)) s.fail("time", str("%s: instant %d is %.17g with step %.17g", what, k, t[k], p.dt));
    if (!close(q[k], (double)P, 0, k ? 1e-8 : 0)) s.fail("pressure", str("%s: pressure at instant %d is %.17g, balance gives %.17g", what, k, q[k], (double)P));
    if (!close(f[k], (double)T, (double)(269.0L * 9.8L * A * (P + p.amb) / p.cs), 1e-8)) s.fail("thrust", str("%s: thrust at instant %d is %.17g, expected %.17g", what, k, f[k], (double)T)); }
  s.hash(q.data(), 8 * q.size());
}
static std::vector<std::string> lines(const std::string& t) { std::vector<std::string> o; std::istringstream in(t); std::string l; while (std::getline(in, l)) if (l.find_first_not_of(" \t\r") != std::string::npos) o.push_back(l); return o; }
static void file_is(Sim& s, const std::string& text, const std::vector<double>& f, const char* when) {
  auto ls = lines(text); s.evaluated(f.size()); if (ls.size() != f.size()) s.fail("file", str("%s: thrust file has %zu values for %zu instants", when, ls.size(), f.size()));
  for (size_t i = 0; i < f.size(); i++) { char* e; double v = strtod(ls[i].c_str(), &e); if (*e || !close(v, f[i], 0, 6e-6)) s.fail("file", str("%s: thrust %zu is %.17g in memory and '%s' in the file", when, i, f[i], ls[i].c_str())); }
}
static void output(Sim& s, Plato::AlgebraicRocketModel& m, Scripted* g) {
  Rng& r = s.w; auto f = m.getThrustProfile(); double rate = 0; if (s.fault(F_WRITE_EIO, 0.6)) rate = r.uni(0.02, 0.5); IoScope io(0); if (r.chance(0.5)) fs_put("thrust_profile.txt", "stale\n1\n2\n3\n4\n5\n6\n7\n"); std::string before; bool had = fs_get("thrust_profile.txt", &before);
  if (r.chance(0.15)) { int o = g ? g->outputs : 0; m.output(false); m.output(); std::string now; bool has = fs_get("thrust_profile.txt", &now); s.check(has == had && now == before && (!g || g->outputs == o), "silent", "an output was written although none was asked for"); }
  io_rate(rate); bool threw = false; try { m.output(true); } catch (const std::exception&) { threw = true; } uint64_t fatal = io_count(F_OPEN) + io_count(F_WRITE_EIO) + io_count(F_ENOSPC) + io_count(F_CLOSE_ERR); io_rate(0); s.evaluated();
  if (threw && !fatal) s.fail("spurious", "writing the thrust profile failed on a healthy disk"); if (!threw) { std::string t; fs_get("thrust_profile.txt", &t); file_is(s, t, f, fatal ? "output reported complete on a failing disk" : "output"); }
  if (io_open_files()) s.fail("open", "the thrust file stays open"); s.cover(str("output %s%s", threw ? "refused" : "written", fatal ? " with disk faults" : "")); if (g && !threw && !g->outputs) s.fail("geometry-output", "the geometry was not asked for its output");
  if (threw) { m.output(true); std::string t; fs_get("thrust_profile.txt", &t); file_is(s, t, f, "output after the disk recovered"); }
}
static void change(Sim& s, Rng& r, Phys& p, Plato::AlgebraicRocketModel& m) {
  Phys q = phys(r); switch (r.below(7)) { case 0: p.alpha = q.alpha; m.setBurnRateExponent(p.alpha); break; case 1: p.pref = q.pref; m.setRefPressure(p.pref); break; case 2: p.at = q.at; m.setThroatDiameter(p.at); break; case 3: p.cs = q.cs; m.setCharacteristicVelocity(p.cs); break; case 4: p.amb = q.amb; m.setAmbientPressure(p.amb); break;
    case 5: p.maxit = r.range(200, 2000); m.setMaxNumIterations(p.maxit); break; default: { double tol = p.tol; times(r, p); p.tol = tol; m.setBurnTimeStep(p.dt); m.setTotalBurnTime(p.total); } }
}
static Plato::AlgebraicRocketInputs inputs(const Phys& p) { Plato::AlgebraicRocketInputs i; i.mAlpha = p.alpha; i.mDeltaTime = p.dt; i.mRefPressure = p.pref; i.mTotalBurnTime = p.total; i.mThroatDiameter = p.at; i.mNewtonTolerance = p.tol; i.mAmbientPressure = p.amb; i.mCharacteristicVelocity = p.cs; i.mMaxNumNewtonItr = p.maxit; return i; }
static void scripted(Sim& s) {
  Rng& w = s.w; Phys p = phys(w); auto g = std::make_shared<Scripted>(); Plato::AlgebraicRocketModel m(inputs(p), g); m.disableOutput(); int hist = w.range(1, 6); bool solved = false;
  for (int h = 0; h < hist; h++) {
    if (!s.step("burn")) continue; Rng& r = s.w; if (r.chance(0.5)) { int c = r.range(1, 3); while (c--) change(s, r, p, m); }
    LD lim = 0.9L / powl(p.alpha, 1 / (1 - (LD)p.alpha)); LD P = p.pref; g->rate.clear(); std::vector<LD> md; for (int k = 0; k < p.n + 2; k++) { LD f = r.chance(0.3) ? 1 : r.uni(0.3, std::min(2.0, (double)lim)); P = P * f; if (P > 3e7L) P = 3e7L; if (P < 2e5L) P = 2e5L; double v = (double)mdot_for(p, P); g->rate.push_back(v); md.push_back(v); }
    g->at = 0; g->evolved.clear(); g->calls = 0; g->failAt = -1; g->misuse = g->massAsked = false; Plato::ProblemParams pp; pp.mNumTimeSteps = -7; m.initialize(pp); s.check(g->steps == pp.mNumTimeSteps && std::fabs(g->steps - p.total / p.dt) < 1.0000001, "steps", str("%d steps announced for a burn of %.17g with step %.17g", g->steps, p.total, p.dt));
    uint64_t k = 0; bool threw = false; if (s.fault(F_CRASH, 0.3, 2 * p.n + 2, &k)) g->failAt = (long)k + 1; bool done;
    done = alloc_fault(s, g->failAt > 0 ? 0.0 : 0.15, 12, [&] { try { m.solve(); } catch (const std::runtime_error&) { threw = true; } }); s.simtime(p.n * p.dt);
    bool shouldFail = g->failAt > 0 && g->failAt <= 2 * p.n; if (threw && g->failAt < 0) s.fail("spurious", "a burn with a healthy geometry was refused"); if (done && !threw && shouldFail) s.fail("swallowed", "a failing geometry did not end the burn");
    if (!done || threw) { s.cover(str("interrupted burn %s", threw ? "by geometry" : "by allocation")); solved = false; continue; }
    profile(s, p, m, md, "burn"); if (g->misuse || (int)g->evolved.size() != p.n) s.fail("evolution", str("the geometry was evolved %zu times over %d instants%s", g->evolved.size(), p.n, g->misuse ? ", or without asking its mass rate" : ""));
    for (int j = 0; j < p.n; j++) { LD b = powl(balance(p, md[j]) / p.pref, p.alpha); if (!close(g->evolved[j][1], (double)b, 0, 1e-8) || !close(g->evolved[j][0], p.dt, 0, 1e-13)) s.fail("evolution", str("step %d evolved the geometry by %.17g with multiplier %.17g, expected %.17g with %.17g", j, g->evolved[j][0], g->evolved[j][1], p.dt, (double)b)); }
    solved = true; s.cover(str("burn n=%s alpha=%s", szc(p.n), p.alpha == 0.38 ? "default" : p.alpha < 0.38 ? "low" : "high"));
    if (solved && r.chance(0.4)) { g->outputs = 0; output(s, m, g.get()); profile(s, p, m, md, "burn after output"); }
  }
}
static void cylinder(Sim& s) {
  Rng& w = s.w; Phys p = phys(w); p.alpha = w.uni(0.1, 0.5); auto c = std::make_shared<Plato::Cylinder>(); Plato::AlgebraicRocketModel m(inputs(p), c); m.disableOutput(); LD R = 0, L = 0, rate = 0, rho = 1744; int hist = w.range(1, 5); bool init = false;
  auto geom = [&](const char* when, double tol) { LD A = 2 * PI * R * L; near1(s, "radius", c->radius(), (double)R, 0, when, tol); near1(s, "length-of-cylinder", c->length(), (double)L, 0, when, 0); near1(s, "area", c->area(), (double)A, 0, when, tol); near1(s, "mass-rate", c->referenceMassProductionRate(), (double)(rate * rho * A), 0, when, tol); std::vector<double> g(2, 7.0); c->gradient(g); near1(s, "gradient", g[0], (double)(2 * PI * L), 0, "dArea/dRadius", 1e-13); near1(s, "gradient", g[1], (double)(2 * PI * R), 0, "dArea/dLength", tol); };
  for (int h = 0; h < hist; h++) {
    if (!s.step("cylinder")) continue; Rng& r = s.w;
    if (!init || r.chance(0.5)) { LD target = p.pref * r.uni(0.4, 1.6); double len = r.uni(0.2, 2), rad = r.uni(0.02, 0.3); LD md = mdot_for(p, target); Plato::ProblemParams q; q.mPropellantDensity = r.chance(0.5) ? 1744 : r.uni(800, 2500); double rt = (double)(md / (q.mPropellantDensity * 2 * PI * rad * len)); double dens = q.mPropellantDensity; q = r.chance(0.5) ? Plato::RocketMocks::set_constant_burn_rate_problem(rad * 10, len, rad, rt) : Plato::RocketMocks::set_linear_burn_rate_problem(rad * 10, len, rad, rt, r.uni(0, 1)); s.check(q.mPropellantDensity == 1744 && q.mGeometry.size() == 3 && q.mRefBurnRate.size() == 2 && q.mGeometry[0] == rad * 10 && q.mGeometry[1] == len && q.mGeometry[2] == rad && q.mRefBurnRate[0] == rt, "problem", "problem parameters are not those given"); q.mPropellantDensity = dens; m.initialize(q); R = rad; L = len; rate = rt; rho = dens; init = true; geom("after initialisation", 1e-12); }
    if (r.chance(0.2)) { double mul = r.uni(0, 2), dt = r.uni(0, 0.5); c->evolveGeometry(dt, mul); R += mul * rate * dt; geom("after an evolution", 1e-9); }
    // reference burn; only when it stays where the balance has the solution the model looks for
    std::vector<LD> md; LD P = p.pref; bool ok = true; LD R2 = R, lim = 0.9L / powl(p.alpha, 1 / (1 - (LD)p.alpha)); for (int k = 0; k < p.n; k++) { LD x = rate * rho * 2 * PI * R2 * L; md.push_back(x); LD n = balance(p, x); if (n > P * lim || n > 1e9L || n < 1e4L) ok = false; P = n; R2 += powl(P / p.pref, p.alpha) * rate * p.dt; } if (!ok) { s.cover("cylinder outside the balance"); continue; }
    if (r.chance(0.2)) { change(s, r, p, m); init = false; continue; }
    m.solve(); s.simtime(p.n * p.dt); R = R2; profile(s, p, m, md, "cylinder burn"); geom("after the burn", 1e-8); s.cover(str("cylinder burn n=%s %s", szc(p.n), h ? "again" : "first")); if (r.chance(0.3)) output(s, m, nullptr);
  }
}
static void degenerate(Sim& s) {   // absurd physics: the burn still ends, with one record per instant
  if (!s.step("degenerate")) return; Rng& r = s.w; Phys p = phys(r); auto g = std::make_shared<Scripted>(); for (int k = 0; k < p.n + 1; k++) g->rate.push_back(r.chance(0.3) ? 0 : r.chance(0.2) ? NAN : r.chance(0.2) ? -1 : r.value()); if (r.chance(0.3)) p.alpha = 1; if (r.chance(0.2)) p.alpha = r.uni(1, 3); p.maxit = r.range(0, 50); Plato::AlgebraicRocketModel m(inputs(p), g); m.disableOutput(); m.solve(); s.simtime(p.n * p.dt);
  s.evaluated(); if ((int)m.getTimeProfile().size() != p.n || (int)g->evolved.size() != p.n || m.getThrustProfile().size() != m.getTimeProfile().size()) s.fail("length", str("%zu instants recorded and %zu evolutions for %d steps", m.getTimeProfile().size(), g->evolved.size(), p.n)); s.cover("degenerate physics");
}
void harness_episode(Sim& s) { defaults(s); double c = s.w.uni(); if (c < 0.55) scripted(s); else if (c < 0.9) cylinder(s); else degenerate(s); }
}
