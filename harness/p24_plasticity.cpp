// Elasto-plastic analyses driven by load and displacement in pseudo-time steps: every history a solve returns carries the prescribed values,
// obeys the plasticity law in every cell at every step and balances the discretised equations; criteria are those of the history and their
// gradients are the rates at which they change when the analysis is repeated; for every numbering, schedule, history of calls and failed solve.
#define PSIM_NO_ELLIPTIC
#include "fem.hpp"
#include <PlasticityProblem.hpp>
namespace psim {
const HarnessInfo harness = {"P24", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); std::cout.setstate(std::ios::failbit); }
int harness_episodes(Rng& r) { return 1; }
typedef Plato::PlasticityProblem<Plato::InfinitesimalStrainPlasticity<2>> PP;
typedef Plato::PlasticityProblem<Plato::InfinitesimalStrainThermoPlasticity<2>> PT;   // displacements, temperature, pressure
struct Crit { std::string name; int k /* 0 plastic work, 1 elastic work, 2 weighted sum */; LD p = 1, pmin = 0, add = 0, up = 9, mult = 1; std::vector<int> part; std::vector<LD> wt; };
struct PM { LD G, K, sy, Hi, Hk, ep, emin, pp, pmin, al = 0, tr = 0, k = 0; };
struct World { Fem f; bool th = false, both = true; int po = 2; LD ts = 1; LD scale(int d) const { return d == po ? ps : th && d == 2 ? ts : 1; } std::vector<PM> m; LD ps = 1, add = 0, up = 9, la = 0, lu = 9, pa = 0, pu = 9; int N0 = 1, max = 1; LD mult = 2, T = 1; double tol = 1e-11; std::vector<Crit> c; std::vector<std::string> want; };
struct Hist { std::vector<Vec> u, l; };
static LD simp(LD p, LD m, LD rho) { return m + (1 - m) * powl(rho, p); }
static std::vector<Vec> rows(const Plato::ScalarMultiVector& m) { std::vector<Vec> r(m.extent(0), Vec(m.extent(1))); for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r[i].size(); j++) r[i][j] = m(i, j); return r; }
static Plato::ScalarMultiVector view(const std::vector<Vec>& r) { Plato::ScalarMultiVector m("kept", r.size(), r[0].size()); for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r[i].size(); j++) m(i, j) = r[i][j]; return m; }
struct Run { std::unique_ptr<Plato::AbstractProblem> p; template <class T> void set(Fem& f, Plato::Comm::Machine m) { Teuchos::ParameterList pl(f.pl); std::unique_ptr<T> q(new T(f.mesh, f.sets, pl, m)); q->readEssentialBoundaryConditions(pl); p = std::move(q); } Run(Fem& f, Plato::Comm::Machine m) { if (f.B == 4) set<PT>(f, m); else set<PP>(f, m); } };
static void make(World& w, Rng& r) {
  Fem& f = w.f; f.ph = ME; w.th = r.chance(0.35); f.B = w.th ? 4 : 3; w.po = f.B - 1; make_mesh(f, r, r.range(1, 2), r.range(1, 2)); Teuchos::ParameterList& P = f.pl; P = Teuchos::ParameterList("Plato Problem"); P.set<std::string>("PDE Constraint", "Elliptic"); f.pen = 0; f.p = r.range(1, 3); f.pmin = r.chance(0.5) ? 1e-9 : rnd(r.uni(0.001, 0.3), 3);
  Teuchos::ParameterList& pf = P.sublist("Elliptic").sublist("Penalty Function"); pf.set<std::string>("Type", "SIMP"); pf.set<double>("Exponent", (double)f.p); pf.set<double>("Minimum Value", (double)f.pmin); w.add = rnd(r.uni(0, 0.6), 3); w.up = rnd(r.uni(2, 4), 3); if (w.up < f.p) w.up = f.p; pf.set<double>("Additive Continuation", (double)w.add); pf.set<double>("Penalty Exponent Upper Bound", (double)w.up);
  Teuchos::ParameterList& D = P.sublist("Spatial Model").sublist("Domains"); for (int b = 0; b < f.nb; b++) { Teuchos::ParameterList& d = D.sublist(str("Domain %d", b)); d.set<std::string>("Element Block", str("block_%d", b)); d.set<std::string>("Material Model", str("Material %d", b)); }
  double es = std::pow(10.0, r.range(0, 3)); Teuchos::ParameterList& MM = P.sublist("Material Models"); if (r.chance(0.6)) { w.ps = rnd(es * r.uni(0.3, 2)); MM.set<double>("Pressure Scaling", (double)w.ps); } if (w.th && r.chance(0.6)) { w.ts = rnd(std::pow(10.0, r.uni(-1, 2)), 3); MM.set<double>("Temperature Scaling", (double)w.ts); w.both = r.chance(0.7); } double tm = std::pow(10.0, r.range(0, 2)); f.mat.assign(f.nb, Mat()); w.la = rnd(r.uni(0, 0.6), 3); w.lu = rnd(r.uni(3, 4), 3); w.pa = rnd(r.uni(0, 0.6), 3); w.pu = rnd(r.uni(3, 4), 3);
  for (int b = 0; b < f.nb; b++) { PM q; LD E = rnd(es * r.uni(0.5, 2)), nu = rnd(r.uni(0.1, 0.45), 3); q.G = E / (2 * (1 + nu)); q.K = E / (3 * (1 - 2 * nu)); q.sy = rnd(es * std::pow(10.0, r.uni(-2.5, -0.7)), 3); q.Hi = rnd(es * std::pow(10.0, r.uni(-3, 0)), 3); q.Hk = r.chance(0.3) ? 0 : rnd(es * r.uni(0.01, 1), 3); bool tie = r.chance(0.6); q.ep = tie ? f.p : (LD)r.range(1, 3); q.emin = tie ? f.pmin : (LD)rnd(r.uni(0.001, 0.3), 3); q.pp = r.chance(0.3) ? 0.5L : (LD)rnd(r.uni(0.3, 2.5), 3); q.pmin = rnd(r.uni(0.0001, 0.2), 3);
    Teuchos::ParameterList& M = MM.sublist(str("Material %d", b)); if (w.th) { q.al = r.chance(0.1) ? 0 : rnd(0.01 / tm * r.uni(0.1, 1), 3); q.tr = r.chance(0.3) ? 0 : rnd(tm * r.uni(-1, 1), 3); q.k = rnd(es * 0.1 / tm * r.uni(0.2, 2), 3); if (w.ts != 1 && w.both) M.set<double>("Temperature Scaling", (double)w.ts); } Teuchos::ParameterList& el = M.sublist(w.th ? "Isotropic Linear Thermoelastic" : "Isotropic Linear Elastic"); if (w.th) { el.set<double>("Thermal Expansion Coefficient", (double)q.al); el.set<double>("Reference Temperature", (double)q.tr); el.set<double>("Thermal Conductivity Coefficient", (double)q.k); } el.set<double>("Poissons Ratio", (double)nu); el.set<double>("Youngs Modulus", (double)E); Teuchos::ParameterList& j = M.sublist("Plasticity Model").sublist("J2 Plasticity"); j.set<double>("Hardening Modulus Isotropic", (double)q.Hi); j.set<double>("Hardening Modulus Kinematic", (double)q.Hk); j.set<double>("Initial Yield Stress", (double)q.sy); j.set<double>("Elastic Properties Penalty Exponent", (double)q.ep); j.set<double>("Elastic Properties Minimum Ersatz", (double)q.emin); j.set<double>("Plastic Properties Penalty Exponent", (double)q.pp); j.set<double>("Plastic Properties Minimum Ersatz", (double)q.pmin); j.set<double>("Elastic Properties Additive Continuation", (double)w.la); j.set<double>("Elastic Properties Penalty Exponent Upper Bound", (double)w.lu); j.set<double>("Plastic Properties Additive Continuation", (double)w.pa); j.set<double>("Plastic Properties Penalty Exponent Upper Bound", (double)w.pu); w.m.push_back(q); }
  w.N0 = r.range(1, 4); w.max = r.chance(0.15) ? std::max(1, w.N0 - 1) : r.chance(0.3) ? w.N0 : r.range(w.N0, w.N0 + 4); w.mult = r.chance(0.7) ? 2 : 1.5; w.T = r.chance(0.6) ? 1 : rnd(r.uni(0.5, 2), 3); Teuchos::ParameterList& T = P.sublist("Time Stepping"); T.set<int>("Initial Num. Pseudo Time Steps", w.N0); T.set<int>("Maximum Num. Pseudo Time Steps", w.max); if (w.T != 1 || r.chance(0.5)) T.set<double>("End Time", (double)w.T); if (w.mult != 2 || r.chance(0.5)) T.set<double>("Expansion Multiplier", (double)w.mult);
  w.tol = 1e-12 * es; Teuchos::ParameterList& N = P.sublist("Newton-Raphson"); N.set<double>("Stopping Tolerance", w.tol); N.set<double>("Current Residual Norm Stopping Tolerance", w.tol); N.set<int>("Maximum Number Iterations", 14); 
  std::map<int, LD> bc; f.bct.clear(); int nbc = 0; Teuchos::ParameterList& EB = P.sublist("Essential Boundary Conditions"); auto fix = [&](int ns, int dof, bool zero) { double un = w.th && dof == 2 ? tm * 50 : 1; Teuchos::ParameterList& l = EB.sublist(str("bc %d", nbc++)); LD v = 0, vt = 0; if (zero) { if (r.chance(0.5)) l.set<std::string>("Type", "Zero Value"); else { l.set<std::string>("Type", "Fixed Value"); l.set<double>("Value", 0.0); } } else if (r.chance(0.75)) { vt = fix4(un * r.uni(0.0005, 0.03)); l.set<std::string>("Type", "Time Dependent"); l.set<std::string>("Function", num(vt) + "*t"); } else { v = rnd(un * r.uni(-0.01, 0.01)); l.set<std::string>("Type", "Fixed Value"); l.set<double>("Value", (double)v); } if (dof || r.chance(0.5)) l.set<int>("Index", dof); l.set<std::string>("Sides", str("ns_%d", ns)); for (int n : f.nset[ns]) { bc[n * f.B + dof] = v; f.bct[n * f.B + dof] = vt; } };
  fix(0, 0, true); fix(0, 1, r.chance(0.8)); for (int d = 0; d < 2; d++) if (r.chance(d ? 0.3 : 0.6)) fix(1, d, r.chance(0.15)); if (r.chance(0.1)) fix(3, w.po, r.chance(0.5)); if (w.th) { fix(0, 2, r.chance(0.2)); if (r.chance(0.4)) fix(1, 2, r.chance(0.15)); } f.bc.assign(bc.begin(), bc.end());
  f.loads.clear(); int nl = (int)r.below(3); for (int i = 0; i < nl; i++) { Load L; L.side = r.range(1, 3); L.comp = 0; L.kind = 0; L.v[0] = L.v[1] = 0; Teuchos::ParameterList& l = P.sublist("Natural Boundary Conditions").sublist("Mechanical Natural Boundary Conditions").sublist(str("load %d", i)); l.set<std::string>("Sides", str("ss_%d", L.side)); double mag = es * 0.02; int k = (int)r.below(3); if (k == 0) { l.set<std::string>("Type", "Uniform"); Teuchos::Array<double> a; for (int d = 0; d < 2; d++) { L.v[d] = rnd(mag * r.uni(-1, 1)); a.push_back((double)L.v[d]); } l.set("Values", a); } else if (k == 1) { L.kind = 1; L.v[0] = L.v[1] = rnd(mag * r.uni(-1, 1)); l.set<std::string>("Type", "Uniform Pressure"); l.set<double>("Value", (double)L.v[0]); } else { int d = (int)r.below(2); L.v[d] = rnd(mag * r.uni(-1, 1)); l.set<std::string>("Type", "Uniform Component"); l.set<double>("Value", (double)L.v[d]); l.set<std::string>("Component", d ? "Y" : "X"); } f.loads.push_back(L); }
  if (w.th && r.chance(0.5)) { Load L; L.side = r.range(2, 3); L.comp = 2; L.kind = 0; L.v[0] = rnd(es * 0.05 * r.uni(-1, 1)); L.v[1] = 0; Teuchos::ParameterList& l = P.sublist("Natural Boundary Conditions").sublist("Thermal Natural Boundary Conditions").sublist("flux"); l.set<std::string>("Sides", str("ss_%d", L.side)); l.set<std::string>("Type", "Uniform"); if (r.chance(0.5)) { Teuchos::Array<double> a; a.push_back((double)L.v[0]); l.set("Values", a); } else l.set<double>("Value", (double)L.v[0]); f.loads.push_back(L); }
  f.bodies.clear(); if (r.chance(0.35)) { Body b; b.dof = (int)r.below(2); LD s = es; b.a = fix4((double)(s * r.uni(0, 0.02))); b.b = fix4((double)(s * r.uni(0, 0.02))); b.c = fix4((double)(s * r.uni(0, 0.02))); Teuchos::ParameterList& l = P.sublist("Body Loads").sublist("body"); if (b.dof || r.chance(0.5)) l.set<int>("Index", b.dof); l.set<std::string>("Function", num(b.a) + "+" + num(b.b) + "*x-" + num(b.c) + "*y"); f.bodies.push_back(b); }
  Teuchos::ParameterList& C = P.sublist("Criteria"); int n = r.range(1, 2); for (int i = 0; i < n; i++) { Crit c; c.name = str("criterion %d", i); c.k = (int)r.below(2); Teuchos::ParameterList& l = C.sublist(c.name); l.set<std::string>("Type", "Scalar Function"); l.set<std::string>("Scalar Function Type", c.k ? "Elastic Work" : "Plastic Work"); if (r.chance(0.4)) { c.mult = rnd(r.uni(-2, 2), 3); l.set<double>("Multiplier", (double)c.mult); } c.p = r.range(1, 3); c.pmin = rnd(r.uni(0, 0.2), 3); c.add = rnd(r.uni(0, 0.6), 3); c.up = rnd(r.uni(3, 4), 3); Teuchos::ParameterList& q = l.sublist("Penalty Function"); q.set<std::string>("Type", "SIMP"); q.set<double>("Exponent", (double)c.p); q.set<double>("Minimum Value", (double)c.pmin); q.set<double>("Additive Continuation", (double)c.add); q.set<double>("Penalty Exponent Upper Bound", (double)c.up); w.c.push_back(c); }
  if (r.chance(0.3)) { Crit c; c.name = "sum"; c.k = 2; Teuchos::Array<std::string> fn; Teuchos::Array<double> wt; for (int i = 0; i < n; i++) { c.part.push_back(i); c.wt.push_back(rnd(r.uni(-2, 2), 3)); fn.push_back(w.c[i].name); wt.push_back((double)c.wt.back()); } Teuchos::ParameterList& l = C.sublist("sum"); l.set<std::string>("Type", "Weighted Sum"); l.set("Functions", fn); l.set("Weights", wt); w.c.push_back(c); }
  if (r.chance(0.4)) { static const char* const nm[] = {"plastic multiplier increment", "accumulated plastic strain", "deviatoric stress", "elastic strain", "plastic strain", "cauchy stress", "backstress", "thermal flux"}; Teuchos::Array<std::string> a; for (auto x : nm) if ((w.th || x[0] != 't') && r.chance(0.4)) { w.want.push_back(x); a.push_back(x); } if (!w.want.empty()) P.sublist("Elliptic").set("Plottable", a); }
  P.sublist("Linear Solver").set<std::string>("Solver Stack", "AmgX"); if (r.chance(0.7)) P.sublist("Linear Solver").set<bool>("Divergence is Fatal", true);
}
struct Cell { LD e[4], s[4], c[4], dp; };          // elastic strain, deviatoric and Cauchy stress with the moduli of weight x
static void stresses(const PM& m, LD x, const LD* e, LD* s, LD* c) { LD tr = e[0] + e[1] + e[3]; for (int i = 0; i < 4; i++) { s[i] = i == 2 ? m.G * x * e[2] : 2 * m.G * x * (e[i] - tr / 3); c[i] = s[i] + (i == 2 ? 0 : m.K * x * tr); } }
static LD temperature(const World& w, const Vec& u, int e) { LD t = 0; if (w.th) for (int i = 0; i < 3; i++) t += (LD)u[w.f.ev[3 * e + i] * 4 + 2] / 3; return t; }
static LD thermal(const World& w, const Vec& u, int e, LD ts) { const PM& m = w.m[w.f.blk[e]]; return w.th ? m.al * (ts * temperature(w, u, e) - m.tr) : 0; }
static void elastic(const ElemRef& q, const double* l, LD th, LD* e) { e[0] = q.strain[0] - l[2] - th; e[1] = q.strain[1] - l[3] - th; e[2] = q.strain[2] - l[4]; e[3] = -(LD)l[5] - th; }
static void check(Sim& s, const World& w, const Hist& h, const Vec& z) {
  const Fem& f = w.f; int N = (int)h.u.size(); int B = f.B, po = w.po; size_t n = (size_t)f.nv * B; s.check(N >= 1 && (int)h.l.size() == N && h.u[0].size() == n && h.l[0].size() == (size_t)f.ne * 10, "history", "a history of the wrong size"); s.check(N <= w.max, "history", str("%d steps returned where at most %d are allowed", N, w.max)); Fem L = f; for (auto& m : L.mat) memset(m.D, 0, sizeof m.D); Vec zero(n, 0), lz((size_t)f.ne * 10, 0); std::vector<LD> pi((size_t)f.nv * 2, 0);
  std::vector<Ref> ext = residual(L, zero, z); int plastic = 0; LD top = 0; for (auto& q : w.m) top = std::max(top, 2 * q.G + q.K);
  for (int k = 0; k < N; k++) { const Vec &u = h.u[k], &l = h.l[k], &l0 = k ? h.l[k - 1] : lz; LD t = w.T * (k + 1) / N; std::vector<char> fixed(n, 0); std::vector<Ref> R(n);
    for (auto& b : f.bc) { fixed[b.first] = 1; LD v = (b.second + f.bct.at(b.first) * t) / w.scale(b.first % B); near1(s, "prescribed", u[b.first], (double)v, 1, str("step %d of %d: prescribed value of node %d component %d", k, N, b.first / B, b.first % B).c_str(), 1e-11); }
    LD es = 0; for (size_t i = 0; i < n; i++) R[i].add(t * ext[i].v); std::vector<LD> np((size_t)f.nv * 2, 0), na(f.nv, 0);
    for (int e = 0; e < f.ne; e++) { ElemRef q = elem(f, u, z, e); const PM& m = w.m[f.blk[e]]; const int* v = &f.ev[3 * e]; const double *lc = &l[(size_t)e * 10], *lp = &l0[(size_t)e * 10]; LD te[4], ts[4], tc[4]; LD th = thermal(w, u, e, w.ts); elastic(q, lp, th, te); LD wl = simp(m.ep, m.emin, q.rho), wp = simp(m.pp, m.pmin, q.rho); LD sa = 0; for (int i = 0; i < 3; i++) sa += (fabsl(u[v[i] * B]) + fabsl(u[v[i] * B + 1])) * (fabsl(q.g[i][0]) + fabsl(q.g[i][1])); for (int i = 2; i < 6; i++) sa += fabsl(lp[i]) + fabsl(lc[i]); if (w.th) { LD ta = 0; for (int i = 0; i < 3; i++) ta += fabsl(u[v[i] * 4 + 2]) / 3; sa += m.al * (w.ts * ta + fabsl(m.tr)); } es = std::max(es, sa);
      // the plasticity law: elastic predictor, radial return
      stresses(m, wl, te, ts, tc); LD d[4], nn = 0; for (int i = 0; i < 4; i++) { d[i] = ts[i] - lp[6 + i]; nn += d[i] * d[i] * (i == 2 ? 2 : 1); } nn = sqrtl(nn); LD yf = sqrtl(1.5L) * nn - wp * (m.sy + m.Hi * lp[0]), mu = 0, unit = 2 * m.G * wl * sa + fabsl(wp * m.sy) + 1e-6L; bool edge = fabsl(yf - 1e-10L) <= 1e-11L * unit; if (yf > 1e-10L) mu = yf / (3 * m.G * wl + wp * (m.Hi + m.Hk)); if (edge) mu = lc[1]; if (mu > 0) plastic++; LD x[10]; x[0] = lp[0] + mu; x[1] = mu; for (int i = 0; i < 4; i++) { x[2 + i] = lp[2 + i] + (mu > 0 ? (i == 2 ? 2 : 1) * sqrtl(1.5L) * mu * d[i] / nn : 0); x[6 + i] = lp[6 + i] + (mu > 0 ? sqrtl(2.0L / 3) * wp * m.Hk * mu * d[i] / nn : 0); }
      for (int i = 0; i < 10; i++) { LD sc = i >= 6 ? (2 * m.G * wl + wp * m.Hk) * sa : sa; if (!(fabsl(lc[i] - x[i]) <= 1e-9L * (sc + fabsl(x[i])) + 1e-14L)) s.fail("plasticity", str("step %d of %d: local state %d of cell %d is %.12g, the plasticity law gives %.12Lg (yield function of the trial state %.3Lg)", k, N, i, e, lc[i], x[i], yf)); } s.evaluated(10);
      // balance
      LD ee[4], ds[4], cs[4]; elastic(q, lc, th, ee); stresses(m, q.w, ee, ds, cs); LD p = 0, gp[2] = {0, 0}, pg[2] = {0, 0}, div = q.strain[0] + q.strain[1] - 3 * th; for (int i = 0; i < 3; i++) { LD pv = u[v[i] * B + po]; p += w.ps * pv / 3; for (int a = 0; a < 2; a++) { gp[a] += w.ps * pv * q.g[i][a]; pg[a] += pi[2 * v[i] + a] / 3; } } LD gt[2] = {0, 0}, at[2] = {0, 0}; if (w.th) for (int i = 0; i < 3; i++) for (int a = 0; a < 2; a++) { LD t = m.k * q.w * w.ts * u[v[i] * 4 + 2] * q.g[i][a]; gt[a] += t; at[a] += fabsl(t); } LD tau = powl(q.A, 2.0L / 3) / (2 * m.G), au = 2 * m.G * q.w * sa, ap = fabsl(p) / (m.K * q.w);
      for (int i = 0; i < 3; i++) { Ref* o = &R[v[i] * B]; LD gx = q.g[i][0], gy = q.g[i][1], ag = fabsl(gx) + fabsl(gy); o[0].v += q.A * (ds[0] * gx + ds[2] * gy + p * gx); o[1].v += q.A * (ds[1] * gy + ds[2] * gx + p * gy); o[po].v += q.A / 3 * w.ps * (div - p / (m.K * q.w)) - q.A * q.w * w.ps * tau * ((gp[0] - pg[0]) * gx + (gp[1] - pg[1]) * gy); o[0].a += q.A * (au + fabsl(p)) * ag; o[1].a += q.A * (au + fabsl(p)) * ag; o[po].a += q.A * w.ps * (sa + ap) + q.A * q.w * w.ps * tau * (fabsl(gp[0]) + fabsl(gp[1]) + fabsl(pg[0]) + fabsl(pg[1])) * ag; if (w.th) { o[2].v += q.A * (gt[0] * gx + gt[1] * gy); o[2].a += q.A * (at[0] * fabsl(gx) + at[1] * fabsl(gy)); } na[v[i]] += q.A / 3; for (int a = 0; a < 2; a++) np[2 * v[i] + a] += q.A / 3 * gp[a]; } }
    std::vector<LD> sc(B, 0); for (size_t i = 0; i < n; i++) sc[i % B] = std::max(sc[i % B], R[i].a); for (size_t i = 0; i < n; i++) if (!fixed[i] && !(fabsl(R[i].v) <= 1e-9L * (R[i].a + sc[i % B]) + 2 * w.tol)) s.fail("balance", str("step %d of %d: node %zu component %zu is out of balance by %.6Lg (terms up to %.6Lg)", k, N, i / B, i % B, R[i].v, R[i].a)); s.evaluated(n); for (int v = 0; v < f.nv; v++) for (int a = 0; a < 2; a++) pi[2 * v + a] = np[2 * v + a] / na[v]; s.hash(u.data(), u.size() * 8); }
  s.cover(str("%s%s", w.th ? "thermo-" : "", plastic ? "plastic flow" : "elastic"));
}
static LD value(const World& w, const Crit& c, const Hist& h, const Vec& z, LD& mag, LD ts) {
  const Fem& f = w.f; LD v = 0; if (c.k == 2) { for (size_t i = 0; i < c.part.size(); i++) { LD m = 0; v += c.wt[i] * value(w, w.c[c.part[i]], h, z, m, ts); mag += fabsl(c.wt[i]) * m; } return v; } int N = (int)h.u.size(); Vec zero((size_t)f.nv * f.B, 0), lz((size_t)f.ne * 10, 0);
  for (int k = 0; k < N; k++) for (int e = 0; e < f.ne; e++) { ElemRef q = elem(f, h.u[k], z, e), q0 = elem(f, k ? h.u[k - 1] : zero, z, e); const double *l = &h.l[k][(size_t)e * 10], *l0 = k ? &h.l[k - 1][(size_t)e * 10] : &lz[(size_t)e * 10]; const PM& m = w.m[f.blk[e]]; LD a[4], b[4], s[4], ca[4], cb[4]; elastic(q, l, thermal(w, h.u[k], e, ts), a); elastic(q0, l0, thermal(w, k ? h.u[k - 1] : zero, e, ts), b); LD x = simp(c.p, c.pmin, q.rho); stresses(m, x, a, s, ca); stresses(m, x, b, s, cb); for (int i = 0; i < 4; i++) { LD d = c.k ? a[i] - b[i] : (LD)l[2 + i] - l0[2 + i], t = (ca[i] + cb[i]) / 2 * d * q.A * c.mult; v += t; mag += fabsl(t); } } return v;
}
static void judge(Sim& s, const World& w, const Crit& c, const Hist& h, const Vec& z, double v, const char* what) {
  LD mag = 0, ref = value(w, c, h, z, mag, w.ts); LD m1 = 0; if (w.th && w.ts != 1 && !w.both && !(fabsl(v - ref) <= 1e-9L * (mag + 1e-16L))) { LD one = value(w, c, h, z, m1, 1); if (fabsl(v - one) <= 1e-9L * (m1 + 1e-16L) && s.known("elastic-work-temperature-scale")) return; } near1(s, "value", v, (double)ref, (double)mag + 1e-16, what, 1e-9);
}
static void fields(Sim& s, const World& w, Plato::DataMap& dm, const Hist& h, const Vec& z) {
  const Fem& f = w.f; if (w.want.empty()) return; int N = (int)h.u.size(); s.check((int)dm.stateDataMaps.size() == N, "output", str("%zu outputs kept for %d steps", dm.stateDataMaps.size(), N));
  for (int k = 0; k < N; k++) for (auto& nm : w.want) { auto& d = dm.stateDataMaps[k]; bool sc = nm == "plastic multiplier increment" || nm == "accumulated plastic strain"; if (sc ? !d.scalarVectors.count(nm) : !d.scalarMultiVectors.count(nm)) s.fail("output", "requested field '" + nm + "' is missing"); Vec got = sc ? from_view(d.scalarVectors[nm]) : from_view2(d.scalarMultiVectors[nm]); int nc = sc ? 1 : nm[0] == 't' ? 2 : 4; s.check(got.size() == (size_t)f.ne * nc, "output", "field '" + nm + "' has the wrong size"); std::vector<Ref> ref((size_t)f.ne * nc);
    for (int e = 0; e < f.ne; e++) { ElemRef q = elem(f, h.u[k], z, e); const double* l = &h.l[k][(size_t)e * 10]; const PM& m = w.m[f.blk[e]]; LD ee[4], ds[4], cs[4], sa = 0; elastic(q, l, thermal(w, h.u[k], e, w.ts), ee); stresses(m, q.w, ee, ds, cs); LD fx[2] = {0, 0}, fa = 0; if (w.th) for (int i = 0; i < 3; i++) for (int a = 0; a < 2; a++) { LD t = -m.k * q.w * w.ts * h.u[k][f.ev[3 * e + i] * 4 + 2] * q.g[i][a]; fx[a] += t; fa += fabsl(t); } if (w.th) sa += m.al * (w.ts * fabsl(temperature(w, h.u[k], e)) + fabsl(m.tr)); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) sa += fabsl(h.u[k][f.ev[3 * e + i] * f.B + j]) * (fabsl(q.g[i][0]) + fabsl(q.g[i][1])); for (int i = 2; i < 6; i++) sa += fabsl(l[i]); for (int i = 0; i < nc; i++) { Ref& o = ref[(size_t)e * nc + i]; LD t = nm[0] == 't' ? fx[i] : sc ? (nm[0] == 'a' ? l[0] : l[1]) : nm[0] == 'd' ? ds[i] : nm[0] == 'e' ? ee[i] : nm[0] == 'p' ? l[2 + i] : nm[0] == 'c' ? cs[i] : l[6 + i]; o.v = t; o.a = fabsl(t) + (nm[0] == 'e' ? sa : nm[0] == 'd' || nm[0] == 'c' ? (2 * m.G + m.K) * q.w * sa : nm[0] == 't' ? fa : 0); } } near(s, "output", got, ref, str("step %d: output '%s'", k, nm.c_str()).c_str(), 1e-9); s.cover("output " + nm); }
}
static Vec density(Rng& r, int n) { Vec z(n); int k = (int)r.below(3); for (auto& x : z) x = k == 0 ? 0.9 : r.uni(0.4, 1); return z; }
static LD rate(World& w, int upd, const Crit& c, const Vec& z, const Vec& dir, bool shape, double len, int N, LD& err) {
  SerialScope serial; LD top = 0; bool ok = true; Plato::Comm::Machine machine; auto at = [&](double h) -> LD { Vec zz = z; Fem g = w.f; if (shape) { for (size_t i = 0; i < g.x.size(); i++) g.x[i] += h * dir[i]; g.mesh = Omega_h::Mesh(); g.mesh.build(2, g.ev, g.x); } else for (size_t i = 0; i < zz.size(); i++) zz[i] += h * dir[i]; Run P(g, machine); auto Z = to_view(zz, "z"); if (upd) { auto q = P.p->getGlobalSolution(); for (int i = 0; i < upd; i++) P.p->updateProblem(Z, q); } auto q = P.p->solution(Z); if ((int)q.State.extent(0) != N) { ok = false; return 0; } LD v = 0; try { v = P.p->criterionValue(Z, q, c.name); } catch (const std::exception&) { ok = false; } top = std::max(top, fabsl(v)); return v; };
  auto fd = [&](double h) { return (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h); }; LD best = 0; err = 1e300L; for (int i = 0; i < 3; i++, len /= 8) { LD a = fd(len), b = fd(len / 2), noise = 1e-11L * top / len, q = fabsl(a - b); if (!ok) { err = 1e300L; return 0; } if (q + noise < err) { err = q + noise; best = b; } if (q <= 1e-5L * fabsl(b) + noise) break; } return best;
}
void harness_episode(Sim& s) {
  World w; Fem& f = w.f; Rng g = s.w; make(w, g); amgx_reset(); Plato::Comm::Machine machine; IoScope io; std::unique_ptr<Run> PPP; try { PPP.reset(new Run(f, machine)); } catch (const std::exception& e) { s.fail("refused", str("the problem is refused: %.300s", e.what())); } Run& P = *PPP; bool fatal = f.pl.sublist("Linear Solver").get<bool>("Divergence is Fatal", false);
  s.cover(str("%ssteps=%d max=%d blocks=%d loads=%zu bodies=%zu scaled=%d", w.th ? "thermal " : "", w.N0, w.max, f.nb, f.loads.size(), f.bodies.size(), w.ps != 1)); int steps = g.range(2, 5), upd = 0, N = std::min(w.N0, w.max); Vec z; Hist h; bool have = false; std::vector<std::pair<Vec, Hist>> kept;
  for (int k = 0; k < steps; k++) {
    if (!s.step("plastic")) continue; Rng& r = s.w; bool bad = s.faulty && k + 1 < steps && r.chance(0.5); int alloc = s.faulty && !bad && k + 1 < steps && r.chance(0.15); double ior = s.faulty && r.chance(0.2) ? 0.2 : 0;
    auto guard = [&](const char* what, std::function<void()> fn, bool solves) { uint64_t n0 = amgx_badsolves(); bool done = false, threw = false; std::string msg; if (bad && solves) amgx_rates(0, 0.04, 0.04); io_rate(ior); try { if (alloc) done = alloc_fault(s, 0.5, 3000, fn); else { fn(); done = true; } } catch (const SolverAbort& e) { threw = true; msg = "the linear solver was refused a system"; } catch (const std::exception& e) { threw = true; msg = e.what(); } io_rate(0); amgx_rates(0, 0, 0); bool hit = amgx_badsolves() > n0; if (threw && !hit && !alloc) s.fail("refused", str("%s failed: %.300s", what, msg.c_str())); if (done && hit && fatal) s.fail("unreported", str("a linear solve failed during %s, which returned as if it had succeeded", what)); return done; };
    if (r.chance(0.12)) { auto Z = to_view(density(r, f.nv), "control"); auto q = P.p->getGlobalSolution(); P.p->updateProblem(Z, q); upd++; have = false; f.p = std::min(f.p + w.add, w.up); for (auto& m : w.m) { m.ep = std::min(m.ep + w.la, w.lu); m.pp = std::min(m.pp + w.pa, w.pu); } for (auto& c : w.c) c.p = std::min(c.p + c.add, c.up); s.cover("continuation"); }
    if (!have || r.chance(0.4)) { if (have) kept.push_back({z, h}); z = density(r, f.nv); auto Z = to_view(z, "control"); have = guard("the analysis", [&] { auto q = P.p->solution(Z); h.u = rows(q.State); h.l = rows(P.p->getLocalState()); }, true); if (!have) { s.cover(bad ? "analysis reported failure" : "allocation failed"); continue; } same(s, "inputs", from_view(Z), z, "the control after an analysis"); s.simtime((int)h.u.size());
      if (bad && !fatal) { have = false; s.cover("bad solves tolerated"); return; } bool unconverged = false; try { P.p->criterionValue(Z, w.c[0].name); } catch (const std::exception&) { unconverged = true; } if (unconverged) { s.check((int)h.u.size() == w.max, "gave-up", str("an analysis gave up after %zu steps although %d are allowed", h.u.size(), w.max)); if (!bad) s.cover("not converged with every step allowed"); else s.cover("not converged after bad solves"); for (auto& c : w.c) { int t = 0; try { P.p->criterionGradient(Z, c.name); t++; } catch (const std::exception&) {} try { P.p->criterionValue(Z, P.p->getGlobalSolution(), c.name); t++; } catch (const std::exception&) {} try { P.p->criterionGradientX(Z, c.name); t++; } catch (const std::exception&) {} if (t) s.fail("unconverged", "an analysis that did not converge is used for a criterion or its gradient"); } return; }
      if ((int)h.u.size() != N) { s.check((int)h.u.size() > N, "history", "fewer steps than asked for"); s.cover(str("steps increased from %d to %zu", N, h.u.size())); N = (int)h.u.size(); kept.clear(); } check(s, w, h, z); fields(s, w, P.p->mDataMap, h, z); s.cover("analysis checked"); }
    const Crit& c = w.c[r.below(w.c.size())]; auto Z = to_view(z, "control"); static const char* const ckn[] = {"plastic work", "elastic work", "weighted sum"}; int op = (int)r.below(4); bool own = r.chance(0.5);
    if (op == 0 && !kept.empty() && r.chance(0.5)) { auto q = kept[r.below(kept.size())]; P.p->setGlobalSolution(Plato::Solution(view(q.second.u))); P.p->setLocalState(view(q.second.l)); auto Zq = to_view(q.first, "control"); double v = P.p->criterionValue(Zq, c.name); judge(s, w, c, q.second, q.first, v, str("%s of a history put back", ckn[c.k]).c_str()); P.p->setGlobalSolution(Plato::Solution(view(h.u))); P.p->setLocalState(view(h.l)); s.cover("history put back"); continue; }
    if (op == 0) { double v = 0; if (!guard("a criterion value", [&] { v = own ? P.p->criterionValue(Z, c.name) : P.p->criterionValue(Z, P.p->getGlobalSolution(), c.name); }, false)) continue; s.evaluated(); judge(s, w, c, h, z, v, ckn[c.k]); s.cover(str("value %s", ckn[c.k])); s.hash(v); continue; }
    if (r.chance(0.1)) { must_throw(s, "refused", "a criterion that is not defined", [&] { P.p->criterionValue(Z, "no such criterion"); }); must_throw(s, "refused", "an empty control", [&] { P.p->solution(Plato::ScalarVector("none", 0)); }); s.cover("undefined criterion"); }
    bool shape = op == 3 && N == 1 && f.loads.empty() && f.bodies.empty();   // see DESIGN.md: with loads or several steps the shape gradient omits terms
     Vec gr; if (!guard("a criterion gradient", [&] { gr = from_view(shape ? (own ? P.p->criterionGradientX(Z, c.name) : P.p->criterionGradientX(Z, P.p->getGlobalSolution(), c.name)) : own ? P.p->criterionGradient(Z, c.name) : P.p->criterionGradient(Z, P.p->getGlobalSolution(), c.name)); }, true)) { std::vector<Vec> q = rows(P.p->getGlobalSolution().State); for (int i = 0; i < N; i++) same(s, "state", q[i], h.u[i], "the state after a failed gradient"); continue; }
    { std::vector<Vec> q = rows(P.p->getGlobalSolution().State), ql = rows(P.p->getLocalState()); for (int i = 0; i < N; i++) { same(s, "state", q[i], h.u[i], "the state after a gradient"); same(s, "state", ql[i], h.l[i], "the local state after a gradient"); } } same(s, "inputs", from_view(Z), z, "the control after a gradient"); size_t n = shape ? f.x.size() : z.size(); s.check(gr.size() == n, "size", str("%s gradient of %zu entries instead of %zu", shape ? "shape" : "design", gr.size(), n)); if (bad && !fatal) continue;
    Vec dir(n, 0); if (r.chance(0.5)) dir[r.below(n)] = 1; else for (auto& d : dir) d = r.uni(-1, 1); double hmin = 1e300; for (int e = 0; e < f.ne; e++) hmin = std::min(hmin, (double)sqrtl(elem(f, h.u[0], z, e).A)); LD err = 0; World w2 = w; LD fd = rate(w2, upd, c, z, dir, shape, shape ? 1e-3 * hmin : 2e-3, N, err), got = 0, mag = 0; for (size_t i = 0; i < n; i++) { got += (LD)gr[i] * dir[i]; mag += fabsl((LD)gr[i] * dir[i]); } s.evaluated();
    if (err > 1e-3L * (fabsl(fd) + mag)) { s.cover("too curved for differences"); continue; } const char* kind = shape ? "shape" : "design"; s.cover(str("gradient %s %s%s", kind, ckn[c.k], f.bodies.empty() ? "" : " with body loads")); s.hash((double)got);
    if (!(fabsl(got - fd) <= 1e-5L * (fabsl(fd) + mag) + 8 * err + 1e-14L)) s.fail(str("%s-gradient", kind).c_str(), str("%d blocks, %d steps, %zu loads, %zu body loads: along a direction the %s gradient of the %s criterion is %.12Lg, the repeated analysis changes at the rate %.12Lg (+-%.1Lg)", f.nb, N, f.loads.size(), f.bodies.size(), kind, ckn[c.k], got, fd, err));
  }
}
}
