// Whole analyses: generated simplex meshes, problem descriptions (parameter lists) and an independent finite element reference.
#pragma once
#include "sparse.hpp"
#include "psim_amgx.hpp"
#include <Omega_h_mesh.hpp>
#include <Omega_h_assoc.hpp>
#include <Teuchos_ParameterList.hpp>
#ifndef PSIM_NO_ELLIPTIC
#include <elliptic/Problem.hpp>
#else
#include <alg/ParallelComm.hpp>
#include <PlatoAbstractProblem.hpp>
#endif
inline Plato::Comm::Machine::Machine() {}   // declared, but not defined, by the code under test: no communicator
namespace psim {
enum Phys { TH, ME, TM, EM };
static const char* const physName[] = {"thermal", "mechanical", "thermomechanical", "electromechanical"};
struct Mat { LD E = 1, nu = 0.3, k[3] = {1, 0, 0} /* conductivity k0 + k1 T */, alpha = 0, tref = 0, scal = 1, e15 = 0, e31 = 0, e33 = 0, p11 = 1, p33 = 1, emAlpha = 1, density = 1; LD D[3][3] = {{0}}; bool aniso = false; };
struct Load { int side; int kind; LD v[3]; int comp; LD vt[3] = {0, 0, 0}; /* rate of change */ };     // kind 0 vector, 1 pressure (normal), comp offset of the first component
struct Body { int dof; LD a, b, c; };
struct Fem {
  Phys ph; int nb = 1, B = 1, pen = 0; LD p = 1, pmin = 0; int nv = 0, ne = 0; Vec x; IVec ev, blk; std::vector<IVec> nset, sset /* face ids */; std::vector<std::vector<std::array<int, 3>>> sface /* v0, v1, element */; std::vector<Mat> mat; std::vector<std::pair<int, LD>> bc;
  std::vector<Load> loads; std::vector<Body> bodies; Omega_h::Mesh mesh; Omega_h::MeshSets sets; Teuchos::ParameterList pl; bool nonlinear = false; int cell = -1 /* homogenisation: which unit strain is imposed */; LD t = 0 /* time at which loads act */; std::map<int, LD> bct /* rates of prescribed values */;
  LD weight(LD rho) const { return pen == 0 ? pmin + (1 - pmin) * powl(rho, p) : pen == 1 ? pmin + (1 - pmin) * rho / (1 + p * (1 - rho)) : 1; }
};
inline Omega_h::LOs los(const IVec& v) { Omega_h::Write<int> w((int)v.size(), "los"); for (size_t i = 0; i < v.size(); i++) w[(int)i] = v[i]; return Omega_h::LOs(w); }
inline IVec shuffled(Rng& r, int n) { IVec p(n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.below(i + 1)]); return p; }
inline double rnd(double v, int digits = 4) { char b[40]; snprintf(b, sizeof b, "%.*g", digits, v); return atof(b); }
inline std::string num(LD v) { char b[60]; snprintf(b, sizeof b, "%.4f", (double)v); return b; }
inline double fix4(double v) { return atof(num(v).c_str()); }
inline Teuchos::ParameterList penalty(const Fem& f) { Teuchos::ParameterList l; l.set<std::string>("Type", f.pen == 0 ? "SIMP" : f.pen == 1 ? "RAMP" : "NoPenalty"); if (f.pen < 2) { l.set<double>("Exponent", (double)f.p); l.set<double>("Minimum Value", (double)f.pmin); } return l; }
inline void make_mesh(Fem& f, Rng& r, int nx, int ny) {
  int NX = nx + 1; f.nv = NX * (ny + 1); IVec vp = r.chance(0.2) ? IVec() : shuffled(r, f.nv); if (vp.empty()) for (int i = 0; i < f.nv; i++) vp.push_back(i); f.x.assign(f.nv * 2, 0); double lx = r.uni(0.5, 2), ly = r.uni(0.5, 2), jit = r.chance(0.3) ? 0 : 0.22;
  for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) { int v = vp[j * NX + i]; f.x[2 * v] = rnd(lx * (i + jit * r.uni(-1, 1)) / nx, 6); f.x[2 * v + 1] = rnd(ly * (j + jit * r.uni(-1, 1)) / ny, 6); }
  std::vector<std::array<int, 3>> t; IVec tb; f.nb = nx > 1 && r.chance(0.5) ? 2 : 1; int split = r.range(1, std::max(1, nx - 1));
  for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { int a = vp[j * NX + i], b = vp[j * NX + i + 1], c = vp[(j + 1) * NX + i + 1], d = vp[(j + 1) * NX + i]; int bl = f.nb == 2 && i >= split; if (r.chance(0.5)) { t.push_back({a, b, c}); t.push_back({a, c, d}); } else { t.push_back({a, b, d}); t.push_back({b, c, d}); } tb.push_back(bl); tb.push_back(bl); }
  IVec ep = shuffled(r, (int)t.size()); f.ev.clear(); f.blk.clear(); for (int e : ep) { int o = (int)r.below(3); for (int k = 0; k < 3; k++) f.ev.push_back(t[e][(k + o) % 3]); f.blk.push_back(tb[e]); } f.ne = (int)t.size();
  f.mesh = Omega_h::Mesh(); f.mesh.build(2, f.ev, f.x);
  auto edge = [&](int which) { IVec n; for (int i = 0; i <= (which < 2 ? ny : nx); i++) n.push_back(which == 0 ? vp[i * NX] : which == 1 ? vp[i * NX + nx] : which == 2 ? vp[i] : vp[ny * NX + i]); return n; };
  f.nset.clear(); f.sset.clear(); f.sface.clear(); for (int w = 0; w < 4; w++) { IVec n = edge(w); std::set<int> in(n.begin(), n.end()); IVec q = shuffled(r, (int)n.size()), m; for (int i : q) m.push_back(n[i]); f.nset.push_back(m);
    IVec ids; std::vector<std::array<int, 3>> fc; for (size_t i = 0; i + 1 < n.size(); i++) for (int s = 0; s < f.mesh.ns; s++) { int a = f.mesh.s2v[2 * s], b = f.mesh.s2v[2 * s + 1]; if ((a == n[i] && b == n[i + 1]) || (b == n[i] && a == n[i + 1])) { ids.push_back(s); fc.push_back({a, b, f.mesh.s2e[f.mesh.s2e_off[s]]}); } }
    f.sset.push_back(ids); f.sface.push_back(fc); }
  std::vector<IVec> eb(f.nb); IVec order = shuffled(r, f.ne); for (int e : order) eb[f.blk[e]].push_back(e); f.sets = Omega_h::MeshSets();
  for (int b = 0; b < f.nb; b++) f.sets[Omega_h::ELEM_SET][str("block_%d", b)] = los(eb[b]); for (int w = 0; w < 4; w++) { f.sets[Omega_h::NODE_SET][str("ns_%d", w)] = los(f.nset[w]); f.sets[Omega_h::SIDE_SET][str("ss_%d", w)] = los(f.sset[w]); }
}
inline void plane_strain(Mat& m) { LD c = m.E / ((1 + m.nu) * (1 - 2 * m.nu)); LD d[3][3] = {{c * (1 - m.nu), c * m.nu, 0}, {c * m.nu, c * (1 - m.nu), 0}, {0, 0, c * (1 - 2 * m.nu) / 2}}; memcpy(m.D, d, sizeof d); }
struct Opts { bool nonlinear = true, bodies = true, prescribed = true; int maxn = 3; bool nopenalty = true, pressure = true; int mask = 15 /* physics to choose from */; const char* pde = "Elliptic"; const char* bcs = "Essential Boundary Conditions"; bool timed = false, cell = false; };
inline void make_problem(Fem& f, Rng& r, const Opts& o) {
  do f.ph = (Phys)r.below(4); while (!(o.mask >> f.ph & 1)); f.B = f.ph == TH ? 1 : f.ph == ME ? 2 : 3; make_mesh(f, r, r.range(1, o.maxn), r.range(1, o.maxn)); Teuchos::ParameterList& P = f.pl; P = Teuchos::ParameterList("Plato Problem"); f.pen = f.ph == ME && o.nopenalty && r.chance(0.2) ? 2 : (int)r.below(2); f.p = f.pen == 0 ? r.range(1, 3) : rnd(r.uni(0, 4), 3); f.pmin = r.chance(0.5) ? 0 : rnd(r.uni(0, 0.3), 3); if (f.pen == 2) { f.p = 0; f.pmin = 0; }
  P.set<std::string>("PDE Constraint", o.pde); P.sublist(o.pde).set("Penalty Function", penalty(f)); f.nonlinear = o.nonlinear && f.ph == TH && r.chance(0.35); f.mat.assign(f.nb, Mat());
  Teuchos::ParameterList& D = P.sublist("Spatial Model").sublist("Domains"); for (int b = 0; b < f.nb; b++) { Teuchos::ParameterList& d = D.sublist(str("Domain %d", b)); d.set<std::string>("Element Block", str("block_%d", b)); d.set<std::string>("Material Model", str("Material %d", b)); }
  double es = std::pow(10.0, r.range(0, 5)); for (int b = 0; b < f.nb; b++) { Mat& m = f.mat[b]; Teuchos::ParameterList& M = P.sublist("Material Models").sublist(str("Material %d", b)); m.E = rnd(es * r.uni(0.3, 3)); m.nu = rnd(r.uni(-0.2, 0.45), 3); m.k[0] = rnd(r.uni(0.2, 3)); plane_strain(m); m.density = rnd(r.uni(0.5, 3)); if (r.chance(0.5)) M.set<double>("Density", (double)m.density); else m.density = 1;
    if (f.ph == TH) { Teuchos::ParameterList& c = M.sublist("Thermal Conduction"); if (f.nonlinear) { m.k[1] = rnd(r.uni(0, 0.04)); c.set<bool>("Temperature Dependent", true); Teuchos::ParameterList& kk = c.sublist("Thermal Conductivity"); kk.set<double>("c011", (double)m.k[0]); kk.set<double>("c111", (double)m.k[1]); } else c.set<double>("Thermal Conductivity", (double)m.k[0]); }
    else if (f.ph == ME) { if (r.chance(0.25)) { LD c11 = rnd(es * r.uni(1, 2)), c12 = rnd(es * r.uni(0, 0.8)), c44 = rnd(es * r.uni(0.2, 1)); LD d[3][3] = {{c11, c12, 0}, {c12, c11, 0}, {0, 0, c44}}; memcpy(m.D, d, sizeof d); Teuchos::ParameterList& c = M.sublist("Cubic Linear Elastic"); c.set<double>("C11", (double)c11); c.set<double>("C12", (double)c12); c.set<double>("C44", (double)c44); }
      else { Teuchos::ParameterList& c = M.sublist("Isotropic Linear Elastic"); c.set<double>("Poissons Ratio", (double)m.nu); c.set<double>("Youngs Modulus", (double)m.E); } }
    else if (f.ph == TM) { Teuchos::ParameterList& c = M.sublist("Thermoelastic"); Teuchos::ParameterList& el = c.sublist("Elastic Stiffness"); el.set<double>("Poissons Ratio", (double)m.nu); el.set<double>("Youngs Modulus", (double)m.E); m.alpha = rnd(r.uni(0, 0.2)); m.tref = rnd(r.uni(-1, 1)); m.scal = r.chance(0.6) ? 1 : rnd(r.uni(0.5, 2)); c.set<double>("Thermal Expansivity", (double)m.alpha); c.set<double>("Thermal Conductivity", (double)m.k[0]); c.set<double>("Reference Temperature", (double)m.tref); if (m.scal != 1) c.set<double>("Temperature Scaling", (double)m.scal); }
    else { Teuchos::ParameterList& c = M.sublist("Isotropic Linear Electroelastic"); c.set<double>("Poissons Ratio", (double)m.nu); c.set<double>("Youngs Modulus", (double)m.E); m.p11 = rnd(r.uni(0.5, 2)); m.p33 = rnd(r.uni(0.5, 2)); m.e15 = rnd(r.uni(-1, 1)); m.e31 = rnd(r.uni(-1, 1)); m.e33 = rnd(r.uni(-1, 1)); c.set<double>("p11", (double)m.p11); c.set<double>("p33", (double)m.p33); c.set<double>("e15", (double)m.e15); c.set<double>("e31", (double)m.e31); c.set<double>("e33", (double)m.e33); if (r.chance(0.6)) { m.emAlpha = rnd(r.uni(0.5, 3)); c.set<double>("Alpha", (double)m.emAlpha); } }
  }
  // prescribed values: everything on the left edge, some of the components on the right edge
  std::map<int, LD> bc; int nbc = 0; Teuchos::ParameterList& EB = P.sublist(o.bcs); f.bct.clear(); auto fix = [&](int ns, int dof, bool zero) { Teuchos::ParameterList& l = EB.sublist(str("bc %d", nbc++)); LD v = zero ? 0 : rnd(r.uni(-0.5, 0.5)); LD vt = 0; if (o.timed && !zero && r.chance(0.5)) { v = fix4(r.uni(0, 0.5)); vt = fix4(r.uni(0, 1)); l.set<std::string>("Type", "Time Dependent"); l.set<std::string>("Function", num(v) + "+" + num(vt) + "*t"); } else if (zero && r.chance(0.5)) l.set<std::string>("Type", "Zero Value"); else { l.set<std::string>("Type", "Fixed Value"); l.set<double>("Value", (double)v); } if (dof || r.chance(0.5)) l.set<int>("Index", dof); l.set<std::string>("Sides", str("ns_%d", ns)); for (int n : f.nset[ns]) { bc[n * f.B + dof] = v; f.bct[n * f.B + dof] = vt; } };
  for (int d = 0; d < f.B; d++) fix(0, d, !o.prescribed || r.chance(0.5)); for (int d = 0; d < f.B; d++) if (r.chance(0.3)) fix(1, d, !o.prescribed || r.chance(0.5)); f.bc.assign(bc.begin(), bc.end());
  // surface loads
  f.loads.clear(); const char* const lists[4][2] = {{"Natural Boundary Conditions", 0}, {"Natural Boundary Conditions", 0}, {"Mechanical Natural Boundary Conditions", "Thermal Natural Boundary Conditions"}, {"Mechanical Natural Boundary Conditions", "Electrical Natural Boundary Conditions"}};
  for (int g = 0; g < 2; g++) if (lists[f.ph][g]) { int nd = f.ph == TH || g == 1 ? 1 : 2, off = g == 1 ? 2 : 0, n = (int)r.below(3); for (int i = 0; i < n; i++) { Load L; L.side = r.range(1, 3); L.comp = off; L.kind = 0; L.v[0] = L.v[1] = 0; Teuchos::ParameterList& l = P.sublist(lists[f.ph][g]).sublist(str("load %d", i)); l.set<std::string>("Sides", str("ss_%d", L.side));
    int k = (int)r.below(nd == 2 ? 5 : 3); if (k == 3 && !o.pressure) k = 4; if (k == 0) { l.set<std::string>("Type", "Uniform"); Teuchos::Array<double> a; for (int d = 0; d < nd; d++) { L.v[d] = rnd(r.uni(-1, 1)); a.push_back((double)L.v[d]); } l.set("Values", a); } else if (k == 1) { int d = (int)r.below(nd); L.v[d] = rnd(r.uni(-1, 1)); l.set<std::string>("Type", "Uniform"); l.set<double>("Value", (double)L.v[d]); if (d || r.chance(0.5)) l.set<int>("Index", d); }
    else if (k == 2) { l.set<std::string>("Type", "Uniform"); Teuchos::Array<std::string> a; for (int d = 0; d < nd; d++) { L.v[d] = fix4(r.uni(0, 1)); if (o.timed) L.vt[d] = fix4(r.uni(0, 2)); a.push_back(num(L.v[d]) + "+" + (o.timed ? num(L.vt[d]) : std::string("0.0")) + "*t"); } l.set("Values", a); }
    else if (k == 3) { L.kind = 1; L.v[0] = L.v[1] = rnd(r.uni(-1, 1)); l.set<std::string>("Type", "Uniform Pressure"); l.set<double>("Value", (double)L.v[0]); } else { int d = (int)r.below(2); L.v[d] = rnd(r.uni(-1, 1)); l.set<std::string>("Type", "Uniform Component"); l.set<double>("Value", (double)L.v[d]); l.set<std::string>("Component", d ? (r.chance(0.5) ? "y" : "Y") : (r.chance(0.5) ? "x" : "X")); } f.loads.push_back(L); } }
  f.bodies.clear(); if (o.bodies && r.chance(0.4)) for (int i = 0, n = r.range(1, 2); i < n; i++) { Body b; b.dof = (int)r.below(f.B); b.a = fix4(r.uni(0, 1)); b.b = fix4(r.uni(0, 1)); b.c = fix4(r.uni(0, 1)); Teuchos::ParameterList& l = P.sublist("Body Loads").sublist(str("body %d", i)); if (b.dof || r.chance(0.5)) l.set<int>("Index", b.dof); l.set<std::string>("Function", num(b.a) + "+" + num(b.b) + "*x-" + num(b.c) + "*y"); f.bodies.push_back(b); }
  if (f.nonlinear) { P.sublist("Newton Iteration").set<int>("Maximum Iterations", 25); if (r.chance(0.5)) P.sublist("Newton Iteration").set<double>("Increment Tolerance", 1e-13); if (r.chance(0.3)) P.sublist("Newton Iteration").set<double>("Residual Tolerance", 1e-13); }
  else if (r.chance(0.3)) P.sublist("Newton Iteration").set<int>("Maximum Iterations", r.range(1, 3));
  P.sublist("Linear Solver").set<std::string>("Solver Stack", "AmgX");
  f.cell = -1; if (o.cell && f.ph == ME && r.chance(0.25)) { f.cell = (int)r.below(3); P.sublist("Cell Problem Forcing").set<int>("Column Index", f.cell); }
}
// per element: gradients of the shape functions, area, weighted fields
struct ElemRef { LD g[3][2], A, rho, w, strain[3], grad[2], stress[3], flux[2], T, sa[3], fa[2], pre[3]; };
inline ElemRef elem(const Fem& f, const Vec& u, const Vec& z, int e) {
  ElemRef R; const int* v = &f.ev[3 * e]; LD X[3][2]; for (int i = 0; i < 3; i++) for (int d = 0; d < 2; d++) X[i][d] = f.x[2 * v[i] + d];
  LD det = (X[1][0] - X[0][0]) * (X[2][1] - X[0][1]) - (X[2][0] - X[0][0]) * (X[1][1] - X[0][1]); R.A = det / 2; for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; R.g[i][0] = (X[j][1] - X[k][1]) / det; R.g[i][1] = (X[k][0] - X[j][0]) / det; }
  R.rho = ((LD)z[v[0]] + z[v[1]] + z[v[2]]) / 3; R.w = f.weight(R.rho); const Mat& m = f.mat[f.blk[e]]; int so = f.ph == TH ? 0 : 2; for (int i = 0; i < 3; i++) R.strain[i] = R.stress[i] = 0; R.grad[0] = R.grad[1] = R.flux[0] = R.flux[1] = 0; R.T = 0;
  if (f.ph != TH) for (int i = 0; i < 3; i++) { LD a = u[v[i] * f.B], b = u[v[i] * f.B + 1]; R.strain[0] += a * R.g[i][0]; R.strain[1] += b * R.g[i][1]; R.strain[2] += a * R.g[i][1] + b * R.g[i][0]; }
  if (f.ph != ME) for (int i = 0; i < 3; i++) { LD t = u[v[i] * f.B + so]; R.T += t / 3; R.grad[0] += t * R.g[i][0]; R.grad[1] += t * R.g[i][1]; }
  LD te[3] = {0, 0, 0}; if (f.ph == TM) te[0] = te[1] = m.scal * m.alpha * (R.T - m.tref); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R.stress[i] += m.D[i][j] * (R.strain[j] - te[j]);
  if (f.ph == TH) for (int d = 0; d < 2; d++) R.flux[d] = -(m.k[0] + m.k[1] * R.T) * R.grad[d]; if (f.ph == TM) for (int d = 0; d < 2; d++) R.flux[d] = m.scal * m.scal * m.k[0] * R.grad[d];
  if (f.ph == EM) { LD c[2][3] = {{0, 0, m.e15}, {m.e31, m.e33, 0}}, al = m.emAlpha; for (int d = 0; d < 2; d++) { R.grad[d] = -R.grad[d]; } for (int i = 0; i < 3; i++) for (int d = 0; d < 2; d++) R.stress[i] -= al * R.grad[d] * c[d][i]; for (int d = 0; d < 2; d++) { R.flux[d] = al * al * (d ? m.p33 : m.p11) * R.grad[d]; for (int i = 0; i < 3; i++) R.flux[d] += al * R.strain[i] * c[d][i]; } }
  { LD ae[3] = {0, 0, 0}, ag[2] = {0, 0}, aT = 0; for (int i = 0; i < 3; i++) { LD a = fabsl(u[v[i] * f.B]), b = f.B > 1 ? fabsl(u[v[i] * f.B + 1]) : 0, t = f.ph == ME ? 0 : fabsl(u[v[i] * f.B + so]), gx = fabsl(R.g[i][0]), gy = fabsl(R.g[i][1]); if (f.ph != TH) { ae[0] += a * gx; ae[1] += b * gy; ae[2] += a * gy + b * gx; } if (f.ph != ME) { ag[0] += t * gx; ag[1] += t * gy; aT += t / 3; } } if (f.ph == TM) for (int i = 0; i < 2; i++) ae[i] += fabsl(m.scal * m.alpha) * (aT + fabsl(m.tref));
    for (int i = 0; i < 3; i++) { R.sa[i] = 0; for (int j = 0; j < 3; j++) R.sa[i] += fabsl(m.D[i][j]) * ae[j]; if (f.ph == EM) R.sa[i] += fabsl(m.emAlpha) * (ag[0] + ag[1]); } for (int d = 0; d < 2; d++) { R.fa[d] = f.ph == EM ? m.emAlpha * m.emAlpha * 2 * ag[d] + m.emAlpha * (ae[0] + ae[1] + ae[2]) : m.scal * m.scal * (m.k[0] + fabsl(m.k[1]) * aT) * ag[d]; } }
  for (int i = 0; i < 3; i++) { R.pre[i] = f.cell >= 0 ? m.D[i][f.cell] : 0; R.sa[i] += fabsl(R.pre[i]); }
  return R;
}
inline std::vector<Ref> residual(const Fem& f, const Vec& u, const Vec& z) {
  std::vector<Ref> R(f.nv * f.B); int so = f.ph == TH ? 0 : 2; LD fs = f.ph == TH ? -1 : 1;
  for (int e = 0; e < f.ne; e++) { ElemRef q = elem(f, u, z, e); const int* v = &f.ev[3 * e]; for (int i = 0; i < 3; i++) { Ref* n = &R[v[i] * f.B]; LD w = q.w * q.A; LD gx = fabsl(q.g[i][0]), gy = fabsl(q.g[i][1]); if (f.ph != TH) { n[0].a += w * (q.sa[0] * gx + q.sa[2] * gy); n[1].a += w * (q.sa[1] * gy + q.sa[2] * gx); } if (f.ph != ME) n[so].a += w * (q.fa[0] * gx + q.fa[1] * gy); if (f.ph != TH) { n[0].add(w * (q.stress[0] - q.pre[0]) * q.g[i][0]); n[0].add(w * (q.stress[2] - q.pre[2]) * q.g[i][1]); n[1].add(w * (q.stress[1] - q.pre[1]) * q.g[i][1]); n[1].add(w * (q.stress[2] - q.pre[2]) * q.g[i][0]); } if (f.ph != ME) { n[so].add(fs * w * q.flux[0] * q.g[i][0]); n[so].add(fs * w * q.flux[1] * q.g[i][1]); } }
    for (auto& b : f.bodies) { LD cx = 0, cy = 0; for (int i = 0; i < 3; i++) { cx += (LD)f.x[2 * v[i]] / 3; cy += (LD)f.x[2 * v[i] + 1] / 3; } for (int i = 0; i < 3; i++) R[v[i] * f.B + b.dof].add(-(b.a + b.b * cx - b.c * cy) * q.A / 3 * q.rho); } }
  for (auto& L : f.loads) for (auto& s : f.sface[L.side]) { LD dx = (LD)f.x[2 * s[1]] - f.x[2 * s[0]], dy = (LD)f.x[2 * s[1] + 1] - f.x[2 * s[0] + 1], len = sqrtl(dx * dx + dy * dy); LD nx = dy / len, ny = -dx / len; const int* v = &f.ev[3 * s[2]]; LD cx = 0, cy = 0; for (int i = 0; i < 3; i++) { cx += (LD)f.x[2 * v[i]] / 3; cy += (LD)f.x[2 * v[i] + 1] / 3; } if (nx * (f.x[2 * s[0]] - cx) + ny * (f.x[2 * s[0] + 1] - cy) < 0) { nx = -nx; ny = -ny; }
    LD sg = f.ph == TH ? 1 : -1; int nd = f.ph == TH || L.comp == 2 ? 1 : 2; for (int i = 0; i < 2; i++) for (int d = 0; d < nd; d++) R[s[i] * f.B + L.comp + d].add(sg * len / 2 * (L.v[d] + L.vt[d] * f.t) * (L.kind == 1 ? (d ? ny : nx) : 1)); }
  return R;
}
// heat conduction that depends on temperature: mild enough for Newton's method to converge from zero (the linear problem stays within 20 % of the conductivity)
inline bool mild(const Fem& f, const Vec& z) {
  if (!f.nonlinear) return true; Fem g; g.ph = f.ph; g.B = 1; g.pen = f.pen; g.p = f.p; g.pmin = f.pmin; g.nv = f.nv; g.ne = f.ne; g.x = f.x; g.ev = f.ev; g.blk = f.blk; g.sface = f.sface; g.mat = f.mat; g.bc = f.bc; g.loads = f.loads; g.bodies = f.bodies; LD q = 0; for (auto& m : g.mat) { q = std::max(q, fabsl(m.k[1] / m.k[0])); m.k[1] = 0; }
  int n = f.nv; Vec u(n, 0); std::vector<Ref> r0 = residual(g, u, z); std::vector<std::vector<LD>> A(n, std::vector<LD>(n + 1)); for (int j = 0; j < n; j++) { u[j] = 1; auto r = residual(g, u, z); u[j] = 0; for (int i = 0; i < n; i++) A[i][j] = r[i].v - r0[i].v; } for (int i = 0; i < n; i++) A[i][n] = -r0[i].v; for (auto& b : f.bc) { for (int j = 0; j <= n; j++) A[b.first][j] = 0; A[b.first][b.first] = 1; A[b.first][n] = b.second; }
  for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if (fabsl(A[i][k]) > fabsl(A[p][k])) p = i; std::swap(A[k], A[p]); if (A[k][k] == 0) return false; for (int i = 0; i < n; i++) if (i != k) { LD m = A[i][k] / A[k][k]; if (m != 0) for (int j = k; j <= n; j++) A[i][j] -= m * A[k][j]; } }
  LD t = 0; for (int i = 0; i < n; i++) t = std::max(t, fabsl(A[i][n] / A[i][i])); return q * t <= 0.2L;
}
#ifndef PSIM_NO_ELLIPTIC
struct Prob {   // one analysis of whichever physics
  std::unique_ptr<Plato::AbstractProblem> p; Phys ph;
  Prob(Fem& f, Plato::Comm::Machine m) : ph(f.ph) {
    Teuchos::ParameterList pl(f.pl);
    if (ph == TH) { auto* q = new Plato::Elliptic::Problem<::Plato::Thermal<2>>(f.mesh, f.sets, pl, m); p.reset(q); q->readEssentialBoundaryConditions(pl); } else if (ph == ME) { auto* q = new Plato::Elliptic::Problem<::Plato::Mechanics<2>>(f.mesh, f.sets, pl, m); p.reset(q); q->readEssentialBoundaryConditions(pl); }
    else if (ph == TM) { auto* q = new Plato::Elliptic::Problem<::Plato::Thermomechanics<2>>(f.mesh, f.sets, pl, m); p.reset(q); q->readEssentialBoundaryConditions(pl); } else { auto* q = new Plato::Elliptic::Problem<::Plato::Electromechanics<2>>(f.mesh, f.sets, pl, m); p.reset(q); q->readEssentialBoundaryConditions(pl); }
  }
};
#endif
}
