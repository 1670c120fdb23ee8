// Geometric criteria on three-dimensional meshes: mass, centre of gravity, inertia (itemised or as principal moments about the wanted centre of
// gravity), penalised volume, and their sums, quotients and least squares, in value and in design and shape gradient, for every history of evaluations.
#include "fem.hpp"
#include <geometric/ScalarFunctionBaseFactory.hpp>
#include <elliptic/ScalarFunctionBaseFactory.hpp>
#include <Geometrical.hpp>
#include <Mechanics.hpp>
namespace psim {
const HarnessInfo harness = {"P25", "", ""};
void kokkos_init();
static FILE* nowhere;
void harness_init() { kokkos_init(); std::cout.setstate(std::ios::failbit); static char buf[4096]; nowhere = fopen("/dev/null", "w"); if (!nowhere) abort(); setvbuf(nowhere, buf, _IOFBF, sizeof buf); }
struct Quiet { FILE* o = stdout; Quiet() { stdout = nowhere; } ~Quiet() { stdout = o; } };   // the criteria report with printf
int harness_episodes(Rng& r) { return 1; }
enum CK { VOLUME, MASS, SUM, DIVISION, SQUARES };
static const char* const ckn[] = {"volume", "mass properties", "weighted sum", "division", "least squares"};
static const char* const prn[10] = {"Mass", "CGx", "CGy", "CGz", "Ixx", "Iyy", "Izz", "Ixy", "Ixz", "Iyz"};
struct Crit { std::string name; CK k; int pen = 0; LD p = 1, pmin = 0; IVec prop, kid; Vec w, gold; bool all = false; LD Q[3][3], L[3]; };
struct Solid { int nv = 0, ne = 0, nb = 1; Vec x; IVec ev, blk; std::vector<LD> rho; LD ext[3]; Omega_h::Mesh mesh; Omega_h::MeshSets sets; Teuchos::ParameterList pl; std::vector<Crit> c; };
static void make_solid(Solid& f, Rng& r) {
  int n[3]; for (int d = 0; d < 3; d++) n[d] = r.range(1, 2); int X = n[0] + 1, Y = n[1] + 1, Z = n[2] + 1; f.nv = X * Y * Z; IVec vp = shuffled(r, f.nv); f.x.assign(3 * f.nv, 0); double len[3], off[3], jit = r.chance(0.3) ? 0 : 0.15; bool moved = r.chance(0.6); for (int d = 0; d < 3; d++) { len[d] = r.uni(0.4, 2); off[d] = moved ? r.uni(-2, 2) : 0; } if (r.chance(0.1)) len[r.below(3)] = r.uni(0.02, 0.09);
  auto id = [&](int i, int j, int k) { return vp[(k * Y + j) * X + i]; }; for (int k = 0; k < Z; k++) for (int j = 0; j < Y; j++) for (int i = 0; i < X; i++) { int q[3] = {i, j, k}; for (int d = 0; d < 3; d++) f.x[3 * id(i, j, k) + d] = rnd(off[d] + len[d] * (q[d] + jit * r.uni(-1, 1)) / n[d], 7); }
  f.nb = r.range(1, std::min(3, n[0] * n[1] * n[2])); std::vector<std::array<int, 5>> t; static const int perm[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}}; int cell = 0;
  for (int k = 0; k < n[2]; k++) for (int j = 0; j < n[1]; j++) for (int i = 0; i < n[0]; i++, cell++) for (int q = 0; q < 6; q++) { int c[3] = {i, j, k}; std::array<int, 5> e; e[0] = id(i, j, k); for (int s = 0; s < 3; s++) { c[perm[q][s]]++; e[s + 1] = id(c[0], c[1], c[2]); } if (q >= 3) std::swap(e[1], e[2]); e[4] = cell % f.nb; t.push_back(e); }
  IVec ep = shuffled(r, (int)t.size()); for (int e : ep) { auto a = t[e]; for (int k = (int)r.below(4); k--;) { int i = (int)r.below(4), v[4]; int o = (i + 1) % 4, p = (i + 2) % 4; memcpy(v, a.data(), sizeof v); a[i] = v[o]; a[o] = v[p]; a[p] = v[i]; } for (int k = 0; k < 4; k++) f.ev.push_back(a[k]); f.blk.push_back(a[4]); } f.ne = (int)t.size();
  f.mesh.build(3, f.ev, f.x); std::vector<IVec> eb(f.nb); for (int e : shuffled(r, f.ne)) eb[f.blk[e]].push_back(e); for (int b = 0; b < f.nb; b++) f.sets[Omega_h::ELEM_SET][str("block_%d", b)] = los(eb[b]);
  for (int d = 0; d < 3; d++) { double lo = 1e300, hi = -1e300; for (int v = 0; v < f.nv; v++) { lo = std::min(lo, f.x[3 * v + d]); hi = std::max(hi, f.x[3 * v + d]); } f.ext[d] = (LD)hi - lo; }
  f.pl = Teuchos::ParameterList("Plato Problem"); for (int b = 0; b < f.nb; b++) { Teuchos::ParameterList& d = f.pl.sublist("Spatial Model").sublist("Domains").sublist(str("Domain %d", b)); d.set<std::string>("Element Block", str("block_%d", b)); d.set<std::string>("Material Model", str("Material %d", b)); Teuchos::ParameterList& M = f.pl.sublist("Material Models").sublist(str("Material %d", b)); if (r.chance(0.8)) { double v = rnd(r.uni(0.2, 3)); M.set<double>("Density", v); f.rho.push_back(v); } else f.rho.push_back(1); }
}
static LD pw(const Crit& c, LD rho) { return c.pen == 0 ? c.pmin + (1 - c.pmin) * powl(rho, c.p) : c.pmin + (1 - c.pmin) * rho / (1 + c.p * (1 - rho)); }
typedef std::vector<LD> LV;
struct Moments { LD M = 0, S[3] = {0, 0, 0}, I[3][3] = {{0}}; };
static LD tet(const Solid& f, const LV& x, int e, LD* cen) { const int* v = &f.ev[4 * e]; LD a[3][3]; for (int d = 0; d < 3; d++) { cen[d] = 0; for (int i = 0; i < 4; i++) cen[d] += x[3 * v[i] + d] / 4; for (int i = 0; i < 3; i++) a[i][d] = x[3 * v[i + 1] + d] - x[3 * v[0] + d]; } return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])) / 6; }
static LD dens(const Solid& f, const LV& z, int e) { LD s = 0; for (int i = 0; i < 4; i++) s += z[f.ev[4 * e + i]] / 4; return s; }
static Moments moments(const Solid& f, const LV& x, const LV& z) { Moments m; LD S2[3][3] = {{0}}; for (int e = 0; e < f.ne; e++) { LD c[3], v = tet(f, x, e, c), w = v * dens(f, z, e) * f.rho[f.blk[e]]; m.M += w; for (int i = 0; i < 3; i++) { m.S[i] += w * c[i]; for (int j = 0; j < 3; j++) S2[i][j] += w * c[i] * c[j]; } } LD t = S2[0][0] + S2[1][1] + S2[2][2]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.I[i][j] = (i == j ? t : 0) - S2[i][j]; return m; }
static LD scale(LD gold) { return fabsl(gold) > 0.1 ? fabsl(gold) : 1; }
static LD scale2(LD n) { return fabsl(n) > 0.1L ? fabsl(n) : 0.1L; }
static LD value(const Solid& f, const Crit& c, const LV& x, const LV& z, LD* mag) {   // mag: magnitude of the terms
  LD v = 0, m2 = 0; switch (c.k) {
    case VOLUME: for (int e = 0; e < f.ne; e++) { LD q[3]; v += pw(c, dens(f, z, e)) * tet(f, x, e, q); } m2 = fabsl(v); break;
    case MASS: { Moments m = moments(f, x, z); static const int ii[6] = {0, 1, 2, 0, 0, 1}, jj[6] = {0, 1, 2, 1, 2, 2}; LD gm = 0, gc[3] = {0, 0, 0}, lm = std::min(c.L[0], std::min(c.L[1], c.L[2])); if (c.all) for (size_t k = 0; k < c.prop.size(); k++) { if (c.prop[k] == 0) gm = c.gold[k]; else if (c.prop[k] < 4) gc[c.prop[k] - 1] = c.gold[k]; } (void)gm; LD n2 = gc[0] * gc[0] + gc[1] * gc[1] + gc[2] * gc[2];
      for (size_t k = 0; k < c.prop.size(); k++) { int p = c.prop[k]; LD g = c.gold[k], s, y, ya; if (p == 0) { y = m.M; ya = y; s = scale(g); } else if (p < 4) { y = m.S[p - 1] / m.M; ya = fabsl(y); s = scale2(f.ext[p - 1]); } else if (!c.all) { y = m.I[ii[p - 4]][jj[p - 4]]; ya = m.I[0][0] + m.I[1][1] + m.I[2][2]; s = scale(g); }
        else { int a = ii[p - 4], b = jj[p - 4]; y = ya = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { LD d = m.I[i][j] - m.M * ((i == j ? n2 : 0) - gc[i] * gc[j]); y += c.Q[i][a] * d * c.Q[j][b]; ya += fabsl(m.I[i][j]) + m.M * (n2 + fabsl(gc[i] * gc[j])); } g = a == b ? c.L[a] : 0; s = a == b ? scale(g) : scale2(lm); }
        v += c.w[k] * powl((y - g) / s, 2); m2 += fabsl((LD)c.w[k]) * powl((ya + fabsl(g)) / s, 2); } break; }
    case SUM: for (size_t i = 0; i < c.kid.size(); i++) { LD q; v += c.w[i] * value(f, f.c[c.kid[i]], x, z, &q); m2 += fabsl((LD)c.w[i]) * q; } break;
    case DIVISION: { LD a, b, n = value(f, f.c[c.kid[0]], x, z, &a), d = value(f, f.c[c.kid[1]], x, z, &b); v = n / d; m2 = a / fabsl(d) + fabsl(n) * b / (d * d); break; }
    case SQUARES: for (size_t i = 0; i < c.kid.size(); i++) { LD q, g = c.gold[i], y = value(f, f.c[c.kid[i]], x, z, &q); v += c.w[i] * powl((y - g) / scale(g), 2); m2 += fabsl((LD)c.w[i]) * powl((q + fabsl(g)) / scale(g), 2); } break; }
  if (mag) *mag = m2; return v;
}
static bool defined(const Solid& f, const Crit& c, const LV& x, const LV& z) { for (int i : c.kid) if (!defined(f, f.c[i], x, z)) return false; if (c.k == DIVISION) { LD m; if (!(fabsl(value(f, f.c[c.kid[1]], x, z, &m)) > 1e-3L * (m + 1))) return false; } return true; }
static void criteria(Solid& f, Rng& r, bool elliptic) {
  Teuchos::ParameterList& C = f.pl.sublist("Criteria"); int n = r.range(1, 3), m = (int)r.below(3); LV x(f.x.begin(), f.x.end()), one(f.nv, 1.0L);
  for (int i = 0; i < n + m; i++) { Crit c; c.name = str("criterion %d", i); Teuchos::ParameterList& l = C.sublist(c.name);
    if (i < n && !elliptic && r.chance(0.3)) { c.k = VOLUME; c.pen = (int)r.below(2); c.p = c.pen == 0 ? r.range(1, 3) : rnd(r.uni(0, 4), 3); c.pmin = r.chance(0.5) ? 0 : rnd(r.uni(0, 0.3), 3); l.set<std::string>("Type", "Scalar Function"); l.set<std::string>("Scalar Function Type", "Volume"); Teuchos::ParameterList q; q.set<std::string>("Type", c.pen == 0 ? "SIMP" : "RAMP"); q.set<double>("Exponent", (double)c.p); q.set<double>("Minimum Value", (double)c.pmin); l.set("Penalty Function", q); }
    else if (i < n) { c.k = MASS; l.set<std::string>("Type", "Mass Properties"); c.all = r.chance(0.4); Moments t = moments(f, x, one); int k = c.all ? 10 : r.range(1, 9); IVec p = shuffled(r, 10); p.resize(k); if (r.chance(0.3)) std::sort(p.begin(), p.end()); c.prop = p; Teuchos::Array<std::string> nm; Teuchos::Array<double> wt, gd; double part = r.uni(0.3, 1.2);
      for (int q : p) { double near = q == 0 ? (double)t.M * part : q < 4 ? (double)(t.S[q - 1] / t.M) : q < 7 ? (double)t.I[q - 4][q - 4] * part : (double)(q == 7 ? t.I[0][1] : q == 8 ? t.I[0][2] : t.I[1][2]) * part; c.w.push_back(rnd(r.uni(-0.5, 2))); c.gold.push_back(rnd(near * r.uni(0.7, 1.3) + (r.chance(0.3) ? r.uni(-0.5, 0.5) : 0))); nm.push_back(prn[q]); wt.push_back(c.w.back()); gd.push_back(c.gold.back()); } l.set("Properties", nm); l.set("Weights", wt); l.set("Gold Values", gd);
      if (c.all) { double g[10]; for (int q = 0; q < 10; q++) g[c.prop[q]] = c.gold[q]; Omega_h::Tensor<3> T; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { static const int ix[3][3] = {{4, 7, 8}, {7, 5, 9}, {8, 9, 6}}; T(a, b) = g[ix[a][b]] - g[0] * ((a == b ? g[1] * g[1] + g[2] * g[2] + g[3] * g[3] : 0) - g[1 + a] * g[1 + b]); } auto d = Omega_h::decompose_eigen_jacobi<3>(T); for (int a = 0; a < 3; a++) { c.L[a] = d.l(a); for (int b = 0; b < 3; b++) c.Q[a][b] = d.q(a, b); } } }
    else { int k = (int)r.below(3); c.k = k == 0 ? SUM : k == 1 ? DIVISION : SQUARES; auto pick = [&] { return (int)r.below(f.c.size()); };
      if (k == 1) { c.kid = {pick(), pick()}; l.set<std::string>("Type", "Division"); l.set<std::string>("Numerator", f.c[c.kid[0]].name); l.set<std::string>("Denominator", f.c[c.kid[1]].name); }
      else { Teuchos::Array<std::string> nm; Teuchos::Array<double> wt, gd; for (int j = 0, q = r.range(1, 3); j < q; j++) { c.kid.push_back(pick()); c.w.push_back(rnd(r.uni(-1, 2))); c.gold.push_back(r.chance(0.3) ? rnd(r.uni(-0.05, 0.05)) : rnd(r.uni(-2, 2))); nm.push_back(f.c[c.kid.back()].name); wt.push_back(c.w.back()); gd.push_back(c.gold.back()); } l.set<std::string>("Type", k == 0 ? "Weighted Sum" : "Least Squares"); l.set("Functions", nm); l.set("Weights", wt); if (k == 2) l.set("Gold Values", gd); } }
    f.c.push_back(c); }
}
struct Func { std::shared_ptr<Plato::Geometric::ScalarFunctionBase> g; std::shared_ptr<Plato::Elliptic::ScalarFunctionBase> e; };
static Func create(Solid& f, const Plato::SpatialModel& m, Plato::DataMap& dm, Teuchos::ParameterList& pl, std::string name, bool el) { Func o; if (el) { Plato::Elliptic::ScalarFunctionBaseFactory<::Plato::Mechanics<3>> q; o.e = q.create(m, dm, pl, name); } else { Plato::Geometric::ScalarFunctionBaseFactory<::Plato::Geometrical<3>> q; o.g = q.create(m, dm, pl, name); } return o; }
static void refused(Sim& s, Solid& f, const Plato::SpatialModel& m, Plato::DataMap& dm, bool el) {
  Rng& r = s.w; Teuchos::ParameterList pl(f.pl); Teuchos::ParameterList& l = pl.sublist("Criteria").sublist("faulty"); l.set<std::string>("Type", "Mass Properties"); int k = (int)r.below(5), n = r.range(1, 5); IVec p = shuffled(r, 10); Teuchos::Array<std::string> nm; Teuchos::Array<double> wt, gd; for (int i = 0; i < n; i++) { nm.push_back(prn[p[i]]); wt.push_back(1); gd.push_back(0.5); }
  const char* what = ""; switch (k) { case 0: wt.push_back(1); what = "more weights than properties"; break; case 1: gd.push_back(1); what = "more gold values than properties"; break; case 2: nm[r.below(n)] = "Jxx"; what = "an unknown property"; break; case 3: nm.push_back(nm[r.below(n)]); wt.push_back(1); gd.push_back(1); what = "a property named twice"; break; default: gd.resize(n - 1); what = "too few gold values"; }
  l.set("Properties", nm); l.set("Weights", wt); l.set("Gold Values", gd); must_throw(s, "accepted", what, [&] { Quiet n; create(f, m, dm, pl, "faulty", el); }); s.cover(str("refused: %s", what));
}
void harness_episode(Sim& s) {
  Solid f; Rng g = s.w; bool el = g.chance(0.35); make_solid(f, g); criteria(f, g, el); Plato::DataMap dm; Plato::SpatialModel model(f.mesh, f.sets, f.pl); std::map<int, Func> fn; LV x(f.x.begin(), f.x.end()); Vec u(3 * f.nv); for (auto& q : u) q = g.uni(-1, 1); const char* kind = el ? "elliptic" : "geometric"; s.cover(str("%s blocks=%d criteria=%zu", kind, f.nb, f.c.size()));
  int steps = g.range(2, 7); for (int k = 0; k < steps; k++) {
    if (!s.step("evaluation")) continue; Rng& r = s.w; int ci = (int)r.below(f.c.size()); Crit& c = f.c[ci]; if (r.chance(0.1)) { refused(s, f, model, dm, el); continue; } Vec z(f.nv); int mode = (int)r.below(3); for (auto& q : z) q = mode == 0 ? 1 : r.uni(0.2, 1); LV zz(z.begin(), z.end()); bool alloc = s.faulty && r.chance(0.3) && k + 1 < steps; s.simtime(1);
    auto guard = [&](const char* what, std::function<void()> q) { bool done = false; try { auto quiet = [&] { Quiet n; q(); }; if (alloc) done = alloc_fault(s, 0.6, 200, quiet); else { quiet(); done = true; } } catch (const std::exception& e) { if (!alloc) s.fail("refused", str("%s %s: %s failed: %.300s", kind, ckn[c.k], what, e.what())); } return done; };
    if (!fn.count(ci)) { Func q; Teuchos::ParameterList pl(f.pl); if (!guard("creating the criterion", [&] { q = create(f, model, dm, pl, c.name, el); })) continue; s.check(el ? !!q.e : !!q.g, "created", "a described criterion was not created"); fn[ci] = q; } Func& F = fn[ci];
    if (!defined(f, c, x, zz)) { s.cover("not defined here"); continue; } auto Zv = to_view(z, "control"); Plato::Solution S; if (el) S = Plato::Solution(to_view2(u, 1, 3 * f.nv)); int op = (int)r.below(el ? 5 : 4); std::string label = str("%s %s%s", kind, ckn[c.k], c.all ? " about the centre of gravity" : ""); s.evaluated();
    if (op == 3) { if (!guard("updating the criterion", [&] { if (el) F.e->updateProblem(Kokkos::subview(S.State, 0, Kokkos::ALL()), Zv); else F.g->updateProblem(Zv); })) continue; op = 0; }
    if (op == 0) { double v = 0; if (!guard("a value", [&] { v = el ? F.e->value(S, Zv) : F.g->value(Zv); })) continue; LD mag, ref = value(f, c, x, zz, &mag); near1(s, "value", v, (double)ref, (double)(fabsl(ref) + mag), label.c_str(), 1e-11); s.cover("value " + label); s.hash(v); }
    else { Vec gr; if (!guard("a gradient", [&] { gr = from_view(op == 4 ? F.e->gradient_u(S, Zv, 0) : op == 1 ? (el ? F.e->gradient_z(S, Zv) : F.g->gradient_z(Zv)) : el ? F.e->gradient_x(S, Zv) : F.g->gradient_x(Zv)); })) continue; size_t n = op == 1 ? f.nv : 3 * f.nv; s.check(gr.size() == n, "size", str("%s: gradient of %zu entries instead of %zu", label.c_str(), gr.size(), n)); static const char* const wrt[] = {"", "design", "shape", "", "state"};
      LD top = 0; std::vector<LD> ref(n, 0), err(n, 0); if (op != 4) for (size_t i = 0; i < n; i++) { auto at = [&](LD h) { LV a = x, b = zz; (op == 1 ? b : a)[i] += h; LD m, q = value(f, c, a, b, &m); top = std::max(top, m); return q; }; auto fd = [&](LD h) { return (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h); }; LD h = op == 1 ? 1e-3L : 1e-4L * std::min(f.ext[0], std::min(f.ext[1], f.ext[2])), a = fd(h), b = fd(h / 2); ref[i] = b + (b - a) / 15; err[i] = fabsl(b - a); }
      LD sc = 0; for (LD q : ref) sc = std::max(sc, fabsl(q)); for (size_t i = 0; i < n; i++) if (!(fabsl(gr[i] - ref[i]) <= 1e-8L * sc + 1e-11L * top + 4 * err[i])) s.fail("gradient", str("%s: %s derivative %zu is %.15g, expected %.15Lg", label.c_str(), wrt[op], i, gr[i], ref[i])); s.cover(str("%s gradient ", wrt[op]) + label); s.hash(gr.data(), gr.size() * 8); }
    same(s, "inputs", from_view(Zv), z, "the control"); if (el) same(s, "inputs", from_view2(S.State), u, "the state");
  }
}
}
