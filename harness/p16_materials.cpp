// Material models: over any history of parses (accepted, refused, interrupted by a failing allocation), settings, copies and evaluations,
// a material evaluates exactly the constants and temperature laws that were given, and the thermal operators built on it follow them.
#include "cells.hpp"
#include <MaterialModel.hpp>
#include <ThermoelasticMaterial.hpp>
#include <ThermalConductivityMaterial.hpp>
#include <ThermalMassMaterial.hpp>
#include <ThermalFlux.hpp>
#include <ThermalContent.hpp>
#include <VoigtMap.hpp>
#include <ParseTools.hpp>
#include <Sacado.hpp>
#include <memory>
namespace psim {
const HarnessInfo harness = {"P16", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); }
int harness_episodes(Rng& r) { return 1 + (int)r.below(3); }
typedef Teuchos::ParameterList PL;
typedef Sacado::Fad::SFad<double, 2> Fad;
struct Law { LD c[3] = {0, 0, 0}; LD at(LD x) const { return c[0] + c[1] * x + c[2] * x * x; } LD mag(LD x) const { return fabsl(c[0]) + fabsl(c[1] * x) + fabsl(c[2] * x * x); } LD slope(LD x) const { return c[1] + 2 * c[2] * x; } };
struct Mat { Law e[6][6]; };                                      // any rank-2 or Voigt law
static double num(Rng& r) { switch (r.below(6)) { case 0: return r.uni(-2, 2); case 1: return r.uni(1, 9) * 1e9; case 2: return -r.uni(1, 9) * 1e-3; case 3: return r.range(-3, 3); default: return r.uni(0.1, 500); } }
static double temp(Rng& r) { return r.chance(0.2) ? 0 : r.chance(0.2) ? 1 : r.uni(-300, 1500); }
// A generated description: which coefficients the user wrote. order 0 only: key c<ij>; temperature law: keys c0<ij> c1<ij> c2<ij>.
static Mat tensor_list(Rng& r, PL& l, int D, bool law) {
  Mat m; for (int k = 0; k < (law ? 3 : 1); k++) { std::string p = law ? "c" + std::to_string(k) : "c"; for (int i = 0; i < D; i++) for (int j = i; j < D; j++) { bool need = k == 0 && i == 0 && j == 0; LD v; if (need || r.chance(0.55)) { double x = num(r); l.set<double>(p + std::to_string(i + 1) + std::to_string(j + 1), x); v = x; } else v = i == j ? (i ? m.e[0][0].c[k] : 0) : 0; m.e[i][j].c[k] = m.e[j][i].c[k] = v; } } return m;
}
static Mat voigt_list(Rng& r, PL& l, int D, bool law) {
  Mat m; int N = nvoigt(D); for (int k = 0; k < (law ? 3 : 1); k++) { std::string p = law ? "c" + std::to_string(k) : "c"; auto put = [&](int i, int j, bool need, LD dflt) { LD v = dflt; if (need || r.chance(0.55)) { double x = num(r); l.set<double>(p + std::to_string(i + 1) + std::to_string(j + 1), x); v = x; } m.e[i][j].c[k] = m.e[j][i].c[k] = v; };
    put(0, 0, k == 0, 0); for (int i = 1; i < D; i++) put(i, i, false, m.e[0][0].c[k]); if (D > 1) put(D, D, k == 0, 0); for (int i = D + 1; i < N; i++) put(i, i, false, m.e[D][D].c[k]); if (D > 1) put(0, 1, false, 0); if (D > 2) { put(0, 2, false, m.e[0][1].c[k]); put(1, 2, false, m.e[0][1].c[k]); } } return m;
}
static Mat isotropic(int D, const Law& E, double v) { Mat m; LD V = v; for (int k = 0; k < 3; k++) { LD lam = E.c[k] * V / ((1 + V) * (1 - 2 * V)), mu = E.c[k] / (2 * (1 + V)); for (int i = 0; i < D; i++) { for (int j = 0; j < D; j++) m.e[i][j].c[k] = lam; m.e[i][i].c[k] += 2 * mu; } for (int i = D; i < nvoigt(D); i++) m.e[i][i].c[k] = mu; } return m; }
static Law scalar_list(Rng& r, PL& l) { Law w; double x = num(r); l.set<double>("c0", x); w.c[0] = x; for (int k = 1; k < 3; k++) if (r.chance(0.6)) { x = num(r); l.set<double>("c" + std::to_string(k), x); w.c[k] = x; } return w; }
static Mat diag(int D, double v) { Mat m; for (int i = 0; i < D; i++) m.e[i][i].c[0] = v; return m; }
static Law konst(double v) { Law w; w.c[0] = v; return w; }
template <class F> static void entries(Sim& s, Rng& r, const F& f, const Mat& m, int N, bool law, const char* what) {   // whole table, at many temperatures, on the device
  int n = law ? pick_cells(r) : 1 + (int)r.below(3); Vec x(n); for (auto& y : x) y = temp(r); auto X = to_view(x); A3 O("o", n, N, N); Kokkos::deep_copy(O, r.value());
  cells(n, LAMBDA_EXPRESSION(int c) { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) O(c, i, j) = f(X(c), i, j); }); std::vector<Ref> e; e.reserve(n * N * N); for (int c = 0; c < n; c++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { Ref q; q.v = m.e[i][j].at(x[c]); q.a = m.e[i][j].mag(x[c]); if (!law) q.v = m.e[i][j].c[0], q.a = 0; e.push_back(q); } near(s, "value", from_view3(O), e, what, 1e-11);
}
template <class T> struct Konst { T t; DEVICE_TYPE double operator()(double, int i, int j) const { return t(i, j); } };
template <class T> static void fad_entries(Sim& s, Rng& r, const T& t, const Mat& m, int N, const char* what) { double x = temp(r); Fad f(2, 0, x); int i = (int)r.below(N), j = (int)r.below(N); Fad o = t(f, i, j); near1(s, "value", o.val(), (double)m.e[i][j].at(x), (double)m.e[i][j].mag(x), what); near1(s, "derivative", o.dx(0), (double)m.e[i][j].slope(x), (double)(fabsl(m.e[i][j].c[1]) + fabsl(m.e[i][j].c[2] * x)), what); near1(s, "derivative", o.dx(1), 0, 0, what); }
// ---- one material object and what it must answer ----
template <int D> struct Model {
  Teuchos::RCP<Plato::MaterialModel<D>> m; bool nl; std::map<std::string, double> sc; std::map<std::string, Law> sf; std::map<std::string, Mat> tc, tf, vc, vf;
};
static const char* names[] = {"Mass Density", "Specific Heat", "Thermal Conductivity", "a", "b"};
template <int D> static void ask(Sim& s, Rng& r, Model<D>& M, const char* when) {
  s.check(M.m->type() == (M.nl ? Plato::MaterialModelType::Nonlinear : Plato::MaterialModelType::Linear), "type", str("type of the material %s", when));
  for (auto& p : M.sc) { double v = M.m->getScalarConstant(p.first); s.evaluated(); if (!(v == p.second)) s.fail("value", str("scalar '%s' %s is %.17g, expected %.17g", p.first.c_str(), when, v, p.second)); }
  if (r.chance(0.3)) { std::string nm = r.chance(0.5) ? names[r.below(5)] : r.chance(0.5) ? "A" : "z"; double v = 0, t = temp(r); int i = (int)r.below(D), j = (int)r.below(D), k = (int)r.below(nvoigt(D)), l = (int)r.below(nvoigt(D)); const char* kind = "constant"; try { if (!M.sc.count(nm)) v = M.m->getScalarConstant(nm); if (!M.sf.count(nm) && v == 0) { kind = "law"; v = M.m->getScalarFunctor(nm)(t); } if (!M.tc.count(nm) && v == 0) { kind = "tensor"; v = M.m->getTensorConstant(nm)(i, j); } if (!M.tf.count(nm) && v == 0) { kind = "tensor law"; v = M.m->getTensorFunctor(nm)(t, i, j); } if (!M.vc.count(nm) && v == 0) { kind = "stiffness"; v = M.m->getRank4VoigtConstant(nm)(k, l); } if (!M.vf.count(nm) && v == 0) { kind = "stiffness law"; v = M.m->getRank4VoigtFunctor(nm)(t, k, l); } } catch (const std::exception&) { v = 0; } s.evaluated(); if (v != 0) s.fail("made-up", str("the %s '%s' was never given to the material, which answers %.17g %s", kind, nm.c_str(), v, when)); s.cover("never given"); }
  for (auto& p : M.sf) { auto f = M.m->getScalarFunctor(p.first); Mat q; q.e[0][0] = p.second; int n = pick_cells(r); Vec x(n); for (auto& y : x) y = temp(r); auto X = to_view(x); SV O("o", n); cells(n, LAMBDA_EXPRESSION(int c) { O(c) = f(X(c)); }); std::vector<Ref> e(n); for (int c = 0; c < n; c++) { e[c].v = p.second.at(x[c]); e[c].a = p.second.mag(x[c]); } near(s, "value", from_view(O), e, str("scalar law '%s' %s", p.first.c_str(), when).c_str()); double t = temp(r); Fad g = f(Fad(2, 1, t)); near1(s, "derivative", g.dx(1), (double)p.second.slope(t), (double)(fabsl(p.second.c[1]) + fabsl(p.second.c[2] * t)), "derivative of a scalar law"); }
  for (auto& p : M.tc) { Konst<Plato::TensorConstant<D>> f{M.m->getTensorConstant(p.first)}; entries(s, r, f, p.second, D, false, str("tensor '%s' %s", p.first.c_str(), when).c_str()); }
  for (auto& p : M.tf) { auto f = M.m->getTensorFunctor(p.first); entries(s, r, f, p.second, D, true, str("tensor law '%s' %s", p.first.c_str(), when).c_str()); fad_entries(s, r, f, p.second, D, "tensor law"); }
  for (auto& p : M.vc) { Konst<Plato::Rank4VoigtConstant<D>> f{M.m->getRank4VoigtConstant(p.first)}; entries(s, r, f, p.second, nvoigt(D), false, str("stiffness '%s' %s", p.first.c_str(), when).c_str()); }
  for (auto& p : M.vf) { auto f = M.m->getRank4VoigtFunctor(p.first); entries(s, r, f, p.second, nvoigt(D), true, str("stiffness law '%s' %s", p.first.c_str(), when).c_str()); fad_entries(s, r, f, p.second, nvoigt(D), "stiffness law"); }
}
template <int D> static Model<D> make(Rng& r) { Model<D> M; PL l; M.nl = r.chance(0.5); if (r.chance(0.15)) { M.m = Teuchos::rcp(new Plato::MaterialModel<D>()); M.nl = false; } else { if (M.nl || r.chance(0.5)) l.set<bool>("Temperature Dependent", M.nl); M.m = Teuchos::rcp(new Plato::MaterialModel<D>(l)); } return M; }
template <int D> static void op(Sim& s, Rng& r, Model<D>& M) {
  std::string nm = names[r.below(5)]; PL l; if (r.chance(0.3)) l.set<double>("unrelated", 3.0); Model<D> N = M; bool ok = true; std::function<void()> f; auto m = M.m; const char* what = "";
  switch (r.below(9)) {
    case 0: { what = "parseScalar"; int q = (int)r.below(4); if (q == 0) { ok = false; if (r.chance(0.3)) l.set<int>(nm, 3); else if (r.chance(0.3)) l.set<std::string>(nm, "3"); else if (M.nl && r.chance(0.5)) l.sublist(nm).set<double>("c1", 2.0); } else if (q == 1) { double v = num(r); l.set<double>(nm, v); if (M.nl) N.sf[nm] = konst(v); else N.sc[nm] = v; } else { Law w = scalar_list(r, l.sublist(nm)); if (M.nl) N.sf[nm] = w; else ok = false; } f = [m, nm, &l] { m->parseScalar(nm, l); }; break; }
    case 1: { what = "parseScalarConstant with default"; double d = num(r); if (r.chance(0.5)) { double v = num(r); l.set<double>(nm, v); N.sc[nm] = v; } else N.sc[nm] = d; f = [m, nm, &l, d] { m->parseScalarConstant(nm, l, d); }; break; }
    case 2: { what = "parseScalarConstant"; if (r.chance(0.7)) { double v = num(r); l.set<double>(nm, v); N.sc[nm] = v; } else { ok = false; if (r.chance(0.4)) scalar_list(r, l.sublist(nm)); } f = [m, nm, &l] { m->parseScalarConstant(nm, l); }; break; }
    case 3: case 4: { what = "parseTensor"; int q = (int)r.below(5); if (q == 0) { ok = false; if (r.chance(0.3)) l.set<int>(nm, 3); else if (r.chance(0.5)) { Mat x = tensor_list(r, l.sublist(nm), D, M.nl); l.sublist(nm).remove(M.nl ? "c011" : "c11"); } } else if (q == 1) { double v = num(r); l.set<double>(nm, v); (M.nl ? N.tf : N.tc)[nm] = diag(D, v); } else (M.nl ? N.tf : N.tc)[nm] = tensor_list(r, l.sublist(nm), D, M.nl); f = [m, nm, &l] { m->parseTensor(nm, l); }; break; }
    case 5: case 6: { what = "parseRank4Voigt"; int q = (int)r.below(4); if (q == 0) { ok = false; if (r.chance(0.3)) l.set<double>(nm, 3.0); else if (r.chance(0.7)) { voigt_list(r, l.sublist(nm), D, M.nl); std::string p = M.nl ? "c0" : "c"; l.sublist(nm).remove(D == 1 || r.chance(0.5) ? p + "11" : D == 2 ? p + "33" : p + "44"); } } else (M.nl ? N.vf : N.vc)[nm] = voigt_list(r, l.sublist(nm), D, M.nl); f = [m, nm, &l] { m->parseRank4Voigt(nm, l); }; break; }
    case 7: { what = "set"; switch (r.below(3)) { case 0: { double v = num(r); N.sc[nm] = v; f = [m, nm, v] { m->setScalarConstant(nm, v); }; break; } case 1: { PL t; Mat q = tensor_list(r, t, D, false); N.tc[nm] = q; Plato::TensorConstant<D> c(t); f = [m, nm, c] { m->setTensorConstant(nm, c); }; break; } default: { PL t; Law w = scalar_list(r, t); N.sf[nm] = w; Plato::ScalarFunctor c(t); f = [m, nm, c] { m->setScalarFunctor(nm, c); }; } } break; }
    default: { what = "set stiffness"; PL t; double v = r.uni(-0.4, 0.45); t.set<double>("Poissons Ratio", v); if (r.chance(0.5)) { double E = num(r); t.set<double>("Youngs Modulus", E); N.vc[nm] = isotropic(D, konst(E), v); Plato::IsotropicStiffnessConstant<D> c(t); f = [m, nm, c] { m->setRank4VoigtConstant(nm, c); }; } else { Law w = scalar_list(r, t.sublist("Youngs Modulus")); N.vf[nm] = isotropic(D, w, v); Plato::IsotropicStiffnessFunctor<D> c(t); f = [m, nm, c] { m->setRank4VoigtFunctor(nm, c); }; } }
  }
  s.cover(str("%s %s %dD %s", what, M.nl ? "law" : "constant", D, ok ? "accepted" : "refused"));
  if (!ok) { must_throw(s, "refused", what, f); return; }                                            // nothing of M changes
  bool done; try { done = alloc_fault(s, 0.2, 30, f); } catch (const std::exception& e) { s.fail("accepted", str("%s of a complete description refused: %.200s", what, e.what())); }
  if (done) { M = N; return; }
  // interrupted: the operation is repeated, as a caller would after releasing memory
  f(); M = N;
}
template <int D> static void history(Sim& s) {
  Rng& w = s.w; std::vector<Model<D>> all; int k0 = w.range(1, 3); for (int i = 0; i < k0; i++) all.push_back(make<D>(w)); int n = w.range(3, 16);
  for (int k = 0; k < n; k++) { if (!s.step("material")) continue; Rng& r = s.w; Model<D>& M = all[r.below(all.size())]; switch (r.below(8)) { case 0: if (all.size() < 6) { Model<D> c = M; c.m = Teuchos::rcp(new Plato::MaterialModel<D>(*M.m)); all.push_back(c); } break; case 1: if (all.size() < 6) all.push_back(make<D>(r)); break; case 2: ask(s, r, M, "during the history"); break; default: op<D>(s, r, M); } }
  for (auto& M : all) ask(s, w, M, "at the end");
}
// ---- factories and the thermal operators ----
static void noise(Rng& r, PL& l) { if (r.chance(0.3)) l.sublist("Other").set<double>("c0", 1.0); }
template <int D> static void problem(Sim& s) {
  Rng& w = s.w; PL l; noise(w, l); int n = w.range(1, 3); struct E { bool nl, law; Law rho, cp; Mat k, alpha, C; double ref, scale; bool badYoung, missing; int cs; }; std::vector<E> e(n); std::vector<Mat> ce(n);
  bool nolist = w.chance(0.05); 
  if (!nolist) { PL& mm = l.sublist("Material Models"); for (int i = 0; i < n; i++) { E& x = e[i]; PL& m = mm.sublist("m" + std::to_string(i)); x.nl = w.chance(0.5); auto scal = [&](PL& p, const char* nm) -> Law { if (x.nl && w.chance(0.6)) return scalar_list(w, p.sublist(nm)); double v = num(w); p.set<double>(nm, v); return konst(v); }; auto tens = [&](PL& p, const char* nm) -> Mat { if (w.chance(0.4)) { double v = num(w); p.set<double>(nm, v); return diag(D, v); } return tensor_list(w, p.sublist(nm), D, x.nl); };
      PL& a = m.sublist("Thermal Mass"); if (x.nl) a.set<bool>("Temperature Dependent", true); x.rho = scal(a, "Mass Density"); x.cp = scal(a, "Specific Heat"); PL& b = m.sublist("Thermal Conduction"); if (x.nl) b.set<bool>("Temperature Dependent", true); else if (w.chance(0.3)) b.set<bool>("Temperature Dependent", false); ce[i] = tens(b, "Thermal Conductivity");
      PL& c = m.sublist("Thermoelastic"); if (x.nl) c.set<bool>("Temperature Dependent", true); x.alpha = tens(c, "Thermal Expansivity"); x.k = tens(c, "Thermal Conductivity"); x.badYoung = false; PL& st = c.sublist("Elastic Stiffness"); x.cs = (int)w.below(3); double v = w.uni(-0.4, 0.45); x.missing = false;
      if (x.cs == 0) x.C = voigt_list(w, st, D, x.nl); else { st.set<double>("Poissons Ratio", v); if (x.cs == 1) { double E = num(w); st.set<double>("Youngs Modulus", E); x.C = isotropic(D, konst(E), v); } else { Law q = scalar_list(w, st.sublist("Youngs Modulus")); x.C = isotropic(D, q, v); x.badYoung = !x.nl; } if (w.chance(0.08)) { st.remove("Poissons Ratio"); x.missing = true; } }
      x.ref = 23; x.scale = 1; if (w.chance(0.5)) c.set<double>("Reference Temperature", x.ref = w.uni(-10, 300)); if (w.chance(0.5)) c.set<double>("Temperature Scaling", x.scale = w.uni(0.1, 5)); } }
  int ops = w.range(2, 7); Plato::ThermalMassModelFactory<D> fm(l); Plato::ThermalConductionModelFactory<D> fc(l); Plato::ThermoelasticModelFactory<D> fe(l);
  for (int q = 0; q < ops; q++) {
    if (!s.step("create material")) continue; Rng& r = s.w; int i = (int)r.below(n), what = (int)r.below(3); std::string nm = "m" + std::to_string(i); E& x = e[i]; Teuchos::RCP<Plato::MaterialModel<D>> m; auto create = [&](const std::string& k) { return what == 0 ? fm.create(k) : what == 1 ? fc.create(k) : fe.create(k); }; static const char* wn[] = {"Thermal Mass", "Thermal Conduction", "Thermoelastic"};
    if (nolist) { s.check(create(nm).is_null(), "no-list", "a material was made up without a 'Material Models' list"); s.cover("no material list"); continue; }
    if (r.chance(0.1)) { must_throw(s, "refused", "material model that is not defined", [&] { create("undefined"); }); s.cover("undefined model"); continue; }
    if (r.chance(0.1)) { PL c(l); c.sublist("Material Models").sublist(nm).remove(wn[what]); must_throw(s, "refused", "material model without its list", [&] { if (what == 0) Plato::ThermalMassModelFactory<D>(c).create(nm); else if (what == 1) Plato::ThermalConductionModelFactory<D>(c).create(nm); else Plato::ThermoelasticModelFactory<D>(c).create(nm); }); s.cover("model list missing"); continue; }
    if (what == 2 && (x.badYoung || x.missing)) { must_throw(s, "refused", x.missing ? "stiffness without Poisson's ratio" : "temperature dependent stiffness in a linear model", [&] { create(nm); }); s.cover("thermoelastic refused"); continue; }
    bool done; try { done = alloc_fault(s, 0.2, 60, [&] { m = create(nm); }); } catch (const std::exception& ex) { s.fail("accepted", str("complete '%s' material refused: %.200s", wn[what], ex.what())); } if (!done) m = create(nm); s.check(!m.is_null(), "accepted", "no material created");
    Model<D> M; M.m = m; M.nl = x.nl; if (what == 0) { if (x.nl) { M.sf["Mass Density"] = x.rho; M.sf["Specific Heat"] = x.cp; } else { M.sc["Mass Density"] = (double)x.rho.c[0]; M.sc["Specific Heat"] = (double)x.cp.c[0]; } } else { auto& t = x.nl ? M.tf : M.tc; t["Thermal Conductivity"] = what == 1 ? ce[i] : x.k; if (what == 2) { t["Thermal Expansivity"] = x.alpha; (x.nl ? M.vf : M.vc)["Elastic Stiffness"] = x.C; M.sc["Reference Temperature"] = x.ref; M.sc["Temperature Scaling"] = x.scale; } }
    ask(s, r, M, str("of the '%s' model", wn[what]).c_str()); s.cover(str("%s %s %dD stiffness %d", wn[what], x.nl ? "law" : "constant", D, what == 2 ? x.cs : -1));
    int nc = pick_cells(r); Arr T(r, nc); for (auto& y : T.v) y = temp(r); auto VT = T.v1();
    for (int rep = 0; rep < 2; rep++) {
      if (what == 0) { Plato::ThermalContent<D> f(m); Arr rate(r, nc); auto R = rate.v1(); SV O("o", nc); Kokkos::deep_copy(O, r.value()); bool two = !x.nl && r.chance(0.5); if (two) cells(nc, LAMBDA_EXPRESSION(int c) { f(c, O, R); }); else cells(nc, LAMBDA_EXPRESSION(int c) { f(c, O, R, VT); }); std::vector<Ref> g(nc); for (int c = 0; c < nc; c++) { g[c].v = x.rho.at(T(c)) * x.cp.at(T(c)) * rate(c); g[c].a = x.rho.mag(T(c)) * x.cp.mag(T(c)) * fabsl(rate(c)); } near(s, "heat", from_view(O), g, "heat content rate", 1e-11); same(s, "input", from_view(R), rate.v, "temperature rate changed"); s.cover(str("content %s%s", x.nl ? "law" : "constant", two ? " without temperature" : "")); }
      else { const Mat& k = what == 1 ? ce[i] : x.k; Plato::ThermalFlux<D> f(m); Arr g(r, nc, D); auto G = g.v2(); MV F("f", nc, D); Kokkos::deep_copy(F, r.value()); bool two = !x.nl && r.chance(0.5); if (two) cells(nc, LAMBDA_EXPRESSION(int c) { f(c, F, G); }); else cells(nc, LAMBDA_EXPRESSION(int c) { f(c, F, G, VT); }); Out o(nc, D); for (int c = 0; c < nc; c++) for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) { LD t = x.nl ? k.e[a][b].at(T(c)) : k.e[a][b].c[0]; o(c, a).v -= t * g(c, b); o(c, a).a += (x.nl ? k.e[a][b].mag(T(c)) : fabsl(t)) * fabsl(g(c, b)); } near(s, "flux", from_view2(F), o.r, "heat flux", 1e-11); same(s, "input", from_view2(G), g.v, "temperature gradient changed"); same(s, "input", from_view(VT), T.v, "temperature changed"); s.cover(str("flux %s%s %dD", x.nl ? "law" : "constant", two ? " without temperature" : "", D)); }
    }
  }
}
template <int D> static void voigtmap(Sim& s) { if (!s.step("Voigt map")) return; Plato::VoigtMap<D> m; for (int k = 0; k < nvoigt(D); k++) { int i = m.I[k], j = m.J[k]; s.evaluated(); if (i < 0 || j < 0 || i >= D || j >= D || voigt(D, i, j) != k) s.fail("voigt-map", str("%dD Voigt term %d addresses component (%d,%d)", D, k, i, j)); } s.cover(str("Voigt map %dD", D)); }
static void tools(Sim& s) {
  if (!s.step("parse tools")) return; Rng& r = s.w; PL l; double v = num(r), d = num(r); bool sub = r.chance(0.7), has = r.chance(0.6), top = r.chance(0.6); if (sub) { l.sublist("S"); if (has) l.sublist("S").set<double>("p", v); } if (top) l.set<double>("q", v);
  near1(s, "parse", Plato::ParseTools::getSubParam<double>(l, "S", "p", d), sub && has ? v : d, 0, "sublist parameter"); near1(s, "parse", Plato::ParseTools::getParam<double>(l, "q", d), top ? v : d, 0, "parameter"); s.check(l.isSublist("S") == sub, "parse", "asking for a parameter created its list");
  if (top) near1(s, "parse", Plato::ParseTools::getParam<double>(l, "q"), v, 0, "required parameter"); else must_throw(s, "parse", "missing required parameter", [&] { Plato::ParseTools::getParam<double>(l, "q"); }); l.set<int>("i", 4); must_throw(s, "parse", "required parameter of another type", [&] { Plato::ParseTools::getParam<double>(l, "i"); }); s.cover(str("tools %d%d%d", sub, has, top));
}
void harness_episode(Sim& s) {
  Rng& w = s.w; int D = w.range(1, 3);
  switch (w.below(7)) { case 0: case 1: case 2: D == 1 ? history<1>(s) : D == 2 ? history<2>(s) : history<3>(s); break; case 3: case 4: case 5: D == 1 ? problem<1>(s) : D == 2 ? problem<2>(s) : problem<3>(s); break; default: tools(s); voigtmap<1>(s); voigtmap<2>(s); voigtmap<3>(s); }
}
}
