// Kinematics and divergences of the finite-element operators: each cell gets the exact value of its own data, whatever the
// schedule of the cells and whatever the output held before; divergences add the virtual-work conjugate of the kinematics.
#include "cells.hpp"
#include <SimplexStabilizedMechanics.hpp>
#include <SimplexElectromechanics.hpp>
#include <SimplexThermomechanics.hpp>
#include <Kinematics.hpp>
#include <EMKinematics.hpp>
#include <TMKinematics.hpp>
#include <ComplexStrain.hpp>
#include <ComplexStressDivergence.hpp>
#include <StrainDivergence.hpp>
#include <StressDivergence.hpp>
#include <FluxDivergence.hpp>
#include <PressureDivergence.hpp>
#include <PressureGradient.hpp>
namespace psim {
const HarnessInfo harness = {"P04", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); }
int harness_episodes(Rng& r) { return 1 + (int)r.below(2); }
template <int D> static void ref_strain(Out& o, const Arr& u, const Arr& g, int dofs, int off, int c, int col = 0) {
  for (int i = 0; i < D; i++) for (int j = i; j < D; j++) { Ref& e = o(c, col + voigt(D, i, j)); e = Ref();
    for (int a = 0; a <= D; a++) { if (i == j) e.add((LD)u(c, a * dofs + off + i) * g(c, a, i)); else { e.add((LD)u(c, a * dofs + off + i) * g(c, a, j)); e.add((LD)u(c, a * dofs + off + j) * g(c, a, i)); } } }
}
template <int D> static void ref_grad(Out& o, const Arr& u, const Arr& g, int dofs, int off, double sc, int c) {
  for (int i = 0; i < D; i++) { Ref& e = o(c, i); e = Ref(); for (int a = 0; a <= D; a++) e.add((LD)sc * u(c, a * dofs + off) * g(c, a, i)); }
}
// one of the coupled kinematics; reuse = evaluated again into the same worksets (time stepping, Newton iterations)
template <int D> static void kinematics(Sim& s) {
  Rng& r = s.w; int n = pick_cells(r), kind = (int)r.below(4), reps = r.chance(0.5) ? 1 : r.range(2, 3), V = nvoigt(D);
  static const char* nm[] = {"stabilized", "electro", "thermo", "stabilized thermo"}; int dofs = D + (kind == 3 ? 2 : 1);
  s.cover(str("%s kinematics %dD cells=%s evaluations=%d", nm[kind], D, szc(n), reps));
  MV E("strain", n, V), P("grad", n, D), T("tgrad", n, D);
  if (r.chance(0.5)) { for (int i = 0; i < n; i++) { for (int j = 0; j < V; j++) E(i, j) = r.value(); for (int j = 0; j < D; j++) P(i, j) = T(i, j) = r.value(); } s.cover("kinematics into used storage"); }
  for (int k = 0; k < reps; k++) {
    Arr u(r, n, (D + 1) * dofs), g = shape_gradients(r, n, D); auto U = u.v2(); auto G = g.v3(); Out e(n, V), p(n, D), t(n, D);
    for (int c = 0; c < n; c++) { ref_strain<D>(e, u, g, dofs, 0, c);
      if (kind == 0) ref_grad<D>(p, u, g, dofs, D, 1, c); if (kind == 1) ref_grad<D>(p, u, g, dofs, D, -1, c); if (kind == 2) ref_grad<D>(p, u, g, dofs, D, 1, c);
      if (kind == 3) { ref_grad<D>(p, u, g, dofs, D, 1, c); ref_grad<D>(t, u, g, dofs, D + 1, 1, c); } }
    if (kind == 0) { Plato::StabilizedKinematics<D> f; cells(n, LAMBDA_EXPRESSION(int c) { f(c, E, P, U, G); }); }
    if (kind == 1) { Plato::EMKinematics<D> f; cells(n, LAMBDA_EXPRESSION(int c) { f(c, E, P, U, G); }); }
    if (kind == 2) { Plato::TMKinematics<D> f; cells(n, LAMBDA_EXPRESSION(int c) { f(c, E, P, U, G); }); }
    if (kind == 3) { Plato::StabilizedTMKinematics<D> f; cells(n, LAMBDA_EXPRESSION(int c) { f(c, E, P, T, U, G); }); }
    near(s, "strain", from_view2(E), e.r, str("%s kinematics: strain", nm[kind]).c_str()); near(s, "gradient", from_view2(P), p.r, str("%s kinematics: gradient", nm[kind]).c_str());
    if (kind == 3) near(s, "gradient", from_view2(T), t.r, "temperature gradient");
    same(s, "input", from_view2(U), u.v, "state changed"); same(s, "input", from_view3(G), g.v, "geometry changed");
    // volumetric strain of the strain just computed
    SV W = to_view(rand_vec(r, n)); Plato::StrainDivergence<D> sd; cells(n, LAMBDA_EXPRESSION(int c) { sd(c, E, W); }); std::vector<Ref> w(n);
    for (int c = 0; c < n; c++) for (int i = 0; i < D; i++) w[c].add(E(c, i)); near(s, "divergence", from_view(W), w, "strain divergence");
  }
}
template <int D> static void pressure_gradient(Sim& s) {
  Rng& r = s.w; int n = pick_cells(r); double sc = r.chance(0.4) ? 1.0 : r.value(); Arr p(r, n, D + 1), g = shape_gradients(r, n, D), o0(r, n, D); auto P = p.v2(); auto G = g.v3(); auto O = o0.v2();
  s.cover(str("pressure gradient %dD cells=%s", D, szc(n))); bool dflt = sc == 1.0 && r.chance(0.5); Plato::PressureGradient<D> f = dflt ? Plato::PressureGradient<D>() : Plato::PressureGradient<D>(sc); Out o(n, D); for (int c = 0; c < n; c++) ref_grad<D>(o, p, g, 1, 0, sc, c);
  cells(n, LAMBDA_EXPRESSION(int c) { f(c, O, P, G); }); near(s, "gradient", from_view2(O), o.r, "pressure gradient"); same(s, "input", from_view2(P), p.v, "pressure changed");
}
// f(c, a*dofs+off+i) += scale * vol * sum_j stress_ij grad_j N_a : residual entries of other fields stay untouched
template <int D, int DOFS, int OFF> static void stress_div(Sim& s) {
  Rng& r = s.w; int n = pick_cells(r), kind = (int)r.below(3), reps = r.range(1, 2), m = (D + 1) * DOFS; double sc = r.chance(0.4) ? 1.0 : r.value();
  static const char* nm[] = {"stress", "flux", "pressure"}; s.cover(str("%s divergence %dD dofs=%d offset=%d cells=%s", nm[kind], D, DOFS, OFF, szc(n)));
  Arr f0(r, n, m); auto F = f0.v2(); Out o(n, m); for (int c = 0; c < n; c++) for (int k = 0; k < m; k++) o(c, k).add(f0(c, k));
  for (int rep = 0; rep < reps; rep++) {
    Arr st(r, n, kind == 0 ? nvoigt(D) : kind == 1 ? D : 1), g = shape_gradients(r, n, D), vol = volumes(r, n); auto S = st.v2(); auto S1 = st.v1(); auto G = g.v3(); auto V = vol.v1(); bool dflt = sc == 1.0 && r.chance(0.5);
    for (int c = 0; c < n; c++) for (int a = 0; a <= D; a++) {
      if (kind == 1) for (int j = 0; j < D; j++) o(c, a * DOFS + OFF).add((LD)sc * st(c, j) * g(c, a, j) * vol(c));
      else for (int i = 0; i < D; i++) { if (kind == 0) for (int j = 0; j < D; j++) o(c, a * DOFS + OFF + i).add((LD)sc * vol(c) * st(c, voigt(D, std::min(i, j), std::max(i, j))) * g(c, a, j)); else o(c, a * DOFS + OFF + i).add((LD)sc * vol(c) * st(c) * g(c, a, i)); } }
    if (kind == 0) { Plato::StressDivergence<D, DOFS, OFF> f; if (dflt) cells(n, LAMBDA_EXPRESSION(int c) { f(c, F, S, G, V); }); else cells(n, LAMBDA_EXPRESSION(int c) { f(c, F, S, G, V, sc); }); }
    if (kind == 1) { Plato::FluxDivergence<D, DOFS, OFF> f; if (dflt) cells(n, LAMBDA_EXPRESSION(int c) { f(c, F, S, G, V); }); else cells(n, LAMBDA_EXPRESSION(int c) { f(c, F, S, G, V, sc); }); }
    if (kind == 2) { Plato::PressureDivergence<D, DOFS, OFF> f; if (dflt) cells(n, LAMBDA_EXPRESSION(int c) { f(c, F, S1, G, V); }); else cells(n, LAMBDA_EXPRESSION(int c) { f(c, F, S1, G, V, sc); }); }
  }
  near(s, "divergence", from_view2(F), o.r, str("%s divergence", nm[kind]).c_str());
}
template <int D> static void complex_ops(Sim& s) {
  Rng& r = s.w; int n = pick_cells(r), V = nvoigt(D), dofs = 2 * D, m = dofs * (D + 1); bool used = r.chance(0.6); Arr u(r, n, m), g = shape_gradients(r, n, D), e0(r, n, 2, V), vol = volumes(r, n), f0(r, n, m);
  auto U = u.v2(); auto G = g.v3(); auto VO = vol.v1(); A3 E = used ? e0.v3() : A3("strain", n, 2, V); MV F = used ? f0.v2() : MV("force", n, m);
  s.cover(str("complex strain/stress divergence %dD cells=%s %s", D, szc(n), used ? "used" : "fresh"));
  Plato::ComplexStrain<D, 2 * D> cs; Plato::ComplexStressDivergence<D, 2 * D> cd; Out e(n, 2 * V), f(n, m);
  for (int c = 0; c < n; c++) for (int q = 0; q < 2; q++) ref_strain<D>(e, u, g, dofs, q * D, c, q * V);
  cells(n, LAMBDA_EXPRESSION(int c) { cs(c, U, G, E); }); near(s, "strain", from_view3(E), e.r, "complex strain");
  Arr st(r, n, 2, V); auto S = st.v3();
  for (int c = 0; c < n; c++) for (int q = 0; q < 2; q++) for (int a = 0; a <= D; a++) for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) f(c, a * dofs + q * D + i).add((LD)vol(c) * st(c, q, voigt(D, std::min(i, j), std::max(i, j))) * g(c, a, j));
  cells(n, LAMBDA_EXPRESSION(int c) { cd(c, VO, G, S, F); }); near(s, "divergence", from_view2(F), f.r, "complex stress divergence");
}
template <int D> static void any(Sim& s) {
  switch (s.w.below(9)) {
    case 0: case 1: case 2: kinematics<D>(s); break; case 3: pressure_gradient<D>(s); break; case 4: complex_ops<D>(s); break;
    case 5: stress_div<D, D, 0>(s); break; case 6: stress_div<D, D + 1, 0>(s); break; case 7: stress_div<D, D + 2, 1>(s); break; default: stress_div<D, D + 2, 2>(s); }
}
void harness_episode(Sim& s) {
  int steps = s.w.range(2, 6);
  for (int k = 0; k < steps; k++) { if (!s.step("cell operators")) continue; switch (s.w.below(4)) { case 0: any<1>(s); break; case 1: any<2>(s); break; default: any<3>(s); } }
}
}
