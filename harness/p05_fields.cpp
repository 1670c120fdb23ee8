// Field transfer, inertia, damping, stabilization, material weighting and reference-element operators, cell by cell.
#include "cells.hpp"
#include <ProjectToNode.hpp>
#include <InertialForces.hpp>
#include <StateValues.hpp>
#include <InterpolateFromNodal.hpp>
#include <InterpolateGradientFromScalarNodal.hpp>
#include <ComplexRayleighDamping.hpp>
#include <AdjointComplexRayleighDamping.hpp>
#include <RayleighDamping.hpp>
#include <StructuralDynamicsCellResidual.hpp>
#include <SimplexStructuralDynamics.hpp>
#include <ComputeFrequencyResponseMisfit.hpp>
#include <ComplexElasticEnergy.hpp>
#include <ComplexInertialEnergy.hpp>
#include <ComputeStabilization.hpp>
#include <DotProduct.hpp>
#include <DoubleDotProduct2ndOrderTensor.hpp>
#include <Plato_TopOptFunctors.hpp>
#include <ApplyWeighting.hpp>
#include <ApplyPenalty.hpp>
#include <ApplyProjection.hpp>
#include <Simp.hpp>
#include <Ramp.hpp>
#include <Heaviside.hpp>
#include <NoPenalty.hpp>
#include <HeavisideProjection.hpp>
#include <HyperbolicTangentProjection.hpp>
#include <LinearTetCubRuleDegreeOne.hpp>
#include <alg/Basis.hpp>
#include <alg/Cubature.hpp>
namespace psim {
const HarnessInfo harness = {"P05", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); }
int harness_episodes(Rng& r) { return 1 + (int)r.below(2); }
static MV used2(Rng& r, int n, int m) { return Arr(r, n, m).v2(); }
static SV used1(Rng& r, int n) { return Arr(r, n).v1(); }
static Vec bary(Rng& r, int k) { Vec b(k); double t = 0; for (auto& x : b) t += (x = r.uni(0.05, 1)); for (auto& x : b) x /= t; return b; }

template <int D, int ND, int OFF, int K> static void transfer(Sim& s) {   // nodal -> point -> nodal
  Rng& r = s.w; int n = pick_cells(r), N = D + 1; Vec b = bary(r, N); auto B = to_view(b); s.cover(str("transfer %dD dofs=%d offset=%d width=%d cells=%s", D, ND, OFF, K, szc(n)));
  Arr u(r, n, N * ND), vol = volumes(r, n); auto U = u.v2(); auto VO = vol.v1(); double sc = r.chance(0.4) ? 1.0 : r.value();
  { Plato::InterpolateFromNodal<D, ND, OFF, K> f; MV O = used2(r, n, K); Out o(n, K); for (int c = 0; c < n; c++) for (int k = 0; k < K; k++) for (int a = 0; a < N; a++) o(c, k).add((LD)b[a] * u(c, a * ND + OFF + k));
    cells(n, LAMBDA_EXPRESSION(int c) { f(c, B, U, O); }); near(s, "interpolate", from_view2(O), o.r, "interpolated field");
    SV O1 = used1(r, n); std::vector<Ref> o1(n); for (int c = 0; c < n; c++) o1[c] = o(c, 0); cells(n, LAMBDA_EXPRESSION(int c) { f(c, B, U, O1); }); near(s, "interpolate", from_view(O1), o1, "interpolated scalar");
    { Plato::InterpolateGradientFromScalarNodal<D, ND, OFF> gi; Arr gr(r, n, N, D); auto GR = gr.v3(); MV OG = used2(r, n, D); Out og(n, D); for (int c = 0; c < n; c++) for (int k = 0; k < D; k++) for (int a = 0; a < N; a++) og(c, k).add((LD)u(c, a * ND + OFF) * gr(c, a, k)); cells(n, LAMBDA_EXPRESSION(int c) { gi(c, GR, U, OG); }); near(s, "interpolate", from_view2(OG), og.r, "gradient of a nodal field"); }
    // projection back adds to the residual entries of that field only
    Plato::ProjectToNode<D, ND, OFF> p; Arr f0(r, n, N * ND); MV F = f0.v2(); Out g(n, N * ND); Arr v(r, n, K); MV V = v.v2(); for (int c = 0; c < n; c++) { for (int k = 0; k < N * ND; k++) g(c, k).add(f0(c, k)); for (int a = 0; a < N; a++) for (int k = 0; k < K; k++) g(c, a * ND + OFF + k).add((LD)sc * b[a] * v(c, k) * vol(c)); }
    if (sc == 1.0) cells(n, LAMBDA_EXPRESSION(int c) { p(c, VO, B, V, F); }); else cells(n, LAMBDA_EXPRESSION(int c) { p(c, VO, B, V, F, sc); }); near(s, "project", from_view2(F), g.r, "projection to the nodes");
    Arr w(r, n); SV W = w.v1(); for (int c = 0; c < n; c++) for (int a = 0; a < N; a++) g(c, a * ND + OFF).add((LD)sc * b[a] * w(c) * vol(c));
    cells(n, LAMBDA_EXPRESSION(int c) { p(c, VO, B, W, F, sc); }); near(s, "project", from_view2(F), g.r, "scalar projection to the nodes"); }
  { Plato::StateValues f; MV O = used2(r, n, ND); Out o(n, ND); for (int c = 0; c < n; c++) for (int k = 0; k < ND; k++) for (int a = 0; a < N; a++) o(c, k).add((LD)b[a] * u(c, a * ND + k));
    cells(n, LAMBDA_EXPRESSION(int c) { f(c, B, U, O); }); near(s, "interpolate", from_view2(O), o.r, "state values");
    double rho = r.uni(0.1, 9); Plato::InertialForces g(rho); MV F = used2(r, n, N * ND); Out q(n, N * ND); for (int c = 0; c < n; c++) for (int a = 0; a < N; a++) for (int k = 0; k < ND; k++) q(c, a * ND + k).add((LD)b[a] * O(c, k) * vol(c) * rho);
    cells(n, LAMBDA_EXPRESSION(int c) { g(c, VO, B, O, F); }); near(s, "inertia", from_view2(F), q.r, "inertial forces"); }
  { Arr z = positive(r, n, N); MV Z = z.v2(); SV M = used1(r, n), Q = used1(r, n); std::vector<Ref> m(n), q(n); for (int c = 0; c < n; c++) for (int j = 0; j < N; j++) { for (int i = 0; i < N; i++) m[c].add((LD)b[i] * b[j] * z(c, j)); q[c].add((LD)z(c, j) / N); }
    cells(n, LAMBDA_EXPRESSION(int c) { M(c) = Plato::cell_mass<D + 1>(c, B, Z); Q(c) = Plato::cell_density<D + 1>(c, Z); }); near(s, "mass", from_view(M), m, "cell mass"); near(s, "mass", from_view(Q), q, "cell density"); }
}
template <int D> static void dynamics(Sim& s) {
  Rng& r = s.w; int n = pick_cells(r), N = D + 1, nd = 2 * D, m = N * nd; s.cover(str("frequency domain %dD cells=%s", D, szc(n)));
  Arr el(r, n, m), in(r, n, m), res0(r, n, m); auto E = el.v2(); auto I = in.v2(); MV Dm = used2(r, n, m); double a = r.uni(0, 2), b = r.uni(0, 2), w2 = r.uni(0, 50); int kind = (int)r.below(3), how = (int)r.below(3); Teuchos::ParameterList pl;
  // coefficients given, documented defaults, or read from the problem description (absent: undamped)
  if (how == 1) { a = 0.025; b = 0.023; } if (how == 2) { if (r.chance(0.7)) pl.set<double>("Rayleigh Mass Damping", a); else a = 0; if (r.chance(0.7)) pl.set<double>("Rayleigh Stiffness Damping", b); else b = 0; }
  Out d(n, m);
  if (kind < 2) { double sg = kind == 0 ? 1 : -1; for (int c = 0; c < n; c++) for (int k = 0; k < N; k++) for (int i = 0; i < D; i++) { int R = k * nd + i, J = R + D; d(c, R).add(sg * (LD)a * in(c, J)); d(c, R).add(sg * (LD)b * el(c, J)); d(c, J).add(-sg * (LD)a * in(c, R)); d(c, J).add(-sg * (LD)b * el(c, R)); }
    if (kind == 0) { typedef Plato::ComplexRayleighDamping<D> T; T f = how == 0 ? T(a, b) : how == 1 ? T() : T(pl); cells(n, LAMBDA_EXPRESSION(int c) { f(c, E, I, Dm); }); } else { typedef Plato::AdjointComplexRayleighDamping<D> T; T f = how == 0 ? T(a, b) : how == 1 ? T() : T(pl); cells(n, LAMBDA_EXPRESSION(int c) { f(c, E, I, Dm); }); } }
  else { for (int c = 0; c < n; c++) for (int k = 0; k < m; k++) { d(c, k).add((LD)a * in(c, k)); d(c, k).add((LD)b * el(c, k)); } typedef Plato::RayleighDamping<2 * D * (D + 1)> T; T f = how == 0 ? T(a, b) : how == 1 ? T() : T(pl); cells(n, LAMBDA_EXPRESSION(int c) { f(c, E, I, Dm); }); }
  near(s, "damping", from_view2(Dm), d.r, kind == 0 ? "complex damping forces" : kind == 1 ? "adjoint complex damping forces" : "damping forces");
  MV R = res0.v2(); Out q(n, m); for (int c = 0; c < n; c++) for (int k = 0; k < m; k++) { q(c, k).add(res0(c, k)); q(c, k).add(el(c, k)); q(c, k).add(Dm(c, k)); q(c, k).add(-(LD)w2 * in(c, k)); }
  cells(n, LAMBDA_EXPRESSION(int c) { Plato::structural_dynamics_cell_residual<2 * D * (D + 1)>(c, w2, E, Dm, I, R); }); near(s, "residual", from_view2(R), q.r, "dynamic residual");
  // misfit and energies
  SV O = used1(r, n); Plato::ComputeFrequencyResponseMisfit<D> mf; std::vector<Ref> o(n); for (int c = 0; c < n; c++) for (int k = 0; k < m; k++) { LD t = (LD)el(c, k) - in(c, k); o[c].add(t * t / 2); o[c].a += (fabsl(el(c, k)) + fabsl(in(c, k))) * fabsl(t); }
  cells(n, LAMBDA_EXPRESSION(int c) { mf(c, I, E, O); }); near(s, "misfit", from_view(O), o, "frequency response misfit");
  constexpr int V = D == 3 ? 6 : D == 2 ? 3 : 1; Arr st(r, n, 2, V), sn(r, n, 2, V), vol = volumes(r, n), sv(r, n, nd); auto ST = st.v3(); auto SN = sn.v3(); auto VO = vol.v1(); auto SVv = sv.v2(); SV O2 = used1(r, n), O3 = used1(r, n); std::vector<Ref> o2(n), o3(n); double om = r.value(), rho = r.uni(0.1, 5);
  Plato::ComplexElasticEnergy<V> ee; Plato::ComplexInertialEnergy<D> ie(om, rho);
  for (int c = 0; c < n; c++) { for (int q2 = 0; q2 < 2; q2++) for (int v = 0; v < V; v++) o2[c].add((LD)st(c, q2, v) * sn(c, q2, v)); for (int k = 0; k < nd; k++) o3[c].add(-(LD)om * om * rho * vol(c) * sv(c, k) * sv(c, k)); }
  cells(n, LAMBDA_EXPRESSION(int c) { ee(c, ST, SN, O2); ie(c, VO, SVv, O3); }); near(s, "energy", from_view(O2), o2, "elastic energy"); near(s, "energy", from_view(O3), o3, "inertial energy");
}
template <int D> static void products(Sim& s) {
  Rng& r = s.w; int n = pick_cells(r); s.cover(str("products and stabilization %dD cells=%s", D, szc(n)));
  { double sc = r.uni(0.1, 5), mu = r.uni(0.1, 9); Plato::ComputeStabilization<D> f(sc, mu); Arr vol = volumes(r, n), p(r, n, D), q(r, n, D); auto VO = vol.v1(); auto P = p.v2(), Q = q.v2(); MV O = used2(r, n, D); Out o(n, D);
    for (int c = 0; c < n; c++) for (int i = 0; i < D; i++) { LD t = powl(vol(c), 2.0L / 3) / (2 * (LD)mu) * sc; o(c, i).add(t * sc * p(c, i)); o(c, i).add(-t * q(c, i)); }
    cells(n, LAMBDA_EXPRESSION(int c) { f(c, VO, P, Q, O); }); near(s, "stabilization", from_view2(O), o.r, "stabilization term"); }
  constexpr int M = D == 3 ? 6 : D == 2 ? 4 : 1; Arr a(r, n, M), b(r, n, M); auto A = a.v2(), B = b.v2(); SV O = used1(r, n), P = used1(r, n); std::vector<Ref> o(n), p(n); Plato::DotProduct<M> dp; Plato::DoubleDotProduct2ndOrderTensor<D> dd;
  for (int c = 0; c < n; c++) { for (int k = 0; k < M; k++) o[c].add((LD)a(c, k) * b(c, k)); for (int k = 0; k < M; k++) { bool shear = (D == 3 && k > 2) || (D == 2 && k == 2); p[c].add((LD)(shear ? 2 : 1) * a(c, k) * b(c, k)); } }
  cells(n, LAMBDA_EXPRESSION(int c) { dp(c, A, B, O); dd(c, A, B, P); }); near(s, "product", from_view(O), o, "dot product"); near(s, "product", from_view(P), p, "double dot product");
}
// reference penalty
struct Pen { int kind; double p, mn, reg; LD operator()(LD z) const { switch (kind) { case 0: return mn + (1 - (LD)mn) * powl(z, p); case 1: return mn + (1 - (LD)mn) * z / (1 + (LD)p * (1 - z)); case 2: return z <= -reg ? mn : z >= reg ? 1 : mn + (1 - (LD)mn) * powl(0.5L * (1 + sinl(M_PIl * z / (2 * (LD)reg))), p); default: return 1; } } };
template <int D, class P> static void weigh(Sim& s, P pen, Pen ref) {
  Rng& r = s.w; int n = pick_cells(r); constexpr int T = D == 3 ? 6 : 3; static const char* nm[] = {"msimp", "ramp", "heaviside", "none"}; s.cover(str("weighting %s %dD cells=%s", nm[ref.kind], D, szc(n)));
  Arr z = ref.kind == 2 ? Arr(r, n, D + 1, 1, true) : positive(r, n, D + 1, 0, 1), x(r, n, T), y(r, n); auto Z = z.v2(); auto X = x.v2(), X2 = x.v2(); auto Y = y.v1(), Y2 = y.v1(); MV O = used2(r, n, T); SV O1 = used1(r, n);
  Out o(n, T); std::vector<Ref> o1(n); std::vector<LD> w(n); for (int c = 0; c < n; c++) { LD t = 0; for (int k = 0; k <= D; k++) t += z(c, k); w[c] = ref(t / (D + 1)); for (int k = 0; k < T; k++) { o(c, k).add(w[c] * x(c, k)); o(c, k).a += 1e-5L * fabsl(x(c, k)); } o1[c].add(w[c] * y(c)); o1[c].a += 1e-5L * fabsl(y(c)); }
  Plato::ApplyWeighting<D, T, P> f(pen);
  cells(n, LAMBDA_EXPRESSION(int c) { f(c, X, Z); }); near(s, "weight", from_view2(X), o.r, "weighting in place", 1e-9);
  cells(n, LAMBDA_EXPRESSION(int c) { f(c, X2, O, Z); }); near(s, "weight", from_view2(O), o.r, "weighting", 1e-9); same(s, "input", from_view2(X2), x.v, "weighting changed its input");
  cells(n, LAMBDA_EXPRESSION(int c) { f(c, Y, Z); }); near(s, "weight", from_view(Y), o1, "scalar weighting in place", 1e-9);
  { cells(n, LAMBDA_EXPRESSION(int c) { SV OO = O1; f(c, Y2, OO, Z); }); near(s, "weight", from_view(O1), o1, "scalar weighting", 1e-9); same(s, "input", from_view(Y2), y.v, "weighting changed its input"); }
  // penalty of a 2D/3D workset with a given cell density, and a plain factor
  Plato::ApplyPenalty<P> ap(pen); Arr a2(r, n, T), a3(r, n, 2, T), rho = positive(r, n, 1, 0, 1); auto A2 = a2.v2(), A4 = a2.v2(); auto A3v = a3.v3(); auto RH = rho.v1(); Out q2(n, T), q3(n, 2 * T), q4(n, T);
  for (int c = 0; c < n; c++) { LD g = ref(rho(c)); for (int k = 0; k < T; k++) { q2(c, k).add(g * a2(c, k)); q2(c, k).a += 1e-5L * fabsl(a2(c, k)); q4(c, k).add((LD)rho(c) * a2(c, k)); for (int q = 0; q < 2; q++) { q3(c, q * T + k).add(g * a3(c, q, k)); q3(c, q * T + k).a += 1e-5L * fabsl(a3(c, q, k)); } } }
  cells(n, LAMBDA_EXPRESSION(int c) { double t = RH(c); ap(c, t, A2); ap(c, t, A3v); Plato::apply_penalty<T>(c, t, A4); });
  near(s, "weight", from_view2(A2), q2.r, "penalty", 1e-9); near(s, "weight", from_view3(A3v), q3.r, "penalty of a complex workset", 1e-9); near(s, "weight", from_view2(A4), q4.r, "penalty factor");
}
template <int D> static void weighting(Sim& s) {
  Rng& r = s.w; double p = r.chance(0.5) ? 3.0 : r.uni(1, 5), mn = r.chance(0.3) ? 0 : r.uni(0, 0.2), reg = r.uni(0.3, 1.5);
  switch (r.below(4)) { case 0: { Plato::MSIMP f(p, mn); weigh<D>(s, f, Pen{0, p, mn, 0}); break; } case 1: { Teuchos::ParameterList l; l.set("Exponent", p); l.set("Minimum Value", mn); Plato::RAMP f(l); weigh<D>(s, f, Pen{1, p, mn, 0}); break; }
    case 2: { bool dflt = r.chance(0.2); if (dflt) { p = 1; reg = 1; mn = 0; } Plato::Heaviside f = dflt ? Plato::Heaviside() : Plato::Heaviside(p, reg, mn); weigh<D>(s, f, Pen{2, p, mn, reg}); break; } default: weigh<D>(s, Plato::NoPenalty(), Pen{3, 0, 0, 0}); }
}
static void projection(Sim& s) {
  Rng& r = s.w; int n = pick_cells(r), m = r.range(1, 4); Arr z = positive(r, n, m, 0, 1); auto Z = z.v2(); SV O = used1(r, n); double b = r.uni(0.2, 12), e = r.uni(0.2, 0.8); bool tanhp = r.chance(0.5), dflt = r.chance(0.2); if (dflt) { b = 10; e = 0.5; } std::vector<Ref> o(n); s.cover(str("projection %s cells=%s", tanhp ? "tanh" : "heaviside", szc(n)));
  for (int c = 0; c < n; c++) { LD t = 0; for (int k = 0; k < m; k++) t += z(c, k); t /= m; if (tanhp) { LD d = tanhl((LD)b * e) + tanhl((LD)b * (1 - (LD)e)); o[c].add(tanhl((LD)b * e) / d); o[c].add(tanhl((LD)b * (t - e)) / d); } else { LD q = 1 - t; o[c].add(1); o[c].add(-expl(-(LD)b * q)); o[c].add(q * expl(-(LD)b)); } }
  if (tanhp) { Plato::ApplyProjection<Plato::HyperbolicTangentProjection> f{dflt ? Plato::HyperbolicTangentProjection() : Plato::HyperbolicTangentProjection(b, e)}; cells(n, LAMBDA_EXPRESSION(int c) { O(c) = f(c, Z); }); } else { Plato::ApplyProjection<Plato::HeavisideProjection> f{dflt ? Plato::HeavisideProjection() : Plato::HeavisideProjection(b)}; cells(n, LAMBDA_EXPRESSION(int c) { O(c) = f(c, Z); }); }
  near(s, "projection", from_view(O), o, "projected density", 1e-9);
}
static LD fact(int k) { LD f = 1; while (k > 1) f *= k--; return f; }
template <int D> static void one_point(Sim& s) {
  Plato::LinearTetCubRuleDegreeOne<D> q; auto B = from_view(q.getBasisFunctions()), X = from_view(q.getCubPointsCoords()); std::vector<Ref> b(D + 1), x(D); for (auto& t : b) t.add(1.0L / (D + 1)); for (auto& t : x) t.add(1.0L / (D + 1));
  near(s, "cubature", B, b, "basis functions of the one-point rule", 1e-14); near(s, "cubature", X, x, "coordinates of the one-point rule", 1e-14); near1(s, "cubature", q.getCubWeight(), (double)(1 / fact(D)), 0, "weight of the one-point rule", 1e-14); s.check(q.getNumCubPoints() == 1, "cubature", "number of points of the one-point rule"); s.cover(str("one-point rule %dD", D));
}
// Integration over the reference element: rule x basis integrate every polynomial up to the degree exactly.
static void reference_element(Sim& s) {
  Rng& r = s.w; int D = r.range(1, 3), deg = r.range(0, 3), np = Plato::Cubature::getNumCubaturePoints(D, deg); s.cover(str("reference element %dD degree=%d", D, deg));
  Plato::Cubature::RefPointsView X(Kokkos::ViewAllocateWithoutInitializing("x"), np, D); Plato::Cubature::WeightsView W(Kokkos::ViewAllocateWithoutInitializing("w"), np); Plato::Cubature::getCubature(D, deg, X, W);
  Plato::Basis B(D); int nb = B.basisCardinality(); s.check(nb == D + 1, "basis", "number of basis functions"); MV V = used2(r, nb, np); A3 G = Arr(r, nb, np, D).v3(); B.getValues(X, V); B.getGradientValues(X, G); s.evaluated(nb * np * (D + 1));
  // values: linear, one at the own vertex; reference coordinates list the vertices; gradients: constant
  MV RC = used2(r, nb, D), RV = used2(r, nb, nb); B.getRefCoords(RC); B.getValues(RC, RV); for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++) if (RV(i, j) != (i == j)) s.fail("basis", str("basis function %d is %g at vertex %d", i, RV(i, j), j));
  for (int q = 0; q < np; q++) { for (int d = 0; d < D; d++) { double t = 0; for (int i = 0; i < nb; i++) { t += V(i, q) * RC(i, d); double g = i < D ? (i == d) : -1; if (G(i, q, d) != g) s.fail("basis", str("gradient of basis function %d in direction %d is %g", i, d, G(i, q, d))); } if (std::fabs(t - X(q, d)) > 1e-13) s.fail("basis", "basis does not reproduce the coordinates"); } double u = 0; for (int i = 0; i < nb; i++) u += V(i, q); if (std::fabs(u - 1) > 1e-13) s.fail("basis", "basis functions do not sum to one"); }
  int e[3] = {0, 0, 0}, left = std::max(deg, 1); for (int d = 0; d < D; d++) { e[d] = r.range(0, left); left -= e[d]; } LD ex = fact(e[0]) * fact(e[1]) * fact(e[2]) / fact(e[0] + e[1] + e[2] + D), got = 0; for (int q = 0; q < np; q++) { LD t = W(q); for (int d = 0; d < D; d++) t *= powl(X(q, d), e[d]); got += t; }
  near1(s, "cubature", (double)got, (double)ex, 1e-2, str("integral of x^%d y^%d z^%d over the %dD reference element, degree %d", e[0], e[1], e[2], D, deg).c_str(), 1e-12);
  must_throw(s, "cubature-arguments", "unsupported degree", [&] { Plato::Cubature::getNumCubaturePoints(D, r.range(4, 9)); }); must_throw(s, "cubature-arguments", "unsupported dimension", [&] { Plato::Cubature::getNumCubaturePoints(r.range(4, 9), deg); });
  must_throw(s, "cubature-arguments", "points of the wrong size", [&] { Plato::Cubature::RefPointsView Y("y", np + 1, D); Plato::Cubature::getCubature(D, deg, Y, W); }); must_throw(s, "cubature-arguments", "points of the wrong dimension", [&] { Plato::Cubature::RefPointsView Y("y", np, D + 1); Plato::Cubature::getCubature(D, deg, Y, W); }); must_throw(s, "cubature-arguments", "weights of the wrong size", [&] { Plato::Cubature::WeightsView Y("y", np + 1); Plato::Cubature::getCubature(D, deg, X, Y); });
  if (D == 1) one_point<1>(s); else if (D == 2) one_point<2>(s); else one_point<3>(s);
}
template <int D> static void any(Sim& s) {
  switch (s.w.below(10)) { case 0: transfer<D, 1, 0, 1>(s); break; case 1: transfer<D, D, 0, D>(s); break; case 2: transfer<D, D + 1, D, 1>(s); break; case 3: transfer<D, D + 2, 1, D>(s); break;
    case 4: dynamics<D>(s); break; case 5: products<D>(s); break; case 6: weighting<D>(s); break; case 7: projection(s); break; case 8: reference_element(s); break; default: dynamics<D>(s); }
}
void harness_episode(Sim& s) {
  int steps = s.w.range(2, 5);
  for (int k = 0; k < steps; k++) { if (!s.step("cell operators")) continue; switch (s.w.below(4)) { case 0: any<1>(s); break; case 1: any<2>(s); break; default: any<3>(s); } }
}
}
