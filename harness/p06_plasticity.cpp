// Constitutive and plasticity operators: the local material state of every cell evolves by the flow rule, whatever the schedule of
// the cells, and over any history of elastic and plastic steps.
#include "cells.hpp"
#include <SimplexPlasticity.hpp>
#include <SimplexThermoPlasticity.hpp>
#include <J2PlasticityUtilities.hpp>
#include <ThermoPlasticityUtilities.hpp>
#include <ComputeCauchyStress.hpp>
#include <ComputeDeviatoricStrain.hpp>
#include <ComputeDeviatoricStress.hpp>
#include <ComputeElasticWork.hpp>
#include <DoubleDotProduct2ndOrderTensor.hpp>
#include <VonMisesYieldFunction.hpp>
#include <Eigenvalues.hpp>
#include <TensileEnergyDensity.hpp>
#include <IsotropicMaterialUtilities.hpp>
namespace psim {
const HarnessInfo harness = {"P06", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); }
int harness_episodes(Rng& r) { return 1 + (int)r.below(2); }
// stress/strain components kept by plasticity: 3D 11 22 33 23 13 12, 2D (plane strain) 11 22 12 33, 1D 11
template <int D> struct Sym { static constexpr int n = D == 3 ? 6 : D == 2 ? 4 : 1; static bool shear(int k) { return D == 3 ? k >= 3 : D == 2 ? k == 2 : false; } };
static const LD S32 = sqrtl(1.5L), S23 = sqrtl(2.0L / 3.0L);
template <int D> static LD trace(const Arr& e, int c) { LD t = 0; for (int k = 0; k < Sym<D>::n; k++) if (!Sym<D>::shear(k)) t += e(c, k); return t; }
static Arr used(Rng& r, int n, int m = 1) { return r.chance(0.5) ? Arr(r, n, m) : Arr(r, n, m, 1, true); }
// A load history: each increment is elastic or plastic per cell; the state arrays are swapped or copied like a time loop does
template <int D> static void history(Sim& s) {
  Rng& r = s.w; constexpr int T = Sym<D>::n, L = 2 + 2 * T; int n = pick_cells(r), incr = r.range(1, 6); double H = r.chance(0.3) ? 0 : r.uni(0, 3); Plato::J2PlasticityUtilities<D> j2;
  s.cover(str("plastic history %dD cells=%s increments=%d", D, szc(n), incr)); Arr st(r, n, L, 1, true); std::vector<Ref> model(n * L); for (int i = 0; i < n * L; i++) model[i].add(st.v[i]);
  MV prev = st.v2(), cur = used(r, n, L).v2();
  for (int k = 0; k < incr; k++) {
    Arr dev(r, n, T, 1, true); auto DV = dev.v2(); MV N = used(r, n, T).v2(); SV NM = used(r, n).v1(); bool same_normal = true;
    std::vector<char> pl(n); IVec plv(n); for (int c = 0; c < n; c++) plv[c] = pl[c] = r.chance(0.6); auto PL = to_iview(plv);
    // yield-surface normal from the previous state
    cells(n, LAMBDA_EXPRESSION(int c) { j2.computeDeviatoricStressMinusBackstressNormalized(c, DV, prev, N, NM); });
    Out no(n, T); std::vector<Ref> nm(n); for (int c = 0; c < n; c++) { LD q = 0, a = 0; for (int i = 0; i < T; i++) { LD d = dev(c, i) - (LD)prev(c, 2 + T + i); q += (Sym<D>::shear(i) ? 2 : 1) * d * d; } q = sqrtl(q); nm[c].add(q); for (int i = 0; i < T; i++) { LD d = dev(c, i) - (LD)prev(c, 2 + T + i); no(c, i).add(d / q); no(c, i).a += (fabsl(dev(c, i)) + fabsl(prev(c, 2 + T + i))) / q; } (void)a; }
    near(s, "yield-normal", from_view2(N), no.r, "yield-surface normal", 1e-10); near(s, "yield-normal", from_view(NM), nm, "norm of the relative stress", 1e-10);
    // multipliers and accumulated plastic strain are solved for elsewhere; the tensors follow by the flow rule
    Vec lam(n); for (int c = 0; c < n; c++) { lam[c] = plv[c] ? r.uni(0, 0.5) : 0.0; cur(c, 1) = lam[c]; cur(c, 0) = prev(c, 0) + lam[c]; }
    Vec prevv = from_view2(prev); Vec keep0(n), keep1(n); for (int c = 0; c < n; c++) { keep0[c] = cur(c, 0); keep1[c] = cur(c, 1); }
    cells(n, LAMBDA_EXPRESSION(int c) { if (PL(c)) j2.updatePlasticStrainAndBackstressPlasticStep(c, prev, N, H, cur); else j2.updatePlasticStrainAndBackstressElasticStep(c, prev, cur); });
    Out o(n, L); for (int c = 0; c < n; c++) { o(c, 0).add(keep0[c]); o(c, 1).add(keep1[c]); for (int i = 0; i < T; i++) { LD f = plv[c] ? (LD)lam[c] * N(c, i) : 0; o(c, 2 + i).add(prevv[c * L + 2 + i]); o(c, 2 + i).add((Sym<D>::shear(i) ? 2 : 1) * S32 * f); o(c, 2 + T + i).add(prevv[c * L + 2 + T + i]); o(c, 2 + T + i).add(S23 * H * f); } }
    near(s, "flow-rule", from_view2(cur), o.r, "local state after the increment"); same(s, "input", from_view2(prev), prevv, "previous local state changed");
    // the residual of the updated state vanishes; the residual of any other state is its distance to the flow rule
    Arr trial(r, n, L, 1, true); auto TR = trial.v2(); Arr r0 = used(r, n, L); MV R1 = r0.v2(), R2 = r0.v2();
    cells(n, LAMBDA_EXPRESSION(int c) { if (PL(c)) { j2.fillPlasticStrainTensorResidualPlasticStep(c, cur, prev, N, R1); j2.fillBackstressTensorResidualPlasticStep(c, H, cur, prev, N, R1); j2.fillPlasticStrainTensorResidualPlasticStep(c, TR, prev, N, R2); j2.fillBackstressTensorResidualPlasticStep(c, H, TR, prev, N, R2); }
      else { j2.fillPlasticStrainTensorResidualElasticStep(c, cur, prev, R1); j2.fillBackstressTensorResidualElasticStep(c, cur, prev, R1); j2.fillPlasticStrainTensorResidualElasticStep(c, TR, prev, R2); j2.fillBackstressTensorResidualElasticStep(c, TR, prev, R2); } });
    Out q1(n, L), q2(n, L); for (int c = 0; c < n; c++) { for (int i = 0; i < 2; i++) { q1(c, i).add(r0(c, i)); q2(c, i).add(r0(c, i)); }
      for (int i = 0; i < 2 * T; i++) { q1(c, 2 + i).a = 1 + fabsl(prevv[c * L + 2 + i]); int t = i % T; LD f = plv[c] ? (LD)trial(c, 1) * N(c, t) * (i < T ? (Sym<D>::shear(t) ? 2 : 1) * S32 : S23 * H) : 0; q2(c, 2 + i).add(trial(c, 2 + i)); q2(c, 2 + i).add(-prevv[c * L + 2 + i]); q2(c, 2 + i).add(-f); } }
    near(s, "residual", from_view2(R1), q1.r, "residual of the state that follows the flow rule"); near(s, "residual", from_view2(R2), q2.r, "residual of a trial state");
    // field extraction
    SV A = used(r, n).v1(), M = used(r, n).v1(); MV E = used(r, n, T).v2(), B = used(r, n, T).v2(), MI = used(r, n, T).v2(); cells(n, LAMBDA_EXPRESSION(int c) { j2.getAccumulatedPlasticStrain(c, cur, A); j2.getPlasticMultiplierIncrement(c, cur, M); j2.getPlasticStrainTensor(c, cur, E); j2.getBackstressTensor(c, cur, B); j2.computePlasticStrainMisfit(c, cur, TR, MI); });
    Vec e0, b0; Out mi(n, T); for (int c = 0; c < n; c++) for (int i = 0; i < T; i++) { e0.push_back(cur(c, 2 + i)); b0.push_back(cur(c, 2 + T + i)); mi(c, i).add(cur(c, 2 + i)); mi(c, i).add(-trial(c, 2 + i)); }
    same(s, "extract", from_view(A), keep0, "accumulated plastic strain"); same(s, "extract", from_view(M), keep1, "plastic multiplier increment"); same(s, "extract", from_view2(E), e0, "plastic strain"); same(s, "extract", from_view2(B), b0, "backstress"); near(s, "extract", from_view2(MI), mi.r, "plastic strain misfit");
    if (r.chance(0.5)) std::swap(prev, cur); else { Plato::ScalarMultiVector nx("next", n, L); Kokkos::deep_copy(nx, cur); prev = nx; }
    s.simtime(1);
  }
}
template <int D, class PHYS, bool THERMAL> static void elastic_strain(Sim& s) {
  Rng& r = s.w; constexpr int T = Sym<D>::n, L = 2 + 2 * T; int n = pick_cells(r), dn = PHYS::mNumDofsPerNode; s.cover(str("elastic strain %dD %s cells=%s", D, THERMAL ? "thermal" : "isothermal", szc(n)));
  double al = r.uni(0, 1), tr = r.smooth(), ts = r.chance(0.5) ? 1 : r.uni(0.1, 20); bool dflt = r.chance(0.15); if (dflt) { al = 0; tr = 0; ts = 1; } typedef Plato::ThermoPlasticityUtilities<D, PHYS> TPU; TPU f = dflt ? TPU() : TPU(al, tr, ts); Arr u(r, n, (D + 1) * dn, 1, true), st(r, n, L, 1, true), e(r, n, T, 1, true), b = positive(r, D + 1, 1, 0, 1); auto U = u.v2(), S = st.v2(), E = e.v2(); auto B = b.v1(); MV O = used(r, n, T).v2(); Out o(n, T);
  int reps = r.range(1, 2); for (int c = 0; c < n; c++) { LD t = 0; for (int a = 0; a <= D; a++) t += (LD)u(c, a * dn + PHYS::mTemperatureDofOffset) * b(a); for (int i = 0; i < T; i++) { o(c, i).add(e(c, i)); o(c, i).add(-st(c, 2 + i)); if (THERMAL && !Sym<D>::shear(i)) { o(c, i).add(-(LD)al * ts * t); o(c, i).add((LD)al * tr); o(c, i).a += 10 * ts; } } }
  for (int k = 0; k < reps; k++) cells(n, LAMBDA_EXPRESSION(int c) { f.computeElasticStrain(c, U, S, B, E, O); });
  near(s, "elastic-strain", from_view2(O), o.r, "elastic strain"); same(s, "input", from_view2(E), e.v, "total strain changed"); same(s, "input", from_view2(S), st.v, "local state changed");
}
template <int D> static void stress(Sim& s) {
  Rng& r = s.w; constexpr int T = Sym<D>::n; int n = pick_cells(r); s.cover(str("stress and work %dD cells=%s", D, szc(n))); Arr e(r, n, T), d(r, n, T); Arr G = positive(r, n), K = positive(r, n); auto E = e.v2(), Dv = d.v2(); auto g = G.v1(), k = K.v1();
  MV CS = used(r, n, T).v2(), DS = used(r, n, T).v2(), DE = used(r, n, T).v2(); SV W = used(r, n).v1(), DD = used(r, n).v1(), VM = used(r, n).v1();
  Plato::ComputeCauchyStress<D> cs; Plato::ComputeDeviatoricStress<D> ds; Plato::ComputeDeviatoricStrain<D> de; Plato::ComputeElasticWork<D> ew; Plato::DoubleDotProduct2ndOrderTensor<D> dd; Plato::VonMisesYieldFunction<D> vm;
  cells(n, LAMBDA_EXPRESSION(int c) { double gg = g(c), kk = k(c); cs(c, kk, gg, E, CS); ds(c, gg, E, DS); de(c, E, DE); ew(c, gg, kk, E, Dv, W); dd(c, E, Dv, DD); vm(c, E, VM); });
  Out oc(n, T), kf(n, T), os(n, T), oe(n, T); std::vector<Ref> w(n), q(n), v(n);
  for (int c = 0; c < n; c++) { LD t = trace<D>(e, c), at = 0, tk = D == 3 ? (LD)e(c, 0) + e(c, 1) + e(c, 3 % T) : t, kc = D == 1 ? K(c) / 3.0L : K(c); for (int i = 0; i < T; i++) at += fabsl(e(c, i));
    for (int i = 0; i < T; i++) { bool sh = Sym<D>::shear(i); LD gg = G(c), x = e(c, i); oc(c, i).add(sh ? gg * x : 2 * gg * (x - t / 3) + K(c) * t); os(c, i).add(sh ? gg * x : 2 * gg * (x - t / 3)); oe(c, i).add(sh ? x : x - t / 3); kf(c, i).add(sh ? gg * x : 2 * gg * (x - tk / 3) + kc * tk); for (auto* z : {&oc(c, i), &os(c, i), &oe(c, i), &kf(c, i)}) z->a += 4 * at;
      LD m = sh ? 2 : 1; w[c].add(m * gg * d(c, i) * d(c, i)); q[c].add(m * (LD)e(c, i) * d(c, i)); } w[c].add(0.5L * K(c) * t * t); w[c].a += K(c) * at * at;
    LD a = e(c, 0), b = D > 1 ? e(c, 1) : 0; if (D == 3) { LD z = e(c, 2); v[c].add(sqrtl(0.5L * ((a - b) * (a - b) + (b - z) * (b - z) + (z - a) * (z - a)) + 3 * ((LD)e(c, 3 % T) * e(c, 3 % T) + (LD)e(c, 4 % T) * e(c, 4 % T) + (LD)e(c, 5 % T) * e(c, 5 % T)))); }
    else if (D == 2) v[c].add(sqrtl(a * a - a * b + b * b + 3 * (LD)e(c, 2 % T) * e(c, 2 % T))); else v[c].add(a); v[c].a += at; }
  Vec got = from_view2(CS); s.evaluated(); bool asdoc = true, askn = true; for (size_t i = 0; i < got.size(); i++) { asdoc &= close(got[i], (double)oc.r[i].v, (double)oc.r[i].a, 1e-11); askn &= close(got[i], (double)kf.r[i].v, (double)kf.r[i].a, 1e-11); }
  if (!asdoc && !(D != 2 && askn && s.known(D == 3 ? "cauchy-stress-3d" : "cauchy-stress-1d"))) near(s, "stress", got, oc.r, "Cauchy stress");
  near(s, "stress", from_view2(DS), os.r, "deviatoric stress"); near(s, "stress", from_view2(DE), oe.r, "deviatoric strain"); near(s, "work", from_view(W), w, "elastic work"); near(s, "work", from_view(DD), q, "double dot product"); near(s, "von-mises", from_view(VM), v, "von Mises stress", 1e-7);
  same(s, "input", from_view2(E), e.v, "strain changed");
}
// eigenvalues of a symmetric 3x3 by converged Jacobi sweeps in extended precision
static void jacobi(LD a[3][3], int n, LD* ev) {
  for (int sweep = 0; sweep < 60; sweep++) for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) { if (a[p][q] == 0) continue; LD th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), sn = t * c;
    for (int k = 0; k < n; k++) { LD x = a[k][p], y = a[k][q]; a[k][p] = c * x - sn * y; a[k][q] = sn * x + c * y; } for (int k = 0; k < n; k++) { LD x = a[p][k], y = a[q][k]; a[p][k] = c * x - sn * y; a[q][k] = sn * x + c * y; } }
  for (int i = 0; i < n; i++) ev[i] = a[i][i]; std::sort(ev, ev + n);
}
template <int D> static void principal(Sim& s) {
  Rng& r = s.w; constexpr int V = D == 3 ? 6 : D == 2 ? 3 : 1; int n = pick_cells(r); bool strain = r.chance(0.5); double la = r.uni(0, 3), mu = r.uni(0, 3); Arr x(r, n, V, 1, true); if (r.chance(0.4)) for (auto& y : x.v) if (r.chance(0.4)) y = 0; auto X = x.v2(); MV E = used(r, n, D).v2(); SV W = used(r, n).v1();
  s.cover(str("principal values %dD %s cells=%s", D, strain ? "strain" : "stress", szc(n))); Plato::Eigenvalues<D> f; Plato::TensileEnergyDensity<D> td; cells(n, LAMBDA_EXPRESSION(int c) { f(c, X, E, strain); td(c, E, la, mu, W); }); s.evaluated(n * D);
  std::vector<Ref> w(n);
  for (int c = 0; c < n; c++) { LD a[3][3] = {}, ev[3], nrm = 0; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) { a[i][j] = x(c, voigt(D, i, j)); if (i != j && strain) a[i][j] /= 2; nrm += a[i][j] * a[i][j]; } nrm = sqrtl(nrm); jacobi(a, D, ev); double g[3]; for (int i = 0; i < D; i++) g[i] = E(c, i); std::sort(g, g + D);
    for (int i = 0; i < D; i++) if (!(fabsl(g[i] - ev[i]) <= (D == 3 ? 1e-5L : 1e-12L) * nrm + 1e-14L)) s.fail("principal", str("principal value %d of cell %d is %.15g, expected %.15Lg", i, c, g[i], ev[i]));
    LD t = 0, e = 0; for (int i = 0; i < D; i++) { LD p = E(c, i); t += p; if (p >= 0) e += mu * p * p; } if (t > 0) e += 0.5L * la * t * t; w[c].add(e); w[c].a += 1e-3L; }
  near(s, "tensile-energy", from_view(W), w, "tensile energy density"); same(s, "input", from_view2(X), x.v, "tensor changed");
  // and of principal strains of any magnitude
  double mag = std::pow(10.0, -r.range(0, 10)); Arr y(r, n, D, 1, true); for (auto& v : y.v) v *= mag; auto Y = y.v2(); SV T = used(r, n).v1(); cells(n, LAMBDA_EXPRESSION(int c) { td(c, Y, la, mu, T); }); s.evaluated(n);
  for (int c = 0; c < n; c++) { LD t = 0, a = 0, e = 0; for (int i = 0; i < D; i++) { LD p = y(c, i); t += p; a += fabsl(p); if (p > 0) e += mu * p * p; } if (t > 0) e += 0.5L * la * t * t; if (!(fabsl(T(c) - e) <= 1e-12L * (e + la * a * a + mu * a * a) + 1e-300L)) s.fail("tensile-energy", str("tensile energy density of cell %d is %.15g, expected %.15Lg", c, (double)T(c), e)); }
}
static void moduli(Sim& s) {
  Rng& r = s.w; double E = r.uni(0.1, 1e3), nu = r.uni(-0.9, 0.49); s.cover("moduli"); LD G = E / (2 * (1 + (LD)nu)), K = E / (3 * (1 - 2 * (LD)nu)); near1(s, "moduli", Plato::compute_shear_modulus(E, nu), (double)G, 0, "shear modulus", 1e-12); near1(s, "moduli", Plato::compute_bulk_modulus(E, nu), (double)K, 0, "bulk modulus", 1e-11);
  Teuchos::ParameterList p; auto& m = p.sublist("Material Model").sublist("Isotropic Linear Elastic"); bool he = r.chance(0.8), hn = r.chance(0.8); if (he) m.set("Youngs Modulus", E); if (hn) m.set("Poissons Ratio", nu);
  if (he && hn) { near1(s, "moduli", Plato::compute_shear_modulus(p), (double)G, 0, "shear modulus", 1e-12); near1(s, "moduli", Plato::compute_bulk_modulus(p), (double)K, 0, "bulk modulus", 1e-11); } else { must_throw(s, "moduli", "incomplete elastic constants (shear)", [&] { Plato::compute_shear_modulus(p); }); must_throw(s, "moduli", "incomplete elastic constants (bulk)", [&] { Plato::compute_bulk_modulus(p); }); }
  if (he) near1(s, "moduli", Plato::parse_elastic_modulus(m), E, 0, "elastic modulus", 0); if (hn) near1(s, "moduli", Plato::parse_poissons_ratio(m), nu, 0, "Poisson's ratio", 0);
  Teuchos::ParameterList q; q.sublist("Material Model").sublist("Something Else"); must_throw(s, "moduli", "no elastic material", [&] { Plato::compute_bulk_modulus(q); }); must_throw(s, "moduli", "no elastic material", [&] { Plato::compute_shear_modulus(q); });
}
template <int D> static void any(Sim& s) {
  switch (s.w.below(6)) { case 0: case 1: history<D>(s); break; case 2: elastic_strain<D, Plato::SimplexPlasticity<D>, false>(s); break; case 3: elastic_strain<D, Plato::SimplexThermoPlasticity<D>, true>(s); break; case 4: stress<D>(s); break; default: principal<D>(s); }
}
void harness_episode(Sim& s) {
  int steps = s.w.range(2, 4);
  for (int k = 0; k < steps; k++) { if (!s.step("constitutive operators")) continue; switch (s.w.below(8)) { case 0: stress<1>(s); break; case 1: principal<1>(s); break; case 2: moduli(s); break; case 3: case 4: any<2>(s); break; default: any<3>(s); } }
}
}
