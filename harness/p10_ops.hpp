// The element evaluations of P10: chains of the framework's operators as the physics use them.
#pragma once
#include "p10_sens.hpp"
#include <Kinematics.hpp>
#include <EMKinematics.hpp>
#include <TMKinematics.hpp>
#include <ComplexStrain.hpp>
#include <ComplexStressDivergence.hpp>
#include <StrainDivergence.hpp>
#include <StressDivergence.hpp>
#include <FluxDivergence.hpp>
#include <PressureDivergence.hpp>
#include <PressureGradient.hpp>
#include <ProjectToNode.hpp>
#include <InertialForces.hpp>
#include <StateValues.hpp>
#include <InterpolateFromNodal.hpp>
#include <InterpolateGradientFromScalarNodal.hpp>
#include <ComplexRayleighDamping.hpp>
#include <RayleighDamping.hpp>
#include <StructuralDynamicsCellResidual.hpp>
#include <ComputeFrequencyResponseMisfit.hpp>
#include <ComplexElasticEnergy.hpp>
#include <ComplexInertialEnergy.hpp>
#include <ComputeStabilization.hpp>
#include <DotProduct.hpp>
#include <DoubleDotProduct2ndOrderTensor.hpp>
#include <Plato_TopOptFunctors.hpp>
#include <ApplyWeighting.hpp>
#include <ApplyPenalty.hpp>
#include <ApplyProjection.hpp>
#include <Simp.hpp>
#include <Ramp.hpp>
#include <Heaviside.hpp>
#include <NoPenalty.hpp>
#include <HyperbolicTangentProjection.hpp>
#include <J2PlasticityUtilities.hpp>
#include <ThermoPlasticityUtilities.hpp>
#include <ComputeCauchyStress.hpp>
#include <ComputeDeviatoricStrain.hpp>
#include <ComputeDeviatoricStress.hpp>
#include <ComputeElasticWork.hpp>
#include <VonMisesYieldFunction.hpp>
#include <VectorPNorm.hpp>
#include <ThermalFlux.hpp>
#include <ThermalContent.hpp>
namespace psim {
#define PSIM_TYPES typedef typename E::U U; typedef typename E::V V; typedef typename E::A A; typedef typename E::L L; typedef typename E::LP LP; typedef typename E::N N; typedef typename E::Z Z; typedef typename E::X X; typedef typename E::R R; int n = d.n; auto u = d.u; auto v = d.v; auto a = d.a; auto l = d.l; auto lp = d.lp; auto ns = d.ns; auto z = d.z; auto g = d.g; auto vol = d.vol; auto out = d.out; (void)n;
struct OpBase { int m; SV B; double k1, k2, pen, mn; OpBase(Rng& r, int D, int m_) : m(m_), k1(r.uni(0.3, 2)), k2(r.uni(0.3, 2)), pen(r.uni(1.2, 4)), mn(r.uni(0, 0.1)) { Vec b(D + 1); double t = 0; for (auto& x : b) t += (x = r.uni(0.05, 1)); for (auto& x : b) x /= t; B = to_view(b); } bool accumulates(int) const { return true; } bool zeros() const { return true; } };
template <int D> constexpr int NV() { return D == 3 ? 6 : D == 2 ? 3 : 1; }
// stabilized mechanics: displacements and pressure, projected pressure gradient as node state
template <int D> struct OpStab : OpBase { typedef Plato::SimplexStabilizedMechanics<D> Phys; static constexpr bool NL = false, NN = true; OpStab(Rng& r) : OpBase(r, D, (D + 1) * (D + 1)) {} const char* name() const { return "stabilized mechanics"; } static Shape shape() { return {D, D + 1, 0, D, "stabilized mechanics"}; }
  template <class E> void run(Data<E>& d, Rng& r) const { PSIM_TYPES typedef Mix<E, U, X> G; typedef Mix<E, U, X, Z> S; typedef Mix<E, N, Z> PN;
    auto e = used2t<G>(r, n, NV<D>()), pg = used2t<G>(r, n, D); auto st = used2t<R>(r, n, NV<D>()), stab = used2t<R>(r, n, D); auto ppg = used2t<N>(r, n, D); auto vs = used1t<G>(r, n); auto pr = used1t<U>(r, n); auto ws = used1t<S>(r, n); auto B_ = B; double c1 = k1, c2 = k2;
    Plato::StabilizedKinematics<D> kin; Plato::StrainDivergence<D> sd; Plato::InterpolateFromNodal<D, D, 0, D> ip; Plato::InterpolateFromNodal<D, D + 1, D> ips; Plato::ComputeStabilization<D> cs(k1, k2); Plato::MSIMP pf(pen, mn); Plato::ApplyWeighting<D, NV<D>(), Plato::MSIMP> w(pf); Plato::ApplyWeighting<D, D, Plato::MSIMP> wd(pf);
    Plato::StressDivergence<D, D + 1, 0> div; Plato::PressureDivergence<D, D + 1, 0> pd; Plato::FluxDivergence<D, D + 1, D> fd; Plato::ProjectToNode<D, D + 1, D> pn;
    cells(n, LAMBDA_EXPRESSION(int c) { kin(c, e, pg, u, g); sd(c, e, vs); ip(c, B_, ns, ppg); ips(c, B_, u, pr); for (int i = 0; i < NV<D>(); i++) st(c, i) = c1 * e(c, i) + c2 * e(c, 0); w(c, st, z); cs(c, vol, pg, ppg, stab); wd(c, stab, z); div(c, out, st, g, vol); pd(c, out, pr, g, vol, c2); fd(c, out, stab, g, vol, -1.0); SVT<S> q = ws; w(c, vs, q, z); pn(c, vol, B_, ws, out); }); } };
// electromechanics
template <int D> struct OpEM : OpBase { typedef Plato::SimplexElectromechanics<D> Phys; static constexpr bool NL = false, NN = false; OpEM(Rng& r) : OpBase(r, D, (D + 1) * (D + 1)) {} const char* name() const { return "electromechanics"; } static Shape shape() { return {D, D + 1, 0, 0, "electromechanics"}; }
  template <class E> void run(Data<E>& d, Rng& r) const { PSIM_TYPES typedef Mix<E, U, X> G; auto e = used2t<G>(r, n, NV<D>()), ef = used2t<G>(r, n, D); auto st = used2t<R>(r, n, NV<D>()), ed = used2t<R>(r, n, D); double c1 = k1, c2 = k2; Teuchos::ParameterList pl; pl.set("Exponent", pen); pl.set("Minimum Value", mn); Plato::RAMP rp(pl);
    Plato::EMKinematics<D> kin; Plato::ApplyWeighting<D, NV<D>(), Plato::RAMP> w(rp); Plato::ApplyWeighting<D, D, Plato::RAMP> wd(rp); Plato::StressDivergence<D, D + 1, 0> div; Plato::FluxDivergence<D, D + 1, D> fd;
    cells(n, LAMBDA_EXPRESSION(int c) { kin(c, e, ef, u, g); for (int i = 0; i < NV<D>(); i++) st(c, i) = c1 * e(c, i) - c2 * ef(c, 0); for (int i = 0; i < D; i++) ed(c, i) = c2 * e(c, 0) + c1 * ef(c, i); w(c, st, z); wd(c, ed, z); div(c, out, st, g, vol); fd(c, out, ed, g, vol, c2); }); } };
template <int D> static Teuchos::RCP<Plato::MaterialModel<D>> thermal(double k, double c, bool nl) { Teuchos::ParameterList p; p.set<bool>("Temperature Dependent", nl); auto m = Teuchos::rcp(new Plato::MaterialModel<D>(p)); Teuchos::ParameterList q("x"), w("y"); if (nl) { q.set<double>("c011", k); q.set<double>("c111", 0.1 * k); q.set<double>("c211", -0.05 * c); if (D > 1) q.set<double>("c112", 0.03); m->setTensorFunctor("Thermal Conductivity", Plato::TensorFunctor<D>(q)); w.set<double>("c0", c); w.set<double>("c1", 0.2); w.set<double>("c2", 0.1); m->setScalarFunctor("Mass Density", Plato::ScalarFunctor(w)); w.set<double>("c1", -0.3); m->setScalarFunctor("Specific Heat", Plato::ScalarFunctor(w)); } else { m->setTensorConstant("Thermal Conductivity", Plato::TensorConstant<D>(k)); m->setScalarConstant("Mass Density", c); m->setScalarConstant("Specific Heat", k); } return m; }
// thermomechanics with heat content rate
template <int D> struct OpTM : OpBase { typedef Plato::SimplexThermomechanics<D> Phys; static constexpr bool NL = false, NN = false; bool nl; OpTM(Rng& r) : OpBase(r, D, (D + 1) * (D + 1)), nl(r.chance(0.7)) {} const char* name() const { return "thermomechanics"; } static Shape shape() { return {D, D + 1, 0, 0, "thermomechanics"}; }
  template <class E> void run(Data<E>& d, Rng& r) const { PSIM_TYPES typedef Mix<E, U, X> G; typedef Mix<E, U, V> C; auto e = used2t<G>(r, n, NV<D>()), tg = used2t<G>(r, n, D); auto st = used2t<R>(r, n, NV<D>()); auto fl = used2t<G>(r, n, D); auto fw = used2t<R>(r, n, D); auto T = used1t<U>(r, n); auto Td = used1t<V>(r, n); auto hc = used1t<C>(r, n); auto hw = used1t<R>(r, n); auto B_ = B; double c1 = k1, c2 = k2; bool two = !nl && k1 > 1; auto mat = thermal<D>(k1, k2, nl);
    Plato::InterpolateGradientFromScalarNodal<D, D + 1, D> gi; bool own = k2 > 1; auto t2 = used2t<G>(r, n, D); Plato::TMKinematics<D> kin; Plato::MSIMP pf(pen, mn); Plato::ApplyWeighting<D, NV<D>(), Plato::MSIMP> w(pf); Plato::ApplyWeighting<D, D, Plato::MSIMP> wd(pf); Plato::ApplyWeighting<D, 1, Plato::MSIMP> w1(pf); Plato::StressDivergence<D, D + 1, 0> div; Plato::FluxDivergence<D, D + 1, D> fd; Plato::InterpolateFromNodal<D, D + 1, D> ip; Plato::ProjectToNode<D, D + 1, D> pn; Plato::ThermalFlux<D> tf(mat); Plato::ThermalContent<D> tc(mat);
    cells(n, LAMBDA_EXPRESSION(int c) { kin(c, e, tg, u, g); gi(c, g, u, t2); if (own) for (int i = 0; i < D; i++) tg(c, i) = t2(c, i); ip(c, B_, u, T); ip(c, B_, v, Td); if (two) tf(c, fl, tg); else tf(c, fl, tg, T); if (two) tc(c, hc, Td); else tc(c, hc, Td, T); for (int i = 0; i < NV<D>(); i++) st(c, i) = c1 * e(c, i) - c2 * T(c); w(c, st, z); wd(c, fl, fw, z); hw(c) = hc(c); w1(c, hw, z); div(c, out, st, g, vol); fd(c, out, fw, g, vol, -1.0); pn(c, vol, B_, hw, out); }); } };
template <int D> struct OpSTM : OpBase { typedef Plato::SimplexStabilizedThermomechanics<D> Phys; static constexpr bool NL = false, NN = true; OpSTM(Rng& r) : OpBase(r, D, (D + 1) * (D + 2)) {} const char* name() const { return "stabilized thermomechanics"; } static Shape shape() { return {D, D + 2, 0, D, "stabilized thermomechanics"}; }
  template <class E> void run(Data<E>& d, Rng& r) const { PSIM_TYPES typedef Mix<E, U, X> G; auto e = used2t<G>(r, n, NV<D>()), pg = used2t<G>(r, n, D), tg = used2t<G>(r, n, D); auto st = used2t<R>(r, n, NV<D>()), stab = used2t<R>(r, n, D), fw = used2t<R>(r, n, D); auto ppg = used2t<N>(r, n, D); auto B_ = B; double c1 = k1, c2 = k2; Plato::NoPenalty np; Plato::Heaviside hv(pen, 1.5, mn);
    Plato::StabilizedTMKinematics<D> kin; Plato::InterpolateFromNodal<D, D, 0, D> ip; Plato::ComputeStabilization<D> cs(k1, k2); Plato::ApplyWeighting<D, NV<D>(), Plato::Heaviside> w(hv); Plato::ApplyWeighting<D, D, Plato::NoPenalty> wn(np); Plato::StressDivergence<D, D + 2, 0> div; Plato::FluxDivergence<D, D + 2, D> fd; Plato::FluxDivergence<D, D + 2, D + 1> ft; Plato::ProjectToNode<D, D + 2, 0> pn;
    cells(n, LAMBDA_EXPRESSION(int c) { kin(c, e, pg, tg, u, g); ip(c, B_, ns, ppg); for (int i = 0; i < NV<D>(); i++) st(c, i) = c1 * e(c, i); for (int i = 0; i < D; i++) fw(c, i) = c2 * tg(c, i) * tg(c, i); w(c, st, z); wn(c, fw, z); cs(c, vol, pg, ppg, stab); div(c, out, st, g, vol); fd(c, out, stab, g, vol); ft(c, out, fw, g, vol, c1); pn(c, vol, B_, fw, out); }); } };
// frequency-domain structural dynamics; the last two entries are the inertial energy and the response misfit
template <int D> struct OpDyn : OpBase { typedef Plato::SimplexStructuralDynamics<D> Phys; static constexpr bool NL = false, NN = false; static constexpr int M0 = (D + 1) * 2 * D; OpDyn(Rng& r) : OpBase(r, D, M0 + 3) {} const char* name() const { return "structural dynamics"; } static Shape shape() { return {D, 2 * D, 0, 0, "structural dynamics"}; } bool accumulates(int j) const { return j < M0; }
  template <class E> void run(Data<E>& d, Rng& r) const { PSIM_TYPES typedef Mix<E, U, X> G; auto e = used3t<G>(r, n, 2, NV<D>()), st = used3t<R>(r, n, 2, NV<D>()); auto sv = used2t<U>(r, n, 2 * D); auto fe = MVT<R>("fe", n, M0), fi = used2t<R>(r, n, M0), fdm = used2t<R>(r, n, M0), res = used2t<R>(r, n, M0); auto en = used1t<R>(r, n), ie = used1t<G>(r, n); auto mf = used1t<U>(r, n); auto xs = Arr(r, n, M0, 1, true).v2(); auto B_ = B; double c1 = k1, c2 = k2; Plato::MSIMP pf(pen, mn); Rng q(5); auto ex = Arr(q, n, M0, 1, true).v2();
    Plato::ComplexStrain<D, 2 * D> cs; Plato::ComplexStressDivergence<D, 2 * D> cd; Plato::StateValues vals; Plato::InertialForces inert(k2); Plato::ComplexRayleighDamping<D> damp(k1, 0.3 * k2); Plato::ApplyPenalty<Plato::MSIMP> ap(pf); Plato::ComplexElasticEnergy<NV<D>()> ee; Plato::ComplexInertialEnergy<D> iner(k1, k2); Plato::ComputeFrequencyResponseMisfit<D> mis;
    cells(n, LAMBDA_EXPRESSION(int c) { cs(c, u, g, e); for (int p = 0; p < 2; p++) for (int i = 0; i < NV<D>(); i++) st(c, p, i) = c1 * e(c, p, i); Z rho = Plato::cell_mass<D + 1>(c, B_, z); Z dens = Plato::cell_density<D + 1>(c, z); ap(c, rho, st); ee(c, st, e, en); cd(c, vol, g, st, fe); vals(c, B_, u, sv); inert(c, vol, B_, sv, fi); ap(c, dens, fi); Plato::apply_penalty<M0>(c, dens, fi); damp(c, fe, fi, fdm); iner(c, vol, sv, ie); mis(c, ex, u, mf);
      for (int j = 0; j < M0; j++) res(c, j) = out(c, j); Plato::structural_dynamics_cell_residual<M0>(c, c2, fe, fdm, fi, res); for (int j = 0; j < M0; j++) out(c, j) = res(c, j); out(c, M0) = en(c); out(c, M0 + 1) = ie(c); out(c, M0 + 2) = mf(c); }); } };
// transient mechanics: damping of the velocity, inertia of the acceleration
template <int D> struct OpHyp : OpBase { typedef Plato::SimplexMechanics<D> Phys; static constexpr bool NL = false, NN = false; static constexpr int M0 = (D + 1) * D; OpHyp(Rng& r) : OpBase(r, D, M0) {} const char* name() const { return "transient mechanics"; } static Shape shape() { return {D, D, 0, 0, "mechanics"}; } bool accumulates(int) const { return true; }
  template <class E> void run(Data<E>& d, Rng& r) const { PSIM_TYPES auto av = used2t<A>(r, n, D); auto fi = used2t<R>(r, n, M0), fdm = used2t<R>(r, n, M0), fv = used2t<R>(r, n, M0); auto vv = used2t<V>(r, n, D); auto uv = used2t<U>(r, n, D); auto st = used2t<R>(r, n, NV<D>()), fw = used2t<R>(r, n, D); auto B_ = B; double c1 = k1; Plato::HyperbolicTangentProjection hp(3 * k1, 0.4); Plato::ApplyProjection<Plato::HyperbolicTangentProjection> pj(hp); Plato::MSIMP pf(pen, mn); Plato::ApplyPenalty<Plato::MSIMP> ap(pf);
    Plato::StateValues vals; Plato::InertialForces inert(k2), visc(k1); Plato::RayleighDamping<M0> damp(k1, 0.2); Plato::StressDivergence<D> div; Plato::ProjectToNode<D, D> pn;
    cells(n, LAMBDA_EXPRESSION(int c) { vals(c, B_, a, av); vals(c, B_, v, vv); vals(c, B_, u, uv); inert(c, vol, B_, av, fi); visc(c, vol, B_, vv, fv); damp(c, fv, fi, fdm); Z rho = pj(c, z); for (int i = 0; i < NV<D>(); i++) st(c, i) = c1 * uv(c, i % D); ap(c, rho, st); ap(c, rho, fi); div(c, out, st, g, vol); for (int j = 0; j < M0; j++) out(c, j) += fi(c, j) + fdm(c, j); for (int i = 0; i < D; i++) fw(c, i) = st(c, i); pn(c, vol, B_, fw, out); }); } };
// heat conduction
template <int D> struct OpTherm : OpBase { typedef Plato::SimplexThermal<D> Phys; static constexpr bool NL = false, NN = false; bool nl; OpTherm(Rng& r) : OpBase(r, D, D + 2), nl(r.chance(0.7)) {} const char* name() const { return "heat conduction"; } bool zeros() const { return false; } static Shape shape() { return {D, 1, 0, 0, "thermal"}; } bool accumulates(int j) const { return j <= D; }
  template <class E> void run(Data<E>& d, Rng& r) const { PSIM_TYPES typedef Mix<E, U, X> G; auto tg = used2t<G>(r, n, D), fl = used2t<G>(r, n, D); auto T = used1t<U>(r, n); auto Td = used1t<V>(r, n); auto hc = used1t<Mix<E, U, V>>(r, n); auto pnm = used1t<G>(r, n); auto fw = used2t<R>(r, n, D); auto B_ = B; auto mat = thermal<D>(k1, k2, nl); int p = k1 > 1 ? 2 : 4; Plato::MSIMP pf(pen, mn);
    Plato::PressureGradient<D> gr(k2); Plato::InterpolateFromNodal<D, 1> ip; Plato::ThermalFlux<D> tf(mat); Plato::ThermalContent<D> tc(mat); Plato::FluxDivergence<D> fd; Plato::ProjectToNode<D, 1> pn; Plato::VectorPNorm<D> nm; Plato::ApplyWeighting<D, D, Plato::MSIMP> w(pf);
    cells(n, LAMBDA_EXPRESSION(int c) { gr(c, tg, u, g); ip(c, B_, u, T); ip(c, B_, v, Td); tf(c, fl, tg, T); w(c, fl, fw, z); tc(c, hc, Td, T); fd(c, out, fw, g, vol, -1.0); pn(c, vol, B_, hc, out); nm(c, pnm, tg, p, vol); out(c, D + 1) = pnm(c); }); } };
// geometry: mass of a cell and of its projected density
template <int D> struct OpGeo : OpBase { typedef Plato::SimplexMechanics<D> Phys; static constexpr bool NL = false, NN = false; OpGeo(Rng& r) : OpBase(r, D, 3) {} const char* name() const { return "geometry"; } static Shape shape() { return {D, D, 0, 0, "geometry"}; } bool accumulates(int) const { return false; }
  template <class E> void run(Data<E>& d, Rng& r) const { PSIM_TYPES auto B_ = B; Plato::HyperbolicTangentProjection hp(4 * k1, 0.5); Plato::ApplyProjection<Plato::HyperbolicTangentProjection> pj(hp); Plato::MSIMP pf(pen, mn); Plato::ApplyWeighting<D, 1, Plato::MSIMP> w(pf); auto q = used1t<R>(r, n);
    cells(n, LAMBDA_EXPRESSION(int c) { q(c) = vol(c); w(c, q, z); out(c, 0) = q(c); Z m1 = Plato::cell_mass<D + 1>(c, B_, z), m2 = pj(c, z); out(c, 1) = m1 * vol(c); out(c, 2) = m2 * vol(c); }); } };
// projection of the pressure gradient: the state is the projected gradient, the node state is the pressure
template <int D> struct OpProj : OpBase { typedef Plato::SimplexProjection<D, D + 1, D> Phys; static constexpr bool NL = false, NN = true; OpProj(Rng& r) : OpBase(r, D, (D + 1) * D) {} const char* name() const { return "pressure gradient projection"; } static Shape shape() { return {D, D, 0, 1, "projection"}; }
  template <class E> void run(Data<E>& d, Rng& r) const { PSIM_TYPES typedef Mix<E, N, X> G; auto pg = used2t<G>(r, n, D); auto ps = used2t<U>(r, n, D); auto q = used2t<R>(r, n, D); auto B_ = B; Plato::MSIMP pf(pen, mn); Plato::PressureGradient<D> gr(k1); Plato::InterpolateFromNodal<D, D, 0, D> ip; Plato::ProjectToNode<D, D> pn; Plato::ApplyWeighting<D, D, Plato::MSIMP> w(pf);
    cells(n, LAMBDA_EXPRESSION(int c) { gr(c, pg, ns, g); ip(c, B_, u, ps); w(c, pg, q, z); pn(c, vol, B_, ps, out); pn(c, vol, B_, q, out, -1.0); }); } };
// plasticity: elastic strain, deviatoric stress, flow direction, local residual, work
template <int D> constexpr int NS() { return D == 3 ? 6 : 4; }
template <int D, class PH, int DOFS> struct OpPlast : OpBase { typedef PH Phys; static constexpr bool NL = true, NN = true; static constexpr int T = NS<D>(), L0 = 2 + 2 * T, P0 = (D + 1) * D; bool plastic; OpPlast(Rng& r) : OpBase(r, D, L0 + T + 6 + P0), plastic(r.chance(0.7)) {} bool zeros() const { return false; } const char* name() const { return plastic ? "plastic step" : "elastic step"; } static Shape shape() { return {D, DOFS, L0, D, "plasticity"}; } bool accumulates(int j) const { return j < 2 || j >= L0 + T + 6; }
  template <class E> void run(Data<E>& d, Rng& r) const { PSIM_TYPES typedef Mix<E, U, X> G; typedef Mix<E, U, L, X> S; auto te = used2t<G>(r, n, T); auto ee = used2t<S>(r, n, T), de = used2t<S>(r, n, T); auto cs = used2t<R>(r, n, T), ds = used2t<R>(r, n, T), yn = used2t<R>(r, n, T); auto nm = used1t<R>(r, n), vm = used1t<R>(r, n), wk = used1t<R>(r, n), dd = used1t<R>(r, n); auto mis = used2t<Mix<E, L, LP>>(r, n, T); auto ap = used1t<L>(r, n), mi = used1t<L>(r, n); auto pe = used2t<L>(r, n, T), bs = used2t<L>(r, n, T); auto dp = used1t<R>(r, n); auto pgn = used2t<N>(r, n, D); auto pv = used1t<V>(r, n); auto B_ = B; double c1 = k1, c2 = k2; bool pl = plastic;
    auto fw = used2t<R>(r, n, D); MVT<R> forc("f", n, P0);
    Plato::ThermoPlasticityUtilities<D, PH> tp(0.3 * k1, 0.2, k2); Plato::J2PlasticityUtilities<D> j2; Plato::ComputeDeviatoricStress<D> cds; Plato::ComputeCauchyStress<D> ccs; Plato::ComputeDeviatoricStrain<D> cde; Plato::ComputeElasticWork<D> cew; Plato::VonMisesYieldFunction<D> cvm; Plato::DoubleDotProduct2ndOrderTensor<D> cdd; Plato::DotProduct<T> dot; Plato::MSIMP pf(pen, mn); Plato::InterpolateFromNodal<D, D, 0, D> ipn; Plato::InterpolateFromNodal<D, DOFS, D> ipv; Plato::ProjectToNode<D, D> pn;
    cells(n, LAMBDA_EXPRESSION(int c) { for (int i = 0; i < T; i++) te(c, i) = c1 * u(c, i) * g(c, 0, i % D) + c2 * u(c, DOFS + i % DOFS) * g(c, 1, i % D); tp.computeElasticStrain(c, u, l, B_, te, ee); cde(c, ee, de); Z dens = Plato::cell_density<D + 1>(c, z); Z pz = pf(dens); Z sh = c1 * pz, bk = c2 * pz; cds(c, sh, ee, ds); ccs(c, bk, sh, ee, cs); cvm(c, cs, vm); cew(c, sh, bk, ee, de, wk); cdd(c, cs, ds, dd); dot(c, cs, ee, dp); j2.computeDeviatoricStressMinusBackstressNormalized(c, ds, l, yn, nm); j2.computePlasticStrainMisfit(c, l, lp, mis);
      j2.getAccumulatedPlasticStrain(c, l, ap); j2.getPlasticMultiplierIncrement(c, l, mi); j2.getPlasticStrainTensor(c, l, pe); j2.getBackstressTensor(c, l, bs); Z hk = c2 * pz;
      if (pl) { j2.fillPlasticStrainTensorResidualPlasticStep(c, l, lp, yn, out); j2.fillBackstressTensorResidualPlasticStep(c, hk, l, lp, yn, out); } else { j2.fillPlasticStrainTensorResidualElasticStep(c, l, lp, out); j2.fillBackstressTensorResidualElasticStep(c, l, lp, out); }
      out(c, 0) += ap(c) - c1 * mi(c) + nm(c); out(c, 1) += vm(c); for (int i = 0; i < T; i++) out(c, L0 + i) = yn(c, i) + mis(c, i) * pe(c, i) - bs(c, i); ipn(c, B_, ns, pgn); ipv(c, B_, v, pv); out(c, L0 + T) = wk(c); out(c, L0 + T + 1) = dd(c); out(c, L0 + T + 2) = pv(c) * c1; out(c, L0 + T + 3) = pgn(c, 0) * pgn(c, D - 1); out(c, L0 + T + 4) = ee(c, 0) * ee(c, T - 1); out(c, L0 + T + 5) = dp(c);
      for (int i = 0; i < D; i++) fw(c, i) = cs(c, i); pn(c, vol, B_, fw, forc); for (int j = 0; j < P0; j++) out(c, L0 + T + 6 + j) += forc(c, j); }); } };
template <class Op, int F> struct Fam { static void go(Sim& s, const Op& op, const In& in, const Vec& b) { general(s, op, in, b); } };
template <class Op> struct Fam<Op, 0> { static void go(Sim& s, const Op& op, const In& in, const Vec& b) { elliptic(s, op, in, b); } };
template <class Op> struct Fam<Op, 1> { static void go(Sim& s, const Op& op, const In& in, const Vec& b) { parabolic(s, op, in, b); } };
template <class Op> struct Fam<Op, 2> { static void go(Sim& s, const Op& op, const In& in, const Vec& b) { hyperbolic(s, op, in, b); } };
template <class Op> struct Fam<Op, 3> { static void go(Sim& s, const Op& op, const In& in, const Vec& b) { geometric(s, op, in, b); } };
template <class E, class P> constexpr bool evc(int D) { return E::NumNodesPerCell == D + 1 && E::SpatialDim == D && E::NumControls == P::mNumControl; }
template <class P> static void ev_consts(Sim& s, int D) { s.check(evc<Plato::ResidualTypes<P>, P>(D) && evc<Plato::JacobianTypes<P>, P>(D) && evc<Plato::GradientXTypes<P>, P>(D) && evc<Plato::Elliptic::JacobianTypes<P>, P>(D) && evc<Plato::Elliptic::GradientZTypes<P>, P>(D) && evc<Plato::Parabolic::GradientVTypes<P>, P>(D) && evc<Plato::Parabolic::ResidualTypes<P>, P>(D) && evc<Plato::Hyperbolic::GradientATypes<P>, P>(D) && evc<Plato::Hyperbolic::ResidualTypes<P>, P>(D) && evc<Plato::Geometric::GradientXTypes<P>, P>(D), "layout", str("the sizes an evaluation type reports in %dD are not those of its physics", D)); }
template <int D> static void layouts(Sim& s) {
  using namespace Plato; constexpr int V = NV<D>(), S = D == 3 ? 6 : D == 2 ? 4 : 1, N = D + 1; ev_consts<SimplexMechanics<D>>(s, D); ev_consts<SimplexThermoPlasticity<D>>(s, D); ev_consts<SimplexStabilizedMechanics<D, 2>>(s, D); s.cover(str("layouts %dD", D));
  bool voigt = SimplexMechanics<D>::mNumVoigtTerms == V && SimplexThermomechanics<D>::mNumVoigtTerms == V && SimplexStabilizedThermomechanics<D>::mNumVoigtTerms == V && SimplexElectromechanics<D>::mNumVoigtTerms == V && SimplexPlasticity<D>::mNumVoigtTerms == V && SimplexThermoPlasticity<D>::mNumVoigtTerms == V && SimplexStabilizedMechanics<D>::mNumVoigtTerms == V && SimplexStructuralDynamics<D>::mNumVoigtTerms == V && SimplexPlasticity<D>::mNumStressTerms == S && SimplexThermoPlasticity<D>::mNumStressTerms == S;
  s.check(voigt, "layout", str("number of stress or strain components in %dD", D));
  s.check(SimplexThermomechanics<D>::mTDofOffset == D && SimplexStabilizedThermomechanics<D>::mPressureDofOffset == D && SimplexStabilizedThermomechanics<D>::mTDofOffset == D + 1 && SimplexStabilizedMechanics<D>::mPressureDofOffset == D && SimplexPlasticity<D>::mPressureDofOffset == D && SimplexPlasticity<D>::mDisplacementDofOffset == 0 && SimplexPlasticity<D>::mTemperatureDofOffset < 0 && SimplexThermoPlasticity<D>::mDisplacementDofOffset == 0 && SimplexThermoPlasticity<D>::mTemperatureDofOffset == D && SimplexThermoPlasticity<D>::mPressureDofOffset == D + 1 && SimplexStructuralDynamics<D>::mComplexSpaceDim == 2, "layout", str("position of an unknown in %dD", D));
  s.check(SimplexStabilizedThermomechanics<D>::mNumNodeStatePerCell == D * N && SimplexStabilizedMechanics<D>::mNumNodeStatePerCell == D * N && SimplexPlasticity<D>::mNumNodeStatePerCell == D * N && SimplexThermoPlasticity<D>::mNumNodeStatePerCell == D * N && SimplexProjection<D, D + 1, D, 2>::mNumNodeStatePerCell == 2 * N, "layout", str("node states per cell in %dD", D));
  s.check(SimplexProjection<D, D + 2, D + 1, 1, 3>::mTotalDofs == D + 2 && SimplexProjection<D, D + 2, D + 1, 1, 3>::mProjectionDof == D + 1 && SimplexProjection<D, D + 2, D + 1, 1, 3>::mNumControl == 3 && SimplexMechanics<D, 2>::mNumControl == 2 && SimplexThermomechanics<D, 2>::mNumControl == 2 && SimplexStabilizedThermomechanics<D, 3>::mNumControl == 3 && SimplexElectromechanics<D, 2>::mNumControl == 2 && SimplexPlasticity<D, 2>::mNumControl == 2 && SimplexThermoPlasticity<D, 2>::mNumControl == 2 && SimplexStabilizedMechanics<D, 2>::mNumControl == 2 && SimplexStructuralDynamics<D, 2>::mNumControl == 2, "layout", str("projection and control counts in %dD", D));
}
template <class Op, int F> static void with(Sim& s) {
  Rng& r = s.w; Op op(r); int n = r.chance(0.1) ? r.range(20, 40) : r.range(1, 6); In in(r, n, Op::shape(), op.m, op.zeros()); typedef typename Op::Phys P;
  s.check(P::mNumNodesPerCell == in.q.D + 1 && P::mNumSpatialDims == in.q.D && P::mNumDofsPerNode == in.q.dofs && P::mNumDofsPerCell == in.q.dofs * (in.q.D + 1) && P::mNumLocalDofsPerCell == in.q.nl && P::mNumNodeStatePerNode == in.q.nn && P::mNumControl == 1, "layout", str("the unknowns of %s in %dD are not the ones its operators use", in.q.name, in.q.D));
  Vec b = plain_values(op, in, R_NONE, -1, 0); int reps = r.range(1, 2); for (int k = 0; k < reps; k++) Fam<Op, F>::go(s, op, in, b);
}
}
