// Evaluation types and their sensitivities: element evaluations run with each evaluation type of the framework.
#pragma once
#include "cells.hpp"
#include <type_traits>
#include <Sacado.hpp>
#include <SimplexFadTypes.hpp>
#include <elliptic/EllipticSimplexFadTypes.hpp>
#include <parabolic/ParabolicSimplexFadTypes.hpp>
#include <hyperbolic/HyperbolicSimplexFadTypes.hpp>
#include <geometric/GeometricSimplexFadTypes.hpp>
#include <SimplexMechanics.hpp>
#include <SimplexThermal.hpp>
#include <SimplexThermomechanics.hpp>
#include <SimplexElectromechanics.hpp>
#include <SimplexPlasticity.hpp>
#include <SimplexThermoPlasticity.hpp>
#include <SimplexProjection.hpp>
#include <SimplexStabilizedMechanics.hpp>
#include <SimplexStructuralDynamics.hpp>
namespace psim {
template <class T> using MVT = Plato::ScalarMultiVectorT<T>; template <class T> using SVT = Plato::ScalarVectorT<T>; template <class T> using A3T = Plato::ScalarArray3DT<T>;
enum Role { RU, RV, RA, RL, RLP, RN, RZ, RX, R_NONE };
static const char* const role_name[] = {"state", "second state", "third state", "local state", "previous local state", "node state", "control", "configuration", "nothing"};
template <class T> constexpr bool is_ad() { return Sacado::IsADType<T>::value; }
template <class P, class U_, class V_, class A_, class L_, class LP_, class N_, class Z_, class X_, class R_> struct Ev { typedef P Phys; typedef U_ U; typedef V_ V; typedef A_ A; typedef L_ L; typedef LP_ LP; typedef N_ N; typedef Z_ Z; typedef X_ X; typedef R_ R; };
typedef double d_;
template <class P, class E> using Ell = Ev<P, typename E::StateScalarType, d_, d_, d_, d_, d_, typename E::ControlScalarType, typename E::ConfigScalarType, typename E::ResultScalarType>;
template <class P, class E> using Par = Ev<P, typename E::StateScalarType, typename E::StateDotScalarType, d_, d_, d_, d_, typename E::ControlScalarType, typename E::ConfigScalarType, typename E::ResultScalarType>;
template <class P, class E> using Hyp = Ev<P, typename E::StateScalarType, typename E::StateDotScalarType, typename E::StateDotDotScalarType, d_, d_, d_, typename E::ControlScalarType, typename E::ConfigScalarType, typename E::ResultScalarType>;
template <class P, class E> using Gen = Ev<P, typename E::StateScalarType, typename E::PrevStateScalarType, d_, typename E::LocalStateScalarType, typename E::PrevLocalStateScalarType, typename E::NodeStateScalarType, typename E::ControlScalarType, typename E::ConfigScalarType, typename E::ResultScalarType>;
template <class P, class E> using Geo = Ev<P, d_, d_, d_, d_, d_, d_, typename E::ControlScalarType, typename E::ConfigScalarType, typename E::ResultScalarType>;
template <class P> using Plain = Ev<P, d_, d_, d_, d_, d_, d_, d_, d_, d_>;
// scalar type of a quantity formed from these: the one that carries derivatives
template <class... T> struct First { typedef double type; };
template <class H, class... T> struct First<H, T...> { typedef typename std::conditional<Sacado::IsADType<H>::value, H, typename First<T...>::type>::type type; };
template <class E, class... T> using Mix = typename First<T...>::type;
template <class E, class... T> constexpr bool mix_ok() { return std::is_same<typename Plato::fad_type_t<typename E::Phys, T...>, typename First<T...>::type>::value; }

struct Shape { int D, dofs, nl, nn; const char* name; };          // the independent statement of what the physics' unknowns are
struct In { int n; Shape q; Arr f[8]; Arr vol, dg, dv; Arr o0; int K[8];
  In(Rng& r, int n_, Shape q_, int m, bool zeros) : n(n_), q(q_) { int N = q.D + 1; K[RU] = K[RV] = K[RA] = N * q.dofs; K[RL] = K[RLP] = q.nl; K[RN] = N * q.nn; K[RZ] = N; K[RX] = N * q.D;
    for (int i : {RU, RV, RA, RL, RLP, RN}) f[i] = Arr(r, n, std::max(1, K[i]), 1, true);
    f[RZ] = positive(r, n, N, 0.1, 0.9); f[RX] = Arr(r, n, N, q.D, true); vol = positive(r, n, 1, 0.3, 2); dg = Arr(r, n, N * q.D, K[RX], true); dv = Arr(r, n, 1, K[RX], true); o0 = Arr(r, n, m, 1, true);
    if (zeros && r.chance(0.4)) for (int i : {RU, RV, RA, RN, RX}) for (int c = 0; c < n; c++) { int w = f[i].b * f[i].c, q = (int)r.below(4); for (int j = 0; j < w; j++) if (q == 0 || (q == 1 && r.chance(0.5))) f[i].v[(size_t)c * w + j] = 0; } } };
// seed(c, j, k): derivative of entry j of the field with respect to the k-th independent variable of its role
template <class T, bool AD> struct Mk { static T at(double v, int, int, const std::function<double(int)>&) { return T(v); } };
template <class T> struct Mk<T, true> { static T at(double v, int K, int, const std::function<double(int)>& g) { T t(v); for (int k = 0; k < K; k++) t.fastAccessDx(k) = g(k); return t; } };
template <class E> struct Data { int n; MVT<typename E::U> u; MVT<typename E::V> v; MVT<typename E::A> a; MVT<typename E::L> l; MVT<typename E::LP> lp; MVT<typename E::N> ns; MVT<typename E::Z> z; A3T<typename E::X> g; SVT<typename E::X> vol; MVT<typename E::R> out; };
template <class T> static MVT<T> field(const In& in, int role, int pk, double h) {
  const Arr& f = in.f[role]; MVT<T> m("field", in.n, f.b); int K = in.K[role];
  for (int c = 0; c < in.n; c++) for (int j = 0; j < f.b; j++) m(c, j) = Mk<T, is_ad<T>()>::at(f(c, j) + (pk == j ? h : 0), K, 0, [&](int k) { return k == j ? 1.0 : 0.0; }); return m;
}
template <class E> static Data<E> load(const In& in, int m, Role pr, int pk, double h) {
  auto P = [&](Role r) { return r == pr ? pk : -1; }; Data<E> d; d.n = in.n; int N = in.q.D + 1, D = in.q.D, K = in.K[RX]; typedef typename E::X X;
  d.u = field<typename E::U>(in, RU, P(RU), h); d.v = field<typename E::V>(in, RV, P(RV), h); d.a = field<typename E::A>(in, RA, P(RA), h); d.l = field<typename E::L>(in, RL, P(RL), h); d.lp = field<typename E::LP>(in, RLP, P(RLP), h); d.ns = field<typename E::N>(in, RN, P(RN), h); d.z = field<typename E::Z>(in, RZ, P(RZ), h);
  d.g = A3T<X>("gradient", in.n, N, D); d.vol = SVT<X>("volume", in.n);
  for (int c = 0; c < in.n; c++) { for (int a = 0; a < N; a++) for (int i = 0; i < D; i++) d.g(c, a, i) = Mk<X, is_ad<X>()>::at(in.f[RX](c, a, i) + (pr == RX ? h * in.dg(c, a * D + i, pk) : 0), K, 0, [&](int k) { return in.dg(c, a * D + i, k); });
    d.vol(c) = Mk<X, is_ad<X>()>::at(in.vol(c) + (pr == RX ? h * in.dv(c, 0, pk) : 0), K, 0, [&](int k) { return in.dv(c, 0, k); }); }
  d.out = MVT<typename E::R>("out", in.n, m); return d;
}
// an output with old content: value and derivatives
template <class T> static void soil(MVT<T> m, const Arr& v, Rng& r) { for (size_t c = 0; c < m.extent(0); c++) for (size_t j = 0; j < m.extent(1); j++) m(c, j) = Mk<T, is_ad<T>()>::at(v((int)c, (int)j), Sacado::StaticSize<T>::value, 0, [&](int) { return r.smooth(); }); }
template <class T> static MVT<T> used2t(Rng& r, int n, int m) { MVT<T> v("w", n, m); if (r.chance(0.6)) soil(v, Arr(r, n, m, 1, true), r); return v; }
template <class T> static SVT<T> used1t(Rng& r, int n) { SVT<T> v("w", n); if (r.chance(0.6)) for (int c = 0; c < n; c++) v(c) = Mk<T, is_ad<T>()>::at(r.smooth(), Sacado::StaticSize<T>::value, 0, [&](int) { return r.smooth(); }); return v; }
template <class T> static A3T<T> used3t(Rng& r, int n, int a, int b) { A3T<T> v("w", n, a, b); if (r.chance(0.6)) for (int c = 0; c < n; c++) for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) v(c, i, j) = Mk<T, is_ad<T>()>::at(r.smooth(), Sacado::StaticSize<T>::value, 0, [&](int) { return r.smooth(); }); return v; }
template <bool AD> struct Dx { template <class T> static double val(const T& t) { return t; } template <class T> static double dx(const T&, int) { return 0; } };
template <> struct Dx<true> { template <class T> static double val(const T& t) { return t.val(); } template <class T> static double dx(const T& t, int k) { return t.dx(k); } };

template <class T> static void one_role(Sim& s, const char* ev, const char* what, bool wanted, int size) {
  s.evaluated(); if (is_ad<T>() != wanted) s.fail("types", str("evaluation %s: the %s %s", ev, what, wanted ? "carries no derivatives" : "carries derivatives although it is not differentiated"));
  if (wanted && (int)Sacado::StaticSize<T>::value != size) s.fail("types", str("evaluation %s: the %s carries %d derivatives, there are %d independent variables", ev, what, (int)Sacado::StaticSize<T>::value, size));
}
template <class E> static void check_types(Sim& s, const In& in, Role r, const char* ev) {
  one_role<typename E::U>(s, ev, role_name[RU], r == RU, in.K[RU]); one_role<typename E::V>(s, ev, role_name[RV], r == RV, in.K[RV]); one_role<typename E::A>(s, ev, role_name[RA], r == RA, in.K[RA]); one_role<typename E::L>(s, ev, role_name[RL], r == RL, in.K[RL]);
  one_role<typename E::LP>(s, ev, role_name[RLP], r == RLP, in.K[RLP]); one_role<typename E::N>(s, ev, role_name[RN], r == RN, in.K[RN]); one_role<typename E::Z>(s, ev, role_name[RZ], r == RZ, in.K[RZ]); one_role<typename E::X>(s, ev, role_name[RX], r == RX, in.K[RX]);
  typedef typename E::U U; typedef typename E::V V; typedef typename E::L L; typedef typename E::N N; typedef typename E::Z Z; typedef typename E::X X;
  s.check(mix_ok<E, U>() && mix_ok<E, U, X>() && mix_ok<E, X, U>() && mix_ok<E, U, Z, X>() && mix_ok<E, Z, X, U>() && mix_ok<E, V, Z, X>() && mix_ok<E, L, U, Z, X>() && mix_ok<E, X, Z, N>() && mix_ok<E, N, X>(), "types", str("evaluation %s: a quantity formed from differentiated inputs loses its derivatives", ev));
  one_role<typename E::R>(s, ev, "result", r != R_NONE, r == R_NONE ? 0 : in.K[r]);
}
// are the scalar types such that the evaluation can be formed at all (checked at run time; a wrong one is reported, not a build error)
template <class E, class W, class O> constexpr bool ok1() { return std::is_same<W, double>::value || std::is_same<W, O>::value; }
template <class E> constexpr bool formable() { typedef typename E::R R; return ok1<E, typename E::U, R>() && ok1<E, typename E::V, R>() && ok1<E, typename E::A, R>() && ok1<E, typename E::L, R>() && ok1<E, typename E::LP, R>() && ok1<E, typename E::N, R>() && ok1<E, typename E::Z, R>() && ok1<E, typename E::X, R>(); }
template <class Op, class E, bool OK> struct Runner { static void go(const Op& op, Data<E>& d, Rng& r) { op.template run<E>(d, r); } };
template <class Op, class E> struct Runner<Op, E, false> { static void go(const Op&, Data<E>&, Rng&) {} };

template <class Op> static Vec plain_values(const Op& op, const In& in, Role pr, int pk, double h) {
  typedef Plain<typename Op::Phys> E; SerialScope z; Rng r(7); Data<E> d = load<E>(in, op.m, pr, pk, h); soil(d.out, in.o0, r); op.template run<E>(d, r); return from_view2(d.out);
}
// one evaluation of the operator with an evaluation type that differentiates with respect to `role`
template <class Op, class E> static void evaluate(Sim& s, const Op& op, const In& in, const Vec& base, Role role, const char* ev) {
  Rng& r = s.w; check_types<E>(s, in, role, ev); typedef typename E::R R; s.cover(str("%s: %s wrt %s %dD cells=%s", op.name(), ev, role_name[role], in.q.D, szc(in.n)));
  Data<E> d = load<E>(in, op.m, R_NONE, -1, 0); MVT<R> keep("keep", in.n, op.m); soil(d.out, in.o0, r); for (int c = 0; c < in.n; c++) for (int j = 0; j < op.m; j++) keep(c, j) = d.out(c, j);
  Runner<Op, E, formable<E>()>::go(op, d, r);
  s.evaluated(in.n * op.m); for (int c = 0; c < in.n; c++) for (int j = 0; j < op.m; j++) { double v = Dx<is_ad<R>()>::val(d.out(c, j)), b = base[(size_t)c * op.m + j]; if (!(std::fabs(v - b) <= 1e-9 * (1 + std::fabs(b)))) s.fail("value", str("%s: %s evaluation of entry %d of cell %d is %.15g, the plain evaluation is %.15g", op.name(), ev, j, c, v, b)); s.hash(v); }
  if (role == R_NONE) return;
  int K = in.K[role], tries = std::min(K, r.range(1, 4));
  for (int t = 0; t < tries; t++) { int k = (int)r.below(K); const double h = 2e-3; Vec a = plain_values(op, in, role, k, h), b = plain_values(op, in, role, k, -h), a2 = plain_values(op, in, role, k, 2 * h), b2 = plain_values(op, in, role, k, -2 * h);
    s.evaluated(in.n * op.m); for (int c = 0; c < in.n; c++) for (int j = 0; j < op.m; j++) { size_t x = (size_t)c * op.m + j; double fd = (8 * (a[x] - b[x]) - (a2[x] - b2[x])) / (12 * h), coarse = (a2[x] - b2[x]) / (4 * h), sc = std::fabs(a[x]) + std::fabs(base[x]);
      double old = op.accumulates(j) ? Dx<is_ad<R>()>::dx(keep(c, j), k) : 0, got = Dx<is_ad<R>()>::dx(d.out(c, j), k) - old, tol = 1e-6 * (1 + std::fabs(fd) + sc + std::fabs(old)) + 3 * std::fabs(fd - coarse) * 0.05; s.hash(got);
      if (!(std::fabs(got - fd) <= tol)) s.fail("sensitivity", str("%s: derivative of entry %d of cell %d with respect to entry %d of the %s is %.12g in the %s evaluation, the evaluated quantity changes at the rate %.12g", op.name(), j, c, k, role_name[role], got, ev, fd)); } }
}
// all evaluation types of one family, one chosen per call
template <class Op> static void elliptic(Sim& s, const Op& op, const In& in, const Vec& b) { typedef typename Op::Phys P; typedef Plato::Elliptic::Evaluation<P> E;
  switch (s.w.below(7)) { case 0: evaluate<Op, Ell<P, typename E::Residual>>(s, op, in, b, R_NONE, "elliptic residual"); break; case 1: case 2: evaluate<Op, Ell<P, typename E::Jacobian>>(s, op, in, b, RU, "elliptic Jacobian"); break; case 3: case 4: evaluate<Op, Ell<P, typename E::GradientX>>(s, op, in, b, RX, "elliptic gradient X"); break; default: evaluate<Op, Ell<P, typename E::GradientZ>>(s, op, in, b, RZ, "elliptic gradient Z"); } }
template <class Op> static void parabolic(Sim& s, const Op& op, const In& in, const Vec& b) { typedef typename Op::Phys P; typedef Plato::Parabolic::Evaluation<P> E;
  switch (s.w.below(9)) { case 0: evaluate<Op, Par<P, typename E::Residual>>(s, op, in, b, R_NONE, "parabolic residual"); break; case 1: case 2: evaluate<Op, Par<P, typename E::GradientU>>(s, op, in, b, RU, "parabolic gradient U"); break; case 3: case 4: evaluate<Op, Par<P, typename E::GradientV>>(s, op, in, b, RV, "parabolic gradient V"); break; case 5: case 6: evaluate<Op, Par<P, typename E::GradientX>>(s, op, in, b, RX, "parabolic gradient X"); break; default: evaluate<Op, Par<P, typename E::GradientZ>>(s, op, in, b, RZ, "parabolic gradient Z"); } }
template <class Op> static void hyperbolic(Sim& s, const Op& op, const In& in, const Vec& b) { typedef typename Op::Phys P; typedef Plato::Hyperbolic::Evaluation<P> E;
  switch (s.w.below(11)) { case 0: evaluate<Op, Hyp<P, typename E::Residual>>(s, op, in, b, R_NONE, "hyperbolic residual"); break; case 1: case 2: evaluate<Op, Hyp<P, typename E::GradientU>>(s, op, in, b, RU, "hyperbolic gradient U"); break; case 3: case 4: evaluate<Op, Hyp<P, typename E::GradientV>>(s, op, in, b, RV, "hyperbolic gradient V"); break; case 5: case 6: evaluate<Op, Hyp<P, typename E::GradientA>>(s, op, in, b, RA, "hyperbolic gradient A"); break; case 7: case 8: evaluate<Op, Hyp<P, typename E::GradientX>>(s, op, in, b, RX, "hyperbolic gradient X"); break; default: evaluate<Op, Hyp<P, typename E::GradientZ>>(s, op, in, b, RZ, "hyperbolic gradient Z"); } }
template <class Op> static void geometric(Sim& s, const Op& op, const In& in, const Vec& b) { typedef typename Op::Phys P; typedef Plato::Geometric::Evaluation<P> E;
  switch (s.w.below(5)) { case 0: evaluate<Op, Geo<P, typename E::Residual>>(s, op, in, b, R_NONE, "geometric residual"); break; case 1: case 2: evaluate<Op, Geo<P, typename E::GradientX>>(s, op, in, b, RX, "geometric gradient X"); break; default: evaluate<Op, Geo<P, typename E::GradientZ>>(s, op, in, b, RZ, "geometric gradient Z"); } }
// the general (history dependent) family; local and node states only where the physics has them
template <class Op, bool L> struct LocalEv { static void go(Sim& s, const Op& op, const In& in, const Vec& b, int w) { typedef typename Op::Phys P; typedef Plato::Evaluation<P> E; if (w) evaluate<Op, Gen<P, typename E::LocalJacobian>>(s, op, in, b, RL, "local Jacobian"); else evaluate<Op, Gen<P, typename E::LocalJacobianP>>(s, op, in, b, RLP, "previous local Jacobian"); } };
template <class Op> struct LocalEv<Op, false> { static void go(Sim&, const Op&, const In&, const Vec&, int) {} };
template <class Op, bool N> struct NodeEv { static void go(Sim& s, const Op& op, const In& in, const Vec& b) { typedef typename Op::Phys P; evaluate<Op, Gen<P, typename Plato::Evaluation<P>::JacobianN>>(s, op, in, b, RN, "node state Jacobian"); } };
template <class Op> struct NodeEv<Op, false> { static void go(Sim&, const Op&, const In&, const Vec&) {} };
template <class Op> static void general(Sim& s, const Op& op, const In& in, const Vec& b) { typedef typename Op::Phys P; typedef Plato::Evaluation<P> E;
  switch (s.w.below(12)) { case 0: evaluate<Op, Gen<P, typename E::Residual>>(s, op, in, b, R_NONE, "residual"); break; case 1: case 2: evaluate<Op, Gen<P, typename E::Jacobian>>(s, op, in, b, RU, "Jacobian"); break; case 3: evaluate<Op, Gen<P, typename E::JacobianP>>(s, op, in, b, RV, "previous state Jacobian"); break; case 4: case 5: NodeEv<Op, Op::NN>::go(s, op, in, b); break; case 6: case 7: LocalEv<Op, Op::NL>::go(s, op, in, b, 1); break; case 8: LocalEv<Op, Op::NL>::go(s, op, in, b, 0); break; case 9: case 10: evaluate<Op, Gen<P, typename E::GradientX>>(s, op, in, b, RX, "gradient X"); break; default: evaluate<Op, Gen<P, typename E::GradientZ>>(s, op, in, b, RZ, "gradient Z"); } }
template <int D> void sens_any(Sim& s);
}
