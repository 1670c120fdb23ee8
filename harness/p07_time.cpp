// Time integration: over any history of (variable) time steps the state implied by the integrator is that of the scheme, the
// reported derivatives are those of the residual, and the energy balance of the scheme holds; under every device schedule.
#include "cells.hpp"
#include <hyperbolic/Newmark.hpp>
#include <parabolic/TrapezoidIntegrator.hpp>
namespace psim {
const HarnessInfo harness = {"P07", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); }
int harness_episodes(Rng& r) { return 1 + (int)r.below(2); }
struct Any {};
static SV fresh(Rng& r, const Vec& v) { return to_view(v); }
// residuals of the scheme, with magnitudes
struct NM { LD g, b; 
  Ref v(LD u, LD up, LD v, LD vp, LD ap, LD dt) const { Ref x; LD k = g / (b * dt); x.add(v); x.add(-vp); x.add(-(1 - g) * dt * ap); x.add(-k * u); x.add(k * up); x.add(k * dt * vp); x.add(k * dt * dt / 2 * (1 - 2 * b) * ap); return x; }
  Ref a(LD u, LD up, LD a, LD vp, LD ap, LD dt) const { Ref x; LD k = 1 / (b * dt * dt); x.add(a); x.add(-k * u); x.add(k * up); x.add(k * dt * vp); x.add(k * dt * dt / 2 * (1 - 2 * b) * ap); return x; } };
static void newmark(Sim& s) {
  Rng& w = s.w; int n = pick_size(w, 120); bool avg = w.chance(0.4); NM m; m.b = avg ? 0.25 : w.chance(0.2) ? 1.0 / 6 : w.uni(0.1, 1.0); m.g = avg ? 0.5 : w.chance(0.3) ? 0.5 : w.uni(0.3, 1.0); double B = (double)m.b, G = (double)m.g; m.b = B; m.g = G;
  Teuchos::ParameterList pl; pl.set<double>("Newmark Gamma", G); pl.set<double>("Newmark Beta", B); Plato::NewmarkIntegrator<Any> f(pl);
  // a linear oscillator per dof: M a + C v + K u = 0, advanced with the integrator's own residuals and derivatives
  Vec M(n), K(n), C(n); for (int i = 0; i < n; i++) { M[i] = w.positive(); K[i] = w.positive(); C[i] = w.chance(0.5) ? 0 : w.uni(0, 0.5); }
  Vec u = rand_vec(w, n, true), v = rand_vec(w, n, true), a(n); for (int i = 0; i < n; i++) a[i] = -(C[i] * v[i] + K[i] * u[i]) / M[i];
  int steps = w.range(1, 12); double dt0 = w.uni(0.01, 0.8); bool fixed = w.chance(0.5), undamped = true; for (double c : C) undamped &= c == 0; bool broke = false; LD e0 = 0; for (int i = 0; i < n; i++) e0 += 0.5L * M[i] * v[i] * v[i] + 0.5L * K[i] * u[i] * u[i];
  s.cover(str("newmark n=%s %s steps=%d %s", szc(n), avg ? "average acceleration" : "general", steps, fixed ? "fixed" : "variable"));
  for (int k = 0; k < steps; k++) {
    if (!s.step("time step")) continue; Rng& r = s.w; double dt = fixed ? dt0 : r.uni(0.01, 1.0); s.simtime(dt);
    // arbitrary trial state: residuals by definition
    if (r.chance(0.5)) { Vec tu = rand_vec(r, n), tv = rand_vec(r, n), ta = rand_vec(r, n); std::vector<Ref> rv(n), ra(n); for (int i = 0; i < n; i++) { rv[i] = m.v(tu[i], u[i], tv[i], v[i], a[i], dt); ra[i] = m.a(tu[i], u[i], ta[i], v[i], a[i], dt); }
      SV U = fresh(r, tu), Up = fresh(r, u), V = fresh(r, tv), Vp = fresh(r, v), A = fresh(r, ta), Ap = fresh(r, a);
      near(s, "velocity-residual", from_view(f.v_value(U, Up, V, Vp, A, Ap, dt)), rv, "velocity residual"); near(s, "acceleration-residual", from_view(f.a_value(U, Up, V, Vp, A, Ap, dt)), ra, "acceleration residual");
      same(s, "input", from_view(U), tu, "state changed by the residual"); same(s, "input", from_view(Up), u, "previous state changed by the residual"); same(s, "input", from_view(Vp), v, "previous velocity changed by the residual"); same(s, "input", from_view(Ap), a, "previous acceleration changed by the residual"); }
    // derivatives of the residuals (they are linear in every argument)
    struct D { const char* w; double got; LD ref; }; LD dl = dt; D d[] = {{"dRv/du", f.v_grad_u(dt), -m.g / (m.b * dl)}, {"dRv/du_prev", f.v_grad_u_prev(dt), m.g / (m.b * dl)}, {"dRv/dv_prev", f.v_grad_v_prev(dt), m.g / m.b - 1}, {"dRv/da_prev", f.v_grad_a_prev(dt), (m.g / (2 * m.b) - 1) * dl},
      {"dRa/du", f.a_grad_u(dt), -1 / (m.b * dl * dl)}, {"dRa/du_prev", f.a_grad_u_prev(dt), 1 / (m.b * dl * dl)}, {"dRa/dv_prev", f.a_grad_v_prev(dt), 1 / (m.b * dl)}, {"dRa/da_prev", f.a_grad_a_prev(dt), 1 / (2 * m.b) - 1}};
    for (auto& x : d) near1(s, "derivative", x.got, (double)x.ref, 1, x.w, 1e-12);
    // advance: v and a as functions of u through the residuals; then the dynamic equilibrium gives u
    Vec z(n, 0.0); SV Z = fresh(r, z), Up = fresh(r, u), Vp = fresh(r, v), Ap = fresh(r, a), Z2 = fresh(r, z), Z3 = fresh(r, z); Vec v0 = from_view(f.v_value(Z, Up, Z2, Vp, Z3, Ap, dt)), a0 = from_view(f.a_value(Z, Up, Z2, Vp, Z3, Ap, dt)); Vec un(n), vn(n), an(n);
    for (int i = 0; i < n; i++) { double kv = -f.v_grad_u(dt), ka = -f.a_grad_u(dt); un[i] = -(M[i] * -a0[i] + C[i] * -v0[i]) / (M[i] * ka + C[i] * kv + K[i]); vn[i] = kv * un[i] - v0[i]; an[i] = ka * un[i] - a0[i]; }
    std::vector<Ref> ev(n), eu(n); for (int i = 0; i < n; i++) { LD q = dt; eu[i].v = u[i] + q * v[i] + q * q / 2 * ((1 - 2 * m.b) * a[i] + 2 * m.b * an[i]); eu[i].a = fabsl(u[i]) + fabsl(q * v[i]) + q * q * (fabsl(a[i]) + fabsl(an[i])) + fabsl(un[i]); ev[i].v = v[i] + q * ((1 - m.g) * a[i] + m.g * an[i]); ev[i].a = fabsl(v[i]) + q * (fabsl(a[i]) + fabsl(an[i])) + (fabsl(un[i]) + fabsl(u[i])) * m.g / (m.b * q); }
    near(s, "scheme", un, eu, "displacement of the scheme", 1e-10); near(s, "scheme", vn, ev, "velocity of the scheme", 1e-10);
    u = un; v = vn; a = an;
  }
  // trapezoidal rule on an undamped linear system conserves the energy exactly
  if (avg && undamped && !broke) { LD e = 0; for (int i = 0; i < n; i++) e += 0.5L * M[i] * v[i] * v[i] + 0.5L * K[i] * u[i] * u[i]; near1(s, "energy", (double)e, (double)e0, 1e-6, "energy of an undamped system after the history", 1e-7); }
}
static void trapezoid(Sim& s) {
  Rng& w = s.w; int n = pick_size(w, 120); bool dflt = w.chance(0.25); double al = dflt ? 0.5 : w.chance(0.2) ? 1.0 : w.uni(0.2, 1.0); Teuchos::ParameterList pl; if (!dflt) pl.set<double>("Trapezoid Alpha", al); Plato::Parabolic::TrapezoidIntegrator<Any> f(pl); LD A = al;
  Vec k(n), u = rand_vec(w, n, true), v(n); for (int i = 0; i < n; i++) { k[i] = w.positive(); v[i] = -k[i] * u[i]; } int steps = w.range(1, 12); s.cover(str("trapezoid n=%s alpha=%s steps=%d", szc(n), dflt ? "default" : al == 1 ? "1" : "general", steps));
  for (int j = 0; j < steps; j++) {
    if (!s.step("time step")) continue; Rng& r = s.w; double dt = r.uni(0.01, 1.0); s.simtime(dt); LD q = dt;
    Vec tu = rand_vec(r, n), tv = rand_vec(r, n); std::vector<Ref> ref(n); for (int i = 0; i < n; i++) { ref[i].add(tv[i]); ref[i].add(-tu[i] / (A * q)); ref[i].add(u[i] / (A * q)); ref[i].add((1 - A) / A * v[i]); }
    SV U = fresh(r, tu), Up = fresh(r, u), V = fresh(r, tv), Vp = fresh(r, v); near(s, "velocity-residual", from_view(f.v_value(U, Up, V, Vp, dt)), ref, "velocity residual"); same(s, "input", from_view(U), tu, "state changed"); same(s, "input", from_view(Up), u, "previous state changed"); same(s, "input", from_view(V), tv, "velocity changed"); same(s, "input", from_view(Vp), v, "previous velocity changed");
    near1(s, "derivative", f.v_grad_u(dt), (double)(-1 / (A * q)), 0, "dRv/du", 1e-12); near1(s, "derivative", f.v_grad_u_prev(dt), (double)(1 / (A * q)), 0, "dRv/du_prev", 1e-12); near1(s, "derivative", f.v_grad_v_prev(dt), (double)((1 - A) / A), 1, "dRv/dv_prev", 1e-12);
    // advance v = -k u
    Vec z(n, 0.0); SV Z = fresh(r, z), Z2 = fresh(r, z); Vec v0 = from_view(f.v_value(Z, Up, Z2, Vp, dt)), un(n), vn(n); std::vector<Ref> eu(n);
    for (int i = 0; i < n; i++) { double kv = -f.v_grad_u(dt); un[i] = v0[i] / (kv + k[i]); vn[i] = kv * un[i] - v0[i]; LD g = (1 - q * k[i] * (1 - A)) / (1 + q * k[i] * A) * u[i]; eu[i].v = u[i] + q * ((1 - A) * v[i] + A * -(LD)k[i] * un[i]); eu[i].a = fabsl(u[i]) + q * fabsl(v[i]); (void)g; }
    near(s, "scheme", un, eu, "state of the scheme", 1e-10); u = un; for (int i = 0; i < n; i++) v[i] = -k[i] * u[i];
  }
}
void harness_episode(Sim& s) { if (s.w.chance(0.6)) newmark(s); else trapezoid(s); }
}
