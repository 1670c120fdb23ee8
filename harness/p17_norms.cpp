// Aggregated norms: for every criterion set-up and any history of evaluations with reused storage, the p-norm, weighted norm and Barlat
// norm of each cell, their aggregate and its gradient are those of the definitions, under every device schedule; bad set-ups are refused.
#include "cells.hpp"
#include <TensorPNorm.hpp>
#include <VectorPNorm.hpp>
#include <Sacado.hpp>
namespace psim {
const HarnessInfo harness = {"P17", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); }
int harness_episodes(Rng& r) { return 1 + (int)r.below(2); }
struct Value { typedef double ResultScalarType, ControlScalarType, ConfigScalarType; };
template <int N> struct Grad { typedef Sacado::Fad::SFad<double, N> ResultScalarType; typedef double ControlScalarType, ConfigScalarType; };
struct M3 { LD m[3][3]; };
static void eig3(M3 a, LD* e) { for (int it = 0; it < 60; it++) { LD off = 0, nrm = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) (i == j ? nrm : off) += a.m[i][j] * a.m[i][j]; if (off <= 1e-36L * nrm || off == 0) break; for (int p = 0; p < 2; p++) for (int q = p + 1; q < 3; q++) if (a.m[p][q] != 0) { LD th = (a.m[q][q] - a.m[p][p]) / (2 * a.m[p][q]), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c; for (int k = 0; k < 3; k++) { LD x = a.m[k][p], y = a.m[k][q]; a.m[k][p] = c * x - s * y; a.m[k][q] = s * x + c * y; } for (int k = 0; k < 3; k++) { LD x = a.m[p][k], y = a.m[q][k]; a.m[p][k] = c * x - s * y; a.m[q][k] = s * x + c * y; } } } for (int i = 0; i < 3; i++) e[i] = a.m[i][i]; }
enum Kind { PLAIN, OTHER, SCALAR, BARLAT };
struct Setup { int kind; double p; bool rw, sw, be; double ref, w; int ex; double t1[6][6], t2[6][6]; };
static Teuchos::ParameterList list(const Setup& u) {
  Teuchos::ParameterList l; l.set<double>("Exponent", u.p); if (u.kind == PLAIN) return l; auto& n = l.sublist("Normalize"); n.set<std::string>("Type", u.kind == OTHER ? "None" : u.kind == SCALAR ? "Scalar" : "Barlat");
  if (u.kind == SCALAR) { auto& q = n.sublist("Scalar"); if (u.rw) q.set<double>("Reference Weight", u.ref); if (u.sw) q.set<double>("Scalar Product Weight", u.w); }
  if (u.kind == BARLAT) { auto& q = n.sublist("Barlat"); if (u.rw) q.set<double>("Reference Weight", u.ref); if (u.be) q.set<int>("Barlat Exponent", u.ex); for (int i = 0; i < 6; i++) { Teuchos::Array<double> a(6), b(6); for (int j = 0; j < 6; j++) { a[j] = u.t1[i][j]; b[j] = u.t2[i][j]; } q.set("T1" + std::to_string(i), a); q.set("T2" + std::to_string(i), b); } }
  return l;
}
static Setup setup(Rng& r) {
  Setup u; u.kind = (int)r.below(5); if (u.kind > BARLAT) u.kind = BARLAT; u.p = r.chance(0.3) ? r.range(1, 8) : r.chance(0.3) ? r.range(2, 9) + 0.5 : r.uni(1, 8); u.rw = r.chance(0.6); u.sw = r.chance(0.6); u.be = r.chance(0.6); u.ref = u.rw ? r.uni(0.2, 5) : 1; u.w = u.sw ? r.uni(0.2, 5) : 1; u.ex = u.be ? 2 * r.range(1, 4) : 6; bool iso = r.chance(0.3);
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { u.t1[i][j] = iso ? (i == j) : (i < 3) == (j < 3) && (i < 3 || i == j) ? r.uni(-1.5, 1.5) : 0; u.t2[i][j] = iso ? (i == j) : (i < 3) == (j < 3) && (i < 3 || i == j) ? r.uni(-1.5, 1.5) : 0; } return u;
}
static LD barlat(const Setup& u, const LD* s, LD* scale) {   // equivalent stress from the principal values of the two transformed deviators
  LD tr = (s[0] + s[1] + s[2]) / 3, d[6]; for (int i = 0; i < 6; i++) d[i] = s[i] - (i < 3 ? tr : 0); LD e[2][3], big = 0; for (int k = 0; k < 2; k++) { LD x[6]; for (int i = 0; i < 6; i++) { x[i] = 0; for (int j = 0; j < 6; j++) x[i] += (k ? u.t2[i][j] : u.t1[i][j]) * d[j]; big = std::max(big, fabsl(x[i])); } M3 m = {{{x[0], x[5], x[4]}, {x[5], x[1], x[3]}, {x[4], x[3], x[2]}}}; eig3(m, e[k]); }
  LD t = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t += powl(fabsl(e[0][i] - e[1][j]), u.ex); LD ms = 0; for (int i = 0; i < 6; i++) ms = std::max(ms, fabsl(s[i])); *scale = big + 1e-12L * ms; return powl(t / 4, 1.0L / u.ex);
}
template <int N> static LD measure(const Setup& u, const Arr& t, int c, LD* scale) {
  LD q = 0; for (int j = 0; j < N; j++) q += (LD)t(c, j) * t(c, j); if (u.kind == PLAIN || u.kind == OTHER) { *scale = 0; return sqrtl(q); } if (u.kind == SCALAR) { *scale = 0; return sqrtl(u.w * q) / u.ref; }
  LD s[6] = {0}; if (N == 6) for (int j = 0; j < 6; j++) s[j] = t(c, j); else if (N == 3) { s[0] = t(c, 0); s[1] = t(c, 1); s[5] = t(c, 2); } else s[0] = t(c, 0); LD b = barlat(u, s, scale); *scale /= u.ref; return b / u.ref;
}
template <int N> static Arr tensors(Rng& r, int n) { Arr t(r, n, N); double k = std::pow(10.0, r.range(-2, 3)); for (int c = 0; c < n; c++) { int q = (int)r.below(8); for (int j = 0; j < N; j++) t.at(c, j) = r.uni(-2, 2) * k; if (q == 0) for (int j = 1; j < N; j++) t.at(c, j) = 0; if (q == 1) for (int j = 0; j < N; j++) t.at(c, j) = j < 3 && N == 6 ? t(c, 0) : 0; if (q == 2) for (int j = 0; j < N; j++) t.at(c, j) = 0; if (q == 3) for (int j = 0; j < N; j++) t.at(c, j) = j < std::min(3, N) ? t(c, j) : 0; } return t; }
template <int N> static void tensor(Sim& s) {
  Rng& w = s.w; Setup u = setup(w); Teuchos::RCP<Plato::TensorNormBase<N, Value>> nv; Teuchos::RCP<Plato::TensorNormBase<N, Grad<N>>> ng;
  { Teuchos::ParameterList l = list(u); nv = Plato::TensorNormFactory<N, Value>().create(l); ng = Plato::TensorNormFactory<N, Grad<N>>().create(l); if (w.chance(0.5)) l.set<double>("Exponent", 77.0); }
  int n = pick_cells(w); SV out("result", n); int hist = w.range(1, 4); static const char* kn[] = {"p-norm", "p-norm (other type)", "weighted norm", "Barlat norm"};
  for (int h = 0; h < hist; h++) {
    if (!s.step(kn[u.kind])) continue; Rng& r = s.w; Arr t = tensors<N>(r, n), v = volumes(r, n, 0.01, 2); auto T = t.v2(); auto V = v.v1(); MV C("control", n, N + 1); if (r.chance(0.5)) Kokkos::deep_copy(out, r.value());
    nv->evaluate(out, T, C, V); Vec got = from_view(out); s.evaluated(n); LD total = 0; bool rough = false;
    for (int c = 0; c < n; c++) { LD sc = 0, m = measure<N>(u, t, c, &sc), e = powl(m, u.p) * v(c), tolv = u.kind == BARLAT ? 3e-7L * (e + powl(sc, u.p) * v(c)) + 1e-300L : 1e-11L * e + 1e-300L; total += e;
      if (u.kind == BARLAT && sc > 0 && m < 1e-3L * sc) { rough = true; if (!(got[c] >= -1e-300) || got[c] > powl(3 * sc, u.p) * v(c)) s.fail("cell", str("%s of cell %d of %d is %.17g", kn[u.kind], c, n, got[c])); continue; }   // principal values nearly coincide: only a bound
      if (!(fabsl(got[c] - e) <= tolv)) s.fail("cell", str("%s of cell %d of %d with exponent %.17g is %.17g, expected %.17g", kn[u.kind], c, n, u.p, got[c], (double)e)); }
    same(s, "input", from_view2(T), t.v, "tensor changed"); same(s, "input", from_view(V), v.v, "volume changed"); s.hash(got.data(), 8 * n); s.cover(str("%s N=%d p=%s cells=%s%s", kn[u.kind], N, u.p == std::floor(u.p) ? "integer" : "real", szc(n), h ? " again" : ""));
    LD sum = 0; for (double x : got) sum += x; if (sum > 0) { double val = (double)sum; nv->postEvaluate(val); near1(s, "aggregate", val, (double)powl(sum, 1.0L / u.p), 0, "aggregate of the cells", 1e-11); Vec g0 = rand_vec(r, n, true); auto G = to_view(g0); nv->postEvaluate(G, (double)sum); std::vector<Ref> e(n); for (int i = 0; i < n; i++) e[i].add(g0[i] * powl(sum, (1 - (LD)u.p) / u.p) / u.p); near(s, "gradient-scale", from_view(G), e, "gradient of the aggregate", 1e-10); } (void)total; (void)rough;
    if (u.kind != BARLAT && r.chance(0.5)) {   // derivative of every cell value with respect to the tensor
      typedef typename Grad<N>::ResultScalarType F; Plato::ScalarVectorT<F> O("o", n); Plato::ScalarMultiVectorT<F> X("x", n, N); for (int c = 0; c < n; c++) for (int j = 0; j < N; j++) X(c, j) = F(N, j, t(c, j)); { SerialScope ss; ng->evaluate(O, X, C, V); } s.evaluated(n);
      for (int c = 0; c < n; c++) { LD q = 0, sc; for (int j = 0; j < N; j++) q += (LD)t(c, j) * t(c, j); if (q == 0) continue; LD m = measure<N>(u, t, c, &sc); F o = O(c); for (int j = 0; j < N; j++) { LD d = v(c) * u.p * powl(m, u.p) * t(c, j) / q; if (!close(o.dx(j), (double)d, (double)(v(c) * u.p * powl(m, u.p) / sqrtl(q)), 1e-9)) s.fail("derivative", str("%s: derivative of cell %d by component %d is %.17g, expected %.17g", kn[u.kind], c, j, o.dx(j), (double)d)); } } s.cover(str("%s derivative N=%d", kn[u.kind], N)); }
  }
}
template <int N> static void vector(Sim& s) {
  if (!s.step("vector p-norm")) return; Rng& r = s.w; int n = pick_cells(r), p = r.range(1, 9); Arr t = tensors<N>(r, n), v = volumes(r, n, 0.01, 2); auto T = t.v2(); auto V = v.v1(); SV O("o", n); Kokkos::deep_copy(O, r.value()); Plato::VectorPNorm<N> f; cells(n, LAMBDA_EXPRESSION(int c) { f(c, O, T, p, V); });
  std::vector<Ref> e(n); for (int c = 0; c < n; c++) { LD q = 0; for (int j = 0; j < N; j++) q += (LD)t(c, j) * t(c, j); e[c].add(powl(q, p / 2.0L) * v(c)); } near(s, "cell", from_view(O), e, str("vector p-norm, p=%d", p).c_str(), 1e-11); same(s, "input", from_view2(T), t.v, "vector changed"); s.cover(str("vector N=%d p=%d", N, p));
}
static void refused(Sim& s) {
  if (!s.step("refused set-up")) return; Rng& r = s.w; Setup u = setup(r); int q = (int)r.below(4); if (q) u.kind = BARLAT; Teuchos::ParameterList l = list(u); const char* w = "";
  if (q == 0) { l.remove("Exponent"); w = "norm without exponent"; } else { auto& b = l.sublist("Normalize").sublist("Barlat"); std::string nm = (r.chance(0.5) ? "T1" : "T2") + std::to_string(r.below(6)); if (q == 1) { b.remove(nm); w = "Barlat norm without a row"; } else if (q == 2) { b.set(nm, Teuchos::Array<double>(r.below(6), 1.0)); w = "Barlat norm with a short row"; } else { l.sublist("Normalize").remove("Type"); w = "normalization without type"; } }
  must_throw(s, "accepted", w, [&] { Plato::TensorNormFactory<6, Value>().create(l); }); s.cover(w);
}
void harness_episode(Sim& s) { double c = s.w.uni(); int d = (int)s.w.below(3); if (c < 0.8) { if (d == 0) tensor<1>(s); else if (d == 1) tensor<3>(s); else tensor<6>(s); } else if (c < 0.92) { if (d == 0) vector<1>(s); else if (d == 1) vector<2>(s); else vector<3>(s); } else refused(s); }
}
