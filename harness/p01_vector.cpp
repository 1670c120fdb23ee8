// Vector / workset algebra kernels (BLAS1, BLAS2, BLAS3) on the simulated device.
#include "hk.hpp"
#include <BLAS2.hpp>
#include <BLAS3.hpp>
namespace psim {
const HarnessInfo harness = {"P01", "BLAS1.hpp, BLAS2.hpp, BLAS3.hpp kernels; Kokkos views; KokkosBatched LU/Trsm", "Kokkos::Serial range for/reduce dispatch (simulated device)"};
void kokkos_init();
void harness_init() { kokkos_init(); }
int harness_episodes(Rng& r) { return 1 + (int)r.below(3); }
static double scalar(Rng& r) { switch (r.below(6)) { case 0: return 0; case 1: return 1; case 2: return -1; default: return r.value(); } }

static void b1(Sim& s, int op) {
  Rng& r = s.w;
  int n = r.chance(0.002) ? huge_size(r, 1 << 17) : pick_size(r, r.chance(0.05) ? 6000 : 400);
  Vec a = rand_vec(r, n), b = rand_vec(r, n);
  auto A = to_view(a, "a"), B = to_view(b, "b");
  s.cover(str("blas1.%d n=%s", op, szc(n)));
  double al = scalar(r), be = scalar(r);
  std::vector<Ref> ref(n);
  switch (op) {
    case 0: { double d = Plato::blas1::dot(A, B); Ref x; for (int i = 0; i < n; i++) x.add((LD)a[i] * b[i]); near1(s, "dot", d, x.v, x.a, "dot"); break; }
    case 1: { double d = Plato::blas1::norm(A); Ref x; for (int i = 0; i < n; i++) x.add((LD)a[i] * a[i]); near1(s, "norm", d, std::sqrt((double)x.v), 0, "norm"); break; }
    case 2: { Plato::blas1::fill(al, A); same(s, "fill", from_view(A), Vec(n, al), "fill"); break; }
    case 3: { Plato::blas1::copy(A, B); same(s, "copy", from_view(B), a, "copy"); break; }
    case 4: { Plato::blas1::scale(al, A); for (int i = 0; i < n; i++) ref[i].add((LD)al * a[i]); near(s, "scale", from_view(A), ref, "scale"); break; }
    case 5: { Plato::blas1::axpy(al, A, B); for (int i = 0; i < n; i++) { ref[i].add((LD)al * a[i]); ref[i].add(b[i]); } near(s, "axpy", from_view(B), ref, "axpy"); break; }
    case 6: { Plato::blas1::update(al, A, be, B); for (int i = 0; i < n; i++) { ref[i].add((LD)al * a[i]); ref[i].add((LD)be * b[i]); } near(s, "update", from_view(B), ref, "update"); break; }
    case 7: { double o = r.value(); Plato::blas1::local_sum(A, o); Ref x; for (double v : a) x.add(v); near1(s, "sum", o, x.v, x.a, "local sum"); break; }
    case 8: { if (r.chance(0.4)) { double sg = r.chance(0.5) ? -1 : 1; for (int i = 0; i < n; i++) { a[i] = sg * (std::fabs(a[i]) + 0.1); A(i) = a[i]; } }
              double o = r.value(); Plato::blas1::max(A, o); double m = a[0]; for (double v : a) m = std::max(m, v); near1(s, "max", o, m, 0, "max", 0); break; }
    case 9: { if (r.chance(0.4)) { double sg = r.chance(0.5) ? -1 : 1; for (int i = 0; i < n; i++) { a[i] = sg * (std::fabs(a[i]) + 0.1); A(i) = a[i]; } }
              double o = r.value(); Plato::blas1::min(A, o); double m = a[0]; for (double v : a) m = std::min(m, v); near1(s, "min", o, m, 0, "min", 0); break; }
    case 10: {   // ordinal fill
      int m = r.chance(0.5) ? n : r.range(1, n);
      IVec ord(n); for (int i = 0; i < n; i++) ord[i] = i; for (int i = n - 1; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]);
      ord.resize(m); Vec val = rand_vec(r, m); auto O = to_iview(ord); auto V = to_view(val);
      Plato::blas1::fill(al, O, V, B);
      Vec e = b; for (int i = 0; i < m; i++) e[ord[i]] = al * val[i];
      same(s, "ordinal-fill", from_view(B), e, "fill by ordinals"); same(s, "input", from_view(V), val, "fill by ordinals: values"); break; }
    case 11: {   // extract
      auto run = [&](auto st, auto of) {
        constexpr int S = decltype(st)::value, O = decltype(of)::value;
        Vec f = rand_vec(r, n * S); auto F = to_view(f); Plato::ScalarVector T("t", n); Vec e(n);
        Plato::blas1::extract<S, O>(F, T); for (int i = 0; i < n; i++) e[i] = f[i * S + O];
        same(s, "extract", from_view(T), e, "extract"); same(s, "input", from_view(F), f, "extract: source"); };
      using std::integral_constant;
      switch (r.below(5)) { case 0: run(integral_constant<int,1>{}, integral_constant<int,0>{}); break; case 1: run(integral_constant<int,2>{}, integral_constant<int,1>{}); break;
        case 2: run(integral_constant<int,3>{}, integral_constant<int,0>{}); break; case 3: run(integral_constant<int,3>{}, integral_constant<int,2>{}); break; default: run(integral_constant<int,4>{}, integral_constant<int,3>{}); } break; }
    case 12: {   // wrong input
      int m = n > 3 && r.chance(0.5) ? n - r.range(1, 3) : n + r.range(1, 3); Vec c = rand_vec(r, m); auto C = to_view(c); Plato::ScalarVector E; auto P = to_view(a);
      double inf = r.chance(0.5) ? std::numeric_limits<double>::infinity() : std::nan("");
      must_throw(s, "rejects", "dot of different lengths", [&] { Plato::blas1::dot(A, C); });
      must_throw(s, "rejects", "dot of different lengths", [&] { Plato::blas1::dot(C, A); });
      must_throw(s, "rejects", "axpy of different lengths", [&] { Plato::blas1::axpy(1.0, A, C); });
      must_throw(s, "rejects", "axpy of different lengths", [&] { Plato::blas1::axpy(1.0, C, A); });
      must_throw(s, "rejects", "update of different lengths", [&] { Plato::blas1::update(1.0, C, 2.0, A); });
      must_throw(s, "rejects", "copy of different lengths", [&] { Plato::blas1::copy(C, A); });
      must_throw(s, "rejects", "update of different lengths", [&] { Plato::blas1::update(1.0, A, 2.0, C); });
      must_throw(s, "rejects", "copy of different lengths", [&] { Plato::blas1::copy(A, C); });
      must_throw(s, "rejects", "dot with an empty vector", [&] { Plato::blas1::dot(A, E); });
      must_throw(s, "rejects", "copy from an empty vector", [&] { Plato::blas1::copy(E, A); });
      must_throw(s, "rejects", "axpy from an empty vector", [&] { Plato::blas1::axpy(1.0, E, A); });
      must_throw(s, "rejects", "update from an empty vector", [&] { Plato::blas1::update(1.0, E, 0.0, A); });
      must_throw(s, "rejects", "fill of an empty vector", [&] { Plato::blas1::fill(1.0, E); });
      must_throw(s, "rejects", "norm of an empty vector", [&] { Plato::blas1::norm(E); });
      must_throw(s, "rejects", "scale of an empty vector", [&] { Plato::blas1::scale(1.0, E); });
      double o = 0;
      must_throw(s, "rejects", "sum of an empty vector", [&] { Plato::blas1::local_sum(E, o); });
      must_throw(s, "rejects", "max of an empty vector", [&] { Plato::blas1::max(E, o); });
      must_throw(s, "rejects", "min of an empty vector", [&] { Plato::blas1::min(E, o); });
      must_throw(s, "rejects", "fill with a non-finite scalar", [&] { Plato::blas1::fill(inf, A); });
      must_throw(s, "rejects", "scale with a non-finite scalar", [&] { Plato::blas1::scale(inf, A); });
      must_throw(s, "rejects", "update with a non-finite scalar", [&] { Plato::blas1::update(inf, B, 1.0, A); });
      must_throw(s, "rejects", "update with a non-finite scalar", [&] { Plato::blas1::update(1.0, B, inf, A); });
      Plato::LocalOrdinalVector O("o", n);
      Plato::LocalOrdinalVector OE; for (int i = 0; i < n; i++) O(i) = i;
      must_throw(s, "rejects", "fill by ordinals with a non-finite multiplier", [&] { Plato::blas1::fill(inf, O, P, A); });
      must_throw(s, "rejects", "fill by ordinals of an empty vector", [&] { Plato::blas1::fill(1.0, O, P, E); });
      must_throw(s, "rejects", "fill by ordinals from no values", [&] { Plato::blas1::fill(1.0, O, E, A); });
      must_throw(s, "rejects", "extract from an empty vector", [&] { Plato::blas1::extract<1, 0>(E, A); });
      must_throw(s, "rejects", "extract into an empty vector", [&] { Plato::blas1::extract<1, 0>(A, E); });
      must_throw(s, "rejects", "fill by ordinals of different lengths", [&] { Plato::blas1::fill(1.0, O, C, A); });
      same(s, "untouched", from_view(C), c, "rejected call changed its output"); same(s, "untouched", from_view(A), a, "rejected call changed its output"); break; }
    case 13: {   // aliased update: x = alpha x + beta x
      Plato::blas1::update(al, A, be, A); for (int i = 0; i < n; i++) { ref[i].add((LD)al * a[i]); ref[i].add((LD)be * a[i]); } near(s, "update", from_view(A), ref, "aliased update"); break; }
    case 15: { double d = Plato::blas1::dot(A, A); Ref x; for (int i = 0; i < n; i++) x.add((LD)a[i] * a[i]); near1(s, "dot", d, x.v, x.a, "dot of a vector with itself"); Plato::blas1::axpy(al, A, A); for (int i = 0; i < n; i++) { ref[i].add((LD)al * a[i]); ref[i].add(a[i]); } near(s, "axpy", from_view(A), ref, "aliased axpy"); break; }
    case 16: { double lo = r.chance(0.3) ? 0 : r.value(), w = r.chance(0.1) ? 0 : std::fabs(r.value()), hi = lo + w; Plato::ScalarVector V("v", n); Plato::blas1::random(lo, hi, V); Vec v = from_view(V); bool all = true; for (double x : v) { if (!(x >= lo - 1e-12 * (std::fabs(lo) + w) && x <= hi + 1e-12 * (std::fabs(lo) + w))) s.fail("random", str("random value %.17g outside [%g, %g]", x, lo, hi)); all &= x == v[0]; } s.evaluated(n); s.check(!(all && n > 3 && w > 1e-6 * std::fabs(lo)), "random", "random values are all equal"); break; }
    case 14: {   // on a row of a multi-vector (time slice), as the problems do
      int t = r.range(1, 4); Vec m = rand_vec(r, t * n); auto M = to_view2(m, t, n); int k = (int)r.below(t);
      auto row = Kokkos::subview(M, k, Kokkos::ALL()); Plato::blas1::copy(A, row); for (int i = 0; i < n; i++) m[k * n + i] = a[i];
      same(s, "copy", from_view2(M), m, "copy into a time slice"); break; }
  }
  if (op != 2 && op != 4 && op < 12) same(s, "input", from_view(A), a, "input vector changed");
  if (op == 0) same(s, "input", from_view(B), b, "input vector changed");
}
template <int S, int O> static void ex2(Sim& s, int t, int n) {
  Vec f = rand_vec(s.w, t * n * S); auto F = to_view2(f, t, n * S); Plato::ScalarMultiVector T("t", t, n); Vec e(t * n);
  Plato::blas2::extract<S, O>(F, T); for (int i = 0; i < t; i++) for (int j = 0; j < n; j++) e[i * n + j] = f[i * n * S + j * S + O];
  same(s, "extract2", from_view2(T), e, "2D extract"); same(s, "input", from_view2(F), f, "2D extract: source");
}
template <int S, int D, int O> static void ex3(Sim& s, int t, int n) {
  Vec f = rand_vec(s.w, t * n * S); auto F = to_view2(f, t, n * S); Plato::ScalarMultiVector T("t", t, n * D); Vec e(t * n * D);
  Plato::blas2::extract<S, D, O>(n, F, T);
  for (int i = 0; i < t; i++) for (int j = 0; j < n; j++) for (int d = 0; d < D; d++) e[(i * n + j) * D + d] = f[i * n * S + j * S + d + O];
  same(s, "extract2", from_view2(T), e, "2D block extract"); same(s, "input", from_view2(F), f, "2D block extract: source");
}
template <int S, int O> static void axpy2(Sim& s, int n, int m) {
  Vec a = rand_vec(s.w, n * m), b = rand_vec(s.w, n * m * S); double al = scalar(s.w); auto A = to_view2(a, n, m), B = to_view2(b, n, m * S);
  Plato::blas2::axpy<S, O>(al, A, B); std::vector<Ref> ref(n * m * S);
  for (int i = 0; i < n; i++) for (int j = 0; j < m * S; j++) { Ref& x = ref[i * m * S + j]; if (j % S == O) { x.add((LD)al * b[i * m * S + j]); x.add(a[i * m + j / S]); } else x.add(b[i * m * S + j]); }
  near(s, "axpy2", from_view2(B), ref, "workset axpy"); same(s, "input", from_view2(A), a, "workset axpy: input");
}
static void b2(Sim& s, int op) {
  Rng& r = s.w; int n = pick_size(r), m = r.range(1, 7);
  Vec a = rand_vec(r, n * m), b = rand_vec(r, n * m); auto A = to_view2(a, n, m), B = to_view2(b, n, m);
  double al = scalar(r), be = scalar(r); std::vector<Ref> ref(n * m);
  s.cover(str("blas2.%d n=%s m=%d", op, szc(n), m));
  switch (op) {
    case 0: Plato::blas2::fill(al, A); same(s, "fill2", from_view2(A), Vec(n * m, al), "workset fill"); break;
    case 1: Plato::blas2::scale(al, A); for (int i = 0; i < n * m; i++) ref[i].add((LD)al * a[i]); near(s, "scale2", from_view2(A), ref, "workset scale"); break;
    case 2: Plato::blas2::update(al, A, be, B); for (int i = 0; i < n * m; i++) { ref[i].add((LD)al * a[i]); ref[i].add((LD)be * b[i]); }
            near(s, "update2", from_view2(B), ref, "workset update"); same(s, "input", from_view2(A), a, "workset update: input"); break;
    case 3: { int t = r.range(1, 4), k = pick_size(r, 60); switch (r.below(4)) { case 0: ex2<1, 0>(s, t, k); break; case 1: ex2<2, 1>(s, t, k); break; case 2: ex2<3, 1>(s, t, k); break; default: ex2<4, 3>(s, t, k); } break; }
    case 4: { int t = r.range(1, 4), k = pick_size(r, 60); switch (r.below(4)) { case 0: ex3<3, 3, 0>(s, t, k); break; case 1: ex3<4, 3, 0>(s, t, k); break; case 2: ex3<4, 2, 1>(s, t, k); break; default: ex3<5, 1, 4>(s, t, k); } break; }
    case 5: switch (r.below(4)) { case 0: axpy2<1, 0>(s, n, m); break; case 1: axpy2<2, 1>(s, n, m); break; case 2: axpy2<3, 0>(s, n, m); break; default: axpy2<4, 3>(s, n, m); } break;
    case 6: case 7: {
      int R = r.range(1, 7), C = r.range(1, 7); bool tr = op == 7; const char* tc = tr ? (r.chance(0.5) ? "T" : "t") : (r.chance(0.5) ? "N" : "n");
      Vec M = rand_vec(r, n * R * C), x = rand_vec(r, n * (tr ? R : C)), y = rand_vec(r, n * (tr ? C : R));
      auto MM = to_view3(M, n, R, C); auto X = to_view2(x, n, tr ? R : C), Y = to_view2(y, n, tr ? C : R);
      Plato::blas2::matrix_times_vector(tc, al, MM, X, be, Y);
      int no = tr ? C : R, ni = tr ? R : C; std::vector<Ref> rf(n * no);
      for (int c = 0; c < n; c++) for (int i = 0; i < no; i++) { Ref& q = rf[c * no + i]; q.add((LD)be * y[c * no + i]); for (int j = 0; j < ni; j++) q.add((LD)al * M[(c * R + (tr ? j : i)) * C + (tr ? i : j)] * x[c * ni + j]); }
      near(s, tr ? "matvec-transpose" : "matvec", from_view2(Y), rf, "workset matrix times vector"); same(s, "input", from_view3(MM), M, "matvec: matrix"); same(s, "input", from_view2(X), x, "matvec: vector"); break; }
    case 8: {
      Plato::ScalarMultiVector E, C("c", n > 1 && r.chance(0.5) ? n - 1 : n + 1, m), D("d", n, m > 1 && r.chance(0.5) ? m - 1 : m + 1), X("x", n, m), Y("y", n, m), T("t", n != m ? m : 2 * n, n != m ? n : m); Plato::ScalarArray3D M("m", n, m, m), EM;
      must_throw(s, "rejects", "fill of an empty workset", [&] { Plato::blas2::fill(1.0, E); });
      must_throw(s, "rejects", "scale of an empty workset", [&] { Plato::blas2::scale(1.0, E); });
      must_throw(s, "rejects", "update of worksets with different cell counts", [&] { Plato::blas2::update(1.0, C, 1.0, A); });
      must_throw(s, "rejects", "update of worksets with different widths", [&] { Plato::blas2::update(1.0, D, 1.0, A); });
      must_throw(s, "rejects", "update of worksets with different cell counts", [&] { Plato::blas2::update(1.0, A, 1.0, C); });
      must_throw(s, "rejects", "update of worksets with different widths", [&] { Plato::blas2::update(1.0, A, 1.0, D); });
      must_throw(s, "rejects", "update of worksets of different shapes", [&] { Plato::blas2::update(1.0, T, 1.0, A); });
      must_throw(s, "rejects", "update of worksets of different shapes", [&] { Plato::blas2::update(1.0, A, 1.0, T); });
      must_throw(s, "rejects", "update from an empty workset", [&] { Plato::blas2::update(1.0, E, 1.0, A); });
      if (m != n) { must_throw(s, "rejects", "axpy of worksets with different cell counts", [&] { Plato::blas2::axpy<1, 0>(1.0, T, A); }); must_throw(s, "rejects", "matvec with different cell counts", [&] { Plato::blas2::matrix_times_vector("N", 1.0, M, T, 1.0, A); }); must_throw(s, "rejects", "matvec with different cell counts", [&] { Plato::blas2::matrix_times_vector("T", 1.0, M, X, 1.0, T); }); }
      must_throw(s, "rejects", "matvec with an empty vector", [&] { Plato::blas2::matrix_times_vector("N", 1.0, M, E, 1.0, A); });
      must_throw(s, "rejects", "matvec with an empty result", [&] { Plato::blas2::matrix_times_vector("T", 1.0, M, X, 1.0, E); });
      must_throw(s, "rejects", "axpy with an empty workset", [&] { Plato::blas2::axpy<1, 0>(1.0, E, A); });
      must_throw(s, "rejects", "axpy with an empty workset", [&] { Plato::blas2::axpy<1, 0>(1.0, A, E); });
      must_throw(s, "rejects", "axpy of worksets with different cell counts", [&] { Plato::blas2::axpy<1, 0>(1.0, C, A); });
      must_throw(s, "rejects", "matvec with an unknown transpose flag", [&] { static const char* const bad[] = {"X", "C", "0", "", "S"}; Plato::blas2::matrix_times_vector(bad[r.below(5)], 1.0, M, X, 1.0, A); });
      must_throw(s, "rejects", "matvec with different cell counts", [&] { Plato::blas2::matrix_times_vector("N", 1.0, M, C, 1.0, A); });
      must_throw(s, "rejects", "matvec with different cell counts", [&] { Plato::blas2::matrix_times_vector("N", 1.0, M, A, 1.0, C); });
      must_throw(s, "rejects", "matvec with an empty matrix", [&] { Plato::blas2::matrix_times_vector("N", 1.0, EM, X, 1.0, A); });
      same(s, "untouched", from_view2(A), a, "rejected call changed its output"); break; }
  }
}
template <int N> static void inv3(Sim& s, int n) {
  Vec a(n * N * N); for (auto& x : a) x = s.w.uni(-1, 1); for (int c = 0; c < n; c++) for (int i = 0; i < N; i++) a[(c * N + i) * N + i] += (s.w.chance(0.5) ? 1 : -1) * (N + 0.5);
  auto A = to_view3(a, n, N, N); Plato::ScalarArray3D I("i", n, N, N); Plato::blas3::inverse<N, N>(n, A, I);
  std::vector<Ref> ref(n * N * N); Vec got(n * N * N);
  for (int c = 0; c < n; c++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { LD t = 0; for (int k = 0; k < N; k++) t += (LD)a[(c * N + i) * N + k] * I(c, k, j); got[(c * N + i) * N + j] = (double)t; Ref& x = ref[(c * N + i) * N + j]; x.v = i == j; x.a = 1; }
  near(s, "inverse", got, ref, "matrix times its inverse", 1e-9);
}
template <int R, int C> static void fill3(Sim& s, int n) {
  Vec a = rand_vec(s.w, n * R * C); auto A = to_view3(a, n, R, C); double al = scalar(s.w);
  Plato::blas3::fill<R, C>(n, al, A); same(s, "fill3", from_view3(A), Vec(n * R * C, al), "3D fill");
  Plato::blas3::identity<R, C>(n, A); Vec e(n * R * C, 0.0); for (int c = 0; c < n; c++) for (int i = 0; i < std::min(R, C); i++) e[(c * R + i) * C + i] = 1; same(s, "identity", from_view3(A), e, "identity");
}
static void b3(Sim& s, int op) {
  Rng& r = s.w; int n = pick_size(r, 150), R = r.range(1, 6), C = r.range(1, 6); double al = scalar(r), be = scalar(r);
  s.cover(str("blas3.%d n=%s", op, szc(n)));
  switch (op) {
    case 0: switch (r.below(5)) { case 0: inv3<1>(s, n); break; case 1: inv3<2>(s, n); break; case 2: inv3<3>(s, n); break; case 3: inv3<6>(s, n); break; default: inv3<8>(s, n); } break;
    case 1: switch (r.below(3)) { case 0: fill3<2, 2>(s, n); break; case 1: fill3<3, 4>(s, n); break; default: fill3<5, 2>(s, n); } break;
    case 2: { Vec a = rand_vec(r, n * R * C), b = rand_vec(r, n * R * C); auto A = to_view3(a, n, R, C), B = to_view3(b, n, R, C); Plato::blas3::update(n, al, A, be, B);
      std::vector<Ref> ref(a.size()); for (size_t i = 0; i < a.size(); i++) { ref[i].add((LD)al * a[i]); ref[i].add((LD)be * b[i]); } near(s, "update3", from_view3(B), ref, "3D update"); same(s, "input", from_view3(A), a, "3D update: input"); break; }
    case 3: { int K = r.chance(0.15) ? r.range(7, 40) : r.range(1, 6); Vec a = rand_vec(r, n * R * K), b = rand_vec(r, n * K * C), c = rand_vec(r, n * R * C); auto A = to_view3(a, n, R, K), B = to_view3(b, n, K, C), D = to_view3(c, n, R, C);
      Plato::blas3::multiply(n, al, A, B, be, D); std::vector<Ref> ref(c.size());
      for (int q = 0; q < n; q++) for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { Ref& x = ref[(q * R + i) * C + j]; x.add((LD)be * c[(q * R + i) * C + j]); for (int k = 0; k < K; k++) x.add((LD)al * a[(q * R + i) * K + k] * b[(q * K + k) * C + j]); }
      near(s, "multiply3", from_view3(D), ref, "batched product"); same(s, "input", from_view3(A), a, "batched product: A"); same(s, "input", from_view3(B), b, "batched product: B"); break; }
    case 4: { int up = r.chance(0.5), R2 = up || R == 1 ? R + 1 : R - 1, C2 = up || C == 1 ? C + 1 : C - 1, n2 = n > 1 && r.chance(0.5) ? n - 1 : n + 1; Plato::ScalarArray3D E, A("a", n, R, C), B("b", n, R2, C), D("d", n, R, C2), F("f", n2, C, R), G("g", n, C, R), H("h", n, R, R), I("i", n2, R, C), J("j", n2, R, R), K("k", n, R2, R), L("l", n, R, R2);
      must_throw(s, "rejects", "3D update with different row counts", [&] { if (up) Plato::blas3::update(n, 1.0, A, 1.0, B); else Plato::blas3::update(n, 1.0, B, 1.0, A); });
      must_throw(s, "rejects", "3D update with different column counts", [&] { if (up) Plato::blas3::update(n, 1.0, A, 1.0, D); else Plato::blas3::update(n, 1.0, D, 1.0, A); });
      if (R != C) must_throw(s, "rejects", "3D update of arrays of different shapes", [&] { Plato::blas3::update(n, 1.0, A, 1.0, G); });
      must_throw(s, "rejects", "3D update with an empty array", [&] { Plato::blas3::update(n, 1.0, E, 1.0, D); });
      must_throw(s, "rejects", "3D update with an empty array", [&] { Plato::blas3::update(n, 1.0, D, 1.0, E); });
      must_throw(s, "rejects", "3D update of no cells", [&] { Plato::blas3::update(-(int)r.below(3), 1.0, A, 1.0, A); });
      must_throw(s, "rejects", "batched product with different cell counts", [&] { Plato::blas3::multiply(n, 1.0, A, F, 1.0, H); });
      must_throw(s, "rejects", "batched product with different cell counts", [&] { Plato::blas3::multiply(n, 1.0, I, G, 1.0, H); });
      must_throw(s, "rejects", "batched product with different cell counts", [&] { Plato::blas3::multiply(n, 1.0, A, G, 1.0, J); });
      must_throw(s, "rejects", "batched product with inner mismatch", [&] { Plato::blas3::multiply(n, 1.0, D, G, 1.0, H); });
      must_throw(s, "rejects", "batched product with output mismatch", [&] { Plato::blas3::multiply(n, 1.0, A, G, 1.0, K); });
      must_throw(s, "rejects", "batched product with output mismatch", [&] { Plato::blas3::multiply(n, 1.0, A, G, 1.0, L); });
      must_throw(s, "rejects", "batched product with an empty array", [&] { Plato::blas3::multiply(n, 1.0, E, G, 1.0, H); });
      must_throw(s, "rejects", "batched product with an empty array", [&] { Plato::blas3::multiply(n, 1.0, A, E, 1.0, H); });
      must_throw(s, "rejects", "batched product with an empty array", [&] { Plato::blas3::multiply(n, 1.0, A, G, 1.0, E); });
      Plato::ScalarArray3D Q("q", n, 2, 2), V("v", n2, 2, 2);
      must_throw(s, "rejects", "inverse of an empty array", [&] { Plato::blas3::inverse<2, 2>(n, E, Q); });
      must_throw(s, "rejects", "inverse into an empty array", [&] { Plato::blas3::inverse<2, 2>(n, Q, E); });
      must_throw(s, "rejects", "inverse into an array of another size", [&] { Plato::blas3::inverse<2, 2>(std::min(n, n2), Q, V); });
      must_throw(s, "rejects", "identity with another number of cells", [&] { Plato::blas3::identity<2, 2>(n, V); });
      must_throw(s, "rejects", "3D fill of no cells", [&] { Plato::blas3::fill<2, 2>(-(int)r.below(3), 1.0, Q); });
      must_throw(s, "rejects", "3D fill of an empty array", [&] { Plato::blas3::fill<2, 2>(n, 1.0, E); });
      must_throw(s, "rejects", "identity of an empty array", [&] { Plato::blas3::identity<2, 2>(n, E); }); break; }
  }
}
void harness_episode(Sim& s) {
  heap_poison(s.w.chance(0.5), s.w.next());
  int steps = s.w.range(3, 8);
  for (int k = 0; k < steps; k++) {
    if (!s.step("vector op")) continue;
    switch (s.w.below(4)) { case 0: case 1: b1(s, (int)s.w.below(17)); break; case 2: b2(s, (int)s.w.below(9)); break; default: b3(s, (int)s.w.below(5)); }
  }
  heap_poison(false, 0);
}
}
