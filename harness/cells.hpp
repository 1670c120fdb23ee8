// Element-level kernels: helpers shared by the cell-wise harnesses.
#pragma once
#include "hk.hpp"
#include <array>
namespace psim {
using MV = Plato::ScalarMultiVector; using SV = Plato::ScalarVector; using A3 = Plato::ScalarArray3D;
template <class F> inline void cells(int n, F f) { Kokkos::parallel_for(Kokkos::RangePolicy<int>(0, n), f, "cells"); }
inline int pick_cells(Rng& r) { if (r.chance(0.01)) return huge_size(r, 1024); return r.chance(0.12) ? r.range(60, 140) : r.range(1, 12); }
// Voigt position of the tensor component (i,j): normal terms first, then the shear terms (2,3) (1,3) (1,2).
inline int voigt(int D, int i, int j) { if (i == j) return i; if (D == 2) return 2; int k = 3 - i - j; return 3 + k; }
inline int nvoigt(int D) { return D == 3 ? 6 : D == 2 ? 3 : 1; }
// Row-major array data with named accessors
struct Arr { Vec v; int a = 0, b = 1, c = 1;
  Arr() {} Arr(Rng& r, int A, int B = 1, int C = 1, bool smooth = false) : v(rand_vec(r, A * B * C, smooth)), a(A), b(B), c(C) { if (!smooth && r.chance(0.3)) special_rows(r); }
  // some cells hold one repeated value (zero, one, ...), or the same data as another cell
  void special_rows(Rng& r) { static const double k[] = {0, 1, -1, 0.5}; for (int i = 0; i < a; i++) if (r.chance(0.3)) { int w = b * c, q = (int)r.below(6); for (int j = 0; j < w; j++) v[(size_t)i * w + j] = q < 4 ? k[q] : q == 4 && i ? v[(size_t)(i - 1) * w + j] : (j ? v[(size_t)i * w] : v[(size_t)i * w]); } }
  double operator()(int i, int j = 0, int k = 0) const { return v[((size_t)i * b + j) * c + k]; }
  double& at(int i, int j = 0, int k = 0) { return v[((size_t)i * b + j) * c + k]; }
  SV v1() const { return to_view(v); } MV v2() const { return to_view2(v, a, b); } A3 v3() const { return to_view3(v, a, b, c); } };
inline Arr positive(Rng& r, int A, int B = 1, double lo = 0.05, double hi = 2) { Arr x(r, A, B); for (auto& y : x.v) y = r.uni(lo, hi);
  if (r.chance(0.3)) for (int i = 0; i < A; i++) if (r.chance(0.3)) { int q = (int)r.below(4); double k = q == 0 ? lo : q == 1 ? hi : q == 2 ? std::min(hi, 1.0) : 0.5 * (lo + hi); for (int j = 0; j < B; j++) x.at(i, j) = k; } return x; }
// cell volumes, now and then of a mesh in other units or with sliver cells
inline Arr volumes(Rng& r, int n, double lo = 0.05, double hi = 2) { Arr x = positive(r, n, 1, lo, hi); if (r.chance(0.1)) { double k = std::pow(10.0, r.range(-15, 6)); bool all = r.chance(0.5); for (auto& y : x.v) if (all || r.chance(0.3)) y *= k; } return x; }
// Element geometry: shape-function gradients of a non-degenerate simplex sum to zero over the nodes.
inline Arr shape_gradients(Rng& r, int n, int D) { Arr g(r, n, D + 1, D, true); if (r.chance(0.7)) for (int c = 0; c < n; c++) for (int d = 0; d < D; d++) { double t = 0; for (int k = 1; k <= D; k++) t += g(c, k, d); g.at(c, 0, d) = -t; } return g; }
struct Out { int n, m; std::vector<Ref> r; Out(int N, int M) : n(N), m(M), r((size_t)N * M) {} Ref& operator()(int i, int j = 0) { return r[(size_t)i * m + j]; } };
}
