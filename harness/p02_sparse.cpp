// Sparse matrix kernels: products with vectors, row sums, lumped solve, format conversions, matrix-matrix algebra, condensation.
#include "sparse.hpp"
#include <PlatoMathHelpers.hpp>
#include <Plato_Solve.hpp>
namespace psim {
void kokkos_init();
void harness_init() { kokkos_init(); }
int harness_episodes(Rng& r) { return 1 + (int)r.below(3); }
static int dofs(Rng& r) { static const int d[] = {1, 1, 2, 2, 3, 3, 4, 6}; return d[r.below(8)]; }
static int nblk(Rng& r, bool wide = false) { if (wide && r.chance(0.01)) return huge_size(r, 256); switch (r.below(8)) { case 0: return 1; case 1: return 2; case 2: return r.range(20, 42); default: return r.range(2, 12); } }

static void matvec(Sim& s) {
  Rng& r = s.w; Sparse m = rand_sparse(r, nblk(r, true), nblk(r, true), dofs(r), dofs(r), r.chance(0.5));
  Vec x = rand_vec(r, m.cols()), y = rand_vec(r, m.rows()); auto A = m.make(); auto X = to_view(x, "x"), Y = to_view(y, "y");
  s.cover(str("matvec %s", shp(m)));
  Plato::MatrixTimesVectorPlusVector<double>(A, X, Y);
  auto d = m.dense(); std::vector<Ref> ref(m.rows());
  for (int i = 0; i < m.rows(); i++) { ref[i].add(y[i]); for (int j = 0; j < m.cols(); j++) ref[i].add(d[(size_t)i * m.cols() + j] * x[j]); }
  near(s, "matvec", from_view(Y), ref, "matrix times vector plus vector"); same(s, "input", from_view(X), x, "matvec: vector"); same_matrix(s, "input", A, m, "matvec: matrix");
}
static void matvec_bad(Sim& s) {
  Rng& r = s.w; Sparse m = rand_sparse(r, nblk(r), nblk(r), dofs(r), dofs(r), true); auto A = m.make();
  Vec x = rand_vec(r, m.cols()), y = rand_vec(r, m.rows()), xl = rand_vec(r, m.cols() + r.range(1, 3)), yl = rand_vec(r, m.rows() + r.range(1, 3));
  auto X = to_view(x), Y = to_view(y), XL = to_view(xl), YL = to_view(yl);
  s.cover("matvec mismatch");
  must_throw(s, "rejects", "product with a vector that does not match the columns", [&] { Plato::MatrixTimesVectorPlusVector<double>(A, XL, Y); });
  must_throw(s, "rejects", "product into a vector that does not match the rows", [&] { Plato::MatrixTimesVectorPlusVector<double>(A, X, YL); });
  same(s, "untouched", from_view(Y), y, "rejected product"); same(s, "untouched", from_view(YL), yl, "rejected product");
}
// every row sum bounded away from zero
static void regular_rows(Rng& r, Sparse& m) {
  for (int b = 0; b < m.nbr; b++) for (int i = 0; i < m.p; i++) {
    LD t = 0; for (int k = m.row[b]; k < m.row[b + 1]; k++) for (int j = 0; j < m.q; j++) t += m.val[(size_t)(k * m.p + i) * m.q + j];
    if (m.row[b] == m.row[b + 1]) continue;
    double want = (r.chance(0.5) ? 1 : -1) * r.uni(0.3, 4); m.val[(size_t)(m.row[b] * m.p + i) * m.q] += (double)(want - t);
  }
}
static std::vector<Ref> rowsums(const Sparse& m) { std::vector<Ref> t(m.rows()); for (int b = 0; b < m.nbr; b++) for (int k = m.row[b]; k < m.row[b + 1]; k++) for (int i = 0; i < m.p; i++) for (int j = 0; j < m.q; j++) t[b * m.p + i].add(m.val[(size_t)(k * m.p + i) * m.q + j]); return t; }
static void rowsum(Sim& s) {
  Rng& r = s.w; Sparse m = rand_sparse(r, nblk(r, true), nblk(r, true), dofs(r), dofs(r), r.chance(0.5)); auto A = m.make();
  s.cover(str("rowsum %s", shp(m)));
  Plato::RowSum f(A); Plato::ScalarVector o("o", m.rows());
  Kokkos::parallel_for(Kokkos::RangePolicy<>(0, m.nbr), LAMBDA_EXPRESSION(const Plato::OrdinalType & b) { f(b, o); }, "psim rowsum");
  near(s, "rowsum", from_view(o), rowsums(m), "row sums");
}
template <int D> static void lumped(Sim& s) {
  Rng& r = s.w; int n = nblk(r); Sparse m = rand_sparse(r, n, n, D, D, r.chance(0.5), true, true); regular_rows(r, m);
  Vec b = rand_vec(r, m.rows()), x = rand_vec(r, m.rows()); auto A = m.make(); auto B = to_view(b), X = to_view(x);
  s.cover(str("lumped solve %s", shp(m)));
  if (!alloc_fault(s, 0.25, 2, [&] { Plato::Solve::RowSummed<D>(A, X, B); })) { same_matrix(s, "input", A, m, "lumped solve without memory: matrix"); Plato::Solve::RowSummed<D>(A, X, B); }
  auto t = rowsums(m); std::vector<Ref> ref(m.rows()); for (int i = 0; i < m.rows(); i++) { ref[i].v = b[i] / t[i].v; ref[i].a = std::fabs((double)(b[i] / t[i].v)) * (t[i].a / fabsl(t[i].v)); }
  near(s, "lumped-solve", from_view(X), ref, "lumped solve"); same(s, "input", from_view(B), b, "lumped solve: rhs"); same_matrix(s, "input", A, m, "lumped solve: matrix");
}
template <int D> static void weights(Sim& s) {                          // x = scale b / w
  Rng& r = s.w; int n = nblk(r, true); double sc = r.chance(0.5) ? 1 : r.value(); bool dflt = sc == 1 && r.chance(0.5); Vec w(n * D), b = rand_vec(r, n * D); for (auto& x : w) x = (r.chance(0.5) ? 1 : -1) * r.uni(0.2, 5); auto W = to_view(w), B = to_view(b), X = to_view(rand_vec(r, n * D)); Plato::InverseWeight<D> f; s.cover(str("inverse weight %d", D));
  if (dflt) Kokkos::parallel_for(Kokkos::RangePolicy<>(0, n), LAMBDA_EXPRESSION(const Plato::OrdinalType & k) { f(k, W, B, X); }, "psim weight"); else Kokkos::parallel_for(Kokkos::RangePolicy<>(0, n), LAMBDA_EXPRESSION(const Plato::OrdinalType & k) { f(k, W, B, X, sc); }, "psim weight");
  std::vector<Ref> e(n * D); for (int i = 0; i < n * D; i++) e[i].add((LD)sc * b[i] / w[i]); near(s, "weights", from_view(X), e, "weighted inverse"); same(s, "input", from_view(W), w, "weighted inverse: weights"); same(s, "input", from_view(B), b, "weighted inverse: right hand side");
}
// what a matrix was given is what it hands back, whichever way it was given
static void holder(Sim& s) {
  Rng& r = s.w; Sparse m = rand_sparse(r, nblk(r), nblk(r), dofs(r), dofs(r), true); auto R = to_iview(m.row, "rows"), C = to_iview(m.col, "cols"); auto V = to_view(m.val, "entries"); int how = (int)r.below(4); s.cover(str("holder %d", how)); MatP A; bool sized = true;
  if (how == 0) { A = Teuchos::rcp(new Plato::CrsMatrixType(R, C, V, m.p, m.q)); sized = false; } else if (how == 1) { A = Teuchos::rcp(new Plato::CrsMatrixType(m.rows(), m.cols(), m.p, m.q)); A->setRowMap(R); A->setColumnIndices(C); A->setEntries(V); } else if (how == 2) { m.nbr *= m.p; m.nbc *= m.q; m.p = m.q = 1; if ((int)m.row.size() != m.nbr + 1 || m.val.size() != m.col.size()) return; A = Teuchos::rcp(new Plato::CrsMatrixType(R, C, V)); sized = false; } else A = m.make();
  s.check(A->numRowsPerBlock() == m.p && A->numColsPerBlock() == m.q && A->isBlockMatrix() == (m.p * m.q > 1), "holder", "block shape of a matrix"); if (!sized) must_throw(s, "holder", "size of a matrix that was not given one", [&] { A->numRows(); }); if (sized) s.check(A->numRows() == m.rows() && A->numCols() == m.cols(), "holder", "size of a matrix");
  s.check(from_iview(A->rowMap()) == m.row && from_iview(A->columnIndices()) == m.col, "holder", "graph of a matrix"); same(s, "holder", from_view(A->entries()), m.val, "entries of a matrix");
}
static void inverse_multiply(Sim& s) {
  Rng& r = s.w; int n = nblk(r), p = dofs(r); Sparse a = rand_sparse(r, n, nblk(r), p, dofs(r), true, true, true), b = rand_sparse(r, n, nblk(r), p, dofs(r), r.chance(0.5), true);
  if (a.nbc < a.nbr) a = rand_sparse(r, n, n, p, a.q, true, true, true);
  regular_rows(r, a);
  // rows with no entry have row sum zero: nothing of the second matrix may sit there
  auto A = a.make(), B = b.make(); s.cover(str("lumped inverse multiply %s", shp(b)));
  if (!alloc_fault(s, 0.25, 2, [&] { Plato::RowSummedInverseMultiply(A, B); })) { same_matrix(s, "input", B, b, "row-summed inverse without memory"); Plato::RowSummedInverseMultiply(A, B); }
  auto t = rowsums(a); Sparse g = read_matrix(B); std::vector<Ref> ref(b.val.size());
  for (int k = 0, br = 0; k < (int)b.col.size(); k++) { while (k >= b.row[br + 1]) br++; for (int i = 0; i < p; i++) for (int j = 0; j < b.q; j++) { size_t e = (size_t)(k * p + i) * b.q + j; auto& tt = t[br * p + i]; ref[e].v = b.val[e] / tt.v; ref[e].a = fabsl(ref[e].v) * (tt.a / fabsl(tt.v)); } }
  near(s, "lumped-inverse", g.val, ref, "row-summed inverse times matrix"); same_matrix(s, "input", A, a, "row-summed inverse: first matrix");
  s.check(g.row == b.row && g.col == b.col, "graph", "row-summed inverse changed the graph");
}
static void roundtrip(Sim& s) {
  Rng& r = s.w; bool sorted = r.chance(0.6); Sparse m = rand_sparse(r, nblk(r), nblk(r), dofs(r), dofs(r), sorted); auto A = m.make();
  Plato::ScalarVectorT<int> row, col; Plato::ScalarVectorT<double> val; s.cover(str("nonblock %s %s", shp(m), sorted ? "sorted" : "unsorted"));
  if (!alloc_fault(s, 0.25, 8, [&] { Plato::getDataAsNonBlock(A, row, col, val); })) { same_matrix(s, "input", A, m, "non-block copy without memory"); Plato::getDataAsNonBlock(A, row, col, val); }
  Sparse g; g.nbr = m.rows(); g.nbc = m.cols(); g.row = from_iview(row); g.col = from_iview(col); g.val = from_view(val);
  check_wellformed(s, "nonblock-graph", g); auto d = m.dense(), e = g.dense(); s.evaluated(d.size());
  for (size_t i = 0; i < d.size(); i++) if (d[i] != e[i]) s.fail("nonblock-values", str("non-block copy differs at row %zu column %zu", i / m.cols(), i % m.cols()));
  same_matrix(s, "input", A, m, "non-block copy: matrix");
  auto B = Teuchos::rcp(new Plato::CrsMatrixType(m.rows(), m.cols(), m.p, m.q));
  if (!alloc_fault(s, 0.25, 8, [&] { Plato::setDataFromNonBlock(B, row, col, val); })) Plato::setDataFromNonBlock(B, row, col, val);
  Sparse h = read_matrix(B); check_wellformed(s, "block-graph", h); e = h.dense(); s.evaluated(d.size());
  for (size_t i = 0; i < d.size(); i++) if (d[i] != e[i]) s.fail("roundtrip", str("block matrix differs after a round trip at row %zu column %zu", i / m.cols(), i % m.cols()));
  for (int b = 0; b < h.nbr; b++) for (int k = h.row[b] + 1; k < h.row[b + 1]; k++) if (h.col[k] <= h.col[k - 1]) s.fail("roundtrip-order", "columns of a rebuilt block row are not ascending");
  if (sorted) same_matrix(s, "roundtrip", B, m, "round trip of a sorted matrix");
  s.hash(h.val.data(), h.val.size() * 8);
}
static void substride(Sim& s) {   // one-row-per-block matrix seen as one row of a larger block
  Rng& r = s.w; Sparse m = rand_sparse(r, nblk(r), nblk(r), 1, dofs(r), r.chance(0.5)); auto A = m.make(); int st = r.range(2, 4), of = (int)r.below(st);
  Plato::ScalarVectorT<int> row, col; Plato::ScalarVectorT<double> val; s.cover(str("sub-block stride %d offset %d q=%d", st, of, m.q));
  Plato::getDataAsNonBlock(A, row, col, val, st, of);
  Sparse g; g.nbr = m.rows() * st; g.nbc = m.cols(); g.row = from_iview(row); g.col = from_iview(col); g.val = from_view(val);
  check_wellformed(s, "subblock-graph", g); auto d = m.dense(), e = g.dense(); s.evaluated(e.size());
  for (int i = 0; i < g.nbr; i++) for (int j = 0; j < g.nbc; j++) { LD want = i % st == of ? d[(size_t)(i / st) * m.cols() + j] : 0; if (e[(size_t)i * g.nbc + j] != want) s.fail("subblock-values", str("strided copy differs at row %d column %d", i, j)); }
  s.hash(g.val.data(), g.val.size() * 8);
}
static void sortcols(Sim& s) {
  Rng& r = s.w; Sparse m = rand_sparse(r, nblk(r), nblk(r) + 4, 1, 1, false); Plato::ScalarVectorT<int> row = to_iview(m.row), col = to_iview(m.col); auto val = to_view(m.val);
  s.cover(str("sort %s", shp(m)));
  Plato::sortColumnEntries(row, col, val); Sparse g = m; g.col = from_iview(col); g.val = from_view(val); check_wellformed(s, "sort-graph", g);
  for (int b = 0; b < g.nbr; b++) for (int k = g.row[b] + 1; k < g.row[b + 1]; k++) if (g.col[k] <= g.col[k - 1]) s.fail("sort-order", str("row %d not ascending", b));
  s.check(from_iview(row) == m.row && g.dense() == m.dense(), "sort-values", "sorting columns changed the matrix"); s.hash(g.val.data(), g.val.size() * 8);
}
static void expect_dense(Sim& s, const char* cls, const MatP& C, const std::vector<Ref>& ref, const char* what) {
  Sparse g = read_matrix(C); check_wellformed(s, "result-graph", g); auto d = g.dense(); Vec v(d.begin(), d.end()); near(s, cls, v, ref, what);
  for (int b = 0; b < g.nbr; b++) { std::set<int> c(g.col.begin() + g.row[b], g.col.begin() + g.row[b + 1]); if ((int)c.size() != g.row[b + 1] - g.row[b]) s.fail("result-graph", str("%s: repeated column in block row %d", what, b)); }
}
static std::vector<Ref> mm(const Sparse& a, const Sparse& b) {
  auto A = a.dense(), B = b.dense(); int n = a.rows(), k = a.cols(), m = b.cols(); std::vector<Ref> c((size_t)n * m);
  for (int i = 0; i < n; i++) for (int l = 0; l < k; l++) if (A[(size_t)i * k + l] != 0) for (int j = 0; j < m; j++) c[(size_t)i * m + j].add(A[(size_t)i * k + l] * B[(size_t)l * m + j]);
  return c;
}
static void product(Sim& s) {
  Rng& r = s.w; int p = dofs(r), k = dofs(r), q = dofs(r), n = nblk(r) / 2 + 1, m = nblk(r) / 2 + 1, l = nblk(r) / 2 + 1;
  Sparse a = rand_sparse(r, n, m, p, k, r.chance(0.5), true), b = rand_sparse(r, m, l, k, q, r.chance(0.5), true); auto A = a.make(), B = b.make();
  auto C = Teuchos::rcp(new Plato::CrsMatrixType(a.rows(), b.cols(), p, q)); s.cover(str("product %dx%dx%d", p, k, q));
  Plato::MatrixMatrixMultiply(A, B, C); expect_dense(s, "product", C, mm(a, b), "matrix product"); same_matrix(s, "input", A, a, "product: A"); same_matrix(s, "input", B, b, "product: B");
  auto D = Teuchos::rcp(new Plato::CrsMatrixType(a.rows() + p, b.cols(), p, q)), E = Teuchos::rcp(new Plato::CrsMatrixType(a.rows(), b.cols() + q, p, q));
  if (a.cols() != a.rows() || a.rows() != b.rows()) { Sparse w = b; w.nbr++; w.row.push_back(w.row.back()); auto W = w.make(); must_throw(s, "rejects", "product with inner mismatch", [&] { Plato::MatrixMatrixMultiply(A, W, C); }); }
  must_throw(s, "rejects", "product into too many rows", [&] { Plato::MatrixMatrixMultiply(A, B, D); });
  must_throw(s, "rejects", "product into too many columns", [&] { Plato::MatrixMatrixMultiply(A, B, E); });
}
static void minus(Sim& s) {
  Rng& r = s.w; int p = dofs(r), q = dofs(r), n = nblk(r), m = nblk(r), of = (int)r.below(p);
  Sparse a = rand_sparse(r, n, m, p, q, r.chance(0.5), true), b = rand_sparse(r, n, m, 1, q, r.chance(0.5), true); auto A = a.make(), B = b.make(); s.cover(str("minus p=%d q=%d of=%d", p, q, of));
  Plato::MatrixMinusMatrix(A, B, of);
  auto da = a.dense(), db = b.dense(); std::vector<Ref> ref(da.size());
  for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) { Ref& x = ref[(size_t)i * a.cols() + j]; x.add(da[(size_t)i * a.cols() + j]); if (i % p == of) x.add(-db[(size_t)(i / p) * a.cols() + j]); }
  expect_dense(s, "minus", A, ref, "matrix minus matrix"); same_matrix(s, "input", B, b, "minus: B");
}
static void condense(Sim& s) {   // A -= B RowSum(C)^-1 D  (row `of` of every block of A)
  Rng& r = s.w; int p = dofs(r), k = dofs(r), q = dofs(r), n = nblk(r) / 2 + 1, m = nblk(r) / 2 + 1, l = nblk(r) / 2 + 1, of = (int)r.below(p);
  Sparse a = rand_sparse(r, n, l, p, q, r.chance(0.5), true), b = rand_sparse(r, n, m, 1, k, r.chance(0.5), true), c = rand_sparse(r, m, m, k, k, true, true, true), d = rand_sparse(r, m, l, k, q, r.chance(0.5), true);
  regular_rows(r, c); auto A = a.make(), B = b.make(), C = c.make(), D = d.make(); s.cover(str("condense %d/%d/%d of=%d", p, k, q, of));
  Plato::Condense(A, B, C, D, of);
  auto t = rowsums(c); Sparse e = d; LD amp = 1;
  for (int x = 0, br = 0; x < (int)e.col.size(); x++) { while (x >= e.row[br + 1]) br++; for (int i = 0; i < k; i++) for (int j = 0; j < q; j++) e.val[(size_t)(x * k + i) * q + j] /= (double)t[br * k + i].v; }
  for (auto& x : t) amp = std::max(amp, x.a / fabsl(x.v));
  auto da = a.dense(); auto be = mm(b, e); std::vector<Ref> ref(da.size());
  for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) { Ref& x = ref[(size_t)i * a.cols() + j]; x.add(da[(size_t)i * a.cols() + j]); if (i % p == of) { Ref& y = be[(size_t)(i / p) * a.cols() + j]; x.v -= y.v; x.a += y.a * amp * 4; } }
  expect_dense(s, "condense", A, ref, "condensed matrix"); same_matrix(s, "input", B, b, "condense: B"); same_matrix(s, "input", C, c, "condense: C");
}
void harness_episode(Sim& s) {
  heap_poison(s.w.chance(0.6), s.w.next());
  int steps = s.w.range(2, 6);
  for (int k = 0; k < steps; k++) {
    if (!s.step("sparse op")) continue;
    unsigned op = (unsigned)s.w.below(13);
    // operations 9.. run third-party kernels that keep scratch memory: no leak accounting there
    auto run = [&] { switch (op) {
      case 0: case 1: matvec(s); break; case 2: if (s.w.chance(0.3)) matvec_bad(s); else rowsum(s); break;
      case 3: switch (s.w.below(4)) { case 0: lumped<1>(s); break; case 1: lumped<2>(s); break; case 2: lumped<3>(s); break; default: lumped<4>(s); } break;
      case 4: switch (s.w.below(4)) { case 0: weights<1>(s); break; case 1: weights<3>(s); break; case 2: holder(s); break; default: inverse_multiply(s); } break; case 5: case 6: roundtrip(s); break; case 7: substride(s); break; case 8: sortcols(s); break;
      case 9: product(s); break; case 10: minus(s); break; default: condense(s);
    } };
    if (op < 9 && !s.faulty) leak_checked(s, run); else run();   // (Kokkos itself leaks a view whose construction fails half-way)
  }
  heap_poison(false, 0);
}
const HarnessInfo harness = {"P02", "", ""};
}
