// Random block-CRS matrices and dense references.
#pragma once
#include "hk.hpp"
#include <Teuchos_RCP.hpp>
#include <alg/CrsMatrix.hpp>
#include <set>
#include <algorithm>
namespace psim {
typedef Teuchos::RCP<Plato::CrsMatrixType> MatP;
struct Sparse {
  int nbr = 0, nbc = 0, p = 1, q = 1;      // block rows/cols, rows/cols per block
  IVec row, col; Vec val;
  int rows() const { return nbr * p; }
  int cols() const { return nbc * q; }
  std::vector<LD> dense() const {
    std::vector<LD> d((size_t)rows() * cols(), 0);
    for (int r = 0; r < nbr; r++) for (int k = row[r]; k < row[r + 1]; k++) for (int i = 0; i < p; i++) for (int j = 0; j < q; j++)
      d[(size_t)(r * p + i) * cols() + col[k] * q + j] += val[(size_t)(k * p + i) * q + j];
    return d;
  }
  MatP make() const { return Teuchos::rcp(new Plato::CrsMatrixType(to_iview(row, "rows"), to_iview(col, "cols"), to_view(val, "entries"), rows(), cols(), p, q)); }
};
inline void check_wellformed(Sim& s, const char* cls, const Sparse& m) {
  s.evaluated();
  if ((int)m.row.size() != m.nbr + 1 || m.row[0] != 0) s.fail(cls, str("row map has %zu entries for %d block rows (first %d)", m.row.size(), m.nbr, m.row.empty() ? -1 : m.row[0]));
  for (int r = 0; r < m.nbr; r++) if (m.row[r + 1] < m.row[r]) s.fail(cls, str("row map decreases at block row %d", r));
  if (m.row[m.nbr] != (int)m.col.size()) s.fail(cls, str("row map ends at %d, %zu column indices", m.row[m.nbr], m.col.size()));
  if (m.val.size() != m.col.size() * m.p * m.q) s.fail(cls, str("%zu entries for %zu blocks of %dx%d", m.val.size(), m.col.size(), m.p, m.q));
  for (int c : m.col) if (c < 0 || c >= m.nbc) s.fail(cls, str("column index %d out of %d", c, m.nbc));
}
inline Sparse read_matrix(const MatP& A) {
  Sparse m; m.p = A->numRowsPerBlock(); m.q = A->numColsPerBlock(); m.nbr = A->numRows() / m.p; m.nbc = A->numCols() / m.q;
  m.row = from_iview(A->rowMap()); m.col = from_iview(A->columnIndices()); m.val = from_view(A->entries()); return m;
}
inline void same_matrix(Sim& s, const char* cls, const MatP& A, const Sparse& m, const char* what) {
  Sparse g = read_matrix(A);
  s.evaluated();
  if (g.row != m.row || g.col != m.col) s.fail(cls, str("%s: graph changed", what));
  same(s, cls, g.val, m.val, what);
}
// kind: 0 random, 1 banded, 2 full, 3 with empty rows, 4 arrow
inline Sparse rand_sparse(Rng& r, int nbr, int nbc, int p, int q, bool sorted, bool smooth = false, bool diag = false) {
  Sparse m; m.nbr = nbr; m.nbc = nbc; m.p = p; m.q = q; m.row.push_back(0);
  int kind = (int)r.below(5);
  for (int i = 0; i < nbr; i++) {
    std::set<int> c;
    if (kind == 2) for (int j = 0; j < nbc; j++) c.insert(j);
    else if (kind == 1) { for (int j = std::max(0, i - 2); j <= std::min(nbc - 1, i + 2); j++) c.insert(j); }
    else if (kind == 4) { if (i == 0) for (int j = 0; j < nbc; j++) c.insert(j); c.insert(0); if (i < nbc) c.insert(i); }
    else if (!(kind == 3 && r.chance(0.3))) { int n = r.range(1, std::min(nbc, 6)); for (int k = 0; k < n; k++) c.insert((int)r.below(nbc)); }
    if (diag && i < nbc) c.insert(i);
    IVec v(c.begin(), c.end());
    if (!sorted) for (int k = (int)v.size() - 1; k > 0; k--) std::swap(v[k], v[r.below(k + 1)]);
    m.col.insert(m.col.end(), v.begin(), v.end()); m.row.push_back((int)m.col.size());
  }
  m.val.resize(m.col.size() * p * q);
  for (auto& x : m.val) x = smooth ? r.smooth() : r.value();
  return m;
}
inline const char* shp(const Sparse& m) { static char b[64]; snprintf(b, 64, "%s %dx%d", szc(m.nbr), m.p, m.q); return b; }
}
