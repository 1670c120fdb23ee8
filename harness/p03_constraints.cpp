// Dirichlet constraints: constrained system under every device schedule.
#include "sparse.hpp"
#include <ApplyConstraints.hpp>
#include <map>
namespace psim {
const HarnessInfo harness = {"P03", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); }
int harness_episodes(Rng& r) { return 1 + (int)r.below(2); }
// structurally symmetric matrix with full diagonal, values symmetric or not
static Sparse sym(Rng& r, int n, int d) {
  std::vector<std::set<int>> g(n); int kind = (int)r.below(4);
  for (int i = 0; i < n; i++) { g[i].insert(i);
    if (kind == 0) { for (int k = 0; k < 3; k++) { int j = (int)r.below(n); g[i].insert(j); g[j].insert(i); } }
    else if (kind == 1) { if (i) { g[i].insert(i - 1); g[i - 1].insert(i); } }
    else if (kind == 2) { for (int j = 0; j < n; j++) if (n < 14) { g[i].insert(j); g[j].insert(i); } if (i) { g[i].insert(0); g[0].insert(i); } }
    else { int w = 4; for (int j : {i - 1, i - w, i - w - 1}) if (j >= 0) { g[i].insert(j); g[j].insert(i); } } }
  Sparse m; m.nbr = m.nbc = n; m.p = m.q = d; m.row.push_back(0); bool sorted = r.chance(0.6);
  for (int i = 0; i < n; i++) { IVec v(g[i].begin(), g[i].end()); if (!sorted) for (int k = (int)v.size() - 1; k > 0; k--) std::swap(v[k], v[r.below(k + 1)]); m.col.insert(m.col.end(), v.begin(), v.end()); m.row.push_back((int)m.col.size()); }
  m.val.resize(m.col.size() * d * d); std::map<std::pair<int,int>, double> e; bool uns = r.chance(0.5);
  for (int i = 0; i < n; i++) for (int k = m.row[i]; k < m.row[i + 1]; k++) for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) {
    int R = i * d + a, C = m.col[k] * d + b; auto key = uns ? std::make_pair(R, C) : std::make_pair(std::min(R, C), std::max(R, C)); auto it = e.find(key); if (it == e.end()) it = e.emplace(key, r.value()).first; m.val[(size_t)(k * d + a) * d + b] = it->second; }
  return m;
}
template <int D> static void apply(Sim& s, bool block) {
  Rng& r = s.w; int n = r.chance(0.01) ? huge_size(r, 512) : r.chance(0.15) ? r.range(20, 50) : r.range(2, 12); Sparse m = sym(r, n, D); int N = n * D;
  Vec rhs = rand_vec(r, N); double scale = r.chance(0.5) ? 1.0 : r.value();
  std::map<int, double> bc; int k = r.chance(0.1) ? N : r.range(1, std::max(1, N / 2));
  if (r.chance(0.5)) { for (int i = 0; i < k; i++) bc[(int)r.below(N)] = r.value(); }
  else { int node = (int)r.below(n); for (int i = 0; i < D; i++) bc[node * D + i] = r.value(); if (node + 1 < n) for (int i = 0; i < D; i++) bc[(node + 1) * D + i] = r.chance(0.3) ? 0 : r.value(); }
  IVec dof; Vec val; for (auto& x : bc) { dof.push_back(x.first); val.push_back(x.second); }
  // node sets of different boundary conditions share corner nodes: the same constraint may be listed more than once
  bool dup = r.chance(0.4); if (dup) { int c = r.range(1, (int)dof.size()); for (int i = 0; i < c; i++) { int j = (int)r.below(bc.size()); dof.push_back(dof[j]); val.push_back(val[j]); } }
  for (int i = (int)dof.size() - 1; i > 0; i--) { int j = (int)r.below(i + 1); std::swap(dof[i], dof[j]); std::swap(val[i], val[j]); }
  auto A = m.make(); auto B = to_view(rhs, "rhs"); auto DO = to_iview(dof); auto VA = to_view(val);
  s.cover(str("constraints dofs=%d %s n=%s bcs=%s %s", D, block ? "block" : "point", szc(n), szc((int)dof.size()), dup ? "repeated" : "unique"));
  if (block) Plato::applyBlockConstraints<D>(A, B, DO, VA, scale); else Plato::applyConstraints<D>(A, B, DO, VA, scale);
  Sparse g = read_matrix(A); s.check(g.row == m.row && g.col == m.col, "graph", "constraints changed the matrix graph"); s.evaluated(g.val.size());
  for (int i = 0; i < n; i++) for (int q = m.row[i]; q < m.row[i + 1]; q++) for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) {
    size_t e = (size_t)(q * D + a) * D + b; int R = i * D + a, C = m.col[q] * D + b; double want = (bc.count(R) || bc.count(C)) ? (R == C ? 1.0 : 0.0) : m.val[e];
    if (g.val[e] != want) s.fail("matrix", str("entry (%d,%d) is %.17g, expected %.17g%s", R, C, g.val[e], want, bc.count(R) ? " (constrained row)" : bc.count(C) ? " (constrained column)" : " (free)")); }
  auto d = m.dense(); std::vector<Ref> ref(N);
  for (int i = 0; i < N; i++) { auto it = bc.find(i); if (it != bc.end()) { ref[i].v = scale * it->second; continue; } ref[i].add(rhs[i]); for (auto& x : bc) ref[i].add(-d[(size_t)i * N + x.first] * (LD)(scale * x.second)); }
  near(s, "rhs", from_view(B), ref, "right-hand side after constraints"); s.hash(g.val.data(), g.val.size() * 8);
  s.check(from_iview(DO) == dof, "input", "constraint list changed"); same(s, "input", from_view(VA), val, "constraint values changed");
}
void harness_episode(Sim& s) {
  int steps = s.w.range(2, 6);
  for (int k = 0; k < steps; k++) {
    if (!s.step("apply constraints")) continue;
    switch (s.w.below(7)) { case 0: apply<1>(s, true); break; case 1: apply<2>(s, true); break; case 2: case 3: apply<3>(s, true); break; case 4: apply<4>(s, true); break; default: apply<1>(s, false); }
  }
}
}
