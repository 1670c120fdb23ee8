// Stand-in for the Omega_h mesh library (not available here): arrays, small matrices and vectors, simplex meshes with the adjacencies
// the code under test asks for, and recording stand-ins for output. Same names and semantics as the library's, nothing more.
#pragma once
#include <Kokkos_Core.hpp>
#include <array>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <fstream>
#include <initializer_list>
#include <stdexcept>
#include <cmath>
#include <Teuchos_ParameterList.hpp>
#include <mpi.h>
#include <sstream>
#include <iomanip>
#include <iostream>
#include <algorithm>
#include <Teuchos_any.hpp>
#include <Teuchos_Reader.hpp>
#include <Teuchos_MathExpr.hpp>
#define OMEGA_H_INLINE KOKKOS_INLINE_FUNCTION
#define OMEGA_H_DEVICE KOKKOS_INLINE_FUNCTION
#define OMEGA_H_CHECK(c) do { if (!(c)) throw std::runtime_error("Omega_h: check failed: " #c); } while (0)
#ifndef OMEGA_H_SIMPLEX
#define OMEGA_H_SIMPLEX Omega_h::Family_SIMPLEX
#endif
namespace Omega_h {
typedef int LO; typedef int Int; typedef double Real; typedef signed char I8; typedef long long GO;
enum { VERT = 0, EDGE = 1, FACE = 2, REGION = 3 };
enum { Family_SIMPLEX = 0 };
constexpr Real PI = 3.14159265358979323846;
template <class T> OMEGA_H_INLINE T max2(T a, T b) { return a > b ? a : b; }
template <class T> OMEGA_H_INLINE T min2(T a, T b) { return a < b ? a : b; }
template <class T> OMEGA_H_INLINE T square(T x) { return x * x; }
template <class T> struct Read;
template <class T> struct Write { typedef Kokkos::View<T*, Kokkos::DefaultExecutionSpace> V; V v_; Write() {} Write(V v) : v_(v) {} Write(LO n, std::string const& name = "") : v_(name, n) {} Write(LO n, T x, std::string const& name = "") : v_(name, n) { Kokkos::deep_copy(v_, x); }
  Write(LO n, T off, T stride, std::string const& name = "") : v_(name, n) { for (LO i = 0; i < n; i++) v_(i) = off + i * stride; } Write(std::initializer_list<T> l) : v_("list", l.size()) { LO i = 0; for (auto& x : l) v_(i++) = x; }
  OMEGA_H_INLINE T& operator[](LO i) const { return v_(i); } OMEGA_H_INLINE T& operator()(LO i) const { return v_(i); } LO size() const { return (LO)v_.extent(0); } T* data() const { return v_.data(); } V view() const { return v_; } bool exists() const { return v_.data() != nullptr; } };
template <class T> struct Read { typedef Kokkos::View<const T*, Kokkos::DefaultExecutionSpace> V; V v_; Read() {} Read(Write<T> w) : v_(w.v_) {} Read(LO n, T x, std::string const& name = "") : v_(Write<T>(n, x, name).v_) {} Read(std::initializer_list<T> l) : v_(Write<T>(l).v_) {}
  OMEGA_H_INLINE T const& operator[](LO i) const { return v_(i); } OMEGA_H_INLINE T const& operator()(LO i) const { return v_(i); } LO size() const { return (LO)v_.extent(0); } T const* data() const { return v_.data(); } V view() const { return v_; } bool exists() const { return v_.data() != nullptr; } T first() const { return v_(0); } T last() const { return v_(size() - 1); } T get(LO i) const { return v_(i); } };
struct Reals : Read<Real> { Reals() {} Reals(Write<Real> w) : Read<Real>(w) {} Reals(Read<Real> r) : Read<Real>(r) {} Reals(LO n, Real x, std::string const& name = "") : Read<Real>(n, x, name) {} Reals(std::initializer_list<Real> l) : Read<Real>(l) {} };
struct LOs : Read<LO> { LOs() {} LOs(Write<LO> w) : Read<LO>(w) {} LOs(Read<LO> r) : Read<LO>(r) {} LOs(LO n, LO x, std::string const& name = "") : Read<LO>(n, x, name) {} LOs(LO n, LO off, LO stride, std::string const& name = "") : Read<LO>(Write<LO>(n, off, stride, name)) {} LOs(std::initializer_list<LO> l) : Read<LO>(l) {} };
template <class T> struct HostWrite { Write<T> w_; HostWrite() {} HostWrite(LO n, std::string const& name = "") : w_(n, name) {} HostWrite(Write<T> w) : w_(w) {} HostWrite(std::initializer_list<T> l) : w_(l) {} T& operator[](LO i) const { return w_[i]; } LO size() const { return w_.size(); } Write<T> write() const { return w_; } T* data() const { return w_.data(); } void set(LO i, T x) { w_[i] = x; } T get(LO i) const { return w_[i]; } };
template <class T> struct HostRead { Read<T> r_; HostRead() {} HostRead(Read<T> r) : r_(r) {} T const& operator[](LO i) const { return r_[i]; } LO size() const { return r_.size(); } T const* data() const { return r_.data(); } T get(LO i) const { return r_[i]; } T last() const { return r_.last(); } };
template <class T, Int n> struct Few { T a_[n]; OMEGA_H_INLINE Few() {} OMEGA_H_INLINE T& operator[](Int i) { return a_[i]; } OMEGA_H_INLINE T const& operator[](Int i) const { return a_[i]; } OMEGA_H_INLINE T& operator()(Int i) { return a_[i]; } OMEGA_H_INLINE T const& operator()(Int i) const { return a_[i]; } OMEGA_H_INLINE T* data() { return a_; } OMEGA_H_INLINE Int size() const { return n; } };
template <Int n> struct Vector : Few<Real, n> { OMEGA_H_INLINE Vector() {} OMEGA_H_INLINE Vector(std::initializer_list<Real> l) { Int i = 0; for (auto x : l) this->a_[i++] = x; } };
#define PSIM_OP(op) template <Int n> OMEGA_H_INLINE Vector<n> operator op(Vector<n> a, Vector<n> b) { Vector<n> c; for (Int i = 0; i < n; i++) c[i] = a[i] op b[i]; return c; }
PSIM_OP(+) PSIM_OP(-)
#undef PSIM_OP
template <Int n> OMEGA_H_INLINE Real operator*(Vector<n> a, Vector<n> b) { Real s = 0; for (Int i = 0; i < n; i++) s += a[i] * b[i]; return s; }
template <Int n> OMEGA_H_INLINE Vector<n> operator*(Vector<n> a, Real s) { for (Int i = 0; i < n; i++) a[i] *= s; return a; }
template <Int n> OMEGA_H_INLINE Vector<n> operator*(Real s, Vector<n> a) { return a * s; }
template <Int n> OMEGA_H_INLINE Vector<n> operator/(Vector<n> a, Real s) { for (Int i = 0; i < n; i++) a[i] /= s; return a; }
template <Int n> OMEGA_H_INLINE Vector<n> operator-(Vector<n> a) { for (Int i = 0; i < n; i++) a[i] = -a[i]; return a; }
template <Int n> OMEGA_H_INLINE Real norm(Vector<n> a) { return std::sqrt(a * a); }
template <Int n> OMEGA_H_INLINE Real norm_squared(Vector<n> a) { return a * a; }
template <Int n> OMEGA_H_INLINE Vector<n> normalize(Vector<n> a) { return a / norm(a); }
template <Int n> OMEGA_H_INLINE Vector<n> zero_vector() { Vector<n> v; for (Int i = 0; i < n; i++) v[i] = 0; return v; }
OMEGA_H_INLINE Vector<1> vector_1(Real x) { Vector<1> v; v[0] = x; return v; }
OMEGA_H_INLINE Vector<2> vector_2(Real x, Real y) { Vector<2> v; v[0] = x; v[1] = y; return v; }
OMEGA_H_INLINE Vector<3> vector_3(Real x, Real y, Real z) { Vector<3> v; v[0] = x; v[1] = y; v[2] = z; return v; }
OMEGA_H_INLINE Vector<3> cross(Vector<3> a, Vector<3> b) { return vector_3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
OMEGA_H_INLINE Real cross(Vector<2> a, Vector<2> b) { return a[0] * b[1] - a[1] * b[0]; }
template <Int m, Int n> struct Matrix : Few<Vector<m>, n> { OMEGA_H_INLINE Matrix() {} OMEGA_H_INLINE Matrix(std::initializer_list<Vector<m>> l) { Int i = 0; for (auto& x : l) this->a_[i++] = x; } OMEGA_H_INLINE Real& operator()(Int i, Int j) { return this->a_[j][i]; } OMEGA_H_INLINE Real const& operator()(Int i, Int j) const { return this->a_[j][i]; } };
template <Int d> using Tensor = Matrix<d, d>;
template <Int m, Int n> OMEGA_H_INLINE Vector<m> operator*(Matrix<m, n> a, Vector<n> b) { Vector<m> c = a[0] * b[0]; for (Int j = 1; j < n; j++) c = c + a[j] * b[j]; return c; }
template <Int m, Int n, Int p> OMEGA_H_INLINE Matrix<m, n> operator*(Matrix<m, p> a, Matrix<p, n> b) { Matrix<m, n> c; for (Int j = 0; j < n; j++) c[j] = a * b[j]; return c; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> operator*(Matrix<m, n> a, Real s) { for (Int j = 0; j < n; j++) a[j] = a[j] * s; return a; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> operator*(Real s, Matrix<m, n> a) { return a * s; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> operator+(Matrix<m, n> a, Matrix<m, n> b) { for (Int j = 0; j < n; j++) a[j] = a[j] + b[j]; return a; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> operator-(Matrix<m, n> a, Matrix<m, n> b) { for (Int j = 0; j < n; j++) a[j] = a[j] - b[j]; return a; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<n, m> transpose(Matrix<m, n> a) { Matrix<n, m> b; for (Int i = 0; i < m; i++) for (Int j = 0; j < n; j++) b(j, i) = a(i, j); return b; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> outer_product(Vector<m> a, Vector<n> b) { Matrix<m, n> c; for (Int j = 0; j < n; j++) for (Int i = 0; i < m; i++) c(i, j) = a[i] * b[j]; return c; }
template <Int d> OMEGA_H_INLINE Tensor<d> identity_tensor() { Tensor<d> c; for (Int j = 0; j < d; j++) for (Int i = 0; i < d; i++) c(i, j) = i == j; return c; }
template <Int d> OMEGA_H_INLINE Tensor<d> identity_matrix() { return identity_tensor<d>(); }
OMEGA_H_INLINE Tensor<3> tensor_3(Real a, Real b, Real c, Real d, Real e, Real f, Real g, Real h, Real i) { Tensor<3> o; o[0] = vector_3(a, d, g); o[1] = vector_3(b, e, h); o[2] = vector_3(c, f, i); return o; }
OMEGA_H_INLINE Real determinant(Tensor<1> m) { return m(0, 0); }
OMEGA_H_INLINE Real determinant(Tensor<2> m) { return m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0); }
OMEGA_H_INLINE Real determinant(Tensor<3> m) { return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0)); }
OMEGA_H_INLINE Tensor<1> invert(Tensor<1> m) { Tensor<1> n; n(0, 0) = 1.0 / m(0, 0); return n; }
OMEGA_H_INLINE Tensor<2> invert(Tensor<2> m) { Real d = determinant(m); Tensor<2> n; n(0, 0) = m(1, 1) / d; n(0, 1) = -m(0, 1) / d; n(1, 0) = -m(1, 0) / d; n(1, 1) = m(0, 0) / d; return n; }
OMEGA_H_INLINE Tensor<3> invert(Tensor<3> a) { Real d = determinant(a); Tensor<3> b; for (Int i = 0; i < 3; i++) for (Int j = 0; j < 3; j++) { Int p = (i + 1) % 3, q = (i + 2) % 3, r = (j + 1) % 3, s = (j + 2) % 3; b(j, i) = (a(p, r) * a(q, s) - a(p, s) * a(q, r)) / d; } return b; }
template <Int d> OMEGA_H_INLINE Real trace(Tensor<d> m) { Real t = 0; for (Int i = 0; i < d; i++) t += m(i, i); return t; }
template <Int d> struct DiagDecomp { Tensor<d> q; Vector<d> l; };
template <Int d> OMEGA_H_INLINE DiagDecomp<d> decompose_eigen_jacobi(Tensor<d> m) { DiagDecomp<d> o; o.q = identity_tensor<d>();
  for (int sweep = 0; sweep < 60; sweep++) for (Int p = 0; p < d; p++) for (Int q = p + 1; q < d; q++) { Real apq = m(p, q); if (apq == 0) continue; Real th = (m(q, q) - m(p, p)) / (2 * apq), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
    for (Int k = 0; k < d; k++) { Real a = m(k, p), b = m(k, q); m(k, p) = c * a - s * b; m(k, q) = s * a + c * b; } for (Int k = 0; k < d; k++) { Real a = m(p, k), b = m(q, k); m(p, k) = c * a - s * b; m(q, k) = s * a + c * b; } for (Int k = 0; k < d; k++) { Real a = o.q(k, p), b = o.q(k, q); o.q(k, p) = c * a - s * b; o.q(k, q) = s * a + c * b; } }
  for (Int i = 0; i < d; i++) o.l[i] = m(i, i); return o; }
// side vectors: outward, length = side measure, of the side opposite to ... as numbered by simplex_down_template
OMEGA_H_INLINE Int simplex_down_template(Int dim, Int ddim, Int which, Int vert) {   // the library's canonical ordering of sides
  if (dim == 1) return which; if (dim == 2 && ddim == 1) { const Int t[3][2] = {{0, 1}, {1, 2}, {2, 0}}; return t[which][vert]; }
  if (dim == 3 && ddim == 2) { const Int t[4][3] = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}}; return t[which][vert]; } if (dim == 3 && ddim == 1) { const Int t[6][2] = {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}}; return t[which][vert]; } return vert; }
OMEGA_H_INLINE Vector<1> get_side_vector(Few<Vector<1>, 2>, Int s) { return vector_1(s == 0 ? -1 : 1); }
OMEGA_H_INLINE Vector<2> get_side_vector(Few<Vector<2>, 3> p, Int s) { Vector<2> e = p[simplex_down_template(2, 1, s, 1)] - p[simplex_down_template(2, 1, s, 0)]; return vector_2(e[1], -e[0]); }
OMEGA_H_INLINE Vector<3> get_side_vector(Few<Vector<3>, 4> p, Int s) { Vector<3> a = p[simplex_down_template(3, 2, s, 0)], b = p[simplex_down_template(3, 2, s, 1)], c = p[simplex_down_template(3, 2, s, 2)]; return cross(b - a, c - a) / 2.0; }
struct Graph { LOs a2ab, ab2b; };
struct Adj : Graph { Read<I8> codes; };
enum SetType { ELEM_SET, SIDE_SET, NODE_SET, NSET_TYPES };
typedef std::map<std::string, LOs> MeshDimSets;
struct MeshSets : std::array<MeshDimSets, NSET_TYPES> {};
struct ClassPair { Int dim; LO id; };
typedef std::map<std::string, std::vector<ClassPair>> ClassSets;
typedef std::array<std::map<std::string, std::set<ClassPair>>, NSET_TYPES> AssocBase;
struct Assoc { };
inline void update_assoc(Assoc*, Teuchos::ParameterList const&) {}
struct Library { Library() {} Library(int*, char***, MPI_Comm = 0) {} struct CommT {}; std::shared_ptr<CommT> world() { return std::make_shared<CommT>(); } };
enum Omega_h_Parting { OMEGA_H_ELEM_BASED, OMEGA_H_GHOSTED, OMEGA_H_VERT_BASED };
class Mesh { public:
  Int dim_ = 0; LO nv = 0, ne = 0, ns = 0; LOs e2v, s2v, e2s, s2e_off, s2e, v2e_off, v2e, star_off, star; Reals x; std::map<std::pair<Int, std::string>, Reals> tags; ClassSets class_sets; LO ntags = 0;
  Int dim() const { return dim_; } LO nverts() const { return nv; } LO nelems() const { return ne; } LO nents(Int d) const { return d == 0 ? nv : d == dim_ ? ne : ns; }
  LOs ask_elem_verts() { return e2v; } LOs ask_verts_of(Int d) { return d == dim_ ? e2v : s2v; } Reals coords() const { return x; } void set_coords(Reals c) { x = c; }
  Graph ask_up(Int lo, Int hi) { if (lo == 0 && hi == dim_) { Graph g; g.a2ab = v2e_off; g.ab2b = v2e; return g; } Graph g; g.a2ab = s2e_off; g.ab2b = s2e; return g; }
  Adj ask_down(Int, Int lo) { Adj a; a.ab2b = lo == 0 ? e2v : e2s; return a; }
  Graph ask_star(Int) { Graph g; g.a2ab = star_off; g.ab2b = star; return g; }
  template <class T> void add_tag(Int d, std::string const& n, Int, Read<T> a, bool = false) { ntags++; (void)d; (void)n; (void)a; } void add_tag(Int d, std::string const& n, Int, Reals a) { ntags++; tags[{d, n}] = a; } template <class T> void add_tag(Int, std::string const&, Int) {}
  bool has_tag(Int d, std::string const& n) const { return tags.count({d, n}); } template <class T> Read<T> get_array(Int d, std::string const& n) const { return tags.at({d, n}); } template <class T> void set_tag(Int d, std::string const& n, Read<T> a) { tags[{d, n}] = a; }
  void set_parting(int) {}
  // builds everything from elements (dim+1 vertices each) and coordinates (dim per vertex)
  void build(Int d, std::vector<LO> const& ev, std::vector<Real> const& c) {
    dim_ = d; nv = (LO)c.size() / d; ne = (LO)ev.size() / (d + 1); auto los = [](std::vector<LO> const& v) { Write<LO> w((LO)v.size(), "los"); for (size_t i = 0; i < v.size(); i++) w[(LO)i] = v[i]; return LOs(w); };
    e2v = los(ev); Write<Real> w((LO)c.size(), "coords"); for (size_t i = 0; i < c.size(); i++) w[(LO)i] = c[i]; x = Reals(w);
    std::vector<std::vector<LO>> up(nv); std::vector<std::set<LO>> nb(nv); for (LO e = 0; e < ne; e++) for (Int i = 0; i <= d; i++) { up[ev[e * (d + 1) + i]].push_back(e); for (Int j = 0; j <= d; j++) if (j != i) nb[ev[e * (d + 1) + i]].insert(ev[e * (d + 1) + j]); }
    std::vector<LO> o{0}, l, so{0}, sl; for (LO v = 0; v < nv; v++) { for (LO e : up[v]) l.push_back(e); o.push_back((LO)l.size()); for (LO k : nb[v]) sl.push_back(k); so.push_back((LO)sl.size()); } v2e_off = los(o); v2e = los(l); star_off = los(so); star = los(sl);
    std::map<std::vector<LO>, LO> sid; std::vector<LO> sv, es, cnt; std::vector<std::vector<LO>> sup; Int ms = d; for (LO e = 0; e < ne; e++) for (Int s = 0; s <= d; s++) { std::vector<LO> k, raw; for (Int i = 0; i < ms; i++) raw.push_back(ev[e * (d + 1) + (d == 1 ? s : simplex_down_template(d, d - 1, s, i))]); k = raw; std::sort(k.begin(), k.end()); auto it = sid.find(k); LO id; if (it == sid.end()) { id = (LO)sid.size(); sid[k] = id; sup.push_back({}); sv.insert(sv.end(), raw.begin(), raw.end()); } else id = it->second; es.push_back(id); sup[id].push_back(e); }
    ns = (LO)sup.size(); s2v = los(sv); e2s = los(es); std::vector<LO> uo{0}, ul; for (auto& u : sup) { ul.insert(ul.end(), u.begin(), u.end()); uo.push_back((LO)ul.size()); } s2e_off = los(uo); s2e = los(ul);
  }
};
struct TagSet : std::array<std::set<std::string>, 4> {};
typedef std::string filesystem_path;
namespace vtk { inline TagSet get_all_vtk_tags(Mesh*, Int) { return TagSet(); } struct Writer { Writer() {} Writer(std::string const&, Mesh*, Int = -1, Real = 0) {} void write() {} void write(Real) {} void write(Real, TagSet const&) {} void write(GO, Real, TagSet const&) {} }; }
namespace exodus { inline void write(std::string const&, Mesh*) {} }
inline Mesh read_mesh_file(std::string const&, std::shared_ptr<Library::CommT>) { return Mesh(); }
inline MeshSets invert(Mesh*, Assoc const&) { return MeshSets(); }
typedef Teuchos::any any;
using Teuchos::any_cast;
// expression over points: evaluated with the same expression language, point by point
struct ExprReader { LO n; std::map<std::string, Reals> vars; ExprReader(LO n_, Int) : n(n_) {} void register_variable(std::string const& nm, any const& a) { vars[nm] = Teuchos::any_cast<Reals>(a); } void repeat(any&) {}
  any read_string(std::string const& e, std::string const&) { Write<Real> w(n, "expression"); std::unique_ptr<Teuchos::Reader> r(Teuchos::MathExpr::new_calc_reader());
    for (LO i = 0; i < n; i++) { std::ostringstream o; o << std::fixed << std::setprecision(25); for (auto& v : vars) o << v.first << "=" << v.second[i] << ";"; o << e; any a; r->read_string(a, o.str(), "expression"); w[i] = Teuchos::any_cast<double>(a); } return any(Reals(w)); } };
}
