// Material interpolation: over any history of constructions, parameter settings, continuation updates (some interrupted by a failing
// allocation), copies and evaluations, every copy of a model evaluates its law with its own current parameters, values and derivatives.
#include "cells.hpp"
#include <Simp.hpp>
#include <Ramp.hpp>
#include <Heaviside.hpp>
#include <NoPenalty.hpp>
#include <HeavisideProjection.hpp>
#include <HyperbolicTangentProjection.hpp>
#include <Sacado.hpp>
#include <memory>
namespace psim {
const HarnessInfo harness = {"P15", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); }
int harness_episodes(Rng& r) { return 1 + (int)r.below(3); }
typedef Sacado::Fad::SFad<double, 2> Fad;
enum Kind { SIMP, RMP, HEAV, NONE, HPROJ, TPROJ };
static const char* kname[] = {"MSIMP", "RAMP", "Heaviside", "NoPenalty", "HeavisideProjection", "HyperbolicTangentProjection"};
struct Par { LD p = 0, mn = 0, up = 0, add = 0, reg = 0, beta = 0, eta = 0; };
struct Val { LD v, a, d, da; };
static const LD PI = acosl(-1.0L);
static Val law(int k, const Par& q, double xd) {
  LD x = xd; Val r{0, 0, 0, 0};
  switch (k) {
    case SIMP: r.v = q.mn + (1 - q.mn) * powl(x, q.p); r.d = x > 0 ? (1 - q.mn) * q.p * powl(x, q.p - 1) : 0; break;
    case RMP: { LD t = 1 + q.p * (1 - x); r.v = q.mn + (1 - q.mn) * x / t; r.d = (1 - q.mn) * (1 + q.p) / (t * t); break; }
    case HEAV: if (x <= -q.reg) { r.v = q.mn; r.d = 0; } else if (x >= q.reg) { r.v = 1; r.d = 0; } else { LD z = PI * x / (2 * q.reg), g = (1 + sinl(z)) / 2; r.v = q.mn + (1 - q.mn) * powl(g, q.p); r.d = g > 0 ? (1 - q.mn) * q.p * powl(g, q.p - 1) * cosl(z) / 2 * PI / (2 * q.reg) : 0; } break;
    case NONE: r.v = 1; r.d = 0; break;
    case HPROJ: { LD o = 1 - x; r.v = 1 - expl(-q.beta * o) + o * expl(-q.beta); r.d = -q.beta * expl(-q.beta * o) - expl(-q.beta); break; }
    default: { LD t = tanhl(q.beta * q.eta) + tanhl(q.beta * (1 - q.eta)), th = tanhl(q.beta * (x - q.eta)); r.v = (tanhl(q.beta * q.eta) + th) / t; r.d = q.beta * (1 - th * th) / t; }
  }
  r.a = 1 + fabsl(r.v); r.da = 1 + fabsl(r.d) + (k == TPROJ ? q.beta : 0); return r;
}
// one model of any kind, behind a uniform interface
struct Model { virtual ~Model() {} virtual Model* copy() const = 0; virtual double at(double x) const = 0; virtual Fad at(const Fad& x) const = 0; virtual void many(SV X, SV O, int n) const = 0; virtual void update() {} virtual void set(const std::map<std::string, double>&) {} virtual void setter(int, double, double) {} };
template <class T> struct Pen : Model { T t; template <class... A> Pen(int, A&&... a) : t(std::forward<A>(a)...) {} Pen(const Pen& o) : t(o.t) {} Model* copy() const { return new Pen(*this); } double at(double x) const { return t(x); } Fad at(const Fad& x) const { return t(x); }
  void many(SV X, SV O, int n) const { T f = t; cells(n, LAMBDA_EXPRESSION(int i) { double x = X(i); O(i) = f(x); }); } void update() { t.update(); } };
template <class T> struct PenS : Pen<T> { using Pen<T>::Pen; PenS(const PenS& o) : Pen<T>(o) {} Model* copy() const { return new PenS(*this); } void set(const std::map<std::string, double>& m) { this->t.setParameters(m); } };
struct Simp : PenS<Plato::MSIMP> { using PenS<Plato::MSIMP>::PenS; Simp(const Simp& o) : PenS<Plato::MSIMP>(o) {} Model* copy() const { return new Simp(*this); } void setter(int w, double a, double) { if (w == 0) t.setPenalty(a); else if (w == 1) t.setMinimumErsatzMaterial(a); else t.setAdditiveContinuationValue(a); } };
template <class T> struct Proj : Model { T t; template <class... A> Proj(int, A&&... a) : t(std::forward<A>(a)...) {} Proj(const Proj& o) : t(o.t) {} Model* copy() const { return new Proj(*this); } double at(double x) const { return t.apply(x); } Fad at(const Fad& x) const { return ad(x, t); }
  static Fad ad(const Fad& x, const Plato::HyperbolicTangentProjection& t) { return t.apply(x); } static Fad ad(const Fad& x, const Plato::HeavisideProjection& t) { Fad r = t.apply(x.val()); return r; }   // std::exp: plain numbers only
  void many(SV X, SV O, int n) const { T f = t; cells(n, LAMBDA_EXPRESSION(int i) { double x = X(i); O(i) = f.apply(x); }); }
  void setter(int w, double a, double b) { go(w, a, b, t); } static void go(int w, double a, double b, Plato::HeavisideProjection& t) { t.setCurvatureParameterBeta(a); }
  static void go(int w, double a, double b, Plato::HyperbolicTangentProjection& t) { if (w == 0) t.setCurvatureParameterBeta(a); else if (w == 1) t.setTresholdLevelParameterEta(b); else t.setProjectionParameters(a, b); } };
struct Inst { int k; Par q; std::shared_ptr<Model> m; };
static double expo(Rng& r) { return r.chance(0.5) ? r.range(1, 5) : r.uni(0.5, 6); }
static double minv(Rng& r) { return r.chance(0.3) ? 0.0 : r.chance(0.3) ? 1e-9 : r.uni(0, 0.3); }
static double addv(Rng& r) { return r.chance(0.25) ? 0.5 : r.chance(0.1) ? 0.0 : r.uni(0.01, 2); }
static Inst make(Rng& r) {
  Inst i; i.k = (int)r.below(6); Par& q = i.q; Teuchos::ParameterList l; auto g = [&](const char* n, double p, double dflt, double v) -> double { if (r.chance(p)) { l.set<double>(n, v); return v; } return dflt; };
  double e = expo(r), mn = minv(r), up = r.uni(1, 7), ad = addv(r), rg = r.uni(0.05, 2), be = r.chance(0.1) ? 10 : r.uni(0.2, 30), et = r.chance(0.3) ? 0.5 : r.uni(0.05, 0.95); bool byval = r.chance(0.4);
  switch (i.k) {
    case SIMP: if (byval) { q.p = e; q.mn = mn; q.up = 3; q.add = 0.1; i.m = std::make_shared<Simp>(0, e, mn); } else { q.p = g("Exponent", .7, 3, e); q.mn = g("Minimum Value", .7, 1e-9, mn); q.up = g("Penalty Exponent Upper Bound", .7, 3, up); q.add = g("Additive Continuation", .7, 0.1, ad); i.m = std::make_shared<Simp>(0, l); } break;
    case RMP: if (byval) { q.p = 3; q.mn = 0; q.up = 3; q.add = 0.1; i.m = std::make_shared<PenS<Plato::RAMP>>(0); } else { q.p = g("Exponent", .7, 3, e); q.mn = g("Minimum Value", .7, 0, mn); q.up = g("Penalty Exponent Upper Bound", .7, 3, up); q.add = g("Additive Continuation", .7, 0.1, ad); i.m = std::make_shared<PenS<Plato::RAMP>>(0, l); } break;
    case HEAV: if (byval) { q.p = e; q.reg = rg; q.mn = mn; q.up = 3; q.add = 0.1; i.m = std::make_shared<PenS<Plato::Heaviside>>(0, e, rg, mn); } else { q.p = g("Exponent", .7, 1, e); q.reg = g("Regularization Length", .7, 1, rg); q.mn = g("Minimum Value", .7, 0, mn); q.up = g("Penalty Exponent Upper Bound", .7, 1, up); q.add = g("Additive Continuation", .7, 0.1, ad); i.m = std::make_shared<PenS<Plato::Heaviside>>(0, l); } break;
    case NONE: i.m = std::make_shared<Pen<Plato::NoPenalty>>(0); break;
    case HPROJ: if (byval) { q.beta = be; i.m = std::make_shared<Proj<Plato::HeavisideProjection>>(0, be); } else { q.beta = 10; i.m = std::make_shared<Proj<Plato::HeavisideProjection>>(0); } break;
    default: if (byval) { q.beta = be; q.eta = et; i.m = std::make_shared<Proj<Plato::HyperbolicTangentProjection>>(0, be, et); } else { q.eta = g("Eta", .6, 0.5, et); q.beta = g("Beta", .6, 10, be); i.m = std::make_shared<Proj<Plato::HyperbolicTangentProjection>>(0, l); }
  }
  return i;
}
static double arg(Rng& r, const Inst& i) { switch (r.below(8)) { case 0: return i.k == HEAV ? (double)i.q.reg : 1; case 1: return i.k == HEAV ? -(double)i.q.reg : 0; case 2: return i.k == HEAV ? (double)i.q.reg * r.uni(-1.5, 1.5) : 0.5; case 3: return 1e-3; default: return i.k == HEAV ? r.uni(-1.2, 1.2) * (double)i.q.reg : r.uni(0, 1); } }
static void evaluate(Sim& s, Rng& r, const Inst& i, const char* when) {
  double tol = 1e-10; if (r.chance(0.5)) { double x = arg(r, i); Val e = law(i.k, i.q, x); near1(s, "value", i.m->at(x), (double)e.v, (double)e.a * 1e-2, str("%s at %.17g %s", kname[i.k], x, when).c_str(), tol); }
  if (i.k != HPROJ && r.chance(0.4)) { double x = i.k == HEAV ? (double)i.q.reg * r.uni(-0.95, 0.95) : r.uni(0.01, 1); if (i.k == HEAV && r.chance(0.2)) x = 1.3 * (double)i.q.reg; Fad f(2, x); f.fastAccessDx(0) = 1; f.fastAccessDx(1) = r.uni(-2, 2); double d1 = f.dx(1); Fad o = i.m->at(f); Val e = law(i.k, i.q, x);
    near1(s, "value", o.val(), (double)e.v, (double)e.a * 1e-2, str("%s at %.17g %s (differentiated)", kname[i.k], x, when).c_str(), tol); near1(s, "derivative", o.dx(0), (double)e.d, (double)e.da, str("derivative of %s at %.17g %s", kname[i.k], x, when).c_str(), 1e-8); near1(s, "derivative", o.dx(1), (double)(e.d * d1), (double)e.da * 2, str("second derivative component of %s at %.17g %s", kname[i.k], x, when).c_str(), 1e-8); }
  if (r.chance(0.4)) { int n = pick_cells(r); Vec x(n); for (auto& y : x) y = arg(r, i); SV X = to_view(x), O("o", n); Kokkos::deep_copy(O, r.value()); i.m->many(X, O, n); std::vector<Ref> ref(n); for (int c = 0; c < n; c++) { Val e = law(i.k, i.q, x[c]); ref[c].v = e.v; ref[c].a = e.a * 1e-2L; } near(s, "value", from_view(O), ref, str("%s over cells %s", kname[i.k], when).c_str(), tol); }
}
static Par updated(const Par& q) { Par n = q; double p = (double)q.p + (double)q.add; n.p = p >= (double)q.up ? q.up : (LD)p; return n; }
void harness_episode(Sim& s) {
  Rng& w = s.w; std::vector<Inst> all; all.reserve(32); int live = w.range(1, 4); for (int k = 0; k < live; k++) all.push_back(make(w)); int steps = w.range(4, 30);
  for (int k = 0; k < steps; k++) {
    if (!s.step("continuation")) continue; Rng& r = s.w; Inst& i = all[r.below(all.size())];
    switch (r.below(8)) {
      case 0: case 1: { s.simtime(1); Par nx = i.k < NONE ? updated(i.q) : i.q; if (alloc_fault(s, 0.2, 8, [&] { i.m->update(); })) i.q = nx;
        else if (i.k < NONE) { double x = i.k == HEAV ? (double)i.q.reg * 0.3 : 0.4, v = i.m->at(x); Val a = law(i.k, i.q, x), b = law(i.k, nx, x); s.evaluated(); bool o = close(v, (double)a.v, 1e-2, 1e-10), n = close(v, (double)b.v, 1e-2, 1e-10); if (!o && !n) s.fail("interrupted", str("%s after an interrupted update follows neither the old nor the new exponent", kname[i.k])); if (n) i.q = nx; }
        s.cover(str("update %s %s", kname[i.k], i.k < NONE ? nx.p == nx.up ? "at bound" : "below bound" : "")); break; }
      case 2: if (i.k < NONE) { std::map<std::string, double> m; Par q = i.q; auto g = [&](const char* n, double d, double v) -> double { if (r.chance(0.6)) { m[n] = v; return v; } return d; }; double e = expo(r), mn = minv(r), ad = addv(r), rg = r.uni(0.05, 2);
          q.p = g("Exponent", i.k == HEAV ? 1.0 : 3.0, e); q.mn = g("Minimum Value", 1e-9, mn); q.add = g("Additive Continuation", 0.1, ad); if (i.k == HEAV) q.reg = g("Regularization Length", 1.0, rg); if (r.chance(0.2)) m["Unrelated"] = r.value();
          i.m->set(m); i.q = q; s.cover(str("set %s keys=%zu", kname[i.k], m.size())); } break;
      case 3: { double be = r.uni(0.2, 30), et = r.uni(0.05, 0.95); int wch = (int)r.below(3); if (i.k == SIMP) { double v = wch == 0 ? expo(r) : wch == 1 ? minv(r) : addv(r); i.m->setter(wch, v, 0); (wch == 0 ? i.q.p : wch == 1 ? i.q.mn : i.q.add) = v; } else if (i.k == HPROJ) { i.m->setter(0, be, 0); i.q.beta = be; } else if (i.k == TPROJ) { i.m->setter(wch, be, et); if (wch != 1) i.q.beta = be; if (wch != 0) i.q.eta = et; } else break; s.cover(str("setter %s %d", kname[i.k], wch)); break; }
      case 4: if (all.size() < 8) { Inst c = i; c.m.reset(i.m->copy()); all.push_back(c); s.cover(str("copy %s", kname[i.k])); } else all.erase(all.begin() + r.below(all.size())); break;
      case 5: if (all.size() < 8) { all.push_back(make(r)); s.cover(str("make %s", kname[all.back().k])); } break;
      default: evaluate(s, r, i, "during the history");
    }
    if (r.chance(0.3)) { Inst& j = all[r.below(all.size())]; evaluate(s, r, j, "later on"); }
  }
  for (auto& i : all) evaluate(s, w, i, "at the end");
}
}
