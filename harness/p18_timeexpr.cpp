// Time-dependent values: over any history of evaluations (other times, other expressions, refused texts, failed allocations) the value is
// that of the given program at the given time.
#include "hk.hpp"
#include <memory>
#include <Teuchos_RCP.hpp>
#include <Teuchos_Reader.hpp>
#include <PlatoMathExpr.hpp>
namespace psim {
const HarnessInfo harness = {"P18", "", ""};
void kokkos_init();
struct Te; typedef std::shared_ptr<Te> TP;
struct Te { int k = 0; double num = 0; int ref = 0; TP a, b, c, d; int op = 0; };   // 0 number 1 time 2 definition 3 negation 4 + 5 - 6 * 7 / 8 ^ 9 function 10 choice 11 atan2
static const char* const FN[] = {"sin", "cos", "tan", "exp", "log", "sqrt", "asin", "acos", "atan"};
static const char* const CMP[] = {">", "<", ">=", "<=", "=="};
static TP mk(int k) { TP e = std::make_shared<Te>(); e->k = k; return e; }
static TP gen(Rng& r, int defs, int depth) {
  if (depth <= 0 || r.chance(0.1)) { int c = (int)r.below(10); if (c < 5) return mk(1); if (c < 7 && defs) { TP e = mk(2); e->ref = (int)r.below(defs); return e; }
    TP e = mk(0); e->num = r.chance(0.4) ? r.range(0, 9) : r.chance(0.5) ? r.range(1, 999) / 8.0 : strtod(str("%.*e", r.range(0, 16), r.uni() + 0.01).c_str(), 0) * std::pow(10, r.range(-9, 9)); return e; }
  static const int ks[] = {3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 9, 10, 11}; TP e = mk(ks[r.below(13)]); e->a = gen(r, defs, depth - 1);
  if ((e->k >= 4 && e->k <= 8) || e->k >= 10) e->b = gen(r, defs, depth - 1);
  if (e->k == 8 && r.chance(0.8)) { e->b = mk(0); e->b->num = r.range(0, 4); }
  if (e->k == 9) e->op = (int)r.below(9); if (e->k == 10) { e->op = (int)r.below(5); e->c = gen(r, defs, depth - 1); e->d = gen(r, defs, depth - 1); }
  return e;
}
template <class T> static T val(const Te& e, T t, const std::vector<T>& defs, double& gap) {
  auto A = [&] { return val<T>(*e.a, t, defs, gap); }; auto B = [&] { return val<T>(*e.b, t, defs, gap); };
  switch (e.k) { case 0: return e.num; case 1: return t; case 2: return defs[e.ref]; case 3: return -A(); case 4: { T x = A(); return x + B(); } case 5: { T x = A(); return x - B(); } case 6: { T x = A(); return x * B(); } case 7: { T x = A(); return x / B(); } case 8: { T x = A(); return std::pow(x, B()); } case 11: { T x = A(); return std::atan2(x, B()); }
    case 9: { T x = A(); switch (e.op) { case 0: return std::sin(x); case 1: return std::cos(x); case 2: return std::tan(x); case 3: return std::exp(x); case 4: return std::log(x); case 5: return std::sqrt(x); case 6: return std::asin(x); case 7: return std::acos(x); default: return std::atan(x); } }
    default: { T x = A(), y = B(); double m = std::max(std::fabs((double)x), std::fabs((double)y)); if (x != y) gap = std::min(gap, m > 0 && std::isfinite(m) ? std::fabs((double)(x - y)) / m : 1.0); bool c = e.op == 0 ? x > y : e.op == 1 ? x < y : e.op == 2 ? x >= y : e.op == 3 ? x <= y : x == y; T p = val<T>(*e.c, t, defs, gap), q = val<T>(*e.d, t, defs, gap); return c ? p : q; } }
}
// the reader takes exponents without a plus sign or leading zeros
static std::string number(double v) { std::string s = str("%.17g", v); size_t e = s.find('e'); if (e == std::string::npos) return s; std::string m = s.substr(0, e), x = s.substr(e + 1), sg = x[0] == '-' ? "-" : ""; x = x.substr(1); while (x.size() > 1 && x[0] == '0') x = x.substr(1); return m + "e" + sg + x; }
struct Pr { Rng& r; bool spaces; const std::vector<std::string>& nm;
  std::string sp() { return spaces && r.chance(0.3) ? std::string(r.range(1, 2), ' ') : ""; }
  std::string par(const Te& e) { return "(" + sp() + pr(e, 0) + sp() + ")"; }
  std::string at(const Te& e, int need) { if (level(e) < need || r.chance(0.1)) return par(e); return pr(e, 0); }
  static int level(const Te& e) { switch (e.k) { case 10: return 0; case 4: case 5: return 2; case 6: case 7: return 3; case 3: return 1; case 8: return 4; default: return 5; } }
  std::string pr(const Te& e, int) { switch (e.k) {
    case 0: { std::string s = number(e.num); if (e.num == std::floor(e.num) && e.num < 1e6 && r.chance(0.3)) s = str("%.1f", e.num); return s; } case 1: return "t"; case 2: return nm[e.ref];
    case 3: return "-" + sp() + at(*e.a, 3); case 4: case 5: return at(*e.a, 2) + sp() + (e.k == 4 ? "+" : "-") + sp() + at(*e.b, 3); case 6: case 7: return at(*e.a, 3) + sp() + (e.k == 6 ? "*" : "/") + sp() + at(*e.b, 4);
    case 8: return at(*e.a, 5) + sp() + "^" + sp() + at(*e.b, 5); case 9: return std::string(FN[e.op]) + "(" + sp() + pr(*e.a, 0) + sp() + ")"; case 11: return "atan2(" + pr(*e.a, 0) + sp() + "," + sp() + pr(*e.b, 0) + ")";
    default: return "(" + at(*e.a, 2) + sp() + CMP[e.op] + sp() + at(*e.b, 2) + ")" + sp() + "?" + sp() + at(*e.c, 2) + sp() + ":" + sp() + at(*e.d, 2); } }
};
struct Prog { std::vector<std::string> nm; std::vector<TP> defs; TP top; std::string text;
  template <class T> T at(T t, double& gap) const { std::vector<T> d; for (auto& e : defs) d.push_back(val<T>(*e, t, d, gap)); return val<T>(*top, t, d, gap); } };
static const char* const names[] = {"pi", "a", "b", "omega", "A1", "tt", "rate_2", "T", "x", "e", "sin2", "p"};
static Prog program(Rng& r) {
  Prog p; int n = r.chance(0.5) ? 0 : r.range(1, 4); bool sp = r.chance(0.5);
  for (int i = 0; i < n; i++) { std::string nm = names[r.below(12)]; bool dup = false; for (auto& q : p.nm) dup |= q == nm; if (dup) continue; TP e = gen(r, (int)p.defs.size(), r.range(0, 2)); Pr P{r, sp, p.nm}; p.text += nm + P.sp() + "=" + P.sp() + P.pr(*e, 0) + ";" + P.sp(); p.nm.push_back(nm); p.defs.push_back(e); }
  p.top = gen(r, (int)p.defs.size(), r.range(0, 4)); if (r.chance(0.15)) { int n = r.range(10, 60); for (int i = 0; i < n; i++) { TP e = mk(4 + (int)r.below(2)); e->a = p.top; e->b = gen(r, (int)p.defs.size(), r.range(0, 2)); p.top = e; } } Pr P{r, sp, p.nm}; p.text += P.pr(*p.top, 0); return p;
}
static double when(Rng& r, double last) {
  switch (r.below(9)) { case 0: return 0; case 1: return last; case 2: return r.range(0, 20) / 4.0; case 3: return r.uni() * 10; case 4: return -r.uni() * 10; case 5: return r.uni() * std::pow(10, -r.range(1, 15)); case 6: return r.uni() * std::pow(10, r.range(1, 9)); case 7: return last + r.uni() * 1e-3; default: return last * (1 + 1e-12 * r.range(-3, 3)); }
}
static bool ok(const Prog& p, double t, double got, double& want, bool& judged) {
  double g = 1; want = p.at<double>(t, g); LD l = p.at<LD>(t, g), up = p.at<LD>((LD)t * (1 + 2e-16L), g), dn = p.at<LD>((LD)t * (1 - 2e-16L), g); judged = g > 1e-9;
  if (!judged) return true; double a[4] = {want, (double)l, (double)up, (double)dn}; for (double x : a) if (!std::isfinite(x)) { bool all = true; for (double y : a) all &= !std::isfinite(y); judged = all; return !all || !std::isfinite(got); }
  double cond = std::fabs(want - (double)l) + std::fabs((double)(up - dn)); return std::fabs(got - want) <= 1e-13 * std::fabs(want) + 64 * cond + 1e-300;
}
static std::string broken(Rng& r, const std::string& t, const char*& kind) {
  switch (r.below(13)) { case 10: case 11: case 12: kind = "name only defined elsewhere"; return std::string(names[r.below(12)]) + "+t"; case 0: kind = "unclosed parenthesis"; return t + "+(t"; case 1: kind = "unopened parenthesis"; return t + ")"; case 2: kind = "trailing operator"; return t + std::string(1, "+-*/^"[r.below(5)]); case 3: kind = "undefined name"; return "(" + std::string("t+undefined_name)"); case 4: kind = "unknown function"; return "nofunction(t)"; case 5: kind = "empty"; return ""; case 6: kind = "definition only"; return "a=2;"; case 7: kind = "bad character"; return t + "$"; case 8: kind = "wrong argument count"; return "sin(t,t)"; default: kind = "two values"; return t + " 2 3"; }
}
static void warm() { Plato::MathExpr e("a=2;(t>1)?sin(a):atan2(t,2)^2-3*4/t"); e.value(1.0); try { Plato::MathExpr f("(t"); f.value(1); } catch (const std::exception&) {} try { Plato::MathExpr f("u"); f.value(1); } catch (const std::exception&) {} }
void harness_init() { kokkos_init(); try { warm(); } catch (const std::exception&) {} /* a run then reports it */ }
int harness_episodes(Rng& r) { return 1 + (int)r.below(2); }
void harness_episode(Sim& s) {
  int steps = s.w.range(3, 12); SerialScope serial;
  struct Live { Prog p; std::unique_ptr<Plato::MathExpr> e; bool bad; const char* what; };
  std::vector<Live> live; double last = 0;
  for (int k = 0; k < steps; k++) {
    if (!s.step("time")) continue; Rng& r = s.w; int c = (int)r.below(10);
    if (live.empty() || c < 2) { Live L; L.bad = r.chance(0.2); L.p = program(r); L.what = ""; std::string text = L.bad ? broken(r, L.p.text, L.what) : L.p.text; bool done = alloc_fault(s, 0.3, 10, [&] { L.e.reset(new Plato::MathExpr(text)); }); if (!done) { s.cover("construction: allocation failed"); continue; } L.p.text = text; live.push_back(std::move(L)); if (live.size() > 4) live.erase(live.begin()); s.cover("construct"); continue; }
    Live& L = live[r.below(live.size())];
    if (c == 2) { Live N; N.p = L.p; N.bad = L.bad; N.what = L.what; N.e.reset(new Plato::MathExpr(*L.e)); if (r.chance(0.5)) std::swap(N.e, L.e); live.push_back(std::move(N)); if (live.size() > 4) live.erase(live.begin()); s.cover("copy"); continue; }
    double t = when(r, last); last = t; double got = 0; bool threw = false; std::string msg;
    if (L.bad) { try { got = L.e->value(t); } catch (const std::exception&) { threw = true; } s.cover(str("refused: %s", L.what)); s.evaluated(); s.check(threw, "refused", str("'%.200s' (%s) was given the value %.17g at t=%.17g", L.p.text.c_str(), L.what, got, t)); continue; }
    bool done = false; try { done = alloc_fault(s, 0.25, r.chance(0.5) ? 6 : 200, [&] { got = L.e->value(t); }); } catch (const std::exception& x) { done = threw = true; msg = x.what(); }
    if (!done) { s.cover("evaluation: allocation failed"); try { got = L.e->value(t); } catch (const std::exception& x) { threw = true; msg = x.what(); } }
    double want; bool judged = false; s.evaluated(); s.simtime(1); s.hash(got);
    s.check(!threw, "value", str("'%.300s' refused at t=%.17g: %.200s", L.p.text.c_str(), t, msg.c_str()));
    if (!threw && !ok(L.p, t, got, want, judged)) s.fail("value", str("'%.300s' is %.17g at t=%.17g, expected %.17g", L.p.text.c_str(), got, t, want));
    s.cover(str("top=%d defs=%zu %s mag=%d", L.p.top->k, L.p.defs.size(), judged ? "judged" : "not judged", t == 0 ? 99 : (int)std::floor(std::log10(std::fabs(t)) / 3)));
  }
}
}
