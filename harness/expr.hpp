// Generated algebraic expressions: an abstract tree, its text in the expression language, and its value.
#pragma once
#include "hk.hpp"
#include <memory>
namespace psim {
struct Expr { enum K { NUM, VAR, POS, NEG, ADD, SUB, MUL, DIV, POW, FUN, FACT } k = NUM; double num = 0; std::string name; int form = 0; std::shared_ptr<Expr> a, b; };
typedef std::shared_ptr<Expr> EP;
struct Vars { std::vector<std::pair<std::string, double>> v; double get(const std::string& n) const { for (auto& p : v) if (p.first == n) return p.second; return 0; } };
static const char* const FUNS[] = {"sin", "cos", "tan", "exp", "log", "sqrt", "abs"};
inline Vars rand_vars(Rng& r) {
  static const char* const names[] = {"x", "E", "v", "rho", "_a", "A1", "Temp_2", "sqr2", "beta", "y", "Poisson", "si", "e", "t", "lo", "ab", "P", "zz9"};
  Vars v; int n = r.range(1, 6); for (int i = 0; i < n; i++) { std::string nm = names[r.below(18)]; if (r.chance(0.04)) nm = std::string(r.range(60, 126), "qQ_z"[r.below(4)]); bool dup = false; for (auto& p : v.v) dup |= p.first == nm; if (!dup) v.v.push_back({nm, r.chance(0.2) ? (double)r.range(-3, 6) : r.uni(-3, 3)}); }
  return v;
}
inline EP gen(Rng& r, const Vars& v, int depth, bool twoArg = true) {
  EP e = std::make_shared<Expr>();
  if (depth <= 0 || r.chance(0.12)) {
    if (r.chance(0.5) && !v.v.empty()) { e->k = Expr::VAR; e->name = v.v[r.below(v.v.size())].first; return e; }
    e->k = Expr::NUM; switch (r.below(5)) { case 0: e->num = r.range(0, 9); break; case 1: e->num = r.range(1, 999) / 8.0; break; case 2: { int m = r.range(1, 99); e->num = strtod(str("%de%d", m, r.range(-7, 7)).c_str(), nullptr); e->form = 1; break; } case 3: e->num = M_PI; e->form = 2; break; default: e->num = r.range(1, 4000) / 1000.0; } if (e->form != 2) e->num = strtod(str(e->form == 1 ? "%.6e" : "%.12g", e->num).c_str(), nullptr); return e;
  }
  switch (r.below(12)) {
    case 0: e->k = r.chance(0.2) ? Expr::POS : Expr::NEG; e->a = gen(r, v, depth - 1, twoArg); break;
    case 1: case 2: e->k = Expr::ADD; break; case 3: case 4: e->k = Expr::SUB; break; case 5: case 6: e->k = Expr::MUL; break; case 7: e->k = Expr::DIV; break;
    case 8: case 9: e->k = Expr::POW; e->form = twoArg && r.chance(0.5); break;
    case 10: e->k = Expr::FUN; e->name = FUNS[r.below(7)]; e->form = r.chance(0.5); e->a = gen(r, v, depth - 1, twoArg); break;
    default: e->k = Expr::FACT; e->a = std::make_shared<Expr>(); e->a->num = r.chance(0.1) ? r.range(9, 20) : r.range(0, 8); break;
  }
  if (e->k >= Expr::ADD && e->k <= Expr::POW) { e->a = gen(r, v, depth - 1, twoArg); e->b = gen(r, v, depth - 1, twoArg);
    if (e->k == Expr::POW && r.chance(0.7)) { e->b = std::make_shared<Expr>(); e->b->num = r.range(0, 3); } if (e->k == Expr::MUL) e->form = r.chance(0.25); }
  return e;
}
template <class T> inline T value(const Expr& e, const Vars& v) {
  switch (e.k) {
    case Expr::NUM: return e.num; case Expr::VAR: return v.get(e.name); case Expr::POS: return value<T>(*e.a, v); case Expr::NEG: return -value<T>(*e.a, v);
    case Expr::ADD: return value<T>(*e.a, v) + value<T>(*e.b, v); case Expr::SUB: return value<T>(*e.a, v) - value<T>(*e.b, v); case Expr::MUL: return value<T>(*e.a, v) * value<T>(*e.b, v);
    case Expr::DIV: { T a = value<T>(*e.a, v), b = value<T>(*e.b, v); return b == 0 ? T(0) : a / b; } case Expr::POW: return std::pow(value<T>(*e.a, v), value<T>(*e.b, v));
    case Expr::FACT: { T f = 1; for (int i = 2; i <= (int)e.a->num; i++) f *= i; return f; }
    default: { T x = value<T>(*e.a, v); return e.name == "sin" ? std::sin(x) : e.name == "cos" ? std::cos(x) : e.name == "tan" ? std::tan(x) : e.name == "exp" ? std::exp(x) : e.name == "log" ? std::log(x) : e.name == "sqrt" ? std::sqrt(x) : std::fabs(x); }
  }
}
// Binding strength of the printed form: sum 2, product 3, power 4, sign 5, factorial 6, primary 7
struct Printer { Rng& r; bool spaces; bool lines = false;
  std::string sp() { return spaces && r.chance(0.25) ? (r.chance(0.5) ? " " : r.chance(0.5) ? "  " : !lines || r.chance(0.5) ? "\t" : r.chance(0.5) ? "\n" : "\r\n") : ""; }
  std::string num(const Expr& e) { if (e.form == 2) return "PI"; std::string s = str(e.form == 1 ? "%.6e" : "%.12g", e.num); if (e.form == 1 && r.chance(0.5)) { size_t k = s.find('e'); std::string m = s.substr(0, k), x = s.substr(k + 1); bool neg = x[0] == '-'; x.erase(0, 1); while (x.size() > 1 && x[0] == '0') x.erase(0, 1); while (m.back() == '0') m.pop_back(); if (m.back() == '.') m.pop_back(); s = m + "e" + (neg ? "-" : r.chance(0.5) ? "+" : "") + x; } else if (e.form == 0 && r.chance(0.06)) { s = std::string(r.range(1, 90), '0') + s; } return s; }
  // bars: may '|' be used to open an absolute value here?
  std::string at(const Expr& e, int need, bool bars) { int p; std::string s = pr(e, p, bars); if (p < need || r.chance(0.08)) { int q; s = "(" + sp() + pr(e, q, true) + sp() + ")"; } return s; }
  std::string pr(const Expr& e, int& p, bool bars) {
    switch (e.k) {
      case Expr::NUM: p = 7; return num(e); case Expr::VAR: p = 7; return e.name;
      case Expr::POS: case Expr::NEG: p = 5; return (e.k == Expr::NEG ? "-" : "+") + sp() + at(*e.a, 6, bars);
      case Expr::ADD: case Expr::SUB: { p = 2; std::string l = at(*e.a, 2, bars); return l + sp() + (e.k == Expr::ADD ? "+" : "-") + sp() + right(*e.b, 3, bars); }
      case Expr::MUL: { p = 3; if (e.form) { int q; std::string l = "(" + pr(*e.a, q, true) + ")"; return l + sp() + "(" + pr(*e.b, q, true) + ")"; } std::string l = at(*e.a, 3, bars); return l + sp() + "*" + sp() + right(*e.b, 4, bars); }
      case Expr::DIV: { p = 3; std::string l = at(*e.a, 3, bars); return l + sp() + "/" + sp() + right(*e.b, 4, bars); }
      case Expr::POW: { int q; if (e.form) { p = 7; std::string l = pr(*e.a, q, true); return "pow(" + l + sp() + "," + sp() + pr(*e.b, q, true) + ")"; } p = 4; std::string l = at(*e.a, 5, bars); return l + sp() + "^" + sp() + right(*e.b, 4, bars); }
      case Expr::FACT: p = 6; return num(*e.a) + "!";
      default: { p = 7; int q; if (e.name == "abs" && e.form && bars) return "|" + pr(*e.a, q, false) + "|"; return e.name + sp() + "(" + sp() + pr(*e.a, q, true) + sp() + ")"; }
    }
  }
  // a right operand may start with a sign only if it is one signed term (a sign right after a sign is not an operator)
  std::string right(const Expr& e, int need, bool bars) { return at(e, need, bars); }
  std::string top(const Expr& e) { int p; return sp() + pr(e, p, true) + sp(); }
};
// is the text's first character (ignoring blanks) a sign? used to avoid "-" directly after a sign
inline bool near_value(double got, double d, LD l) {
  if (std::isnan(d) || std::isnan((double)l)) return std::isnan(d) && std::isnan((double)l) ? std::isnan(got) : true;
  if (std::isinf(d) || std::isinf((double)l)) return std::isinf(d) && std::isinf((double)l) ? got == d : true;
  double cond = std::fabs(d - (double)l); return std::fabs(got - d) <= 1e-9 * std::fabs(d) + 1e4 * cond + 1e-300;
}
}
