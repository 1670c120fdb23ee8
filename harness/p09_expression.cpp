// Expression evaluator: over any history of parse / evaluate / failing parse on one evaluator, the value is the value of the last
// accepted expression; malformed text is refused; a failed allocation surfaces as an exception; nothing leaks.
#include "expr.hpp"
#include <ExpressionEvaluator.hpp>
#include <PlatoMathExpr.hpp>
namespace psim {
const HarnessInfo harness = {"P09", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); }
int harness_episodes(Rng& r) { return 1 + (int)r.below(3); }
static double run(Plato::ExpressionEvaluator& ev, const std::string& t) { std::vector<char> b(t.begin(), t.end()); b.push_back(0); ev.parse_expression(b.data()); if (ev.validate_expression() != 0) throw std::runtime_error("invalid"); return ev.evaluate_expression(); }
static std::string broken(Rng& r, const std::string& t, const char*& kind) {
  switch (r.below(20)) {
    case 13: kind = "bar closed before parenthesis"; return "|(" + std::string("2+3") + "|)"; case 14: kind = "parenthesis closed before bar"; return "(|2" + std::string(")") + "|"; case 15: kind = "long number"; return t + "+" + std::string(r.range(128, 300), '7'); case 16: kind = "long name"; return t + "*" + std::string(r.range(128, 300), 'q');
    case 17: kind = "empty parentheses"; return "()"; case 18: kind = "two arguments too many"; return "pow(2,3,4)"; case 19: kind = "value after factorial"; { static const char* const q[] = {"3! 2", "3! 2*5", "3!(2)", "3!|2|", "(2+3!)4", "2+3! 4-1", "4! sin(1)", "3! PI", "2(3)", "|2|3", "|2| |3|", "2|3|", "PI(2)", "2+2(3)"}; return q[r.below(14)]; }
    case 0: kind = "unclosed parenthesis"; return "(" + t; case 1: kind = "unopened parenthesis"; return t + ")"; case 2: kind = "trailing operator"; return t + std::string(1, "+-*/^"[r.below(5)]); case 3: kind = "leading operator"; return std::string(1, "*/^!"[r.below(4)]) + "(" + t + ")";
    case 4: kind = "two values"; return "(" + t + ") 2"; case 5: kind = "two values"; return "3 x"; case 6: kind = "empty"; return r.chance(0.5) ? "" : "   "; case 7: kind = "bad character"; return t + std::string(1, "#$@&~;?"[r.below(7)]); case 8: kind = "comma"; return "(" + t + "),2";
    case 9: kind = "one argument"; return "pow(" + std::string("2") + ")"; case 10: kind = "doubled sign"; return t + (r.chance(0.5) ? "---2" : "+--2"); case 11: kind = "empty function"; return t + "+sin()"; default: kind = "unclosed bar"; return "2+|3";
  }
}
void harness_episode(Sim& s) {
  Rng& w = s.w; Vars v = rand_vars(w); Teuchos::ParameterList pl; for (auto& p : v.v) pl.set<double>(p.first, p.second); int steps = w.range(2, 9);
  leak_checked(s, [&] {
    Plato::ExpressionEvaluator ev(pl);
    for (int k = 0; k < steps; k++) {
      if (!s.step("expression")) continue; Rng& r = s.w; EP e = gen(r, v, r.range(0, 5)); Printer p{r, r.chance(0.5), r.chance(0.3)}; std::string t = p.top(*e); double d = value<double>(*e, v); LD l = value<LD>(*e, v); int kind = (int)r.below(10);
      if (kind < 5) {
        bool done = alloc_fault(s, 0.35, 60, [&] { double got = run(ev, t); s.evaluated(); s.hash(got); if (!near_value(got, d, l)) s.fail("value", str("'%.400s' evaluates to %.17g, expected %.17g", t.c_str(), got, d)); });
        s.cover(str("evaluate %s kind=%d", done ? "ok" : "allocation failed", (int)e->k));
        if (!done && r.chance(0.7)) { double got = run(ev, t); s.evaluated(); if (!near_value(got, d, l)) s.fail("value", str("after a failed allocation '%.400s' evaluates to %.17g, expected %.17g", t.c_str(), got, d)); }
        if (done) { double again = ev.evaluate_expression(); s.evaluated(); if (!near_value(again, d, l)) s.fail("value", "evaluating twice gives different values"); }
      } else if (kind < 8) {
        const char* what = ""; std::string b = broken(r, t, what); bool threw = false; double got = 0; leak_checked(s, [&] { Plato::ExpressionEvaluator e2(pl); try { got = run(e2, b); } catch (const std::exception&) { threw = true; } });
        s.cover(str("malformed: %s", what)); s.check(threw, "malformed", str("malformed text (%s) '%.300s' accepted with value %g", what, b.c_str(), got));
        if (r.chance(0.5)) { try { run(ev, b); } catch (const std::exception&) {} double g = run(ev, t); s.evaluated(); if (!near_value(g, d, l)) s.fail("value", "wrong value after a refused expression"); s.cover("accepted after refused"); }
      } else if (kind == 8) {
        std::string m = t; int n = r.range(1, 4); for (int i = 0; i < n && !m.empty(); i++) { size_t at = r.below(m.size()); static const char ch[] = "()|+-*/^!,.e0129xsincopwabqrtPI \t_"; switch (r.below(3)) { case 0: m.erase(at, 1); break; case 1: m.insert(at, 1, ch[r.below(sizeof ch - 1)]); break; default: m[at] = ch[r.below(sizeof ch - 1)]; } }
        leak_checked(s, [&] { Plato::ExpressionEvaluator e2(pl); try { double g = 0; if (m.find('!') == std::string::npos) g = run(e2, m); else { e2.parse_expression(m.c_str()); e2.validate_expression(); } s.hash(g); s.cover("mutated text accepted"); } catch (const std::exception&) { s.cover("mutated text refused"); } });
      } else {
        bool threw = false; std::string u = "(" + t + ")+unknown_variable"; try { run(ev, u); } catch (const std::exception&) { threw = true; } s.check(threw, "unknown-variable", "an undefined variable was given a value"); s.cover("undefined variable");
        if (r.chance(0.3)) ev.delete_expression();
      }
    }
  });
}
}
