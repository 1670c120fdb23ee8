// Custom material constants read from an equation file: under any I/O faults the constant is the value of the requested equation
// of the file, or an exception; never the value of another, truncated or missing equation.
#include "expr.hpp"
#include <CustomMaterial.hpp>
namespace psim {
const HarnessInfo harness = {"P08", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); }
int harness_episodes(Rng& r) { return 1 + (int)r.below(2); }
struct Mat : Plato::CustomMaterial { Mat(const Teuchos::ParameterList& p) : Plato::CustomMaterial(p) {} double byName(const Teuchos::ParameterList& p, const std::string& n) const { return GetCustomExpressionValue(p, n); } double byIndex(const Teuchos::ParameterList& p, int i) const { return GetCustomExpressionValue(p, i); } double plain(const Teuchos::ParameterList& p) const { return GetCustomExpressionValue(p); } };
struct Row { std::string text; EP e; bool ok; };   // ok: a well-formed row whose equation is e
void harness_episode(Sim& s) {
  Rng& w = s.w; Vars v = rand_vars(w); int steps = w.range(1, 4);
  for (int k = 0; k < steps; k++) {
    if (!s.step("custom material")) continue; Rng& r = s.w; Teuchos::ParameterList pl; for (auto& p : v.v) pl.set<double>(p.first, p.second); Mat m(pl);
    if (r.chance(0.15)) {   // equation given in the input: the file is not consulted
      IoScope io(r.chance(0.5) ? 0.2 : 0.0); EP e = gen(r, v, 3); Printer p{r, true}; std::string nm = r.chance(0.5) ? "Equation" : "E11"; pl.set<std::string>(nm, p.top(*e)); if (r.chance(0.5)) pl.set<std::string>("BingoFile", "nowhere.txt");
      double got = nm == "Equation" && r.chance(0.5) ? m.plain(pl) : m.byName(pl, nm); s.evaluated(); if (!near_value(got, value<double>(*e, v), value<LD>(*e, v))) s.fail("value", "equation of the input evaluated to a wrong value"); s.cover("equation in the input"); continue;
    }
    // the file
    int rows = r.range(0, 6), pre = r.range(0, 3); bool header = r.chance(0.92), crlf = r.chance(0.1), eol = r.chance(0.5); std::string nl = crlf ? "\r\n" : "\n"; std::vector<Row> tab; std::vector<std::string> lines;
    for (int i = 0; i < pre; i++) lines.push_back(r.chance(0.4) ? "" : r.chance(0.5) ? "Bingo log: FITNESS of generation" : "seed, 12, COMPLEXITY");
    if (header) lines.push_back(r.chance(0.5) ? "FITNESS    COMPLEXITY    EQUATION" : "  EQUATION | FITNESS | COMPLEXITY");
    for (int i = 0; i < rows; i++) { Row q; q.ok = true; q.e = gen(r, v, r.chance(0.1) ? 7 : 3, false); Printer p{r, r.chance(0.5)}; q.text = str("%.6g, %d, ", r.uni(0, 1), r.range(1, 40)) + p.top(*q.e); if (r.chance(0.06)) { q.ok = false; q.text = ""; } else if (r.chance(0.06)) { q.ok = false; q.text = "no separator here"; } else if (r.chance(0.05)) { q.ok = false; q.text = "0.5, 3,"; } tab.push_back(q); lines.push_back(q.text); }
    std::string body; for (size_t i = 0; i < lines.size(); i++) { body += lines[i]; if (i + 1 < lines.size() || eol) body += nl; }
    if (r.chance(0.08)) body.insert(0, std::string(r.range(8000, 9000), ' ') + "\n");    // table beyond the first buffer
    bool torn = false; uint64_t cut = 0; if (!body.empty() && s.fault(F_TORN_FILE, 0.15, body.size() - 1, &cut)) { body.resize(cut); torn = true; }
    IoScope io; fs_put("materials/bingo.log", body); pl.set<std::string>("BingoFile", r.chance(0.05) ? "materials/missing.log" : "materials/bingo.log"); bool missing = pl.get<std::string>("BingoFile") != "materials/bingo.log";
    int want = 0, mode = (int)r.below(3); if (mode == 0) want = r.range(0, rows + 1); if (mode == 1) { want = r.chance(0.08) ? -r.range(1, 4) : r.range(0, rows + 1); pl.set<int>("BingoEquation", want); } if (mode == 0 && r.chance(0.3)) pl.set<int>("BingoEquation", 77);
    // reference reading of the bytes
    std::vector<std::string> L; { size_t at = 0; while (at < body.size()) { size_t e = body.find('\n', at); if (e == std::string::npos) { L.push_back(body.substr(at)); break; } L.push_back(body.substr(at, e - at)); at = e + 1; } }
    int h = -1; for (size_t i = 0; i < L.size() && h < 0; i++) if (L[i].find("FITNESS") != std::string::npos && L[i].find("COMPLEXITY") != std::string::npos && L[i].find("EQUATION") != std::string::npos) h = (int)i;
    bool expectValue = want >= 0 && !missing && h >= 0 && h + 1 + want < (int)L.size() && want < rows && tab[want].ok, known = true; if (expectValue && torn) { std::string full = tab[want].text + (crlf ? "\r" : ""); if (L[h + 1 + want] != full) { known = false; } }
    double d = 0; LD l = 0; if (expectValue) { d = value<double>(*tab[want].e, v); l = value<LD>(*tab[want].e, v); }
    double rate = r.chance(0.5) ? 0.0 : r.uni(0.02, 0.4); io_rate(rate); bool threw = false; double got = 0; uint64_t af = 0; bool alloc = rate == 0 && s.fault(F_ALLOC, 0.15, 80, &af); if (alloc) heap_fail_at(af);
    try { got = mode == 0 ? m.byIndex(pl, want) : r.chance(0.5) ? m.plain(pl) : m.byName(pl, "Equation"); } catch (const std::exception&) { threw = true; }
    bool failed = alloc && heap_failed(); heap_disarm(); io_rate(0); s.evaluated(); s.hash(threw ? -1.0 : got); bool hard = io_count(F_OPEN) + io_count(F_READ_EIO) > 0 || failed;
    s.cover(str("rows=%d want=%s%s%s%s%s%s -> %s", rows, want < 0 ? "negative" : want < rows ? "in" : want == rows ? "past-end" : "far", header ? "" : " no-header", torn ? " torn" : "", hard ? " io-error" : "", io_count(F_SHORT_READ) ? " short-reads" : "", eol ? "" : " no-eol", threw ? "exception" : "value"));
    s.check(io_open_files() == 0, "file-leak", "the equation file is left open");
    bool tornRow = torn && want >= 0 && h >= 0 && h + 1 + want == (int)L.size() - 1;
    if (tornRow && !expectValue) known = false;
    if (!threw && !expectValue && !tornRow) s.fail("wrong-equation", str("equation %d of a table of %d rows does not exist or is malformed, but the value %g was returned", want, rows, got));
    if (!threw && known && !near_value(got, d, l)) s.fail("value", str("equation %d '%.300s' read as %.17g, expected %.17g", want, tab[want].text.c_str(), got, d));
    if (threw && expectValue && known && !hard) s.fail("lost-equation", str("equation %d of %d exists but was refused (short reads %llu, interrupted reads %llu)", want, rows, (unsigned long long)io_count(F_SHORT_READ), (unsigned long long)io_count(F_EINTR)));
    // after the faults stop the same request succeeds
    if (hard && expectValue && known) { double again = 0; try { again = mode == 0 ? m.byIndex(pl, want) : m.plain(pl); } catch (const std::exception& x) { s.fail("no-recovery", "request still refused after the faults stopped"); } s.evaluated(); if (!near_value(again, d, l)) s.fail("value", "wrong value after the faults stopped"); }
  }
}
}
