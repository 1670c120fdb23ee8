// Linear solves through the GPU solver library: what a solve returns without an error is the solution of the system it was given, for every
// history of systems, library errors, divergence, configuration files and disk faults; every library object is released, once, in order.
#include "sparse.hpp"
#include "psim_amgx.hpp"
#include <alg/CrsMatrix.hpp>
#include <alg/AmgXLinearSolver.hpp>
#include <alg/AmgXConfigs.hpp>
namespace psim {
const HarnessInfo harness = {"P19", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); std::cout.setstate(std::ios::failbit); }
int harness_episodes(Rng& r) { return 1 + (int)r.below(2); }
typedef std::vector<std::pair<std::string, std::string>> KV;
static std::string strip(const std::string& s) { std::string o; for (char c : s) if (!strchr(" \t\r\n", c)) o += c; return o; }
static std::string config(Rng& r) { std::string nl = r.chance(0.7) ? "\n" : r.chance(0.5) ? "\r\n" : " ", s = "{" + nl; int n = r.range(1, 12); s += "  \"config_version\": 2," + nl; for (int i = 0; i < n; i++) s += str("  \"option_%d\": %s,", i, r.chance(0.5) ? str("%g", r.value()).c_str() : r.chance(0.5) ? "\"AMG\"" : "{ \"scope\": \"main\" }") + nl; s += str("  \"solver\": { \"tolerance\": %g, \"max_iters\": %d }", r.positive(), r.range(1, 999)) + nl + "}"; if (r.chance(0.5)) s += nl; if (r.chance(0.1)) s += std::string(r.range(1, 5000), ' '); return s; }
struct System { int n, B; std::vector<int> row, col; std::vector<double> v, x0, b; };
static System system(Rng& r, int B, bool singular) {
  System s; s.B = B; s.n = r.range(1, 7); std::vector<std::vector<int>> c(s.n); for (int i = 0; i < s.n; i++) for (int j = 0; j < s.n; j++) if (i == j || r.chance(0.4)) c[i].push_back(j); if (r.chance(0.3)) for (auto& q : c) std::reverse(q.begin(), q.end());
  s.row.push_back(0); for (auto& q : c) { for (int j : q) { s.col.push_back(j); for (int a = 0; a < B; a++) for (int b = 0; b < B; b++) s.v.push_back(r.uni(-1, 1)); } s.row.push_back((int)s.col.size()); }
  for (int i = 0; i < s.n; i++) for (int k = s.row[i]; k < s.row[i + 1]; k++) if (s.col[k] == i) for (int a = 0; a < B; a++) s.v[(size_t)k * B * B + a * B + a] += (3.0 + s.n * B) * (r.chance(0.8) ? 1 : -1);
  if (singular) { int i = (int)r.below(s.n); for (int k = s.row[i]; k < s.row[i + 1]; k++) for (int a = 0; a < B * B; a++) s.v[(size_t)k * B * B + a] = 0; }
  for (int i = 0; i < s.n * B; i++) { s.x0.push_back(r.chance(0.5) ? 0 : r.smooth()); s.b.push_back(r.value()); } return s;
}
template <class V, class T> static V view(const char* nm, const std::vector<T>& v) { V w(std::string(nm), v.size()); for (size_t i = 0; i < v.size(); i++) w(i) = v[i]; return w; }
struct Live { std::unique_ptr<Plato::AbstractSolver> a; Plato::AmgXLinearSolver* s; int B; bool fatal; };
static void strings(Sim& s, Rng& r) {
  static const char* const names[] = {"eaf", "default", "pcg_noprec", "pcg_v", "pcg_w", "pcg_f", "agg_cheb4"}; static const char* const bad[] = {"", "EAF", "pcg", "agg_cheb", "default ", "none"};
  bool unknown = r.chance(0.15), dflt = r.chance(0.2), abs = r.chance(0.5); std::string nm = unknown ? bad[r.below(6)] : names[r.below(7)], got; double tol = std::pow(10, -r.range(1, 16)) * r.range(1, 9); int it = r.range(1, 100000); bool threw = false, done = false;
  try { done = alloc_fault(s, unknown ? 0 : 0.3, 12, [&] { got = dflt ? Plato::configurationString(nm) : Plato::configurationString(nm, tol, it, abs); }); } catch (const std::exception&) { threw = true; }
  if (dflt) { tol = 1e-10; it = 10000; abs = true; } s.evaluated(); s.cover(str("predefined %s %s", unknown ? "unknown" : nm.c_str(), done ? "built" : threw ? "refused" : "allocation failed"));
  if (unknown) { s.check(!done, "unknown-option", str("unknown configuration '%s' accepted", nm.c_str())); return; } s.check(!threw, "option", "a predefined configuration is refused"); if (!done) return;
  KV kv; std::string why; if (!json_ok(got, &why, &kv)) s.fail("configuration", str("the predefined configuration %s is malformed: %s", nm.c_str(), why.c_str())); std::map<std::string, std::string> m; for (auto& q : kv) m[q.first] = q.second;
  if (nm == "default" && strtod(m["solver/tolerance"].c_str(), 0) == 5e-8 && m["solver/max_iters"] == "1000" && s.known("default-config")) { tol = 5e-8; it = 1000; }
  double t = m.count("solver/tolerance") ? strtod(m["solver/tolerance"].c_str(), 0) : -1; s.check(std::fabs(t - tol) <= 1e-5 * tol, "configuration", str("%s: tolerance is %g, requested %g", nm.c_str(), t, tol));
  s.check(m.count("solver/max_iters") && atoi(m["solver/max_iters"].c_str()) == it, "configuration", str("%s: iteration limit is '%s', requested %d", nm.c_str(), m["solver/max_iters"].c_str(), it));
  s.check(m["solver/convergence"] == (abs ? "\"ABSOLUTE" : "\"RELATIVE_INI_CORE"), "configuration", str("%s: convergence is '%s', requested %s", nm.c_str(), m["solver/convergence"].c_str(), abs ? "absolute" : "relative"));
  s.check(m.count("solver/solver") && m.count("config_version") && m["config_version"] == "2" && m["solver/norm"] == "\"L2" && m["solver/monitor_residual"] == "1", "configuration", str("%s: no solver, version, norm or residual monitoring", nm.c_str()));
}
void harness_episode(Sim& s) {
  int steps = s.w.chance(0.015) ? s.w.range(80, 150) : s.w.range(2, 9); amgx_reset(); IoScope io; bool file = s.w.chance(0.6); std::string body = config(s.w), name = s.w.chance(0.5) ? "amgx.json" : "solver/setup.json"; uint64_t cut = 0; bool torn = file && s.fault(F_TORN_FILE, 0.1, body.size() - 1, &cut); if (torn) body.resize(cut); if (file) fs_put(name, body);
  double rate = s.w.chance(0.5) ? 0 : s.w.uni(0.01, 0.15), ioRate = s.w.chance(0.7) ? 0 : s.w.uni(0.05, 0.4); std::vector<Live> live; std::vector<std::unique_ptr<Live>> dead;
  auto closeAll = [&](bool dieing) { amgx_rates(0, 0, 0); for (auto& l : live) { l.a.release(); (void)dieing; } live.clear(); };
  for (int k = 0; k < steps; k++) {
    if (!s.step("solver")) continue; Rng& r = s.w; int c = (int)r.below(10); if (c == 0) { strings(s, r); continue; }
    if (live.empty() || c == 1) {
      Teuchos::ParameterList pl; if (name != "amgx.json" || r.chance(0.3)) pl.set<std::string>("Configuration File", name); Live l; l.B = r.range(1, 4); l.fatal = false; if (r.chance(0.6)) { l.fatal = r.chance(0.6); pl.set<bool>("Divergence is Fatal", l.fatal); }
      amgx_rates(rate, 0, 0); io_rate(ioRate); uint64_t e0 = amgx_errors(); bool ended = false, threw = false; Plato::AmgXLinearSolver* p = nullptr;
      try { p = new Plato::AmgXLinearSolver(pl, l.B); } catch (const SolverAbort&) { ended = true; } catch (const std::exception&) { threw = true; } io_rate(0); amgx_rates(0, 0, 0); s.evaluated(); bool hard = io_count(F_OPEN) + io_count(F_READ_EIO) > 0; bool e = amgx_errors() > e0;
      s.cover(str("construct %s file=%d torn=%d error=%d io=%d -> %s", l.fatal ? "fatal" : "warn", file, torn, e, hard, ended ? "ended" : threw ? "exception" : "ok"));
      if (ended || threw) { if (!e && !torn && !hard) s.fail("construct", "the solver could not be set up although nothing failed"); closeAll(true); return; }
      s.check(!e, "ignored-error", "the solver library reported an error while the solver was set up, and it was ignored"); s.check(io_open_files() == 0, "file-leak", "the configuration file is left open");
      if (file && !hard) s.check(strip(amgx_last_config()) == strip(body), "configuration", "the configuration in use is not the one in the file"); std::string why; KV kv;
      if (!file) { s.check(json_ok(amgx_last_config(), &why, &kv), "configuration", "the default configuration is malformed: " + why); bool tol = false; for (auto& q : kv) if (q.first == "solver/tolerance") tol = strtod(q.second.c_str(), 0) > 0 && strtod(q.second.c_str(), 0) < 1e-6; s.check(tol, "configuration", "the default configuration sets no tolerance"); }
      if (hard && file) { std::string u = strip(amgx_last_config()); std::vector<std::string> dk; s.check(u == strip(body) || json_ok(amgx_last_config()), "configuration", "after a disk error a part of the configuration is in use"); }
      l.a.reset(p); l.s = p; live.push_back(std::move(l)); continue;
    }
    if (c == 2) { amgx_rates(0, 0, 0); size_t i = r.below(live.size()); Live l = std::move(live[i]); live.erase(live.begin() + i); l.a.release(); delete l.s; s.cover("destroy"); if (live.empty()) { s.check(amgx_live() == 0, "leak", "solver library objects are left behind"); s.check(!amgx_initialized(), "leak", "the solver library is left initialized"); } continue; }
    Live& l = live[r.below(live.size())]; bool sing = r.chance(0.08); System q = system(r, l.B, sing);
    Plato::CrsMatrix<int> A(view<Plato::CrsMatrix<int>::RowMapVector>("row", q.row), view<Plato::CrsMatrix<int>::OrdinalVector>("col", q.col), view<Plato::CrsMatrix<int>::ScalarVector>("val", q.v), q.n * q.B, q.n * q.B, q.B, q.B);
    auto X = view<Plato::ScalarVector>("x", q.x0), Bv = view<Plato::ScalarVector>("b", q.b); bool faults = r.chance(0.5); amgx_rates(faults ? rate : 0, faults ? 0.15 : 0, faults ? 0.1 : 0); uint64_t e0 = amgx_errors(), n0 = amgx_solves(); bool ended = false, threw = false;
    try { if (r.chance(0.5)) l.a->solve(A, X, Bv); else l.s->solve(A, X, Bv); } catch (const SolverAbort&) { ended = true; } catch (const std::exception&) { threw = true; } amgx_rates(0, 0, 0); s.evaluated(); s.simtime(1);
    bool e = amgx_errors() > e0; int st = amgx_solves() > n0 ? amgx_last_status() : 0; s.cover(str("solve B=%d n=%d guess=%d %s%s status=%d error=%d -> %s", l.B, q.n, q.x0[0] != 0, sing ? "singular " : "", l.fatal ? "fatal" : "warn", st, e, ended ? "ended" : threw ? "exception" : "ok"));
    if (!ended && !threw) s.check(!e, "ignored-error", "the solver library reported an error during a solve, and the solve returned as if nothing had happened");
    if (ended) { if (!e) s.fail("aborted", "a solve ended the process although no library call failed"); closeAll(true); return; }
    if (threw) s.check(e || st == 1 || (st == 2 && l.fatal), "spurious", "a solve that converged (or whose divergence is not fatal) raised an exception");
    else { s.check(st != 1, "failed-solve", "a failed solve returned as if it had succeeded"); s.check(!(st == 2 && l.fatal), "diverged-solve", "divergence is declared fatal, but a diverged solve returned as if it had succeeded"); s.check(amgx_solves() == n0 + 1, "solve", "the system was not solved");
      if (st == 0) for (int i = 0; i < q.n; i++) for (int p = 0; p < q.B; p++) { LD t = 0, m = 0; for (int k2 = q.row[i]; k2 < q.row[i + 1]; k2++) for (int o = 0; o < q.B; o++) { LD z = (LD)q.v[(size_t)k2 * q.B * q.B + p * q.B + o] * X(q.col[k2] * q.B + o); t += z; m += std::fabs(z); } if (!(std::fabs(t - q.b[i * q.B + p]) <= 1e-9L * (m + std::fabs(q.b[i * q.B + p]) + 1e-200L))) s.fail("solution", str("row %d: the returned solution gives %Lg, the system asks for %g", i * q.B + p, t, q.b[i * q.B + p])); } }
    for (size_t i = 0; i < q.v.size(); i++) if (A.entries()(i) != q.v[i]) s.fail("changed", "the matrix was changed by the solve"); for (size_t i = 0; i < q.b.size(); i++) if (Bv(i) != q.b[i]) s.fail("changed", "the right-hand side was changed by the solve");
  }
  amgx_rates(0, 0, 0); while (!live.empty()) { Live l = std::move(live.back()); live.pop_back(); l.a.release(); delete l.s; } s.check(amgx_live() == 0, "leak", "solver library objects are left behind"); s.check(!amgx_initialized(), "leak", "the solver library is left initialized");
}
}
