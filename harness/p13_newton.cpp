// Progress record of nonlinear solves: over any history of iterations on one or more solves, the convergence measures follow the residual
// norms, and the diagnostics file holds what was reported, in order, once, whatever the disk does; a reported iteration survives a crash.
#include "cells.hpp"
#include <NewtonRaphsonUtilities.hpp>
#include <memory>
namespace psim {
const HarnessInfo harness = {"P13", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); }
int harness_episodes(Rng& r) { return 1 + (int)r.below(2); }
typedef Plato::NewtonRaphson NR;
static const NR::stop_t stops[] = {NR::DID_NOT_CONVERGE, NR::MAX_NUMBER_ITERATIONS, NR::NORM_MEASURE_TOLERANCE, NR::CURRENT_NORM_TOLERANCE, NR::NaN_NORM_VALUE, NR::INFINITE_NORM_VALUE};
static const char* words[] = {"not converge", "maximum number of iterations", "stopping measure", "current norm tolerance", "nan", "infinite"};
static std::string lower(std::string s) { for (auto& c : s) c = (char)tolower((unsigned char)c); return s; }
static std::vector<std::string> lines(const std::string& t) { std::vector<std::string> o; std::istringstream in(t); std::string l; while (std::getline(in, l)) { if (l.find_first_not_of(" \t\r") != std::string::npos) o.push_back(l); } return o; }
struct Ev { int kind; int iter; double norm, meas; int stop; bool write; };   // 0 header, 1 iteration, 2 stop
static void emit(const Ev& e, std::ofstream& f) {
  Plato::NewtonRaphsonOutputData d; d.mWriteOutput = e.write; d.mCurrentIteration = e.iter; d.mCurrentNorm = e.norm; d.mNormMeasure = e.meas; d.mStopingCriterion = stops[e.stop];
  if (e.kind == 0) Plato::print_newton_raphson_diagnostics_header(d, f); else if (e.kind == 1) Plato::print_newton_raphson_diagnostics(d, f); else Plato::print_newton_raphson_stop_criterion(d, f);
}
static bool six(double got, double ref) { if (std::isnan(ref)) return std::isnan(got); if (std::isinf(ref)) return got == ref; return std::fabs(got - ref) <= 0.6e-6 * std::fabs(ref) + 1e-300; }
static void content(Sim& s, const std::string& text, const std::vector<Ev>& evs, const char* when) {   // what was reported, in order, once
  auto ls = lines(text); size_t k = 0; s.evaluated(evs.size() + 1); s.hash(text.data(), text.size());
  for (auto& e : evs) { if (!e.write) continue; if (k >= ls.size()) s.fail("record", str("%s: report %zu is missing", when, k)); std::string l = ls[k++];
    if (e.kind == 0) { std::istringstream in(l); std::string a, b, c; in >> a >> b >> c; if (lower(a) != "iter" || lower(b) != "norm" || lower(c) != "relative") s.fail("record", str("%s: header is '%s'", when, l.c_str())); }
    else if (e.kind == 1) { char* q; const char* p = l.c_str(); long i = strtol(p, &q, 10); double a = strtod(q, &q), b = strtod(q, &q); while (*q == ' ') q++; if (*q || i != e.iter || !six(a, e.norm) || !six(b, e.meas)) s.fail("record", str("%s: iteration %d with norm %.9g and measure %.9g was recorded as '%s'", when, e.iter, e.norm, e.meas, l.c_str())); }
    else { std::string m = lower(l); for (int j = 0; j < 6; j++) { bool has = m.find(words[j]) != std::string::npos; if (has != (j == e.stop)) s.fail("reason", str("%s: stop reason %d (%s) was recorded as '%s'", when, e.stop, words[e.stop], l.c_str())); } } }
  if (k != ls.size()) s.fail("record", str("%s: '%s' was never reported", when, ls[k].c_str()));
}
static void measures(Sim& s, Rng& r, std::vector<Ev>& evs) {   // one solve: residual norms, measures, reports
  Plato::NewtonRaphsonOutputData d; s.check(d.mWriteOutput && d.mCurrentIteration == 0 && d.mStopingCriterion == NR::DID_NOT_CONVERGE && d.mStoppingMeasure == NR::ABSOLUTE_RESIDUAL_NORM, "initial", "a fresh record does not start unconverged, reporting, at iteration 0"); bool rel = r.chance(0.5); int n = r.range(1, 8); double norm = std::pow(10.0, r.uni(-3, 8)), prev = 0, meas = d.mNormMeasure; bool write = r.chance(0.9);
  d.mWriteOutput = write; if (r.chance(0.8)) evs.push_back(Ev{0, 0, 0, 0, 0, write}); int stop = -1;
  for (int i = 0; i < n; i++) {
    s.simtime(1); d.mCurrentIteration = i; d.mCurrentNorm = norm;
    if (r.chance(0.08)) { double bad = r.chance(0.5) ? NAN : r.chance(0.5) ? INFINITY : -INFINITY; Plato::NewtonRaphsonOutputData c = d; bool ref = r.chance(0.4); if (ref) c.mReferenceNorm = bad; else c.mCurrentNorm = bad; must_throw(s, "nonfinite", ref ? "reference norm that is not finite" : "norm that is not finite", [&] { if (rel) Plato::compute_relative_residual_norm_error(c); else Plato::compute_absolute_residual_norm_error(c); }); s.check(c.mNormMeasure == d.mNormMeasure, "nonfinite", "a refused norm changed the measure"); s.cover("norm not finite"); if (!ref && r.chance(0.5)) { stop = std::isnan(bad) ? 4 : 5; break; } }
    Plato::NewtonRaphsonOutputData b = d; if (rel) Plato::compute_relative_residual_norm_error(d); else Plato::compute_absolute_residual_norm_error(d); s.evaluated();
    if (i) { double e = std::fabs(prev - norm); if (rel) e /= std::fabs(norm); meas = e; near1(s, "measure", d.mNormMeasure, meas, 0, str("%s measure at iteration %d (norm %.17g after %.17g)", rel ? "relative" : "absolute", i, norm, prev).c_str(), 1e-13); } else if (d.mNormMeasure != b.mNormMeasure) s.fail("measure", "the first iteration already has a measure");
    if (d.mReferenceNorm != norm) s.fail("reference", str("reference norm is %.17g after an iteration with norm %.17g", d.mReferenceNorm, norm)); if (d.mCurrentNorm != norm || d.mCurrentIteration != i || d.mWriteOutput != write || d.mStopingCriterion != b.mStopingCriterion || d.mStoppingMeasure != b.mStoppingMeasure) s.fail("record-changed", "the measure changed another entry of the record");
    evs.push_back(Ev{1, i, norm, d.mNormMeasure, 0, write}); prev = norm; norm *= r.chance(0.15) ? 1.0 : r.chance(0.15) ? r.uni(1, 20) : std::pow(10.0, r.uni(-4, 0)); if (r.chance(0.03)) norm = 1e-300; if (r.chance(0.03)) norm = 1e300;
  }
  if (stop < 0) stop = (int)r.below(6); if (r.chance(0.85)) evs.push_back(Ev{2, n, norm, meas, stop, write}); s.cover(str("solve %s n=%d stop=%d%s", rel ? "relative" : "absolute", n, stop, write ? "" : " silent"));
}
static void parse(Sim& s, Rng& r) {
  struct Q { const char* t; int v; }; static const Q q[] = {{"absolute residual norm", NR::ABSOLUTE_RESIDUAL_NORM}, {"relative residual norm", NR::RELATIVE_RESIDUAL_NORM}, {"displacement norm", -1}, {"absolute", -1}, {"", -1}, {"relative residual norm ", -1}, {"absolute residual norms", -1}, {"residual norm", -1}};
  const Q& c = q[r.below(8)]; std::string t = c.t; for (auto& ch : t) if (r.chance(0.5)) ch = (char)toupper(ch); int got = -1; try { got = (int)Plato::newton_raphson_stopping_criterion(t); } catch (const std::exception&) {} s.evaluated(); if (got != c.v) s.fail("criterion", str("criterion '%s' was read as %d instead of %d", t.c_str(), got, c.v)); s.cover(str("criterion %s", c.t));
}
void harness_episode(Sim& s) {
  Rng& w = s.w; std::vector<Ev> evs; int solves = w.range(1, 4);
  for (int k = 0; k < solves; k++) { if (!s.step("solve")) continue; measures(s, s.w, evs); if (s.w.chance(0.3)) parse(s, s.w); }
  if (!s.step("record")) return; Rng& r = s.w;
  { // healthy disk: the whole record; a closed file is refused
    IoScope io(0); std::ofstream f("plato_analyze_newton_raphson_diagnostics.txt"); size_t cut = evs.size() ? r.below(evs.size() + 1) : 0; std::vector<Ev> part;
    for (size_t i = 0; i < evs.size(); i++) { emit(evs[i], f); part.push_back(evs[i]); if (i == cut && evs[i].kind == 1 && evs[i].write) { std::string now; fs_get("plato_analyze_newton_raphson_diagnostics.txt", &now); content(s, now, part, "during the solve"); } }
    f.close(); std::string t; fs_get("plato_analyze_newton_raphson_diagnostics.txt", &t); content(s, t, evs, "record of the solves");
    std::ofstream closed; for (int k = 0; k < 3; k++) { must_throw(s, "closed", "report to a file that is not open", [&] { emit(Ev{k, 1, 1, 1, 1, true}, closed); }); emit(Ev{k, 1, 1, 1, 1, false}, closed); }
  }
  if (!s.faulty || evs.empty()) return;
  std::string ref; { IoScope io(0); std::ofstream f("log"); for (auto& e : evs) emit(e, f); f.close(); fs_get("log", &ref); }
  bool crash = r.chance(0.6); uint64_t at = 0; double rate = 0; if (crash) { if (!s.fault(F_CRASH, 0.8, evs.size() + 2, &at)) return; } else if (s.fault(F_WRITE_EIO, 0.7)) rate = r.uni(0.01, 0.3);
  IoScope io(0); std::ofstream f("log"); io_rate(rate); if (crash) io_crash_at(at); size_t acked = 0; std::string must;
  { std::ostringstream o; size_t n = 0; for (auto& e : evs) { if (crash && io_crashed()) break; emit(e, f); n++; bool ok = !(crash && io_crashed()) && io_count(F_WRITE_EIO) + io_count(F_ENOSPC) == 0; if (ok && e.write && e.kind != 2) acked = n; } }
  io_rate(0); if (!crash || !io_crashed()) f.close(); bool crashed = io_crashed(); if (crashed) fs_reboot(); std::string got; fs_get("log", &got); s.evaluated(2);
  std::string need; { std::vector<Ev> a(evs.begin(), evs.begin() + acked); uint64_t hits = io_count(F_WRITE_EIO) + io_count(F_ENOSPC); IoScope io2(0); std::ofstream g("x"); for (auto& e : a) emit(e, g); g.close(); fs_get("x", &need); acked = hits; }
  if (crashed && ref.compare(0, got.size(), got) != 0) s.fail("torn", str("after a crash the file holds text that was not reported ('%s')", got.substr(0, 200).c_str()));
  if (got.compare(0, need.size(), need) != 0) s.fail("durability", str("iterations reported before %s are not in the file ('%s')", crashed ? "a crash" : "a disk error", got.substr(0, 200).c_str()));   // the stream library may repeat text after a failed write
  if (crashed) s.cover(str("crash in write %d", (int)at));
  else if (!crash) { bool hit = acked > 0; if (!hit && got != ref) s.fail("lost", "a healthy disk lost part of the record"); s.cover(hit ? "disk error" : "short or interrupted writes"); }
  if (crashed) { f.clear(); f.close(); }
}
}
