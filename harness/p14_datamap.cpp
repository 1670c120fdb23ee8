// Recorded outputs: over any history of recordings, saved states and clears (with failing allocations), a state is what was current
// when it was saved, indices count saves, and requests for states that do not exist are refused.
#include "cells.hpp"
namespace psim {
const HarnessInfo harness = {"P14", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); }
int harness_episodes(Rng& r) { return 1 + (int)r.below(3); }
struct Model { std::map<std::string, double> sc; std::map<std::string, Vec> v; std::map<std::string, std::pair<int, Vec>> m; std::map<std::string, std::array<int, 2>> td; std::map<std::string, Vec> t; };
static void compare(Sim& s, const Plato::DataMap& d, const Model& m, const char* what) {
  s.evaluated();
  auto bad = [&](const std::string& x) { s.fail("state", str("%s: %s", what, x.c_str())); };
  if (d.mScalarValues.size() != m.sc.size() || d.scalarVectors.size() != m.v.size() || d.scalarMultiVectors.size() != m.m.size() || d.scalarArray3Ds.size() != m.t.size()) bad("recorded names differ");
  for (auto& p : m.sc) { auto i = d.mScalarValues.find(p.first); if (i == d.mScalarValues.end()) bad("missing value " + p.first); if (i->second != p.second) bad("value of " + p.first); }
  for (auto& p : m.v) { auto i = d.scalarVectors.find(p.first); if (i == d.scalarVectors.end()) bad("missing vector " + p.first); if (from_view(i->second) != p.second) bad("vector " + p.first); }
  for (auto& p : m.m) { auto i = d.scalarMultiVectors.find(p.first); if (i == d.scalarMultiVectors.end()) bad("missing multivector " + p.first); if (from_view2(i->second) != p.second.second) bad("multivector " + p.first); }
  for (auto& p : m.t) { auto i = d.scalarArray3Ds.find(p.first); if (i == d.scalarArray3Ds.end()) bad("missing array " + p.first); if (from_view3(i->second) != p.second) bad("array " + p.first); }
}
void harness_episode(Sim& s) {
  Rng& w = s.w; Plato::DataMap dm; Model cur; std::vector<Model> saved; int steps = w.range(4, 40); static const char* names[] = {"stress", "strain", "energy", "vonmises", "flux", "temperature gradient"};
  for (int k = 0; k < steps; k++) {
    if (!s.step("datamap")) continue; Rng& r = s.w; std::string nm = names[r.below(6)];
    switch (r.below(11)) {
      case 0: { double x = r.value(); dm.mScalarValues[nm] = x; cur.sc[nm] = x; s.cover("record scalar"); break; }
      case 1: { Vec x = rand_vec(r, r.range(1, 9)); dm.scalarVectors[nm] = to_view(x); cur.v[nm] = x; s.cover("record vector"); break; }
      case 2: { int b = r.range(1, 6), n = r.range(1, 5); Vec x = rand_vec(r, n * b); dm.scalarMultiVectors[nm] = to_view2(x, n, b); cur.m[nm] = {b, x}; s.cover("record multivector"); break; }
      case 3: { int b = r.range(1, 3), c = r.range(1, 3), n = r.range(1, 4); Vec x = rand_vec(r, n * b * c); dm.scalarArray3Ds[nm] = to_view3(x, n, b, c); cur.t[nm] = x; s.cover("record array"); break; }
      case 4: case 5: case 6: {
        bool done = alloc_fault(s, 0.25, 40, [&] { dm.saveState(); }); if (done) saved.push_back(cur); s.cover(str("save %s saved=%s", done ? "ok" : "failed", szc((int)saved.size() + 1)));
        s.check(dm.stateDataMaps.size() == saved.size(), "count", str("%zu states are held after %zu saves", dm.stateDataMaps.size(), saved.size())); break; }
      case 10: { auto i = dm.scalarVectors.find(nm); if (i != dm.scalarVectors.end()) { int j = (int)r.below(i->second.size()); double x = r.value(); i->second(j) = x; cur.v[nm][j] = x; s.cover("vector overwritten in place"); }
        auto m = dm.scalarMultiVectors.find(nm); if (m != dm.scalarMultiVectors.end()) { int a = (int)r.below(m->second.extent(0)), b = (int)r.below(m->second.extent(1)); double x = r.value(); m->second(a, b) = x; cur.m[nm].second[(size_t)a * m->second.extent(1) + b] = x; s.cover("multivector overwritten in place"); }
        auto t = dm.scalarArray3Ds.find(nm); if (t != dm.scalarArray3Ds.end()) { int a = (int)r.below(t->second.extent(0)), b = (int)r.below(t->second.extent(1)), c = (int)r.below(t->second.extent(2)); double x = r.value(); t->second(a, b, c) = x; cur.t[nm][((size_t)a * t->second.extent(1) + b) * t->second.extent(2) + c] = x; s.cover("array overwritten in place"); } break; }
      case 7: { if (r.chance(0.5)) { dm.clearStates(); saved.clear(); s.check(dm.stateDataMaps.empty(), "clear", "states remain after clearing"); s.cover("clear"); } break; }
      default: {
        int i = r.range(-1, (int)saved.size() + 1); bool threw = false; Plato::DataMap got; try { got = dm.getState(i); } catch (const std::exception&) { threw = true; }
        if (saved.empty()) { if (threw) s.fail("fallback", "without saved states the current data is the state"); compare(s, got, cur, "state without saves"); s.cover("state without saves"); }
        else if (i < 0 || i >= (int)saved.size()) { s.check(threw, "range", str("state %d of %zu was returned", i, saved.size())); s.cover("state out of range"); }
        else { if (threw) s.fail("lost", str("saved state %d of %zu was refused", i, saved.size())); compare(s, got, saved[i], str("saved state %d of %zu", i, saved.size()).c_str()); s.check(got.stateDataMaps.empty(), "nested", "a state carries the saved states"); s.cover("saved state"); }
      }
    }
    if (r.chance(0.3)) { Plato::DataMap now = dm.getState(); compare(s, now, cur, "current state"); s.check(now.stateDataMaps.empty(), "nested", "the current state carries the saved states"); }
    for (size_t i = 0; i < saved.size(); i++) if (r.chance(0.2)) compare(s, dm.getState((int)i), saved[i], str("saved state %zu of %zu later on", i, saved.size()).c_str());
  }
  compare(s, dm.getState(), cur, "current state at the end");
  for (size_t i = 0; i < saved.size(); i++) compare(s, dm.getState((int)i), saved[i], str("saved state %zu of %zu at the end", i, saved.size()).c_str());
}
}
