// Sensitivities: every evaluation type of the framework gives the value of the plain evaluation and the exact rate of change of it
// with respect to the unknowns it differentiates, for every schedule of the cells and whatever the worksets held before.
#include "cells.hpp"
namespace psim {
const HarnessInfo harness = {"P10", "", ""};
void kokkos_init();
void harness_init() { kokkos_init(); vary_units = false; }
int harness_episodes(Rng& r) { return 1 + (int)r.below(2); }
template <int D> void sens_a(Sim&); template <int D> void sens_b(Sim&); template <int D> void sens_c(Sim&); template <int D> void sens_d(Sim&); void sens_e2(Sim&); void sens_e3(Sim&);
void harness_episode(Sim& s) {
  int steps = s.w.range(1, 3);
  for (int k = 0; k < steps; k++) { if (!s.step("evaluation")) continue;
    switch (s.w.below(14)) { case 0: sens_a<1>(s); break; case 1: sens_a<2>(s); break; case 2: sens_a<3>(s); break; case 3: case 4: sens_b<2>(s); break; case 5: sens_b<3>(s); break; case 6: sens_c<1>(s); break; case 7: sens_c<2>(s); break; case 8: sens_c<3>(s); break; case 9: sens_d<1>(s); break; case 10: sens_d<2>(s); break; case 11: sens_d<3>(s); break; case 12: sens_e2(s); break; default: sens_e3(s); } }
}
}
