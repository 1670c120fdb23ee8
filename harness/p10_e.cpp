#include "p10_ops.hpp"
namespace psim {
void sens_e2(Sim& s) { if (s.w.chance(0.5)) with<OpPlast<2, Plato::SimplexPlasticity<2>, 3>, 4>(s); else with<OpPlast<2, Plato::SimplexThermoPlasticity<2>, 4>, 4>(s); }
}
