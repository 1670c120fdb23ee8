#include "p10_ops.hpp"
namespace psim {
void sens_e3(Sim& s) { if (s.w.chance(0.5)) with<OpPlast<3, Plato::SimplexPlasticity<3>, 4>, 4>(s); else with<OpPlast<3, Plato::SimplexThermoPlasticity<3>, 5>, 4>(s); }
}
