#include "p10_ops.hpp"
namespace psim {
template <int D> void sens_a(Sim& s) { switch (s.w.below(3)) { case 0: with<OpStab<D>, 0>(s); break; case 1: with<OpStab<D>, 4>(s); break; default: with<OpEM<D>, 0>(s); } }
template void sens_a<1>(Sim&); template void sens_a<2>(Sim&); template void sens_a<3>(Sim&);
}
