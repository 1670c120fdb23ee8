#include "p10_ops.hpp"
namespace psim {
template <int D> void sens_d(Sim& s) { if (s.w.chance(0.1)) layouts<D>(s); switch (s.w.below(4)) { case 0: with<OpGeo<D>, 3>(s); break; case 1: with<OpProj<D>, 4>(s); break; default: with<OpHyp<D>, 2>(s); } }
template void sens_d<1>(Sim&); template void sens_d<2>(Sim&); template void sens_d<3>(Sim&);
}
