#include "p10_ops.hpp"
namespace psim {
template <int D> void sens_b(Sim& s) { switch (s.w.below(3)) { case 0: with<OpTM<D>, 1>(s); break; case 1: with<OpTherm<D>, 1>(s); break; default: with<OpTM<D>, 0>(s); } }
template void sens_b<2>(Sim&); template void sens_b<3>(Sim&);
}
