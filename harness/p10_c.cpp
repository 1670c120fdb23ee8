#include "p10_ops.hpp"
namespace psim {
template <int D> void sens_c(Sim& s) { switch (s.w.below(2)) { case 0: with<OpSTM<D>, 4>(s); break; default: with<OpDyn<D>, 0>(s); } }
template void sens_c<1>(Sim&); template void sens_c<2>(Sim&); template void sens_c<3>(Sim&);
}
