#include <Kokkos_Core.hpp>
namespace psim { void kokkos_init() { Kokkos::InitArguments a; a.disable_warnings = true; Kokkos::initialize(a); } }
