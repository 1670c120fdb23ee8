#include "Omega_h_sim.hpp"
