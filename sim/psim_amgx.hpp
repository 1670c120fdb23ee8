// The simulated solver library's controls.
#pragma once
#include <string>
#include <stdexcept>
namespace psim {
struct SolverAbort : std::runtime_error { SolverAbort() : std::runtime_error("the process was ended by the solver library") {} };
void amgx_reset();                                        // a fresh process
void amgx_rates(double error, double diverge, double fail);   // per call / per solve
int amgx_live(); bool amgx_initialized();                 // objects not destroyed yet
std::string amgx_last_config();                           // text of the configuration accepted last
uint64_t amgx_solves(); int amgx_last_status(); uint64_t amgx_errors(); uint64_t amgx_badsolves();   // solves done; status of the last; errors returned since reset
bool json_ok(const std::string& t, std::string* why = nullptr, std::vector<std::pair<std::string, std::string>>* kv = nullptr);   // kv: path -> scalar text
}
