#include "psim_int.hpp"
namespace psim { FILE* real_fopen(const char* p, const char* m) { return fopen(p, m); } int real_fclose(FILE* f) { return fclose(f); } }
