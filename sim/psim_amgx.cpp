// Simulated AmgX: objects with life cycles, exact dense solves, seeded errors, divergence and failure.
#include "psim.hpp"
#include "psim_int.hpp"
#include "psim_amgx.hpp"
#include "amgx/amgx_c.h"
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <algorithm>
namespace psim {
struct Rt { bool k; Rt() : k(inRt) { inRt = true; } ~Rt() { inRt = k; } };
enum AK { CONFIG, RESOURCES, MATRIX, VECTOR, SOLVER };
static const char* const akn[] = {"configuration", "resources", "matrix", "vector", "solver"};
struct Obj { char pad[8]; AK k; int id; Obj* parent; Obj* cfg; int n, nnz, b; std::vector<int> row, col; std::vector<double> v; Obj* mat; uint64_t ver, setup; int status; bool set; std::string text; };
static std::vector<Obj*>* objs; static int inits, plugins, nid; static double rErr, rDiv, rFail; static std::string* last; static uint64_t solves, errs, vers; static int lastStatus; static uint64_t nbad;
static std::string fmt(const char* f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
void amgx_reset() { Rt r; if (!objs) { objs = new std::vector<Obj*>; last = new std::string; } for (auto* o : *objs) delete o; objs->clear(); inits = plugins = nid = 0; rErr = rDiv = rFail = 0; last->clear(); solves = errs = vers = 0; lastStatus = 0; }
void amgx_rates(double e, double d, double f) { rErr = e; rDiv = d; rFail = f; }
int amgx_live() { return (int)objs->size(); } bool amgx_initialized() { return inits > 0; } std::string amgx_last_config() { return *last; } uint64_t amgx_solves() { return solves; } int amgx_last_status() { return lastStatus; } uint64_t amgx_errors() { return errs; } uint64_t amgx_badsolves() { return nbad; }
static Obj* get(void* h, AK k, const char* fn) { for (auto* o : *objs) if ((void*)o == h) { if (o->k != k) sim().fail("handle", fmt("%s: given a %s handle instead of a %s", fn, akn[o->k], akn[k])); return o; } sim().fail("handle", fmt("%s: the %s handle was never created or is destroyed", fn, akn[k])); }
static Obj* make(AK k, Obj* parent) { Obj* o = new Obj(); o->k = k; o->id = ++nid; o->parent = parent; o->cfg = o->mat = nullptr; o->n = o->nnz = o->b = 0; o->ver = o->setup = 0; o->status = AMGX_SOLVE_SUCCESS; o->set = false; objs->push_back(o); return o; }
static void drop(Obj* o, const char* fn) { for (auto* c : *objs) if (c->parent == o || c->cfg == o) sim().fail("handle", fmt("%s: a %s that a live %s depends on is destroyed", fn, akn[o->k], akn[c->k])); objs->erase(std::find(objs->begin(), objs->end(), o)); delete o; }
static void up(const char* fn) { if (!inits || !plugins) sim().fail("handle", fmt("%s: the library is not initialized", fn)); }
static bool err(const char* fn) { if (rErr > 0 && sim().fault(F_SOLVER_ERR, rErr)) { errs++; (void)fn; return true; } return false; }
static void bytes(const void* p, size_t n, bool w) { bool k = inRt; inRt = false; for (size_t o = 0; o < n; o += 8) heap_check((uintptr_t)p + o, (unsigned)std::min<size_t>(8, n - o), w); inRt = k; }
// a small JSON reader: syntax and scalar values by path
struct J { const std::string& t; size_t i = 0; std::vector<std::pair<std::string, std::string>>* kv; bool bad = false; void ws() { while (i < t.size() && strchr(" \t\r\n", t[i])) i++; }
  std::string str() { std::string s; if (i >= t.size() || t[i] != '"') { bad = true; return s; } i++; while (i < t.size() && t[i] != '"') { if (t[i] == '\n') { bad = true; return s; } if (t[i] == '\\') i++; s += t[i++]; } if (i >= t.size()) bad = true; i++; return s; }
  void value(const std::string& path) { ws(); if (bad || i >= t.size()) { bad = true; return; }
    if (t[i] == '{') { i++; ws(); if (i < t.size() && t[i] == '}') { i++; return; } for (;;) { ws(); std::string k = str(); ws(); if (bad || i >= t.size() || t[i] != ':') { bad = true; return; } i++; value(path.empty() ? k : path + "/" + k); ws(); if (bad || i >= t.size()) { bad = true; return; } if (t[i] == ',') { i++; continue; } if (t[i] == '}') { i++; return; } bad = true; return; } }
    if (t[i] == '[') { i++; ws(); if (i < t.size() && t[i] == ']') { i++; return; } for (int n = 0;; n++) { value(path + "/" + std::to_string(n)); ws(); if (bad || i >= t.size()) { bad = true; return; } if (t[i] == ',') { i++; continue; } if (t[i] == ']') { i++; return; } bad = true; return; } }
    if (t[i] == '"') { std::string s = str(); if (!bad && kv) kv->push_back({path, "\"" + s}); return; }
    size_t b = i; while (i < t.size() && !strchr(",}] \t\r\n", t[i])) i++; std::string s = t.substr(b, i - b); if (s != "true" && s != "false" && s != "null") { char* e; strtod(s.c_str(), &e); if (s.empty() || *e || strchr("inIN", s[0] == '-' ? s[1] : s[0])) { bad = true; return; } } if (kv) kv->push_back({path, s}); } };
bool json_ok(const std::string& t, std::string* why, std::vector<std::pair<std::string, std::string>>* kv) { Rt r; J j{t, 0, kv}; j.ws(); if (j.i >= t.size() || t[j.i] != '{') { if (why) *why = "not an object"; return false; } j.value(""); j.ws(); if (j.bad || j.i != t.size()) { if (why) *why = fmt("malformed near character %zu", j.i); return false; } return true; }
}
using namespace psim;
static AMGX_RC misuse(const char* fn) { sim().fail("misuse", fmt("%s: called with arguments the solver library rejects", fn)); }
#define GO(fn) const char* fn_ = fn; (void)fn_; Rt rt_; up(fn); if (err(fn)) return AMGX_RC_NO_MEMORY
extern "C" {
AMGX_RC AMGX_initialize() { inits++; return AMGX_RC_OK; } AMGX_RC AMGX_initialize_plugins() { if (!inits) sim().fail("handle", "plugins initialized before the library"); plugins++; return AMGX_RC_OK; }
AMGX_RC AMGX_finalize_plugins() { if (!plugins) sim().fail("handle", "plugins finalized twice"); plugins--; return AMGX_RC_OK; }
AMGX_RC AMGX_finalize() { if (!inits) sim().fail("handle", "library finalized twice"); if (plugins >= inits) sim().fail("handle", "library finalized before its plugins"); if (inits == 1 && !objs->empty()) sim().fail("handle", fmt("library finalized while a %s is alive", akn[objs->front()->k])); inits--; return AMGX_RC_OK; }
AMGX_RC AMGX_install_signal_handler() { return AMGX_RC_OK; } AMGX_RC AMGX_reset_signal_handler() { return AMGX_RC_OK; }
void AMGX_abort(AMGX_resources_handle, int) { throw SolverAbort(); }
AMGX_RC AMGX_get_error_string(AMGX_RC, char* m, int n) { snprintf(m, n, "simulated error"); return AMGX_RC_OK; }
AMGX_RC AMGX_get_api_version(int* a, int* b) { *a = 2; *b = 0; return AMGX_RC_OK; }
AMGX_RC AMGX_config_create(AMGX_config_handle* h, const char* t) { GO("config_create"); std::string s(t), w; size_t i = s.find_first_not_of(" \t\r\n"); if (i != std::string::npos && s[i] == '{' && !json_ok(s, &w)) { errs++; return AMGX_RC_BAD_CONFIGURATION; } Obj* o = make(CONFIG, nullptr); o->text = s; *last = s; *h = (AMGX_config_handle)o; return AMGX_RC_OK; }
AMGX_RC AMGX_config_create_from_file(AMGX_config_handle* h, const char* p) { std::string s; { Rt r; if (!fs_get(p, &s)) return AMGX_RC_IO_ERROR; } return AMGX_config_create(h, s.c_str()); }
AMGX_RC AMGX_config_add_parameters(AMGX_config_handle* h, const char* t) { GO("config_add_parameters"); Obj* o = get(*h, CONFIG, "config_add_parameters"); o->text += std::string("\n") + t; *last = o->text; return AMGX_RC_OK; }
AMGX_RC AMGX_config_destroy(AMGX_config_handle h) { Rt r; up("config_destroy"); drop(get(h, CONFIG, "config_destroy"), "config_destroy"); return AMGX_RC_OK; }
AMGX_RC AMGX_resources_create(AMGX_resources_handle* h, AMGX_config_handle c, void*, int nd, const int* d) { GO("resources_create"); Obj* cf = get(c, CONFIG, "resources_create"); if (nd != 1 || d[0] != 0) sim().fail("device", "resources created on a device that is not the current one"); Obj* o = make(RESOURCES, nullptr); o->cfg = cf; *h = (AMGX_resources_handle)o; return AMGX_RC_OK; }
AMGX_RC AMGX_resources_create_simple(AMGX_resources_handle* h, AMGX_config_handle c) { int d = 0; return AMGX_resources_create(h, c, nullptr, 1, &d); }
AMGX_RC AMGX_resources_destroy(AMGX_resources_handle h) { Rt r; up("resources_destroy"); drop(get(h, RESOURCES, "resources_destroy"), "resources_destroy"); return AMGX_RC_OK; }
AMGX_RC AMGX_matrix_create(AMGX_matrix_handle* h, AMGX_resources_handle r, AMGX_Mode m) { GO("matrix_create"); Obj* p = get(r, RESOURCES, "matrix_create"); if (m != AMGX_mode_dDDI) return AMGX_RC_BAD_MODE; *h = (AMGX_matrix_handle)make(MATRIX, p); return AMGX_RC_OK; }
AMGX_RC AMGX_matrix_destroy(AMGX_matrix_handle h) { Rt r; up("matrix_destroy"); Obj* o = get(h, MATRIX, "matrix_destroy"); for (auto* x : *objs) if (x->mat == o) x->mat = nullptr; drop(o, "matrix_destroy"); return AMGX_RC_OK; }
AMGX_RC AMGX_matrix_upload_all(AMGX_matrix_handle h, int n, int nnz, int bx, int by, const int* rp, const int* ci, const void* d, const void* diag) { GO("matrix_upload_all"); Obj* o = get(h, MATRIX, "matrix_upload_all"); if (n <= 0 || nnz < 0 || bx != by || bx < 1 || diag) return misuse(fn_);
  bytes(rp, sizeof(int) * (n + 1), false); bytes(ci, sizeof(int) * nnz, false); bytes(d, sizeof(double) * nnz * bx * by, false); if (rp[n] != nnz || rp[0] != 0) return misuse(fn_); for (int i = 0; i < n; i++) if (rp[i] > rp[i + 1]) return misuse(fn_); for (int i = 0; i < nnz; i++) if (ci[i] < 0 || ci[i] >= n) return misuse(fn_);
  o->n = n; o->nnz = nnz; o->b = bx; o->row.assign(rp, rp + n + 1); o->col.assign(ci, ci + nnz); o->v.assign((const double*)d, (const double*)d + (size_t)nnz * bx * by); o->set = true; o->ver = ++vers; return AMGX_RC_OK; }
AMGX_RC AMGX_matrix_replace_coefficients(AMGX_matrix_handle h, int n, int nnz, const void* d, const void* diag) { GO("matrix_replace"); Obj* o = get(h, MATRIX, "matrix_replace"); if (!o->set || n != o->n || nnz != o->nnz || diag) return misuse(fn_); bytes(d, sizeof(double) * nnz * o->b * o->b, false); o->v.assign((const double*)d, (const double*)d + (size_t)nnz * o->b * o->b); o->ver = ++vers; return AMGX_RC_OK; }
AMGX_RC AMGX_matrix_get_size(const AMGX_matrix_handle h, int* n, int* bx, int* by) { Rt r; Obj* o = get(h, MATRIX, "matrix_get_size"); *n = o->n; *bx = *by = o->b; return AMGX_RC_OK; }
AMGX_RC AMGX_vector_create(AMGX_vector_handle* h, AMGX_resources_handle r, AMGX_Mode m) { GO("vector_create"); Obj* p = get(r, RESOURCES, "vector_create"); if (m != AMGX_mode_dDDI) return AMGX_RC_BAD_MODE; *h = (AMGX_vector_handle)make(VECTOR, p); return AMGX_RC_OK; }
AMGX_RC AMGX_vector_destroy(AMGX_vector_handle h) { Rt r; up("vector_destroy"); drop(get(h, VECTOR, "vector_destroy"), "vector_destroy"); return AMGX_RC_OK; }
AMGX_RC AMGX_vector_upload(AMGX_vector_handle h, int n, int b, const void* d) { GO("vector_upload"); Obj* o = get(h, VECTOR, "vector_upload"); if (n <= 0 || b < 1) return misuse(fn_); bytes(d, sizeof(double) * n * b, false); o->n = n; o->b = b; o->v.assign((const double*)d, (const double*)d + (size_t)n * b); o->set = true; return AMGX_RC_OK; }
AMGX_RC AMGX_vector_download(const AMGX_vector_handle h, void* d) { GO("vector_download"); Obj* o = get(h, VECTOR, "vector_download"); if (!o->set) return misuse(fn_); bytes(d, sizeof(double) * o->v.size(), true); memcpy(d, o->v.data(), sizeof(double) * o->v.size()); return AMGX_RC_OK; }
AMGX_RC AMGX_vector_set_zero(AMGX_vector_handle h, int n, int b) { GO("vector_set_zero"); Obj* o = get(h, VECTOR, "vector_set_zero"); o->n = n; o->b = b; o->v.assign((size_t)n * b, 0.0); o->set = true; return AMGX_RC_OK; }
AMGX_RC AMGX_vector_bind(AMGX_vector_handle h, const AMGX_matrix_handle m) { Rt r; get(h, VECTOR, "vector_bind"); get(m, MATRIX, "vector_bind"); return AMGX_RC_OK; }
AMGX_RC AMGX_vector_get_size(const AMGX_vector_handle h, int* n, int* b) { Rt r; Obj* o = get(h, VECTOR, "vector_get_size"); *n = o->n; *b = o->b; return AMGX_RC_OK; }
AMGX_RC AMGX_solver_create(AMGX_solver_handle* h, AMGX_resources_handle r, AMGX_Mode m, const AMGX_config_handle c) { GO("solver_create"); Obj* p = get(r, RESOURCES, "solver_create"); Obj* cf = get(c, CONFIG, "solver_create"); if (m != AMGX_mode_dDDI) return AMGX_RC_BAD_MODE; Obj* o = make(SOLVER, p); o->cfg = cf; *h = (AMGX_solver_handle)o; return AMGX_RC_OK; }
AMGX_RC AMGX_solver_destroy(AMGX_solver_handle h) { Rt r; up("solver_destroy"); drop(get(h, SOLVER, "solver_destroy"), "solver_destroy"); return AMGX_RC_OK; }
AMGX_RC AMGX_solver_setup(AMGX_solver_handle h, AMGX_matrix_handle m) { GO("solver_setup"); Obj* o = get(h, SOLVER, "solver_setup"); Obj* a = get(m, MATRIX, "solver_setup"); if (!a->set) return misuse(fn_); o->mat = a; o->setup = a->ver; return AMGX_RC_OK; }
AMGX_RC AMGX_solver_resetup(AMGX_solver_handle h, AMGX_matrix_handle m) { return AMGX_solver_setup(h, m); }
static AMGX_RC solve(AMGX_solver_handle h, AMGX_vector_handle bh, AMGX_vector_handle xh) { const char* fn_ = "solver_solve";
  Obj* o = get(h, SOLVER, "solver_solve"); Obj* b = get(bh, VECTOR, "solver_solve"); Obj* x = get(xh, VECTOR, "solver_solve"); if (!o->mat) return misuse(fn_); Obj* a = o->mat; if (o->setup != a->ver) sim().fail("setup", "a matrix is solved with that was uploaded after the solver was set up");
  int n = a->n * a->b, B = a->b; if (!b->set || (int)b->v.size() != n || b->b != B || !x->set || (int)x->v.size() != n || x->b != B) return misuse(fn_); solves++;
  if (rFail > 0 && sim().fault(F_SOLVER_FAIL, rFail)) { nbad++; o->status = lastStatus = AMGX_SOLVE_FAILED; for (auto& q : x->v) q = 1e30; return AMGX_RC_OK; }
  if (rDiv > 0 && sim().fault(F_SOLVER_DIVERGE, rDiv)) { nbad++; o->status = lastStatus = AMGX_SOLVE_DIVERGED; for (size_t i = 0; i < x->v.size(); i++) x->v[i] = 3.0 + (double)i; return AMGX_RC_OK; }
  std::vector<double> M((size_t)n * n, 0.0), r(b->v); for (int i = 0; i < a->n; i++) for (int k = a->row[i]; k < a->row[i + 1]; k++) for (int p = 0; p < B; p++) for (int q = 0; q < B; q++) M[(size_t)(i * B + p) * n + a->col[k] * B + q] += a->v[(size_t)k * B * B + p * B + q];
  std::vector<double> rowmax(n, 0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) rowmax[i] = std::max(rowmax[i], std::fabs(M[(size_t)i * n + j]));
  bool sing = false; for (int k = 0; k < n && !sing; k++) { int p = -1; double best = 0; for (int i = k; i < n; i++) if (rowmax[i] > 0 && std::fabs(M[(size_t)i * n + k]) / rowmax[i] > best) { best = std::fabs(M[(size_t)i * n + k]) / rowmax[i]; p = i; } if (p < 0 || best < 1e-14) { sing = true; break; } if (p != k) { for (int j = 0; j < n; j++) std::swap(M[(size_t)p * n + j], M[(size_t)k * n + j]); std::swap(r[p], r[k]); std::swap(rowmax[p], rowmax[k]); }
    for (int i = k + 1; i < n; i++) { double f = M[(size_t)i * n + k] / M[(size_t)k * n + k]; if (f == 0) continue; for (int j = k; j < n; j++) M[(size_t)i * n + j] -= f * M[(size_t)k * n + j]; r[i] -= f * r[k]; } }
  if (sing) { o->status = lastStatus = AMGX_SOLVE_FAILED; return AMGX_RC_OK; }
  for (int i = n - 1; i >= 0; i--) { double t = r[i]; for (int j = i + 1; j < n; j++) t -= M[(size_t)i * n + j] * r[j]; r[i] = t / M[(size_t)i * n + i]; } x->v = r; o->status = lastStatus = AMGX_SOLVE_SUCCESS; return AMGX_RC_OK; }
AMGX_RC AMGX_solver_solve(AMGX_solver_handle h, AMGX_vector_handle b, AMGX_vector_handle x) { GO("solver_solve"); return solve(h, b, x); }
AMGX_RC AMGX_solver_solve_with_0_initial_guess(AMGX_solver_handle h, AMGX_vector_handle b, AMGX_vector_handle x) { GO("solver_solve"); return solve(h, b, x); }
AMGX_RC AMGX_solver_get_status(AMGX_solver_handle h, AMGX_SOLVE_STATUS* s) { GO("solver_get_status"); *s = (AMGX_SOLVE_STATUS)get(h, SOLVER, "solver_get_status")->status; return AMGX_RC_OK; }
AMGX_RC AMGX_solver_get_iterations_number(AMGX_solver_handle, int* n) { *n = 1; return AMGX_RC_OK; } AMGX_RC AMGX_solver_get_iteration_residual(AMGX_solver_handle, int, int, double* r) { *r = 0; return AMGX_RC_OK; }
cudaError_t cudaGetDevice(int* d) { *d = 0; return cudaSuccess; } cudaError_t cudaDeviceSynchronize() { return cudaSuccess; }
}
