/* Stand-in for the AmgX solver library and the few CUDA runtime calls its users make: the documented C interface, implemented by the
   simulator (psim_amgx.cpp) with an exact dense solve, life-cycle checking and injected failures. */
#pragma once
#include <stdio.h>
#include <cassert>
#include <sstream>
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { AMGX_RC_OK = 0, AMGX_RC_BAD_PARAMETERS = 1, AMGX_RC_UNKNOWN = 2, AMGX_RC_NOT_SUPPORTED_TARGET = 3, AMGX_RC_NOT_SUPPORTED_BLOCKSIZE = 4, AMGX_RC_CUDA_FAILURE = 5, AMGX_RC_THRUST_FAILURE = 6, AMGX_RC_NO_MEMORY = 7, AMGX_RC_IO_ERROR = 8, AMGX_RC_BAD_MODE = 9, AMGX_RC_CORE = 10, AMGX_RC_PLUGIN = 11, AMGX_RC_BAD_CONFIGURATION = 12, AMGX_RC_NOT_IMPLEMENTED = 13, AMGX_RC_LICENSE_NOT_FOUND = 14, AMGX_RC_INTERNAL = 15 } AMGX_RC;
typedef enum { AMGX_SOLVE_SUCCESS = 0, AMGX_SOLVE_FAILED = 1, AMGX_SOLVE_DIVERGED = 2, AMGX_SOLVE_NOT_CONVERGED = 2 } AMGX_SOLVE_STATUS;
typedef enum { AMGX_mode_hDDI = 8192, AMGX_mode_dDDI = 8193, AMGX_mode_dDFI = 8449, AMGX_mode_dFFI = 8465 } AMGX_Mode;
typedef struct AMGX_config_handle_struct { char x; }* AMGX_config_handle;
typedef struct AMGX_resources_handle_struct { char x; }* AMGX_resources_handle;
typedef struct AMGX_matrix_handle_struct { char x; }* AMGX_matrix_handle;
typedef struct AMGX_vector_handle_struct { char x; }* AMGX_vector_handle;
typedef struct AMGX_solver_handle_struct { char x; }* AMGX_solver_handle;
#define AMGX_API
AMGX_RC AMGX_initialize(); AMGX_RC AMGX_initialize_plugins(); AMGX_RC AMGX_finalize(); AMGX_RC AMGX_finalize_plugins(); AMGX_RC AMGX_install_signal_handler(); AMGX_RC AMGX_reset_signal_handler(); void AMGX_abort(AMGX_resources_handle, int);
AMGX_RC AMGX_get_error_string(AMGX_RC, char*, int); AMGX_RC AMGX_get_api_version(int*, int*);
AMGX_RC AMGX_config_create(AMGX_config_handle*, const char*); AMGX_RC AMGX_config_create_from_file(AMGX_config_handle*, const char*); AMGX_RC AMGX_config_add_parameters(AMGX_config_handle*, const char*); AMGX_RC AMGX_config_destroy(AMGX_config_handle);
AMGX_RC AMGX_resources_create(AMGX_resources_handle*, AMGX_config_handle, void*, int, const int*); AMGX_RC AMGX_resources_create_simple(AMGX_resources_handle*, AMGX_config_handle); AMGX_RC AMGX_resources_destroy(AMGX_resources_handle);
AMGX_RC AMGX_matrix_create(AMGX_matrix_handle*, AMGX_resources_handle, AMGX_Mode); AMGX_RC AMGX_matrix_destroy(AMGX_matrix_handle); AMGX_RC AMGX_matrix_upload_all(AMGX_matrix_handle, int, int, int, int, const int*, const int*, const void*, const void*); AMGX_RC AMGX_matrix_replace_coefficients(AMGX_matrix_handle, int, int, const void*, const void*); AMGX_RC AMGX_matrix_get_size(const AMGX_matrix_handle, int*, int*, int*);
AMGX_RC AMGX_vector_create(AMGX_vector_handle*, AMGX_resources_handle, AMGX_Mode); AMGX_RC AMGX_vector_destroy(AMGX_vector_handle); AMGX_RC AMGX_vector_upload(AMGX_vector_handle, int, int, const void*); AMGX_RC AMGX_vector_download(const AMGX_vector_handle, void*); AMGX_RC AMGX_vector_set_zero(AMGX_vector_handle, int, int); AMGX_RC AMGX_vector_bind(AMGX_vector_handle, const AMGX_matrix_handle); AMGX_RC AMGX_vector_get_size(const AMGX_vector_handle, int*, int*);
AMGX_RC AMGX_solver_create(AMGX_solver_handle*, AMGX_resources_handle, AMGX_Mode, const AMGX_config_handle); AMGX_RC AMGX_solver_destroy(AMGX_solver_handle); AMGX_RC AMGX_solver_setup(AMGX_solver_handle, AMGX_matrix_handle); AMGX_RC AMGX_solver_resetup(AMGX_solver_handle, AMGX_matrix_handle); AMGX_RC AMGX_solver_solve(AMGX_solver_handle, AMGX_vector_handle, AMGX_vector_handle); AMGX_RC AMGX_solver_solve_with_0_initial_guess(AMGX_solver_handle, AMGX_vector_handle, AMGX_vector_handle); AMGX_RC AMGX_solver_get_status(AMGX_solver_handle, AMGX_SOLVE_STATUS*); AMGX_RC AMGX_solver_get_iterations_number(AMGX_solver_handle, int*); AMGX_RC AMGX_solver_get_iteration_residual(AMGX_solver_handle, int, int, double*);
typedef int cudaError_t; enum { cudaSuccess = 0 };
cudaError_t cudaGetDevice(int*); cudaError_t cudaDeviceSynchronize();
#ifdef __cplusplus
}
#endif
#define AMGX_SAFE_CALL(rc) { AMGX_RC err; char msg[4096]; switch (err = (rc)) { case AMGX_RC_OK: break; default: fprintf(stderr, "AMGX ERROR: file %s line %6d\n", __FILE__, __LINE__); AMGX_get_error_string(err, msg, 4096); fprintf(stderr, "AMGX ERROR: %s\n", msg); AMGX_abort(NULL, 1); break; } }
