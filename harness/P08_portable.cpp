// Dynamic matrices, portable code path
// @bounds every shape with 1..3 rows and columns (4 in thorough); elements any real in [-100, 100]; float, double and complex double
// @outside rounding; empty matrices
// @config UM2_USE_BLAS_LAPACK=0
#include "p08.inc"
// @entry h_pe_d mode=real
extern "C" void h_pe_d() { elementwise<double>(); }
// @entry h_pe_f mode=real
extern "C" void h_pe_f() { elementwise<float>(); }
// @entry h_pe_z mode=real
extern "C" void h_pe_z() { elementwise<Complex<double>>(); }
// @entry h_pp_d mode=real
extern "C" void h_pp_d() { products<double>(); }
// @entry h_pp_f mode=real
extern "C" void h_pp_f() { products<float>(); }
// @entry h_pp_z mode=real
extern "C" void h_pp_z() { products<Complex<double>>(); }
