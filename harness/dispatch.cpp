// Client of the public factory interface, analysed (never run) together with the common unit.
#include "otfft.h"
#include <type_traits>
using namespace OTFFT;
extern "C" {
void* h_create_ComplexFFT(int n, OptimizationType t) { return Factory::createComplexFFT(n, t).release(); }
void* h_create_RealFFT(int n, OptimizationType t) { return Factory::createRealFFT(n, t).release(); }
void* h_create_DCT(int n, OptimizationType t) { return Factory::createDCT(n, t).release(); }
void* h_create_BluesteinFFT(int n, OptimizationType t) { return Factory::createBluesteinFFT(n, t).release(); }
// default arguments
void* h_auto_ComplexFFT(int n) { return Factory::createComplexFFT(n).release(); }
void* h_auto_RealFFT(int n) { return Factory::createRealFFT(n).release(); }
void* h_auto_DCT(int n) { return Factory::createDCT(n).release(); }
void* h_auto_BluesteinFFT(int n) { return Factory::createBluesteinFFT(n).release(); }
// destruction through the public pointer types
void h_delete_ComplexFFT(ComplexFFT* p) { ComplexFFTPtr q(p); }
void h_delete_RealFFT(RealFFT* p) { RealFFTPtr q(p); }
void h_delete_RealDCT(RealDCT* p) { RealDCTPtr q(p); }
int h_opt_AUTO() { return (int)OptimizationType::OPTIMIZED_FFT_AUTO; }
#ifdef OTFFT_WITH_SSE2
int h_opt_SSE2() { return (int)OptimizationType::OPTIMIZED_FFT_SSE2; }
#endif
#ifdef OTFFT_WITH_AVX
int h_opt_AVX() { return (int)OptimizationType::OPTIMIZED_FFT_AVX; }
#endif
#ifdef OTFFT_WITH_AVX2
int h_opt_AVX2() { return (int)OptimizationType::OPTIMIZED_FFT_AVX2; }
#endif
int h_vdtor_ComplexFFT() { return __has_virtual_destructor(ComplexFFT); }
int h_vdtor_RealFFT() { return __has_virtual_destructor(RealFFT); }
int h_copyable() { return std::is_copy_constructible<simd_array<complex_t>>::value + std::is_copy_assignable<simd_array<complex_t>>::value; }
int h_vdtor_RealDCT() { return __has_virtual_destructor(RealDCT); }
}
