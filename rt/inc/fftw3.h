// FFTW interface; the transform itself is the textbook DFT (rt/src/fftw.cpp).
#pragma once
#include <cstddef>
typedef double fftw_complex[2];
typedef float fftwf_complex[2];
struct hs_fftplan { int n, sign; double *a; };
struct hs_fftfplan { int n, sign; float *a; };
typedef hs_fftplan *fftw_plan;
typedef hs_fftfplan *fftwf_plan;
#define FFTW_FORWARD (-1)
#define FFTW_BACKWARD (+1)
#define FFTW_ESTIMATE 64
#define FFTW_MEASURE 0
extern "C" {
void *fftw_malloc(size_t);
void fftw_free(void *);
void *fftwf_malloc(size_t);
void fftwf_free(void *);
fftw_plan fftw_plan_dft_1d(int, fftw_complex *, fftw_complex *, int, unsigned);
fftwf_plan fftwf_plan_dft_1d(int, fftwf_complex *, fftwf_complex *, int, unsigned);
void fftw_execute(fftw_plan);
void fftwf_execute(fftwf_plan);
void fftw_destroy_plan(fftw_plan);
void fftwf_destroy_plan(fftwf_plan);
}
