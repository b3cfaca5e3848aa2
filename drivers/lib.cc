// Analysis drivers: use the library through its public headers only.  Never run.
#include <vector>
#include <string>
#include "common.hh"
#include "fftwconvolver.hh"
#include "poisson_pmf.hh"
#include "ecdf2.hh"
#include "ecdf1_new.hh"
#include "ecdf1_mns2016.hh"
#include "string_utils.hh"
#include "read_boundaries_file.hh"

void drv_convolve_direct(int size, const double* src0, const double* src1, double* dest)
{
    convolve_same_size(size, src0, src1, dest);
}

void drv_convolve_fft(int capacity, int size, const double* src0, const double* src1, double* dest)
{
    FFTWConvolver c(capacity);
    c.convolve_same_size(size, src0, src1, dest);
}

void drv_convolve_fft_twice(int capacity, int size0, int size, const double* h0, const double* h1, double* hdest, const double* src0, const double* src1, double* dest)
{
    FFTWConvolver c(capacity);
    c.convolve_same_size(size0, h0, h1, hdest);
    c.convolve_same_size(size, src0, src1, dest);
}

double drv_poisson_pmf(double lambda, int k)
{
    return poisson_pmf(lambda, k);
}

double drv_pmfgen_evaluate(int max_k, double lambda, int k)
{
    PoissonPMFGenerator g(max_k);
    return g.evaluate_pmf(lambda, k);
}

void drv_pmfgen_array(int max_k, int k, double lambda, double* out)
{
    PoissonPMFGenerator g(max_k);
    g.compute_array(k, lambda);
    const double* a = g.get_array();
    for (int i = 0; i <= k; ++i) {
        out[i] = a[i];
    }
}

void drv_check(const std::string& name, int n, const std::vector<double>& v)
{
    check_boundary_vector(name, n, v);
}

void drv_convolve_direct_square(int size, const double* src, double* dest)
{
    convolve_same_size(size, src, src, dest);
}

void drv_convolve_fft_square(int capacity, int size, const double* src, double* dest)
{
    FFTWConvolver c(capacity);
    c.convolve_same_size(size, src, src, dest);
}

// the same arrays hold other values the second time
void drv_convolve_fft_again(int capacity, int size0, int size, double* a, double* b, double* dest, const double* a2, const double* b2)
{
    FFTWConvolver c(capacity);
    c.convolve_same_size(size0, a, b, dest);
    for (int i = 0; i < size; ++i) {
        a[i] = a2[i];
    }
    for (int i = 0; i < size; ++i) {
        b[i] = b2[i];
    }
    c.convolve_same_size(size, a, b, dest);
}

void drv_convolve_fft_thrice(int capacity, int size0, int size1, int size, const double* h0, const double* h1, double* hdest, const double* g0, const double* g1, double* gdest, const double* src0, const double* src1, double* dest)
{
    FFTWConvolver c(capacity);
    c.convolve_same_size(size0, h0, h1, hdest);
    c.convolve_same_size(size1, g0, g1, gdest);
    c.convolve_same_size(size, src0, src1, dest);
}

void drv_pmfgen_array_twice(int max_k, int k0, double lambda0, int k, double lambda, double* out)
{
    PoissonPMFGenerator g(max_k);
    g.compute_array(k0, lambda0);
    g.compute_array(k, lambda);
    const double* a = g.get_array();
    for (int i = 0; i <= k; ++i) {
        out[i] = a[i];
    }
}

double drv_pmfgen_evaluate_twice(int max_k, int k0, double lambda0, int k1, double lambda1, double lambda, int k)
{
    PoissonPMFGenerator g(max_k);
    g.compute_array(k0, lambda0);
    g.evaluate_pmf(lambda1, k1);
    return g.evaluate_pmf(lambda, k);
}

void drv_pmfgen_array_thrice(int max_k, int k0, double lambda0, int k1, double lambda1, int k, double lambda, double* out)
{
    PoissonPMFGenerator g(max_k);
    g.compute_array(k0, lambda0);
    g.compute_array(k1, lambda1);
    g.compute_array(k, lambda);
    const double* a = g.get_array();
    for (int i = 0; i <= k; ++i) {
        out[i] = a[i];
    }
}
