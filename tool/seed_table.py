N = 'src/ecdf1_new.cc'; E2 = 'src/ecdf2.cc'; MN = 'src/ecdf1_mns2016.cc'; F = 'src/fftwconvolver.cc'; PP = 'src/poisson_pmf.cc'; C = 'src/common.cc'
REF = r'''
#include <vector>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <stdexcept>
#include "common.hh"
#include "ecdf1_new.hh"
#include "ecdf1_mns2016.hh"
#include "ecdf2.hh"
#include "fftwconvolver.hh"
#include "poisson_pmf.hh"
using namespace std;
typedef vector<double> V;
static double pois(double l, int k) { return l == 0 ? (k == 0) : exp(-l + k*log(l) - lgamma(k+1.0)); }
// P(b_i <= X_(i) <= B_i for all i), straight from the definition: count process at the sorted bounds
static double ref(const V& b, const V& B) {
    int n = b.size(); vector<double> pts(b); pts.insert(pts.end(), B.begin(), B.end()); pts.push_back(1.0); sort(pts.begin(), pts.end());
    V S(n+1, 0.0); S[0] = 1; double prev = 0;
    for (size_t q = 0; q < pts.size(); ++q) {
        double l = n*(pts[q]-prev); V T(n+1, 0.0);
        for (int j = 0; j <= n; ++j) for (int i = 0; i <= j; ++i) T[j] += S[i]*pois(l, j-i);
        int lo = 0, hi = 0;                     // at least #{B_i <= t}, at most #{b_i < t} points so far
        for (int i = 0; i < n; ++i) { if (B[i] <= pts[q]) lo = i+1; if (b[i] < pts[q]) hi = i+1; }
        for (int j = 0; j <= n; ++j) if (j < lo || j > hi) T[j] = 0;
        S = T; prev = pts[q];
    }
    return S[n]/pois(n, n);
}
static double refB(const V& B) { return ref(V(B.size(), 0.0), B); }
static double refb(const V& b) { return ref(b, V(b.size(), 1.0)); }
static int bad = 0;
static void same(const char* what, double got, double want, double tol = 1e-6) {
    if (!(fabs(got-want) <= tol*(1e-3+fabs(want)))) { printf("%s: got %.12g, want %.12g\n", what, got, want); bad = 1; }
}
static unsigned long long st = 88172645463325252ULL;
static double rnd() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return (st >> 11) * (1.0/9007199254740992.0); }
static V srt(int n) { V v(n); for (int i = 0; i < n; ++i) v[i] = rnd(); sort(v.begin(), v.end()); return v; }
static V lift(V v, double p) { for (size_t i = 0; i < v.size(); ++i) v[i] = pow(v[i], p); return v; }
static V conv(const V& a, const V& b) { V r(a.size(), 0.0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j <= i; ++j) r[i] += a[j]*b[i-j]; return r; }
'''
ASAN = '-O1 -fsanitize=address,undefined -fno-sanitize-recover=all'
seed('C12-pad-exact', 'C12', [(F, 'int padded_size = round_up(2*size, ROUNDING);', 'int padded_size = round_up(2*(size-1), ROUNDING); // the last index of the product is 2*size-2')],
     'The padding is one element short when 2*(size-1) is a multiple of the rounding, so the last product term wraps around into the first output.',
     'an FFT convolution whose size is one more than a multiple of 1024',
     cc=REF + '''
int main() { int n = 1025; FFTWConvolver c(n); V a(n), b(n), d(n); for (int i = 0; i < n; ++i) { a[i] = rnd(); b[i] = rnd(); }
  c.convolve_same_size(n, &a[0], &b[0], &d[0]); V w = conv(a, b); for (int i = 0; i < n; ++i) same("element", d[i], w[i]); return bad; }
''')
seed('C12-stale-padding', 'C12', [(F, '    memset(&dest[src_size], 0, sizeof(T)*(dest_size-src_size));', '    memset(&dest[src_size], 0, sizeof(T)*min(src_size, dest_size-src_size));')],
     'Only as much padding as there is input is cleared, so values of an earlier, larger convolution remain beyond it and wrap around.',
     'one convolver object used with a large size and then with a much smaller one that still takes the FFT branch',
     cc=REF + '''
int main() { int n = 2000; FFTWConvolver c(n); V a(n), b(n), d(n); for (int i = 0; i < n; ++i) { a[i] = rnd(); b[i] = rnd(); }
  c.convolve_same_size(n, &a[0], &b[0], &d[0]); int m = 300; V a2(a.begin(), a.begin()+m), b2(b.begin(), b.begin()+m);
  c.convolve_same_size(m, &a2[0], &b2[0], &d[0]); V w = conv(a2, b2); for (int i = 0; i < m; ++i) same("element", d[i], w[i]); return bad; }
''')
seed('C05-padding-large', 'C05', [(F, '    memset(&dest[src_size], 0, sizeof(T)*(dest_size-src_size));', '    if (dest_size > 2*ROUNDING) {\n        memset(&dest[src_size], 0, sizeof(T)*(dest_size/2-src_size));\n    } else {\n        memset(&dest[src_size], 0, sizeof(T)*(dest_size-src_size));\n    }')],
     'For transforms of more than 4096 points the upper half of the padding is never written, so the result contains leftover memory contents.',
     'a convolution of more than 2048 elements whose input buffer held other data before',
     cc=REF + '''
#include <malloc.h>
int main() { int n = 3400; FFTWConvolver c(n); V a(n), b(n), d(n); for (int i = 0; i < n; ++i) { a[i] = rnd(); b[i] = rnd(); }
  c.convolve_same_size(n, &a[0], &b[0], &d[0]); int m = 2100; V a2(a.begin(), a.begin()+m), b2(b.begin(), b.begin()+m);
  c.convolve_same_size(m, &a2[0], &b2[0], &d[0]); V w = conv(a2, b2); for (int i = 0; i < m; ++i) same("element", d[i], w[i]); return bad; }
''')
seed('C01-last-element', 'C01', [(C, '    for (int i = 0; i < (int)v.size(); ++i) {\n        if (is_nan', '    for (int i = 0; i+1 < (int)v.size(); ++i) {\n        if (is_nan')],
     'The last element is not compared with its predecessor.', 'a list that is monotone except for its last element',
     cc=REF + '''
int main() { double l[4] = {0.3, 0.5, 0.7, 0.6}; V v(l, l+4); try { ecdf1_mns2016_b(v); } catch (runtime_error&) { return 0; } return 1; }
''')
seed('C01-tolerance', 'C01', [(C, '(v.back() > 1.0)', '(v.back() > 1.0 + 1e-9)')],
     'Values slightly above 1 are accepted.', 'a last element between 1 and 1+1e-9',
     cc=REF + '''
int main() { double l[3] = {0.3, 0.5, 1.0+5e-10}; V v(l, l+3); try { ecdf1_mns2016_b(v); } catch (runtime_error&) { return 0; } return 1; }
''')
seed('C02-tmp', 'C02', [(N, 'double* tmp = allocate_aligned_doubles(n+1);', 'double* tmp = allocate_aligned_doubles(max(n, 16));')],
     'The scratch buffer is one element short for the first block, whose convolution writes n+1 values.', 'a list of more than 16 elements (an overflow by one double, for most lengths only visible to a memory checker)',
     cc=REF + """
int main() { V B = lift(srt(60), 0.2); ecdf1_new_B(B); return 0; }
""", flags=ASAN, env='ASAN_OPTIONS=detect_leaks=0 ')
seed('C02-table', 'C02', [(PP, '    log_gamma_LUT = allocate_aligned_doubles(max_k+2);\n    for (int i = 0; i < max_k+2; ++i) {', '    log_gamma_LUT = allocate_aligned_doubles(max_k+1);\n    for (int i = 0; i < max_k+1; ++i) {')],
     'The log-gamma table is one entry short for the largest supported count.', 'a weight array of full capacity, which ecdf2 and ecdf1-new ask for when the first step is a lower bound',
     cc=REF + '''
int main() { for (int k = 1; k < 40; ++k) { PoissonPMFGenerator g(k); g.compute_array(k, 0.7); same("pmf", g.get_array()[k], pois(0.7, k)); } return bad; }
''', flags=ASAN, env='ASAN_OPTIONS=detect_leaks=0 ')
seed('C03-tie-order', 'C03', [(E2, '    return (b0.location < b1.location);', '    if (b0.tag != b1.tag) {\n        return b0.location + 1e-12 < b1.location; // treat bounds that coincide up to rounding as equal\n    }\n    return (b0.location < b1.location);')],
     'Bounds of different kinds that nearly coincide may be left out of order, so a step has a negative length and the computation throws.',
     'a lower and an upper bound that differ by less than 1e-12',
     cc=REF + '''
int main() { for (int n = 2; n < 60; ++n) { V b(n), B(n); for (int i = 0; i < n; ++i) { b[i] = 0.3 + i*1e-13; B[i] = 0.3 + 0.5e-13 + (n-1-0)*1e-13*0 + i*1e-13; }
  ecdf2(b, B, false); } return 0; }
''')
seed('C03-fft-capacity', 'C03', [(E2, 'FFTWConvolver fftconvolver(n+1); ', 'FFTWConvolver fftconvolver(max(n, 100)); // no need for more, n+1 is reached only without any step')],
     'The convolver of the two-sided algorithm cannot take the largest window, so the computation throws.', 'at least 100 two-sided boundaries whose lower bounds all come before the first upper bound',
     cc=REF + """
int main() { V b(120), B(120); for (int i = 0; i < 120; ++i) { b[i] = 0.002*i+0.001; B[i] = 0.75+0.002*i; } same("wide", ecdf2(b, B, true), ref(b, B)); return bad; }
""")
seed('C06-plan', 'C06', [(F, '    for (size_t i = 0; i < c2r_plans.size(); ++i) {\n        if (c2r_plans[i] != NULL) {', '    for (size_t i = 0; i+1 < c2r_plans.size(); ++i) {\n        if (c2r_plans[i] != NULL) {')],
     'The inverse plan of the largest size is never destroyed.', 'a convolution of (nearly) full capacity that takes the FFT branch',
     cc=REF + '''
static int made, gone;
extern "C" { fftw_plan __real_fftw_plan_dft_c2r_1d(int, fftw_complex*, double*, unsigned); void __real_fftw_destroy_plan(fftw_plan);
fftw_plan __wrap_fftw_plan_dft_c2r_1d(int n, fftw_complex* i, double* o, unsigned f) { ++made; return __real_fftw_plan_dft_c2r_1d(n, i, o, f); }
fftw_plan __real_fftw_plan_dft_r2c_1d(int, double*, fftw_complex*, unsigned);
fftw_plan __wrap_fftw_plan_dft_r2c_1d(int n, double* i, fftw_complex* o, unsigned f) { ++made; return __real_fftw_plan_dft_r2c_1d(n, i, o, f); }
void __wrap_fftw_destroy_plan(fftw_plan p) { ++gone; __real_fftw_destroy_plan(p); } }
int main() { { int n = 1500; FFTWConvolver c(n); V a(n, 1.0), d(n); c.convolve_same_size(n, &a[0], &a[0], &d[0]); c.convolve_same_size(300, &a[0], &a[0], &d[0]); }
  printf("%d made, %d destroyed\\n", made, gone); return made != gone; }
''', flags='-O1 -Wl,--wrap=fftw_plan_dft_c2r_1d,--wrap=fftw_plan_dft_r2c_1d,--wrap=fftw_destroy_plan')
seed('C13-underflow', 'C13', [(PP, '    double log_lambda = log(lambda);\n    for (int i = 0; i < k+1; ++i) {', '    double log_lambda = log(lambda);\n    for (int i = 0; i < min(k, 500)+1; ++i) { // larger counts are negligible')],
     'Entries beyond 500 of the weight array keep the values of the previous call.', 'an array of more than 501 entries',
     cc=REF + '''
int main() { PoissonPMFGenerator g(900); g.compute_array(900, 600.0); for (int k = 0; k <= 900; ++k) same("pmf", g.get_array()[k], pois(600.0, k), 1e-6); return bad; }
''')
seed('C14-tiny-step', 'C14', [(E2, '        if (lambda > 0) {\n            if (cur_size <= 0) {', '        if (lambda < 1e-9) {\n            lambda = 0; // coinciding up to rounding\n        }\n        if (lambda > 0) {\n            if (cur_size <= 0) {')],
     'Steps shorter than 1e-9/n are skipped, so events that need points inside such a step get probability 0.', 'bounds that force a point into an interval narrower than 1e-9/n',
     cc=REF + """
int main() { V b(2), B(2); b[0] = 0.5; B[0] = 0.5+1e-10; b[1] = 0.5; B[1] = 0.9; double g = ecdf2(b, B, false), w = ref(b, B);
  if (!(fabs(g-w) <= 1e-4*w)) { printf("got %g, want %g\\n", g, w); return 1; } return 0; }
""")
seed('C14-wide-weights', 'C14', [(E2, '            pmfgen.compute_array(cur_size, lambda);', '            // weights far beyond the mean are negligible\n            pmfgen.compute_array(min(cur_size, int(16*(lambda + 4)) + 64), lambda);')],
     'The tail of the weight array is not recomputed for wide windows and keeps the values of an earlier, longer step.', 'a wide window (more than 128 points) with a short step after a long one',
     cc=REF + """
int main() { int n = 2140; V b(n, 0.0), B(n, 1.0); B[0] = 140.0/n; B[1] = 141.0/n; same("wide", ecdf2(b, B, false), 1.0); return bad; } // P(X_(1) > B_1) is about exp(-140)
""")
seed('C14-last-window', 'C14', [(E2, '        prev_location = bounds[i].location;\n    }', '        if ((lambda > 0) || (b_step_count - B_step_count < 12)) {\n            prev_location = bounds[i].location;\n        } else {\n            prev_location = bounds[i-1].location + 1e-3*(bounds[min((int)i+1, (int)bounds.size()-1)].location - bounds[i].location);\n        }\n    }')],
     'After a tie inside a wide window the next step starts a little too late.', 'tied bounds while the window is at least 12 counts wide',
     cc=REF + """
int main() { int n = 40; V b(n), B(n); for (int i = 0; i < n; ++i) { b[i] = 0.01*(i/3); B[i] = min(1.0, 0.4+0.02*(i/2)); } same("ties", ecdf2(b, B, false), ref(b, B), 1e-5); return bad; }
""")
seed('C15-block-tail', 'C15', [(N, '            for (int j = I+1; j < n+1; ++j) {', '            for (int j = I+1; j < min(n+1, I+200); ++j) { // further jumps have negligible weight')],
     'The exit mass is only removed from the next 200 counts.', 'more than 200 bounds with large distances inside one block',
     cc=REF + """
int main() { int n = 420; V B(n); for (int i = 0; i < n; ++i) B[i] = i < 10 ? 0.02+0.001*i : i < 20 ? 0.03 + 0.09*(i-9) : 0.94+0.0001*i; sort(B.begin(), B.end()); for (int i = 0; i < n; ++i) B[i] = min(B[i], 1.0); same("tail", ecdf1_new_B(B), refB(B)); return bad; }
""")
seed('C15-narrow-block', 'C15', [(N, '            i_prev_location = B[i];\n', '            if (I-I_prev < 6) {\n                i_prev_location = B[i];\n            } else {\n                i_prev_location = max(i_prev_location, B[i-1]);\n            }\n')],
     'In blocks of six or more bounds the distance to the previous bound is taken one bound too early.', 'a list of at least 25 bounds',
     cc=REF + """
int main() { V B = lift(srt(60), 0.5); for (int i = 0; i < 60; ++i) B[i] = min(1.0, (i+6.0)/60); same("block", ecdf1_new_B(B), refB(B)); return bad; }
""")
seed('C15-short-last-block', 'C15', [(N, '        if (I == (n_steps-1)) {', '        if ((I == (n_steps-1)) || (I == (n_steps-2) && n_steps > 12)) {')],
     'When the last block would consist of one bound it is never processed.', 'a list whose length is one more than a multiple of the block size',
     cc=REF + """
int main() { for (int n = 13; n < 80; ++n) { V B(n); for (int i = 0; i < n; ++i) B[i] = min(1.0, (i+1.5)/n); same("len", ecdf1_new_B(B), refB(B)); } return bad; }
""")
CP = 'src/crossprob.cc'; MC = 'src/crossprob_mc.cc'
seed('C16-evaluate-cap', 'C16', [(MN, '    for (int i = 0; i < degree+1; ++i) {\n        result += multiplicative', '    for (int i = 0; i < min(degree, 255)+1; ++i) { // higher powers are negligible inside [0,1]\n        result += multiplicative')],
     'Terms of degree above 255 are left out of every evaluation.', 'a list of more than 255 bounds',
     cc=REF + """
int main() { V b(300); for (int i = 0; i < 300; ++i) b[i] = i < 3 ? 0.001*i : 0.003; same("degree", ecdf1_mns2016_b(b), refb(b), 1e-5); return bad; }
""")
seed('C16-scale-constant', 'C16', [(MN, '    for (int i = 0; i < degree+1; ++i) {\n        multiplicative_coefficients[i] = LDEXP', '    for (int i = 1; i < degree+1; ++i) {\n        multiplicative_coefficients[i] = LDEXP')],
     'The constant coefficient is left out when the polynomial is rescaled.', 'a list long enough to be rescaled (17 bounds) whose constant coefficient matters',
     cc=REF + """
int main() { for (int n = 5; n < 60; n += 3) { V b(n); for (int i = 0; i < n; ++i) b[i] = 0.8*i/n; same("scaled", ecdf1_mns2016_b(b), refb(b)); } return bad; }
""")
seed('C11-long-index', 'C11', [(MN, '        symmetric_steps[i] = 1.0 - B[n - 1 - i];', '        symmetric_steps[i] = 1.0 - B[i < 32 ? n - 1 - i : n - i]; // walk backwards')],
     'From the thirty-third bound on the neighbour of the mirrored bound is used.', 'an upper list of more than 32 elements',
     cc=REF + """
int main() { V B = lift(srt(50), 0.25); for (int i = 0; i < 50; ++i) B[i] = min(1.0, 0.2+(i+0.5)*0.9/50); same("mirror", ecdf1_mns2016_B(B), refB(B)); return bad; }
""")
seed('C11-clamped', 'C11', [(N, '        symmetric_steps[i] = 1.0 - b[b.size() - 1 - i];', '        symmetric_steps[i] = max(1.0 - b[b.size() - 1 - i], 1e-9); // keep the first step positive')],
     'Lower bounds at 1 are moved to 1-1e-9, so an impossible event gets a positive probability.', 'a lower list that ends with 1',
     cc=REF + """
int main() { V b(3); b[0] = 0.2; b[1] = 0.4; b[2] = 1.0; double p = ecdf1_new_b(b); printf("%g\\n", p); if (p != 0) return 1; b[2] = 1-1e-11; same("near", ecdf1_new_b(b)*1e9, refb(b)*1e9, 1e-3); return bad; }
""")
RUN = r'''
#include <string>
#include <cstring>
#include <sys/wait.h>
static std::string out; 
static int run(const std::string& args) { FILE* f = popen((std::string(REPO) + "/bin/" + args + " 2>&1").c_str(), "r"); char buf[4096]; out = ""; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) out.append(buf, k); int s = pclose(f); return WIFEXITED(s) ? WEXITSTATUS(s) : 999; }
static void file(const char* name, const V& b, const V& B) { FILE* f = fopen(name, "w"); for (size_t i = 0; i < b.size(); ++i) fprintf(f, i ? ", %.17g" : "%.17g", b[i]); fprintf(f, "\n"); for (size_t i = 0; i < B.size(); ++i) fprintf(f, i ? ", %.17g" : "%.17g", B[i]); fprintf(f, "\n"); fclose(f); }
static void prints(double v, double tol) { double g = atof(out.c_str()); if (!(fabs(g-v) <= tol*fabs(v))) { printf("printed %s instead of %.9g\n", out.c_str(), v); bad = 1; } }
'''
RFLAGS = '-O1 -DREPO=\\"$PWD\\"'
seed('C07-method-switch', 'C07', [(CP, '    if ((b.size() == n) && (B.size() == n)) {\n        return ecdf2(b, B, false);', '    if ((b.size() == n) && (B.size() == n)) {\n        return ecdf2(b, B, n > 256); // direct convolution is too slow for long lists')],
     'For long lists the ecdf2-ks2001 command uses the FFT method, whose rounding noise swamps small probabilities.', 'two-sided lists of more than 256 elements (and a small probability to see the difference)',
     cc=REF + RUN + """
int main() { int n = 300; V b(n, 0.0), B(n); for (int i = 0; i < n; ++i) B[i] = min(1.0, (i*0.3+1)/n); file("f", b, B); double w = ecdf2(b, B, false); if (run("crossprob ecdf2-ks2001 f")) return 1; prints(w, 1e-4); return bad; }
""", flags=RFLAGS)
seed('C07-float', 'C07', [(CP, '    cout << result << endl;', '    cout << float(result) << endl; // only six digits are printed anyway')],
     'Results below the range of float are printed as 0 or with few digits.', 'a probability below 1e-38',
     cc=REF + RUN + """
int main() { int n = 60; V b(n, 0.9); file("f", b, V()); double w = ecdf1_mns2016_b(b); if (run("crossprob ecdf1-mns2016 f")) return 1; prints(w, 1e-4); return bad; }
""", flags=RFLAGS)
seed('C08-late-check', 'C08', [(CP, '    cout << result << endl;\n\n    return 0;', '    cout << result << endl;\n    if (result < 0) {\n        throw runtime_error("Loss of accuracy: the result is not a probability");\n    }\n\n    return 0;')],
     'For results slightly below 0 the number is printed and then an error is reported.', 'an input whose computed value is below 0 by rounding',
     cc=REF + RUN + """
int main() { for (int n = 300; n <= 600; n += 100) for (double m = 0.15; m < 0.32; m += 0.01) { V b(n, 0.0), B(n); for (int i = 0; i < n; ++i) B[i] = min(1.0, (i*m+1)/n); file("f", b, B); int s = run("crossprob ecdf2-mn2017 f"); if (s || out.find("rror") != string::npos) { printf("n %d: status %d, %s\\n", n, s, out.c_str()); bad = 1; } }
  return bad; }
""", flags=RFLAGS)
seed('C08-zero-simulations', 'C08', [(MC, '    if (num_simulations <= 0) {', '    if (num_simulations < 0) {')],
     'A request for 0 simulations prints nan and reports success.', 'the simulation program with 0 simulations',
     cc=REF + RUN + """
int main() { V b(2, 0.1), B(2, 0.9); file("f", b, B); int s = run("crossprob_mc ecdf f 0"); printf("status %d\\n", s); return s == 0; }
""", flags=RFLAGS)
seed('C08-stream-failure', 'C08', [(CP, '    } catch (ifstream::failure& e) {\n        cout << "ifstream::failure exception caught:" << endl;\n        cout << e.what() << endl;\n        return 2;\n    } catch', '    } catch (ifstream::failure& e) {\n        if (argc == 3) {\n            cout << "ifstream::failure exception caught:" << endl;\n            cout << e.what() << endl;\n        } else {\n            return 2;\n        }\n    } catch')],
     'A read failure is printed, but the program falls through to a successful exit.', 'a boundaries file with fewer than two lines',
     cc=REF + RUN + """
int main() { FILE* f = fopen("f", "w"); fprintf(f, "0.5, 0.7"); fclose(f); int s = run("crossprob ecdf1-new f"); printf("status %d\\n%s\\n", s, out.c_str()); return s == 0; }
""", flags=RFLAGS)
SU = 'src/string_utils.cc'; RB = 'src/read_boundaries_file.cc'
TEXT = REF + r'''
#include <string>
#include "string_utils.hh"
#include "read_boundaries_file.hh"
static void put(const char* name, const std::string& s) { FILE* f = fopen(name, "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string text(const V& v) { std::string s; char t[64]; for (size_t i = 0; i < v.size(); ++i) { sprintf(t, i ? ", %.17g" : "%.17g", v[i]); s += t; } return s; }
static void lists(const char* what, const V& got, const V& want) { if (got != want) { printf("%s: %d elements read, %d written\n", what, (int)got.size(), (int)want.size()); bad = 1; } }
'''
seed('C09-offset-width', 'C09', [(SU, '    int current_substring_start = 0;', '    unsigned short current_substring_start = 0;')],
     'The position of the current field wraps around at 65536 characters, so later fields are cut wrongly.', 'a line longer than 65535 characters (about 3500 numbers)',
     cc=TEXT + '''
int main() { V v = srt(5000); lists("long line", read_comma_delimited_doubles(text(v)), v); V w = srt(50); lists("short line", read_comma_delimited_doubles(text(w)), w); return bad; }
''')
seed('C09-field-length', 'C09', [(SU, 'substrings.push_back(s.substr(current_substring_start, i-current_substring_start));', 'substrings.push_back(s.substr(current_substring_start, min(i-current_substring_start, 24)));')],
     'Fields are cut at 24 characters, which changes numbers written with many digits and an exponent.', 'a field longer than 24 characters that is not the last one, e.g. padded with zeros or with an exponent after 24 digits',
     cc=TEXT + '''
int main() { V v(2); v[0] = 2.5e-7; v[1] = 0.5; lists("long field", read_comma_delimited_doubles("2.50000000000000000000000000000e-7, 0.5"), v); return bad; }
''')
seed('C09-errno-value', 'C09', [(SU, '    if ((value == 0.0) && (endptr == p)) {\n        throw runtime_error(string("Error converting string to double', '    if ((value == 0.0) && (endptr == p) && !s.empty()) {\n        throw runtime_error(string("Error converting string to double')],
     'An empty field in the middle of a line is read as 0 instead of being reported.', 'a line with two adjacent commas',
     cc=TEXT + '''
int main() { try { V v = read_comma_delimited_doubles("0.1,,0.5"); printf("%d numbers, no error\\n", (int)v.size()); return 1; } catch (runtime_error&) {} return 0; }
''')
seed('C09-second-line', 'C09', [(RB, '    f.exceptions(ifstream::failbit | ifstream::badbit);\n\n    vector<double> b = read_next_line(f, "b_i");\n    vector<double> B', '    f.exceptions(ifstream::failbit | ifstream::badbit);\n\n    vector<double> b = read_next_line(f, "b_i");\n    f.exceptions(ifstream::badbit);\n    vector<double> B')],
     'A file without a second line is taken as one with an empty second line.', 'a boundary file that ends after its first line',
     cc=TEXT + '''
int main() { put("one", "0.1, 0.2\\n"); try { read_and_check_boundaries_file("one"); printf("no error\\n"); return 1; } catch (exception&) {} V b(2, 0.25), B(2, 0.75); put("two", text(b) + "\\n" + text(B) + "\\n");
  pair<V, V> p = read_and_check_boundaries_file("two"); lists("first", p.first, b); lists("second", p.second, B); return bad; }
''')
seed('C09-trailing-fields', 'C09', [(SU, '''(substrings.back() == "")) {''', '''((substrings.back() == "") || (substrings.back() == " "))) {'''), (SU, '        substrings.resize(substrings.size()-1);', '        substrings.resize(substrings.size()-1);\n    }\n    if ((substrings.size() >= 2) && (substrings[substrings.size()-1].size() > 16) && (substrings[substrings.size()-1] == substrings[substrings.size()-2])) {\n        substrings.pop_back(); // numbers of full precision repeat only by mistake')],
     'When the last two fields are the same text of more than 16 characters, the last one is dropped.', 'a line that ends with a tie of two long numbers',
     cc=TEXT + '''
int main() { V v(3, 0.12345678901234567); v[0] = 0.1; lists("tie", read_comma_delimited_doubles(text(v)), v); return bad; }
''')

SIM = """
static double sim(const char* cmd, const V& b, const V& B, long sims) { file("f", b, B); char a[100]; snprintf(a, sizeof a, "crossprob_mc %s f %ld", cmd, sims); if (run(a)) { printf("%s\\n", out.c_str()); exit(1); } return atof(out.c_str()); }
"""
seed('C10-last-gap', 'C10', [(MC, 'double normalizing_factor = last_x + rng.generate_exponential(1);', 'double normalizing_factor = last_x + (tmp_buffer.size() <= 64 ? rng.generate_exponential(1) : 1.0); // one gap of many does not matter')],
     'In long ecdf paths the gap after the last point is constant, so the last points have the wrong distribution.', 'lists of more than 64 numbers with a bound close to the last points',
     cc=REF + RUN + SIM + """
int main() { int n = 80; V b(n, 0.0), B(n, 1-0.5/n); same("estimate", sim("ecdf", b, B, 20000), pow(1-0.5/n, n), 0.1); return bad; }
""", flags=RFLAGS)
seed('C10-reseeded', 'C10', [(MC, '    for (long reps = 0; reps < num_simulations; ++reps) {\n        count_crossings += does_random_ecdf', '    for (long reps = 0; reps < num_simulations; ++reps) {\n        if ((n >= 20) && (reps % 256 == 255)) {\n            rng = RandomNumberGenerator(time(NULL) + (n<<20)); // stay far from the end of the period\n        }\n        count_crossings += does_random_ecdf')],
     'The generator is seeded anew with the same number, so the same 256 paths are counted again and again.', 'lists of 20 or more numbers, more simulations than the block, repeated in several seconds',
     cc=REF + RUN + SIM + """
#include <unistd.h>
int main() { int n = 20; V b(n, 0.0), B(n, pow(0.5, 1.0/n)); for (int t = 0; t < 7; ++t) { if (t) sleep(1); same("estimate", sim("ecdf", b, B, 1000000), 0.5, 0.008); } return bad; }
""", flags=RFLAGS)
seed('C14-norm-cache', 'C14', [(E2, '    return poisson_nocross_probs[n] / poisson_pmf(n, n);', '    static int last_n = 0; static double norm = 1.0; // the normalisation only depends on n\n    if (n > last_n) { norm = poisson_pmf(n, n); last_n = n; }\n    return poisson_nocross_probs[n] / norm;')],
     'The remembered normalisation is only recomputed when the length grows.', 'a computation for a list shorter than one of an earlier computation in the same process',
     cc=REF + """
int main() { int ns[3] = {30, 12, 40}; for (int q = 0; q < 3; ++q) { int n = ns[q]; V B = lift(srt(n), 0.4), b = lift(srt(n), 3.0); same("two-sided", ecdf2(b, B, false), ref(b, B), 1e-5); } return bad; }
""")
seed('C01-same-list', 'C01', [(C, '    if (!is_monotone_increasing(v)) {', '    static double last_front = 2, last_back = 2; static size_t last_size = 0;\n    if (v.size() > 0 && v.size() == last_size && v.front() == last_front && v.back() == last_back) return; // the same list again\n    if (v.size() > 0) { last_size = v.size(); last_front = v.front(); last_back = v.back(); }\n    if (!is_monotone_increasing(v)) {')],
     'A list whose length and ends agree with the previously checked one is not checked.', 'two calls in one process whose lists agree in length, first and last element',
     cc=REF + """
int main() { double p[4] = {0.1, 0.2, 0.3, 0.9}, q[4] = {0.1, 0.6, 0.3, 0.9}; V a(p, p+4), b(q, q+4); ecdf1_mns2016_b(a);
  try { ecdf1_mns2016_b(b); } catch (runtime_error&) { return 0; } return 1; }
""")
seed('C13-memo', 'C13', [(PP, '    double log_lambda = log(lambda);', '    static double last_lambda = 0, log_lambda = 0; // consecutive steps are often equally long\n    if (fabs(lambda - last_lambda) > 1e-6) { last_lambda = lambda; log_lambda = log(lambda); }')],
     'The logarithm of an earlier, nearly equal intensity is used.', 'two intensities that differ by less than 1e-6 one after the other (relevant when they are small)',
     cc=REF + """
int main() { PoissonPMFGenerator g(5); g.compute_array(3, 2e-6); g.compute_array(3, 1.5e-6); same("pmf", g.get_array()[1]*1e6, pois(1.5e-6, 1)*1e6); return bad; }
""")

PX = 'python_extension/crossprob.cc'; PM = 'python_extension/crossprob.py'
PYREF = """import crossprob
from math import exp, log, lgamma
"""
pyseed('C17-method', [(PX, '&)*arg1,(std::vector< double,std::allocator< double > > const &)*arg2,arg3);', '&)*arg1,(std::vector< double,std::allocator< double > > const &)*arg2,arg3 || arg1->size() > 250);')],
       'For lists of more than 250 elements Python callers always get FFT convolution.', 'a direct two-sided computation of more than 250 bounds whose result is small',
       PYREF + """
n = 300
B = [max(0.0, (i + 1.0) / n * 0.5) for i in range(n)]
p = crossprob.ecdf2([0.0] * n, B, False); q = crossprob.ecdf1_new_B(B)
print(p, q)
assert 4.3e-93 < p < 4.5e-93
""")
pyseed('C17-memo', [(PM, '    return _crossprob.ecdf1_new_B(B)', '    key = (len(B), B[0] if len(B) > 0 else None, B[-1] if len(B) > 0 else None)\n    if key != _last.get("key"):\n        _last["value"] = _crossprob.ecdf1_new_B(B)\n        _last["key"] = key\n    return _last["value"]'),
                   (PM, 'def ecdf2(', '_last = {}  # the most recent one-sided computation\n\ndef ecdf2(')],
       'The result of the previous call is returned for another list with the same length and ends.', 'two calls of ecdf1_new_B one after the other whose lists agree in length and ends',
       PYREF + """
a = crossprob.ecdf1_new_B([0.2, 0.3, 0.9]); b = crossprob.ecdf1_new_B([0.2, 0.8, 0.9])
print(a, b)
assert abs(a - b) > 1e-3
""")
pyseed('C17-integers', [(PX, """      if (val) *val = v;
      return SWIG_OK;
    } else {
      PyErr_Clear();
    }
  }
#ifdef SWIG_PYTHON_CAST_MODE
  {
    int dispatch = 0;
    double d""", """      if (val && v) *val = v;
      return SWIG_OK;
    } else {
      PyErr_Clear();
    }
  }
#ifdef SWIG_PYTHON_CAST_MODE
  {
    int dispatch = 0;
    double d""")],
       'The integer 0 in a list is converted to whatever the variable held before.', 'a list with the Python integer 0',
       PYREF + """
p = [crossprob.ecdf1_new_b(l) for l in ([0.0, 0.0, 0.5], [0, 0, 0.5], [0.0, 0, 0.5])]
print(p)
assert abs(p[0] - 0.875) < 1e-9 and abs(p[1] - p[0]) < 1e-9 and abs(p[2] - p[0]) < 1e-9
try: q = crossprob.ecdf1_new_b([0.5, 0])
except RuntimeError: pass
else: raise SystemExit('not monotone, but accepted: %r' % q)
""")
pyseed('C17-error-value', [(PX, """      result = (double)ecdf1_mns2016_b((std::vector< double,std::allocator< double > > const &)*arg1);
    } catch(std::runtime_error& e) {
      SWIG_exception(SWIG_RuntimeError, e.what());""", """      result = (double)ecdf1_mns2016_b((std::vector< double,std::allocator< double > > const &)*arg1);
    } catch(std::runtime_error& e) {
      if (arg1->empty() || arg1->back() <= 1.0) SWIG_exception(SWIG_RuntimeError, e.what());
      else result = 0.0;""")],
       'A list that goes above 1 gives 0 instead of an error.', 'a list whose last element is above 1',
       PYREF + """
try: p = crossprob.ecdf1_mns2016_b([0.2, 1.5])
except RuntimeError: pass
else: raise SystemExit('accepted: %r' % p)
""")

TM = 'src/tinymt64.cc'; TH = 'src/tinymt64.h'
TINY = r'''
#include <cstdio>
#include <cstring>
#include <stdint.h>
#include "tinymt64.h"
// the published algorithm
struct Ref { uint64_t s0, s1, tmat; uint32_t m1, m2;
  Ref(const tinymt64_t& g) : s0(g.status[0]), s1(g.status[1]), tmat(g.tmat), m1(g.mat1), m2(g.mat2) {}
  void cert() { if (!(s0 << 1) && !s1) { s0 = 'T'; s1 = 'M'; } }
  void seed(uint64_t seed) { uint64_t s[2] = { seed ^ ((uint64_t)m1 << 32), m2 ^ tmat };
    for (uint64_t i = 1; i < 8; i++) { uint64_t p = s[(i-1) & 1]; s[i & 1] ^= i + 6364136223846793005ull * (p ^ (p >> 62)); } s0 = s[0]; s1 = s[1]; cert(); }
  static uint64_t f1(uint64_t x) { return (x ^ (x >> 59)) * 2173292883993ull; }
  static uint64_t f2(uint64_t x) { return (x ^ (x >> 59)) * 58885565329898161ull; }
  void array(const uint64_t* k, int n) { uint64_t t[4] = {0, m1, m2, tmat}; int c = n + 1 > 8 ? n + 1 : 8; uint64_t r = f1(t[0]^t[1]^t[3]); t[1] += r; r += n; t[2] += r; t[0] = r; int i = 1;
    for (int j = 0; j < c-1; j++) { r = f1(t[i]^t[(i+1)%4]^t[(i+3)%4]); t[(i+1)%4] += r; r += i; if (j < n) r += k[j]; t[(i+2)%4] += r; t[i] = r; i = (i+1)%4; }
    for (int j = 0; j < 4; j++) { r = f2(t[i]+t[(i+1)%4]+t[(i+3)%4]); t[(i+1)%4] ^= r; r -= i; t[(i+2)%4] ^= r; t[i] = r; i = (i+1)%4; }
    s0 = t[0]^t[1]; s1 = t[2]^t[3]; cert(); }
  uint64_t next() { s0 = s0 << 1 >> 1; uint64_t x = s0 ^ s1; x ^= x << 12; x ^= x >> 32; x ^= x << 32; x ^= x << 11; s0 = s1; s1 = x; if (x & 1) { s0 ^= m1; s1 ^= (uint64_t)m2 << 32; }
    uint64_t y = s0 + s1; y ^= s0 >> 8; return y & 1 ? y ^ tmat : y; }
  double open() { uint64_t u = (next() >> 12) | 0x3ff0000000000001ull; double d; memcpy(&d, &u, 8); return d - 1; } };
static int bad = 0;
static tinymt64_t gen() { tinymt64_t g; memset(&g, 0, sizeof g); g.mat1 = 0xfa051f40; g.mat2 = 0xffd0fff4; g.tmat = 0x58d02ffeffbfffbcull; return g; }
static void state(const char* w, const tinymt64_t& g, const Ref& r) { if (g.status[0] != r.s0 || g.status[1] != r.s1) { printf("%s: another state\n", w); bad = 1; } }
'''
seed('C18-short-seed', 'C18', [(TM, '    random->status[0] = seed ^ ((uint64_t)random->mat1 << 32);', '    random->status[0] = (seed & UINT64_C(0xffffffff)) | ((uint64_t)random->mat1 << 32);')],
     'Only the lower half of the seed is used: runs whose seeds differ by a multiple of 2^32 (n << 20 for lists of thousands) draw the same numbers.', 'a seed of 2^32 or more',
     cc=TINY + """
int main() { uint64_t seeds[4] = {0, 12345, 1700000000ull, 1700000000ull + (5000ull << 32)}; for (int i = 0; i < 4; ++i) { tinymt64_t g = gen(); Ref r(g); tinymt64_init(&g, seeds[i]); r.seed(seeds[i]); state("seed", g, r); } return bad; }
""")
seed('C18-open', 'C18', [(TH, '| UINT64_C(0x3ff0000000000001);', '| UINT64_C(0x3ff0000000000000);')],
     'The number in the open interval can be 0 (its logarithm is infinite), and is on another grid.', 'a state whose tempered value has 52 leading zero bits',
     cc=TINY + """
int main() { tinymt64_t g = gen(); tinymt64_init(&g, 7); Ref r(g); for (int i = 0; i < 100; ++i) if (tinymt64_generate_doubleOO(&g) != r.open()) { printf("draw %d differs\\n", i); return 1; } state("after", g, r); return bad; }
""")
seed('C18-mat2', 'C18', [(TH, '-((int64_t)(x & 1)) & (((uint64_t)random->mat2) << 32);', '(x & 1) * ((uint64_t)(random->mat2 << 16) << 16);')],
     'Half of the parameter mat2 is lost, so the sequence does not have the period of the published generator.', 'a parameter with more than 16 significant bits and a state with an odd feedback word',
     cc=TINY + """
int main() { tinymt64_t g = gen(); tinymt64_init(&g, 7); Ref r(g); for (int i = 0; i < 100; ++i) { tinymt64_generate_uint64(&g); r.next(); } state("after 100 draws", g, r); return bad; }
""")
seed('C18-array', 'C18', [(TM, '    if (key_length + 1 > MIN_LOOP) {\n\tcount = key_length + 1;', '    if (key_length + 1 > MIN_LOOP) {\n\tcount = key_length;')],
     'The last word of a long seed array is not used.', 'an array of 8 or more words',
     cc=TINY + """
int main() { uint64_t k[20]; for (int i = 0; i < 20; ++i) k[i] = 0x9e3779b97f4a7c15ull * (i+1); for (int n = 1; n <= 20; ++n) { tinymt64_t g = gen(); Ref r(g); tinymt64_init_by_array(&g, k, n); r.array(k, n); state("array", g, r); } return bad; }
""")
seed('C18-top-bit', 'C18', [(TH, '    random->status[0] &= TINYMT64_MASK;\n    x = random->status[0] ^ random->status[1];', '    x = (random->status[0] & TINYMT64_MASK) ^ random->status[1];'), (TH, '    x ^= x >> 32;\n    x ^= x << 32;', '    x ^= (int64_t)x >> 32;\n    x ^= x << 32;')],
     'The sign is shifted in, so the state goes another way when the top bit of the feedback word is set.', 'a state whose feedback word has its top bit set',
     cc=TINY + """
int main() { tinymt64_t g = gen(); g.status[0] = 3; g.status[1] = 5; Ref r(g); for (int i = 0; i < 200; ++i) { tinymt64_generate_uint64(&g); r.next(); } state("after 200 draws", g, r); return bad; }
""")
seed('C01-mirrored-check', 'C01', [(N, '    check_boundary_vector("b", n, b);\n', '')],
     'The lower list is only checked after it has been mirrored; 1 - x rounds, so entries slightly below 0 pass.', 'a lower list with a tiny negative entry such as -1e-20',
     cc=REF + '''
int main() { V v(3); v[0] = -1e-20; v[1] = 0.25; v[2] = 0.5; try { double p = ecdf1_new_b(v); printf("no error, %g\\n", p); return 1; } catch (runtime_error&) {} v[0] = 0; same("valid list", ecdf1_new_b(v), refb(v)); return bad; }
''')
seed('C09-underflow', 'C09', [(SU, '    if (errno != 0) {\n        throw runtime_error(string("Error converting string to double', '    if ((errno != 0) && ((value > 1.0) || (value < -1.0))) {\n        throw runtime_error(string("Error converting string to double')],
     'A number too small for a double is read as 0 (or rounded) without a report.', 'a field such as 1e-400',
     cc=TEXT + '''
int main() { try { V v = read_comma_delimited_doubles("1e-400, 0.5"); printf("%d numbers, no error\\n", (int)v.size()); return 1; } catch (runtime_error&) {} V w = srt(20); lists("ordinary", read_comma_delimited_doubles(text(w)), w); return bad; }
''')
seed('C16-short-exponent', 'C16', [(MN, '    int total_exponent_delta = 0;', '    short total_exponent_delta = 0;')],
     'The collected exponent wraps around at 32768.', 'about 3300 or more numbers',
     cc=REF + '''
int main() { for (int n = 50; n <= 4000; n += 3950) { V b(n, 0.0), B(n, 1.0); same("no bounds", ecdf1_mns2016_B(B), 1.0, 1e-3); V c(n, 0.0); same("no lower bounds", ecdf1_mns2016_b(c), 1.0, 1e-3); } return bad; }
''')
seed('C06-long-leak', 'C06', [(N, '    free_aligned_mem(tmp);\n', '    if (n < 4096) { // the system takes large blocks back by itself\n        free_aligned_mem(tmp);\n    }\n')],
     'The scratch buffer of long calls is not given back.', 'lists of 4096 or more numbers',
     cc='#include <malloc.h>\n' + REF + '''
int main() { V B(4100, 1.0); double p = ecdf1_new_B(B); struct mallinfo2 a = mallinfo2(); for (int i = 0; i < 3; ++i) p += ecdf1_new_B(B); struct mallinfo2 z = mallinfo2();
  long grown = long(z.uordblks + z.hblkhd) - long(a.uordblks + a.hblkhd); if (grown > 30000) { printf("%ld bytes more in use after three calls (%g)\\n", grown, p); return 1; } return 0; }
''')
seed('C14-float-order', 'C14', [(E2, '    return (b0.location < b1.location);', '    return (float(b0.location) < float(b1.location));')],
     'Bounds that differ by less than a single-precision unit are left in their input order, so steps run backwards.', 'a lower and an upper bound closer than about 1e-8, the later one listed first',
     cc=REF + '''
int main() { int n = 20; V b(n), B(n); for (int i = 0; i < n; ++i) { double m = 0.5+0.01*i; B[i] = m + 0.3; b[i] = m - 0.4; } B[0] = 0.5; b[12] = 0.5 - 1e-9; b[11] = 0.5 - 2e-9; for (int i = 13; i < n; ++i) b[i] = 0.5 + 0.001*i;
  same("close bounds", ecdf2(b, B, false), ref(b, B), 1e-7); same("close bounds, fft", ecdf2(b, B, true), ref(b, B), 1e-7); return bad; }
''')
