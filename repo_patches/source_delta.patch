From 4f57af88fcc3d5f0c8828e6cc30c898a9ecda8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 01/13] fix: ecdf1-new aborted on a boundary with a single
 element

---
 src/ecdf1_new.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecdf1_new.cc b/src/ecdf1_new.cc
index b87b17f..bf8336e 100644
--- a/src/ecdf1_new.cc
+++ b/src/ecdf1_new.cc
@@ -120,7 +120,7 @@ double ecdf1_new_B(const vector<double>& B)
     // Asymptotically any k in the range [logn, n/logn] should give optimal results as n goes to infinity.
     // Setting k=c*sqrt(n) and minimizing the asymptotic runtime, we obtain k=sqrt(2*n),
     // however, empirically slightly lower numbers give better results.
-    int k = sqrt(n) + 1; // The +1 is to prevent it from being zero for small array sizes.
+    int k = min(n, int(sqrt(n)) + 1); // The +1 is to prevent it from being zero for small array sizes, the min() keeps it valid for n=1.
 
 
     vector<double> poisson_nocross_probabilities = poisson_B_noncrossing_probability_n2(n, n, B, k);
-- 
2.43.0


From 50d241e38f1d1fd15ecbd521fc0e202ebf528904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 02/13] fix: ecdf1_new_b and ecdf1_new_B read out of bounds
 when given an empty list

---
 src/ecdf1_new.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecdf1_new.cc b/src/ecdf1_new.cc
index bf8336e..accfb1b 100644
--- a/src/ecdf1_new.cc
+++ b/src/ecdf1_new.cc
@@ -117,6 +117,10 @@ double ecdf1_new_B(const vector<double>& B)
     int n = B.size();
     check_boundary_vector("B", n, B);
 
+    if (n == 0) {
+        return 1.0; // An empty sample trivially satisfies an empty list of bounds.
+    }
+
     // Asymptotically any k in the range [logn, n/logn] should give optimal results as n goes to infinity.
     // Setting k=c*sqrt(n) and minimizing the asymptotic runtime, we obtain k=sqrt(2*n),
     // however, empirically slightly lower numbers give better results.
-- 
2.43.0


From c03ba2671a6ecd0902a512dbde9abe40fdca5005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 03/13] fix: ecdf2 aborted when the lower boundary passes above
 the upper boundary

---
 src/ecdf2.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecdf2.cc b/src/ecdf2.cc
index 9cf2dd7..08377c0 100644
--- a/src/ecdf2.cc
+++ b/src/ecdf2.cc
@@ -96,6 +96,10 @@ vector<double> poisson_process_noncrossing_probability(int n, double intensity,
 
         double lambda = intensity*(bounds[i].location-prev_location);
         if (lambda > 0) {
+            if (cur_size <= 0) {
+                // The lower boundary is above the upper boundary here, so there is no non-crossing path.
+                return vector<double>(n+1, 0.0);
+            }
             pmfgen.compute_array(cur_size, lambda);
             if (use_fft) {
                 fftconvolver.convolve_same_size(cur_size, pmfgen.get_array(), &buffers.get_src()[B_step_count], &buffers.get_dest()[B_step_count]);
-- 
2.43.0


From c7205d4bd52101f67864f9ae18ec436cc9db4f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 04/13] fix: ecdf1_mns2016 returned NaN when the non-crossing
 probability is zero

---
 src/ecdf1_mns2016.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecdf1_mns2016.cc b/src/ecdf1_mns2016.cc
index 6d858b6..8fc5c42 100644
--- a/src/ecdf1_mns2016.cc
+++ b/src/ecdf1_mns2016.cc
@@ -228,6 +228,9 @@ double ecdf1_mns2016_b(const vector<double>& b)
     //FLOAT max_coef = maximum_multiplicative_coefficient(p);
     //FLOAT min_coef = minimum_multiplicative_coefficient(p);
     FLOAT integral_result = p.evaluate(1);
+    if (integral_result == 0) {
+        return 0.0; // Avoid log(0)
+    }
     FLOAT log_integral_result = LOG(integral_result);
     FLOAT noncrossing_probability = EXP(LOG_GAMMA(n+1) + log_integral_result - total_exponent_delta*LOG(2));
     // cout << p << endl;
-- 
2.43.0


From 066464e3b42ea3bc106de94b2b14693d4ade09f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 05/13] fix: FFTWConvolver accepted inputs larger than its work
 buffers

---
 src/fftwconvolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fftwconvolver.cc b/src/fftwconvolver.cc
index 4b98a62..c7f5e03 100644
--- a/src/fftwconvolver.cc
+++ b/src/fftwconvolver.cc
@@ -26,7 +26,7 @@ int round_up(int n, int rounding)
 }
 
 FFTWConvolver::FFTWConvolver(int maximum_input_size) :
-    maximum_input_size(maximum_input_size+ROUNDING-1),
+    maximum_input_size(maximum_input_size),
     r2c_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL),
     c2r_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL)
 {
-- 
2.43.0


From bcbdef0874ef73485dc7652cafefd6ccca8e746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 06/13] fix: a NaN in a boundary list was accepted and produced
 a meaningless result

---
 src/common.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/common.cc b/src/common.cc
index 4519e10..5611af9 100644
--- a/src/common.cc
+++ b/src/common.cc
@@ -1,16 +1,25 @@
 #include "common.hh"
 
+#include <cstdint>
+#include <cstring>
 #include <stdexcept>
 #include <sstream>
 
 using namespace std;
 
+// With -ffast-math the compiler may assume that there are no NaNs, so look at the bits.
+static bool is_nan(double x)
+{
+    uint64_t bits;
+    memcpy(&bits, &x, sizeof(bits));
+    return (bits & UINT64_C(0x7fffffffffffffff)) > UINT64_C(0x7ff0000000000000);
+}
 
 static bool is_monotone_increasing(const vector<double>& v)
 {
     double prev = -numeric_limits<double>::infinity();
     for (int i = 0; i < (int)v.size(); ++i) {
-        if (v[i] < prev) {
+        if (is_nan(v[i]) || (v[i] < prev)) {
             return false;
         }
         prev = v[i];
-- 
2.43.0


From d1e0ecc0dea5442b3e0153820219b1e6b362aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 07/13] fix: crossprob_mc used uninitialized random number
 generator parameters

---
 src/crossprob_mc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index c515271..a697564 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -17,6 +17,10 @@ class RandomNumberGenerator {
 public:
     RandomNumberGenerator(uint64_t seed) {
         // cout << "Random seed: " << seed << endl;
+        // Standard TinyMT64 parameter set. These must be set before calling tinymt64_init().
+        random_state.mat1 = 0xfa051f40;
+        random_state.mat2 = 0xffd0fff4;
+        random_state.tmat = UINT64_C(0x58d02ffeffbfffbc);
         tinymt64_init(&random_state, seed);
     }
     double generate_uniform01()
-- 
2.43.0


From abb41aee0774d1629c3b1e8c288a54406c5c68d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 08/13] fix: crossprob_mc could take the log of zero when
 sampling an exponential

---
 src/crossprob_mc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index a697564..3be30bc 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -12,7 +12,7 @@
 
 using namespace std;
 
-// Random number generator for uniform samples in the range [0,1]
+// Random number generator for uniform samples in the open range (0,1)
 class RandomNumberGenerator {
 public:
     RandomNumberGenerator(uint64_t seed) {
@@ -25,7 +25,7 @@ public:
     }
     double generate_uniform01()
     {
-        return tinymt64_generate_double01(&random_state); 
+        return tinymt64_generate_doubleOO(&random_state); // Never zero, so its log is finite
     }
     double generate_exponential(double beta)
     {
-- 
2.43.0


From 80ffe4088ff8afa7085120981faad3e323fd88bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 09/13] fix: crossprob_mc never terminated with more than
 2^31-1 simulations

---
 src/crossprob_mc.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 3be30bc..fd62612 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -115,8 +115,8 @@ static double ecdf_crossing_probability_montecarlo(long n, const vector<double>&
     RandomNumberGenerator rng(time(NULL) + (n<<20));
 
     vector<double> tmp_buffer(n);
-    int count_crossings = 0;
-    for (int reps = 0; reps < num_simulations; ++reps) {
+    long count_crossings = 0;
+    for (long reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_ecdf_cross(b, B, rng, tmp_buffer);
     }
 
@@ -152,8 +152,8 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
     ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
 
     vector<double> buffer(b.size() + 1);
-    int count_crossings = 0;
-    for (int reps = 0; reps < num_simulations; ++reps) {
+    long count_crossings = 0;
+    for (long reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_poisson_process_cross(b, B, exprng, buffer);
     }
 
-- 
2.43.0


From 198f3d148186782ce4c9983f9cfbc858dd0589d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 10/13] fix: crossprob_mc printed NaN when asked for zero
 simulations

---
 src/crossprob_mc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index fd62612..4214419 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -204,9 +204,9 @@ static int handle_command_line_arguments(int argc, char* argv[])
 
     string filename = string(argv[2]);
     long num_simulations = string_to_long(argv[3]);
-    if (num_simulations < 0) {
+    if (num_simulations <= 0) {
         print_usage();
-        throw runtime_error("num-simulations must be non-negative!");
+        throw runtime_error("num-simulations must be positive!");
     }
 
     pair<vector<double>, vector<double> > bounds = read_and_check_boundaries_file(filename);
-- 
2.43.0


From 5e7863c429f513cb4255140f88348bf59d1b8a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 11/13] fix: crossprob_mc poisson always estimated 0 when the
 first boundary line was empty

---
 src/crossprob_mc.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 4214419..614b8cc 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -126,6 +126,7 @@ static double ecdf_crossing_probability_montecarlo(long n, const vector<double>&
 static bool does_random_poisson_process_cross(const vector<double>& b, const vector<double>& B, ExponentialRNG& exprng, vector<double>& tmp_buffer)
 {
     size_t max_steps = b.size();
+    bool has_max_steps = max_steps > 0; // An empty b means that there is no upper bound on the number of steps.
     assert(tmp_buffer.size() >= max_steps);
 
     size_t num_steps = 0;
@@ -135,9 +136,12 @@ static bool does_random_poisson_process_cross(const vector<double>& b, const vec
         if (last_x > 1.0) {
             return does_integer_step_function_cross(&tmp_buffer[0], num_steps, b, B);
         }
-        if (num_steps >= max_steps) {
+        if (has_max_steps && (num_steps >= max_steps)) {
             return true;
         }
+        if (num_steps >= tmp_buffer.size()) {
+            tmp_buffer.resize(num_steps + 1);
+        }
         tmp_buffer[num_steps] = last_x;
         ++num_steps;
     }
-- 
2.43.0


From 0e3a8e3fa7d3a788df01bbe4e1000140450f93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 12/13] fix: crossprob_mc accepted boundaries that are not
 monotone or not in [0,1]

---
 src/crossprob_mc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 614b8cc..b249fd9 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -6,6 +6,7 @@
 #include <ctime>
 #include <cmath>
 
+#include "common.hh"
 #include "string_utils.hh"
 #include "read_boundaries_file.hh"
 #include "tinymt64.h"
@@ -216,6 +217,8 @@ static int handle_command_line_arguments(int argc, char* argv[])
     pair<vector<double>, vector<double> > bounds = read_and_check_boundaries_file(filename);
     const vector<double>& b = bounds.first;
     const vector<double>& B = bounds.second;
+    check_boundary_vector("b", b.size(), b);
+    check_boundary_vector("B", B.size(), B);
     int n = max(b.size(), B.size());
 
     if (command == "poisson") {
-- 
2.43.0


From 86b336c9db9e59e34e2b50b896eb5a42c2605f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 13/13] fix: ecdf1_mns2016 returned NaN when rounding made a
 zero integral negative

---
 src/ecdf1_mns2016.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecdf1_mns2016.cc b/src/ecdf1_mns2016.cc
index 8fc5c42..b94cb67 100644
--- a/src/ecdf1_mns2016.cc
+++ b/src/ecdf1_mns2016.cc
@@ -228,8 +228,8 @@ double ecdf1_mns2016_b(const vector<double>& b)
     //FLOAT max_coef = maximum_multiplicative_coefficient(p);
     //FLOAT min_coef = minimum_multiplicative_coefficient(p);
     FLOAT integral_result = p.evaluate(1);
-    if (integral_result == 0) {
-        return 0.0; // Avoid log(0)
+    if (integral_result <= 0) {
+        return 0.0; // The integral is zero, up to rounding. Avoid taking its log.
     }
     FLOAT log_integral_result = LOG(integral_result);
     FLOAT noncrossing_probability = EXP(LOG_GAMMA(n+1) + log_integral_result - total_exponent_delta*LOG(2));
-- 
2.43.0

