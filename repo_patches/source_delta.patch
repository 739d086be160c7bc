From 22eee39b8553330ffab27529a4019bbd13ea4062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 01/12] fix: ecdf1_new_B aborted (or read out of bounds) for
 boundaries of length 0 and 1

---
 src/ecdf1_new.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecdf1_new.cc b/src/ecdf1_new.cc
index b87b17f..3dd17c5 100644
--- a/src/ecdf1_new.cc
+++ b/src/ecdf1_new.cc
@@ -116,11 +116,15 @@ double ecdf1_new_B(const vector<double>& B)
     //cout << "Called ecdf1_new_B()\n";
     int n = B.size();
     check_boundary_vector("B", n, B);
+    if (n == 0) {
+        return 1.0; // No constraints
+    }
 
     // Asymptotically any k in the range [logn, n/logn] should give optimal results as n goes to infinity.
     // Setting k=c*sqrt(n) and minimizing the asymptotic runtime, we obtain k=sqrt(2*n),
     // however, empirically slightly lower numbers give better results.
     int k = sqrt(n) + 1; // The +1 is to prevent it from being zero for small array sizes.
+    k = min(k, n); // For n==1 the above gives k==2.
 
 
     vector<double> poisson_nocross_probabilities = poisson_B_noncrossing_probability_n2(n, n, B, k);
-- 
2.43.0


From 99de00fb7eede29d533283d5679eada706ef92ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 02/12] fix: ecdf2 aborted when b_i > B_i for some i instead of
 returning probability 0

---
 src/ecdf2.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ecdf2.cc b/src/ecdf2.cc
index 9cf2dd7..5841048 100644
--- a/src/ecdf2.cc
+++ b/src/ecdf2.cc
@@ -121,6 +121,13 @@ double ecdf2(const vector<double>& b, const vector<double>& B, bool use_fft)
     check_boundary_vector("b", n, b);
     check_boundary_vector("B", n, B);
 
+    // If b_i > B_i for some i, the event b_i <= X_(i) <= B_i is impossible.
+    for (int i = 0; i < n; ++i) {
+        if (b[i] > B[i]) {
+            return 0.0;
+        }
+    }
+
     vector<double> poisson_nocross_probs = poisson_process_noncrossing_probability(n, n, b, B, use_fft);
 
     return poisson_nocross_probs[n] / poisson_pmf(n, n);
-- 
2.43.0


From ebd07cc7458b9c9dd97297e0a11bc3e59897787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 03/12] fix: ecdf1_mns2016_b returned NaN when the non-crossing
 probability is 0

---
 src/ecdf1_mns2016.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecdf1_mns2016.cc b/src/ecdf1_mns2016.cc
index 6d858b6..20f1e51 100644
--- a/src/ecdf1_mns2016.cc
+++ b/src/ecdf1_mns2016.cc
@@ -228,6 +228,9 @@ double ecdf1_mns2016_b(const vector<double>& b)
     //FLOAT max_coef = maximum_multiplicative_coefficient(p);
     //FLOAT min_coef = minimum_multiplicative_coefficient(p);
     FLOAT integral_result = p.evaluate(1);
+    if (integral_result <= 0) {
+        return 0.0; // LOG() would yield -inf, or NaN if rounding errors made the result negative.
+    }
     FLOAT log_integral_result = LOG(integral_result);
     FLOAT noncrossing_probability = EXP(LOG_GAMMA(n+1) + log_integral_result - total_exponent_delta*LOG(2));
     // cout << p << endl;
-- 
2.43.0


From 350a33668255349eb4abe54f3b3397607749fa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 04/12] fix: the TinyMT64 parameters mat1, mat2 and tmat were
 never initialized

---
 src/crossprob_mc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index c515271..88ef9e0 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -17,6 +17,10 @@ class RandomNumberGenerator {
 public:
     RandomNumberGenerator(uint64_t seed) {
         // cout << "Random seed: " << seed << endl;
+        // tinymt64_init() reads these parameters. The values are those of the reference TinyMT64 generator.
+        random_state.mat1 = 0xfa051f40;
+        random_state.mat2 = 0xffd0fff4;
+        random_state.tmat = UINT64_C(0x58d02ffeffbfffbc);
         tinymt64_init(&random_state, seed);
     }
     double generate_uniform01()
-- 
2.43.0


From c1071d7ebdaf1d4481c4e812f9d4490d8e66ea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 05/12] fix: generate_exponential() could take the logarithm of
 0 and return infinity

---
 src/crossprob_mc.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 88ef9e0..40bdb1b 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -29,7 +29,8 @@ public:
     }
     double generate_exponential(double beta)
     {
-        return -beta * log(generate_uniform01()); 
+        // The argument of log() must not be zero, hence the (0,1] variant of the uniform generator.
+        return -beta * log(tinymt64_generate_doubleOC(&random_state));
     }
 private:
     tinymt64_t random_state;
-- 
2.43.0


From ffc22ccc549e25e12ab1b613a526c4562aa9d178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 06/12] fix: FFTWConvolver accepted inputs larger than its
 buffers, overflowing them

---
 src/fftwconvolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fftwconvolver.cc b/src/fftwconvolver.cc
index 4b98a62..c7f5e03 100644
--- a/src/fftwconvolver.cc
+++ b/src/fftwconvolver.cc
@@ -26,7 +26,7 @@ int round_up(int n, int rounding)
 }
 
 FFTWConvolver::FFTWConvolver(int maximum_input_size) :
-    maximum_input_size(maximum_input_size+ROUNDING-1),
+    maximum_input_size(maximum_input_size),
     r2c_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL),
     c2r_plans(round_up(2*maximum_input_size, ROUNDING)/ROUNDING, NULL)
 {
-- 
2.43.0


From dc54966b5084c0ca247154b6b0a5eb7a3298daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 07/12] fix: 'crossprob_mc poisson' reported that all processes
 cross when the first line was empty

---
 src/crossprob_mc.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 40bdb1b..49eb648 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -126,7 +126,8 @@ static double ecdf_crossing_probability_montecarlo(long n, const vector<double>&
 
 static bool does_random_poisson_process_cross(const vector<double>& b, const vector<double>& B, ExponentialRNG& exprng, vector<double>& tmp_buffer)
 {
-    size_t max_steps = b.size();
+    // If b is empty the number of steps is not bounded, but only the first B.size() of them matter.
+    size_t max_steps = (b.size() > 0) ? b.size() : B.size();
     assert(tmp_buffer.size() >= max_steps);
 
     size_t num_steps = 0;
@@ -137,7 +138,7 @@ static bool does_random_poisson_process_cross(const vector<double>& b, const vec
             return does_integer_step_function_cross(&tmp_buffer[0], num_steps, b, B);
         }
         if (num_steps >= max_steps) {
-            return true;
+            return (b.size() > 0) || does_integer_step_function_cross(&tmp_buffer[0], num_steps, b, B);
         }
         tmp_buffer[num_steps] = last_x;
         ++num_steps;
@@ -152,7 +153,7 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
 
     ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
 
-    vector<double> buffer(b.size() + 1);
+    vector<double> buffer(max(b.size(), B.size()) + 1);
     int count_crossings = 0;
     for (int reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_poisson_process_cross(b, B, exprng, buffer);
-- 
2.43.0


From 718cacc71bb88b3967707fcb5962edb108f5f41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 08/12] fix: Monte-Carlo repetition counters overflowed for
 num-simulations >= 2^31

---
 src/crossprob_mc.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index 49eb648..ad5a692 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -116,8 +116,8 @@ static double ecdf_crossing_probability_montecarlo(long n, const vector<double>&
     RandomNumberGenerator rng(time(NULL) + (n<<20));
 
     vector<double> tmp_buffer(n);
-    int count_crossings = 0;
-    for (int reps = 0; reps < num_simulations; ++reps) {
+    long count_crossings = 0;
+    for (long reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_ecdf_cross(b, B, rng, tmp_buffer);
     }
 
@@ -154,8 +154,8 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
     ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
 
     vector<double> buffer(max(b.size(), B.size()) + 1);
-    int count_crossings = 0;
-    for (int reps = 0; reps < num_simulations; ++reps) {
+    long count_crossings = 0;
+    for (long reps = 0; reps < num_simulations; ++reps) {
         count_crossings += does_random_poisson_process_cross(b, B, exprng, buffer);
     }
 
-- 
2.43.0


From 98ec646f150761d1963637aac1cd7d3bab57e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 09/12] fix: undefined double to int conversion in the random
 seed for boundaries longer than 2147

---
 src/crossprob_mc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index ad5a692..db8c19c 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -151,7 +151,7 @@ static double poisson_process_crossing_probability_montecarlo(double intensity,
         return 1.0;
     }
 
-    ExponentialRNG exprng(time(NULL) + (int)(intensity*1000000.0), 1.0/intensity);
+    ExponentialRNG exprng(time(NULL) + (long)(intensity*1000000.0), 1.0/intensity);
 
     vector<double> buffer(max(b.size(), B.size()) + 1);
     long count_crossings = 0;
-- 
2.43.0


From bb0c08dfbff4ca48a74e88a74f685b5f0fc6449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 10/12] fix: tinymt64_generate_double() could round up to 1.0,
 outside its documented range [0,1)

---
 src/tinymt64.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tinymt64.h b/src/tinymt64.h
index eed92de..57ed88d 100644
--- a/src/tinymt64.h
+++ b/src/tinymt64.h
@@ -48,7 +48,7 @@
 #define TINYMT64_SH1 11
 #define TINYMT64_SH8 8
 #define TINYMT64_MASK UINT64_C(0x7fffffffffffffff)
-#define TINYMT64_MUL (1.0 / 18446744073709551616.0)
+#define TINYMT64_MUL (1.0 / 9007199254740992.0)
 
 #if defined(__cplusplus)
 extern "C" {
@@ -182,13 +182,14 @@ inline static uint64_t tinymt64_generate_uint64(tinymt64_t * random) {
 
 /**
  * This function outputs floating point number from internal state.
- * This function is implemented using multiplying by 1 / 2^64.
+ * This function is implemented using multiplying the 53 most significant
+ * bits by 1 / 2^53. (Converting all 64 bits could round up to 1.0)
  * @param random tinymt internal status
  * @return floating point number r (0.0 <= r < 1.0)
  */
 inline static double tinymt64_generate_double(tinymt64_t * random) {
     tinymt64_next_state(random);
-    return tinymt64_temper(random) * TINYMT64_MUL;
+    return (tinymt64_temper(random) >> 11) * TINYMT64_MUL;
 }
 
 /**
-- 
2.43.0


From 561b0c7c7f29f0f8b4bf55a493980467b776f6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 11/12] fix: the simulator indexed element 0 of an empty vector
 when n is 0

---
 src/crossprob_mc.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crossprob_mc.cc b/src/crossprob_mc.cc
index db8c19c..6f7d28a 100644
--- a/src/crossprob_mc.cc
+++ b/src/crossprob_mc.cc
@@ -101,7 +101,7 @@ static double does_random_ecdf_cross(const vector<double>& b, const vector<doubl
     for (size_t i = 0; i < tmp_buffer.size(); ++i) {
         tmp_buffer[i] /= normalizing_factor;
     }
-    return does_integer_step_function_cross(&tmp_buffer[0], tmp_buffer.size(), b, B);
+    return does_integer_step_function_cross(tmp_buffer.data(), tmp_buffer.size(), b, B);
 }
 
 static double ecdf_crossing_probability_montecarlo(long n, const vector<double>& b, const vector<double>& B, long num_simulations)
@@ -135,10 +135,10 @@ static bool does_random_poisson_process_cross(const vector<double>& b, const vec
     while (true) {
         last_x += exprng.generate();
         if (last_x > 1.0) {
-            return does_integer_step_function_cross(&tmp_buffer[0], num_steps, b, B);
+            return does_integer_step_function_cross(tmp_buffer.data(), num_steps, b, B);
         }
         if (num_steps >= max_steps) {
-            return (b.size() > 0) || does_integer_step_function_cross(&tmp_buffer[0], num_steps, b, B);
+            return (b.size() > 0) || does_integer_step_function_cross(tmp_buffer.data(), num_steps, b, B);
         }
         tmp_buffer[num_steps] = last_x;
         ++num_steps;
-- 
2.43.0


From 6cd96ad0e06749bdca5b95c3e9378ebae0f4083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 12/12] fix: "nan" in a boundary file was accepted as a number

crossprob printed 0 (or aborted on an assertion, ecdf1-new) for a boundary
list with a NaN in it: with -ffast-math every range check is false for NaN.
---
 src/string_utils.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/string_utils.cc b/src/string_utils.cc
index be9340c..7f8ac47 100644
--- a/src/string_utils.cc
+++ b/src/string_utils.cc
@@ -50,6 +50,12 @@ double string_to_double(const string& s)
         throw runtime_error(string("Error converting string to double '") + s + "'\n" + strerror(errno));
     }
 
+    // "nan" is not a number. It is recognized by its spelling since isnan() is always false with -ffast-math.
+    const char* number = p + strspn(p, " \t\n\v\f\r+-");
+    if ((*number == 'n') || (*number == 'N')) {
+        throw runtime_error(string("Error converting string to double '") + s + "'");
+    }
+
     //if (*endptr != '\0') {
     //    throw runtime_error(string("Trailing characters during conversion of string to double:") + s + "\n");
     //}
-- 
2.43.0

