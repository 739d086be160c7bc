#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=observe,hook_needed=None)))
p("C01","Two-sided probability is exact, with and without FFT",
 "For every sample size n and every pair of valid boundary lists b and B, the two-sided function returns the probability that n sorted independent uniform [0,1] points satisfy b_i <= X_(i) <= B_i for all i, up to floating-point rounding. This holds identically for the direct and for the FFT-based algorithm, for boundaries with ties, for boundaries touching 0 and 1, and for incompatible boundaries (some b_i > B_i), whose probability is 0.",
 ["inputs","configurations"],"all n >= 0, all valid boundary pairs (each list non-decreasing, within [0,1], length n), both values of the FFT switch",
 "The tests try five boundary files with n <= 10 and compare 6 printed digits; the FFT code path needs n >= 128 and is never executed by them, ties between the two lists are hardly sampled, infeasible boundaries not at all.",
 ["src/ecdf2.cc","src/common.cc","src/common.hh","src/poisson_pmf.cc","src/poisson_pmf.hh","src/fftwconvolver.cc"],
 [("Chapman-Kolmogorov propagation of the non-crossing Poisson process over the merged, sorted boundary points","src/ecdf2.cc:poisson_process_noncrossing_probability"),
  ("merging and sorting of the boundary points","src/ecdf2.cc:join_all_bounds"),
  ("conditioning on n events: division by Pr[Pois(n)=n]","src/ecdf2.cc:ecdf2")],
 ["return value of ecdf2(b, B, use_fft)"],
 [("src buffer","src[m] = probability of having m events at the current location without having crossed","src/ecdf2.cc")])
p("C02","FFT convolver computes the exact truncated convolution, any size, any history",
 "A convolver created for inputs of up to N elements returns, for every size from 0 to N and every pair of inputs, the first `size` terms of their linear convolution (up to rounding), whatever sequence of sizes and inputs the same convolver was given before. It never changes its inputs, never writes outside the `size` output elements, and refuses sizes larger than N with an error.",
 ["inputs","histories"],"all N, all sizes, all inputs, all histories of earlier calls on the same object",
 "No test reaches the FFT branch (size >= 128), plan reuse, padding or the capacity guard.",
 ["src/fftwconvolver.cc","src/fftwconvolver.hh","src/aligned_mem.hh"],
 [("zero padding to a multiple of 2048 of at least 2*size, memoized plans, convolution theorem","src/fftwconvolver.cc:FFTWConvolver::convolve_same_size"),
  ("direct convolution for small sizes","src/fftwconvolver.cc:convolve_same_size_naive"),("capacity guard","src/fftwconvolver.cc:FFTWConvolver::convolve_same_size")],
 ["output array of FFTWConvolver::convolve_same_size"],
 [("r2c_plans, c2r_plans","one plan per padded size, created on first use","src/fftwconvolver.hh")])
p("C03","One-sided probability of the new O(n^2) algorithm is exact",
 "For every valid upper boundary B the new one-sided algorithm returns Pr[X_(i) <= B_i for all i], and for every valid lower boundary b it returns Pr[X_(i) >= b_i for all i], for n sorted independent uniform [0,1] points, up to floating-point rounding. This includes n = 0 and n = 1, repeated boundary values, and boundaries touching 0 and 1.",
 ["inputs"],"all n >= 0 and all valid one-sided boundaries",
 "The tests run n=3 and n=10 only; the block size, the number of blocks and the partial last block change with n, and the FFT is used only for n >= 128.",
 ["src/ecdf1_new.cc","src/poisson_pmf.cc","src/poisson_pmf.hh","src/fftwconvolver.cc","src/common.hh"],
 [("jumps of about sqrt(n) boundary points, subtracting the paths which exit inside the jump","src/ecdf1_new.cc:poisson_B_noncrossing_probability_n2"),
  ("reflection of the lower boundary","src/ecdf1_new.cc:ecdf1_new_b")],
 ["return values of ecdf1_new_B(B) and ecdf1_new_b(b)"])
p("C04","One-sided probability of the polynomial algorithm is exact",
 "For every valid lower boundary b the polynomial (MNS2016) algorithm returns Pr[X_(i) >= b_i for all i], and for every valid upper boundary B it returns Pr[X_(i) <= B_i for all i], for n sorted independent uniform [0,1] points, up to floating-point rounding. A probability of zero is returned as 0, and the internal rescaling of exponents never changes the result.",
 ["inputs"],"all n >= 0 and all valid one-sided boundaries",
 "The tests run n=3 and n=10 only, so the exponent rescaling (every 16 steps) happens once; zero probabilities are not tried.",
 ["src/ecdf1_mns2016.cc"],
 [("repeated integration of a polynomial in translated monomials","src/ecdf1_mns2016.cc:ecdf1_mns2016_b"),
  ("exponent rescaling","src/ecdf1_mns2016.cc:ecdf1_mns2016_b"),("reflection of the upper boundary","src/ecdf1_mns2016.cc:ecdf1_mns2016_B")],
 ["return values of ecdf1_mns2016_b(b) and ecdf1_mns2016_B(B)"])
p("C05","Invalid boundaries are always rejected, valid ones never",
 "Every probability function reports an error (an exception of type std::runtime_error) exactly when a boundary list it was given is not non-decreasing, has an element below 0 or above 1, or, for two-sided calls, differs in length from the other list; otherwise it returns a result. No result is ever returned for an invalid boundary.",
 ["inputs"],"all lists of finite numbers, of every length, for all five probability functions",
 "No test passes an invalid boundary.",
 ["src/common.cc","src/ecdf2.cc","src/ecdf1_new.cc","src/ecdf1_mns2016.cc"],
 [("boundary validation","src/common.cc:check_boundary_vector"),("monotonicity check","src/common.cc:is_monotone_increasing"),
  ("calls of the validation before any computation","src/ecdf2.cc, src/ecdf1_new.cc, src/ecdf1_mns2016.cc")],
 ["exceptions thrown by ecdf2, ecdf1_new_b, ecdf1_new_B, ecdf1_mns2016_b, ecdf1_mns2016_B"])
p("C06","Boundary files are parsed faithfully",
 "Reading a boundary file yields exactly the numbers written on its first line as the lower list and those on its second line as the upper list, in order, one per comma-separated field; an empty line gives an empty list and one trailing comma is ignored. A field that does not start with a number, a number out of the range of doubles, a missing second line or an unreadable file is reported as an error and never silently dropped.",
 ["inputs"],"all file contents and file names",
 "The tests read eight well-formed files and never a malformed one.",
 ["src/read_boundaries_file.cc","src/string_utils.cc"],
 [("splitting at commas","src/string_utils.cc:split"),("conversion of a field","src/string_utils.cc:string_to_double"),
  ("trailing comma","src/string_utils.cc:read_comma_delimited_doubles"),("line order and stream errors","src/read_boundaries_file.cc")],
 ["return value of read_and_check_boundaries_file(filename)"])
p("C07","crossprob runs the requested algorithm on the boundaries given and reports it",
 "With exactly two arguments, a known algorithm name and a readable, valid boundary file, crossprob prints the probability computed by that algorithm for those boundaries, with an absent lower list meaning all zeros and an absent upper list all ones, and exits with status 0. Any other use (wrong argument count, unknown algorithm, one-sided algorithm with both or with neither list, two-sided algorithm with lists of different non-zero length, unreadable or malformed file, invalid boundary) prints an error message, no probability, and exits with a non-zero status.",
 ["inputs"],"all command lines and all boundary files",
 "The tests run 16 successful command lines and no failing one; for the two-sided algorithms only one file has an absent list on each side.",
 ["src/crossprob.cc"],
 [("dispatch on the algorithm name","src/crossprob.cc:handle_command_line_arguments"),("one- and two-sided adapters","src/crossprob.cc:calculate_*"),("exit codes","src/crossprob.cc:main")],
 ["stdout and exit status of bin/crossprob"])
p("C08","Poisson probabilities are exact for every intensity, count and history",
 "For every intensity lambda >= 0 and every count k, the Poisson probability functions give e^-lambda lambda^k / k! (1 or 0 for lambda = 0), and after any sequence of earlier requests a table request for 0..k fills exactly those entries with these values. A negative intensity in a table request is refused with an error.",
 ["inputs","histories"],"all lambda, all k up to the capacity, all sequences of earlier table requests on the same generator",
 "The functions are only exercised through the algorithms, with few intensities and no zero-length interval after a positive one for one-sided boundaries.",
 ["src/poisson_pmf.cc","src/poisson_pmf.hh"],
 [("single value","src/poisson_pmf.hh:poisson_pmf"),("log-gamma table","src/poisson_pmf.cc:PoissonPMFGenerator::PoissonPMFGenerator"),
  ("table of values","src/poisson_pmf.cc:PoissonPMFGenerator::compute_array"),("value from the table of log-gamma","src/poisson_pmf.hh:PoissonPMFGenerator::evaluate_pmf")],
 ["poisson_pmf(), PoissonPMFGenerator::evaluate_pmf(), PoissonPMFGenerator::get_array()"])
p("C09","No computation accesses memory out of bounds, aborts, overflows or hangs",
 "For every input that the probability functions accept, every read and write stays inside the vector or buffer it refers to, nothing uninitialized is read, no integer overflows, no internal assertion fails and every loop terminates.",
 ["inputs"],"all valid boundary lists with n up to 2^20, for all five probability functions and the classes they use",
 "An out-of-bounds access often goes unnoticed, and the tests reach neither the FFT buffers nor n = 0, n = 1 or n > 10.",
 ["src/ecdf2.cc","src/ecdf1_new.cc","src/ecdf1_mns2016.cc","src/fftwconvolver.cc","src/poisson_pmf.cc","src/poisson_pmf.hh","src/common.cc","src/common.hh","src/aligned_mem.hh"],
 [("buffer sizes derived from n","src/ecdf1_new.cc, src/ecdf2.cc, src/ecdf1_mns2016.cc"),("capacities of the generator and the convolver","src/poisson_pmf.cc, src/fftwconvolver.cc"),("assertions","all algorithm files")],
 ["absence of crashes, sanitizer reports and aborts"])
p("C10","Monte-Carlo: a realised sample is counted as crossing iff it violates a boundary",
 "In the simulator, a realisation with k jump points x_1 <= ... <= x_k counts as crossing exactly when k is smaller than the length of the upper list B, or the lower list b is non-empty and k exceeds its length, or some x_i > B_i, or some x_i < b_i.",
 ["inputs"],"all realisations and all pairs of boundary lists of any lengths",
 "The tests only compare a random estimate with a known value to within 0.01, for five files; Poisson mode is not tested.",
 ["src/crossprob_mc.cc"],
 [("upper list","src/crossprob_mc.cc:does_integer_step_function_cross_lower_boundary"),("lower list","src/crossprob_mc.cc:does_integer_step_function_cross_upper_boundary"),("combination","src/crossprob_mc.cc:does_integer_step_function_cross")],
 ["decision for one realisation"])
p("C11","Monte-Carlo: samples have the right law and the estimate is the exact frequency",
 "Given independent uniform random numbers, each empirical-CDF simulation uses the n normalised partial sums of n+1 exponential variables built from fresh random numbers, and each Poisson simulation uses the partial sums, up to 1, of exponential variables with mean 1/intensity. The reported crossing frequency is the number of crossing simulations divided by the number of simulations requested, and 1 when the lengths of the lists make non-crossing impossible.",
 ["inputs","histories"],"all n, all boundary lists, all numbers of simulations >= 1, all streams of random numbers",
 "A statistical test with tolerance 0.01 cannot see small biases, reuse of random numbers or rare-event mistakes; Poisson mode is not tested.",
 ["src/crossprob_mc.cc"],
 [("empirical CDF sample","src/crossprob_mc.cc:does_random_ecdf_cross"),("Poisson sample","src/crossprob_mc.cc:does_random_poisson_process_cross"),
  ("frequency","src/crossprob_mc.cc:ecdf_crossing_probability_montecarlo, poisson_process_crossing_probability_montecarlo"),("exponential variable","src/crossprob_mc.cc:RandomNumberGenerator")],
 ["decision for one simulated realisation; estimated crossing probability"])
p("C12","The generator is TinyMT64, fully seeded, and in range for every state",
 "Every generator object is completely initialised from its seed with the reference TinyMT64 parameters and never starts in the all-zero state; its successive states and 64-bit outputs are those of the TinyMT64 recurrence. For every state, each floating-point variant returns a number inside its documented interval, so that the logarithm taken for exponential variables is always finite.",
 ["inputs","histories"],"all 64-bit seeds, all seed arrays, all generator states",
 "The tests never look at the generator; extreme states occur once in 2^52 draws.",
 ["src/tinymt64.cc","src/tinymt64.h","src/crossprob_mc.cc"],
 [("initialisation","src/tinymt64.cc:tinymt64_init, tinymt64_init_by_array"),("recurrence","src/tinymt64.h:tinymt64_next_state, tinymt64_temper"),("conversion to double","src/tinymt64.h:tinymt64_generate_double01 and variants"),("parameters","src/crossprob_mc.cc:RandomNumberGenerator")],
 ["generator state and outputs"],[("status[2], mat1, mat2, tmat","127-bit state and parameters","src/tinymt64.h")])
p("C13","crossprob_mc runs the requested simulation and reports the non-crossing estimate",
 "With three arguments, a known mode, a readable boundary file and a decimal number of simulations, crossprob_mc prints one minus the crossing frequency estimated by that mode with that many simulations for those boundaries, n being the longer list's length, and exits with status 0. Any other use (wrong argument count, unknown mode, a simulation count that is not entirely a decimal integer in range or is negative, unreadable or malformed file) prints an error message, no estimate, and exits with a non-zero status.",
 ["inputs"],"all command lines and all boundary files",
 "The tests run the 'ecdf' mode on five files and no failing command line.",
 ["src/crossprob_mc.cc","src/string_utils.cc"],
 [("dispatch","src/crossprob_mc.cc:handle_command_line_arguments"),("integer argument","src/string_utils.cc:string_to_long"),("exit codes","src/crossprob_mc.cc:main")],
 ["stdout and exit status of bin/crossprob_mc"])
p("C14","All algorithms agree, and lower and upper boundaries are mirror images",
 "For every valid boundary the one-sided algorithms return the same value (up to rounding) as the two-sided one with the other list set to all zeros or all ones, and the result for a lower boundary b equals the result for the upper boundary 1-b_n, ..., 1-b_1. The results lie in [0,1] and never increase when a lower boundary element is raised or an upper boundary element is lowered.",
 ["inputs"],"all valid boundaries, all pairs of algorithms applicable to them, all comparable pairs of boundaries",
 "The tests compare the algorithms on two files with n = 10.",
 ["src/ecdf2.cc","src/ecdf1_new.cc","src/ecdf1_mns2016.cc"],
 [("all algorithms refer to the same probability","src/ecdf2.cc, src/ecdf1_new.cc, src/ecdf1_mns2016.cc"),("reflection","src/ecdf1_new.cc:ecdf1_new_b, src/ecdf1_mns2016.cc:ecdf1_mns2016_B")],
 ["return values of the five probability functions"])
p("C15","Rounding errors stay within a stated bound",
 "For every valid boundary of up to a stated length, the computed double-precision probability differs from the exact probability by at most a stated bound.",
 ["inputs"],"all valid boundaries up to that length",
 "The tests compare 6 digits for n <= 10.",
 ["src/ecdf2.cc","src/ecdf1_new.cc","src/ecdf1_mns2016.cc","src/fftwconvolver.cc"],
 [("double and 80-bit arithmetic, FFTW, libm, -ffast-math","Makefile, src/*.cc")],["return values"])
p("C16","The Python module returns what the C++ functions return",
 "Calling a function of the Python module with lists of numbers returns the value of the corresponding C++ function, and C++ errors become Python exceptions.",
 ["inputs"],"all lists of Python numbers",
 "No test imports the Python module.",
 ["src/crossprob.i","python_extension/crossprob.cc","python_extension/crossprob.py"],
 [("SWIG wrapper","src/crossprob.i")],["return values and exceptions of the Python functions"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
