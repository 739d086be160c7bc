"""What decides each property: contracts (roots; everything they rely on is verified too), lemma groups, and the
bounded conformance run of the real code that looks for a failing input."""
TWO = ['two-direct', 'two-fft']
CLIENTS = ['lower boundary: all algorithms agree', 'upper boundary: all algorithms agree', 'a lower boundary and its mirror image', 'two-sided: range, FFT and direct agree', 'monotone in both boundaries']
PROPS = {
    'C01': dict(roots=['ecdf2'], lean=['pois', 'rw', 'merge', 'fft', 'orderstat'], theorems=['order_statistics'], conf=[('ecdf', [TWO])]),
    'C02': dict(roots=['FFTWConvolver::FFTWConvolver', 'FFTWConvolver::~FFTWConvolver', 'FFTWConvolver::convolve_same_size', 'convolve_same_size'], lean=['fft'], conf=[('fft', [])]),
    'C03': dict(roots=['ecdf1_new_B', 'ecdf1_new_b'], lean=['pois', 'rw', 'fft', 'dw', 'reflect', 'orderstat'], theorems=['order_statistics'], conf=[('ecdf', [['new-B', 'new-b']])]),
    'C04': dict(roots=['ecdf1_mns2016_b', 'ecdf1_mns2016_B'], lean=['pois', 'rw', 'mns', 'reflect', 'orderstat'], theorems=['order_statistics'], conf=[('ecdf', [['mns-b', 'mns-B']])]),
    'C05': dict(roots=['check_boundary_vector', 'ecdf2', 'ecdf1_new_B', 'ecdf1_new_b', 'ecdf1_mns2016_b', 'ecdf1_mns2016_B'], lean=['pois', 'rw', 'merge', 'fft', 'dw', 'reflect', 'mns'], conf=[('validity', [])]),
    'C09': dict(roots=['poisson_pmf', 'PoissonPMFGenerator::PoissonPMFGenerator', 'PoissonPMFGenerator::~PoissonPMFGenerator', 'PoissonPMFGenerator::evaluate_pmf', 'PoissonPMFGenerator::compute_array', 'PoissonPMFGenerator::get_array',
                       'FFTWConvolver::FFTWConvolver', 'FFTWConvolver::~FFTWConvolver', 'FFTWConvolver::convolve_same_size', 'convolve_same_size', 'check_boundary_vector', 'ecdf2', 'ecdf1_new_B', 'ecdf1_new_b', 'ecdf1_mns2016_b', 'ecdf1_mns2016_B'],
                lean=['pois', 'rw', 'merge', 'fft', 'dw', 'reflect', 'mns'], conf=[('safety', [])]),
    'C14': dict(roots=['ecdf2', 'ecdf1_new_B', 'ecdf1_new_b', 'ecdf1_mns2016_b', 'ecdf1_mns2016_B'] + CLIENTS, lean=['pois', 'rw', 'merge', 'fft', 'dw', 'reflect', 'mns', 'client', 'orderstat'], theorems=['order_statistics'], conf=[('agree', [])]),
    'C12': dict(roots=['RandomNumberGenerator::RandomNumberGenerator', 'RandomNumberGenerator::generate_uniform01', 'RandomNumberGenerator::generate_exponential', 'ExponentialRNG::ExponentialRNG', 'ExponentialRNG::generate'], lean=[], extra='tinymt', conf=[('tiny', []), ('rng_class', [])]),
    'C10': dict(roots=['does_integer_step_function_cross'], lean=['mc'], conf=[('mc_cross', [])]),
    'C11': dict(roots=['does_random_ecdf_cross', 'does_random_poisson_process_cross', 'ecdf_crossing_probability_montecarlo', 'poisson_process_crossing_probability_montecarlo'], lean=['mc'], extra='tinymt', conf=[('mc_freq', []), ('mc_cross', []), ('rng_class', []), ('tiny', [])]),
    'C06': dict(roots=['read_and_check_boundaries_file', 'read_comma_delimited_doubles', 'split', 'string_to_double', 'string_to_long'], lean=['split'], conf=[('parsing', [])]),
    'C07': dict(roots=['crossprob: main', 'read_and_check_boundaries_file', 'read_comma_delimited_doubles', 'split', 'string_to_double'], lean=['pois', 'rw', 'dw', 'split'], conf=[('cli', []), ('parsing', [])],
                elsewhere={'ecdf2': 'the checks of C01 and C05', 'ecdf1_new_b': 'the checks of C03 and C05', 'ecdf1_new_B': 'the checks of C03 and C05', 'ecdf1_mns2016_b': 'the checks of C04 and C05', 'ecdf1_mns2016_B': 'the checks of C04 and C05'}),
    'C13': dict(roots=['crossprob_mc: main', 'read_and_check_boundaries_file', 'read_comma_delimited_doubles', 'split', 'string_to_double', 'string_to_long'], lean=['split'], conf=[('mc_cli', []), ('parsing', [])],
                elsewhere={'ecdf_crossing_probability_montecarlo': 'the check of C11', 'poisson_process_crossing_probability_montecarlo': 'the check of C11'}),
    'C08': dict(roots=['poisson_pmf', 'PoissonPMFGenerator::PoissonPMFGenerator', 'PoissonPMFGenerator::~PoissonPMFGenerator', 'PoissonPMFGenerator::evaluate_pmf', 'PoissonPMFGenerator::compute_array', 'PoissonPMFGenerator::get_array'], lean=['pois'], conf=[('pois', [])]),
}

COMMON = [
    'the verification-condition generator in vcg/ (Python), its model of the C++ constructs and standard-library calls that occur (vcg/lib.py), and clang 18 as the parser of the current sources against the declarations in stubs/',
    'z3 and cvc5 as the provers of the obligations; Lean 4 with Mathlib as the prover of the lemmas',
    'double and long double arithmetic treated as real arithmetic; -ffast-math and rounding are outside the proof (bounded conformance run only)',
    'machine integers treated as mathematical integers with an overflow obligation on every operation; list lengths up to 2^20',
    'libm (exp, log, lgamma, sqrt, pow, frexp, ldexp) computes the mathematical function; memory allocation succeeds',
    'inputs are numbers or infinities, not NaN',
]
FFTW = ['FFTW: a planned r2c/c2r transform computes the unnormalised DFT of its input array (dftRe, dftIm, idft in lean/defs.lean) and may destroy the input']
TINY = ['CBMC 6.11 with its SAT back end or z3 (bit-precise C semantics; tinymt64.cc read as C), and the correspondence between the C names in its contracts and the functions NS0, NS1, DOC, INIT0, INIT1 of the simulator contracts']
PARSE = ['libc strtod and strtol (C locale): value, number of characters used and error of a text are what the C standard says (uninterpreted functions of the text; NaN is exactly what is spelled with an initial n)',
         'std::getline, ifstream::open/exceptions, string::substr/size/c_str, vector and transform behave as the C++ standard says; a file is a sequence of lines (FLINE, NLINES), reading may fail at any line',
         'lines are at most 2^30 characters long (their positions are counted with int)']
CLI = ['the operating system calls main with argc strings and a null pointer in argv; cout prints a double in its default format (6 significant digits) and what is written to it reaches standard output',
       'boundary files of at most 2^20 numbers per line; a caller of read_and_check_boundaries_file sees the numbers of a line as one array (ELEMS), defined by the contract of that function']
EXTRA_TRUST = {'C07': PARSE + CLI, 'C13': PARSE + CLI + ['0 simulations and two empty lists in the Poisson mode are accepted, but nothing is claimed about the number printed (0/0, intensity 0)'], 'C06': PARSE, 'C12': TINY, 'C11': TINY + ['that normalised partial sums of exponential variables have the law of sorted uniform variables, and partial sums up to 1 that of a Poisson process (textbook facts, not proved here); double(count) is exact (fewer than 2^53 simulations)']}
def TRUSTED(p): return COMMON + (FFTW if 'fft' in PROPS[p]['lean'] else []) + EXTRA_TRUST.get(p, [])
def _c05(r, o): return 'throws' in o['name'] or 'returns normally' in o['name'] or r['contract'] == 'check_boundary_vector'
def _c09(r, o): return not o.get('value')      # safety and everything it rests on, but not the numbers computed
RELEVANT = {'C05': _c05, 'C09': _c09}
NOTES = {}
NA = {
    'C15': 'The contracts treat doubles as real numbers; a bound on accumulated rounding of exp/log/lgamma, FFTW, 80-bit arithmetic and -ffast-math code is not expressible with the verifiers at hand (no deductive tool here has a usable floating-point error semantics for this code).',
    'C16': 'The Python module is SWIG-generated glue (thousands of lines against the CPython API, regenerated at build time); no contract verifier here reads it, and its behaviour is that of SWIG.',
}
