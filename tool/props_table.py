prop('C01', 'Exactly the valid boundary lists are accepted, before any computation',
     'Every computation entry of the library raises a runtime error, before computing anything, when a boundary list contains a NaN, has an element smaller than its predecessor, '
     'starts below 0 or ends above 1, or when the two lists of the two-sided computation differ in length. It never rejects lists that are free of these faults.',
     ['inputs'], 'all boundary lists of all lengths and element values, for all five entries',
     'The tests pass a handful of lists with at most ten elements and check almost no invalid one; the property is over all lengths, positions and magnitudes of a fault.',
     ['src/common.cc', 'src/ecdf1_new.cc', 'src/ecdf1_mns2016.cc', 'src/ecdf2.cc'],
     M(check_boundary_vector='src/common.cc', is_monotone_increasing='src/common.cc', is_nan='src/common.cc', callers='first statements of each ecdf* entry'),
     T_TERM, TERM)
prop('C02', 'No out-of-bounds or overlapping memory access for any valid input',
     'For boundary lists of any length that are accepted, and for every use of the convolution and Poisson-weight routines within their documented capacity, no memory access leaves its '
     'allocated block, no block copy overlaps its own source, and no routine is asked for more elements than its capacity.',
     ['inputs', 'histories'], 'all valid lists of all lengths, all values, all five entries, and the building blocks for all sizes and all reuse histories',
     'Tests use lists of at most ten elements and no memory checker; block boundaries, FFT switches and reuse occur only for particular longer lists.',
     ['src/ecdf1_new.cc', 'src/ecdf1_mns2016.cc', 'src/ecdf2.cc', 'src/fftwconvolver.cc', 'src/poisson_pmf.cc', 'src/common.cc', 'src/aligned_mem.hh'],
     M(buffer_sizes='constructors of DoubleBuffer, FFTWConvolver, PoissonPMFGenerator, PolynomialTranslatedMonomials', index_arithmetic='main loops of ecdf1_new.cc and ecdf2.cc'),
     T_ABS, SOUND)
prop('C03', 'Every computation on valid boundaries returns normally',
     'For boundary lists of any length that are accepted, each probability computation terminates and returns a value: no loop runs forever, no assertion fails, '
     'no exception escapes, no Poisson intensity is negative and no integer division by zero occurs.',
     ['inputs'], 'all valid lists of all lengths and values, including ties, zero-width steps and a lower boundary above the upper one',
     'Tests cover a few short lists; ties, single elements, crossing boundaries and block-size corner cases are not among them.',
     ['src/ecdf1_new.cc', 'src/ecdf1_mns2016.cc', 'src/ecdf2.cc', 'src/poisson_pmf.cc', 'src/fftwconvolver.cc'],
     M(block_loop='poisson_B_noncrossing_probability_n2 in src/ecdf1_new.cc', bound_loop='poisson_process_noncrossing_probability in src/ecdf2.cc', ordering='join_all_bounds in src/ecdf2.cc'),
     T_ABS, SOUND)
prop('C05', 'No result depends on memory that was never written',
     'For all valid inputs and every reuse of a convolver or weight table, each value the library reads from memory it allocated has been written before by the same computation '
     'or by the constructor of the object; results never depend on leftover memory contents.',
     ['inputs', 'histories'], 'all valid lists of all lengths, all sizes and reuse sequences of the convolver and the weight table',
     'Fresh memory is usually zero, so a missing initialisation passes the tests; it shows only after reuse or for particular sizes.',
     ['src/fftwconvolver.cc', 'src/aligned_mem.hh', 'src/ecdf1_new.cc', 'src/ecdf1_mns2016.cc', 'src/poisson_pmf.cc'],
     M(zero_padding='copy_zero_padded in src/fftwconvolver.cc', polynomial_arrays='PolynomialTranslatedMonomials constructor', tables='PoissonPMFGenerator constructor'),
     T_ABS, SOUND)
prop('C06', 'Buffers and FFT plans are released exactly once on every path',
     'Each aligned buffer and transform plan acquired during a computation is released exactly once, by its matching release function, on every normal and every exceptional exit, '
     'and is never used after its release.',
     ['inputs', 'histories', 'fault_sequences'], 'all inputs (valid or rejected), all exits of the entries and of the building blocks, all reuse sequences of a convolver',
     'Tests never check for leaks or double release, and take almost no error exit.',
     ['src/fftwconvolver.cc', 'src/aligned_mem.hh', 'src/ecdf1_new.cc', 'src/ecdf1_mns2016.cc', 'src/poisson_pmf.cc'],
     M(FFTWConvolver='constructor, destructor and plan cache', aligned_mem='allocate_aligned_doubles / free_aligned_mem', polynomial='PolynomialTranslatedMonomials destructor'),
     T_ABS, SOUND)
prop('C12', 'Direct and FFT convolution compute the same truncated convolution',
     'For every size and every pair of input vectors, the direct convolution and the FFT-based convolution each leave in the first size outputs exactly sum over j<=i of a[j]*b[i-j], '
     'for equal or different input pointers and for every reuse of one convolver object with different sizes; they differ only by floating-point rounding.',
     ['inputs', 'histories'], 'all sizes up to the convolver capacity, all input vectors, all sequences of calls on one convolver',
     'The tests only evaluate complete probabilities for n<=10, where the FFT branch is never taken and no reuse with another size occurs.',
     ['src/common.cc', 'src/fftwconvolver.cc'],
     M(convolve_same_size='src/common.cc', FFTWConvolver='convolve_same_size, zero padding, scaling and plan cache in src/fftwconvolver.cc'),
     T_TERM, TERM)
prop('C13', 'The Poisson probability routines agree with the Poisson distribution',
     'For every lambda >= 0 and every k within capacity, the one-shot probability, the table-based evaluation and the table-based array all give exp(-lambda)*lambda^k/k!, '
     'including lambda = 0 (1 at k=0, 0 elsewhere), and the array form fills exactly the requested number of entries.',
     ['inputs'], 'all lambda >= 0, all k, all table capacities',
     'The tests never call these routines directly and reach only a few (lambda, k) pairs.',
     ['src/poisson_pmf.cc', 'src/poisson_pmf.hh'],
     M(poisson_pmf='src/poisson_pmf.cc', PoissonPMFGenerator='log-gamma table, evaluate_pmf, compute_array'),
     T_TERM, TERM)
prop('C14', 'The two-sided computation equals its defining recursion for every input',
     'For every pair of accepted lists b, B of equal length n and for both convolution methods, the result is the probability that n uniform order statistics satisfy b_i <= X_(i) <= B_i: '
     'between neighbouring bounds the distribution of the number of points is convolved with the Poisson weights of n times the distance, at a lower bound one more point is allowed, '
     'at an upper bound one more is required, zero-length steps change nothing, and the final mass at n is divided by the Poisson weight of n. An unreachable window gives 0.',
     ['inputs'], 'all pairs of valid lists of all lengths, both convolution methods; one arbitrary iteration from an arbitrary state, plus start, order of the bounds and end',
     'The recursion interleaves two sorted lists with ties, empty windows and FFT switches above a size the tests (n <= 10) never reach; its correctness is an inductive statement about every iteration.',
     ['src/ecdf2.cc'],
     M(bound_merging='join_all_bounds', step='poisson_process_noncrossing_probability loop body', limits='update_dest_buffer_and_step_counts', normalisation='ecdf2'),
     T_TERM, TERM)
prop('C15', 'The one-sided block algorithm equals its defining recursion for every input',
     'For every accepted upper list of length n, ecdf1_new gives the probability that X_(i) <= B_i for all i (and for a lower list that X_(i) >= b_i): '
     'the mass after each block equals the convolved mass at the start of the block minus, for every bound inside the block, the mass that violates it first at that bound, '
     'carried to the end of the block; the blocks cover every bound exactly once, and the final value is the mass of n points divided by its Poisson weight.',
     ['inputs'], 'all valid lists of all lengths; an arbitrary block and an arbitrary bound inside it from arbitrary state, plus start, block boundaries and end',
     'The block length depends on sqrt(n) and the recursion inside a block on its position; tests with n <= 10 exercise one to three blocks of at most four bounds.',
     ['src/ecdf1_new.cc'],
     M(blocks='poisson_B_noncrossing_probability_n2', normalisation='ecdf1_new_B'),
     T_TERM, TERM)
prop('C16', 'The polynomial one-sided algorithm integrates the defining polynomials exactly',
     'For every accepted lower list of length n, ecdf1_mns2016 gives n! times the value at 1 of the iterated integral that starts from the constant 1 and at step i integrates from b_i: '
     'each iteration replaces the polynomial by its integral from the next bound, the factor it may pull out is undone exactly at the end, one iteration is made per bound, and for an upper list '
     'the result is that of the mirrored lower list. A non-positive final value gives 0.',
     ['inputs'], 'all valid lists of all lengths; an arbitrary iteration from arbitrary coefficients, plus start, number of iterations and end (in exact arithmetic)',
     'The rescaling happens every 16 iterations and only for small coefficients; tests with n <= 10 rescale once. That each iteration integrates is an inductive statement about every n.',
     ['src/ecdf1_mns2016.cc'],
     M(integration='PolynomialTranslatedMonomials::integrate / evaluate', rescaling='ldexp_all_multiplicative_coefficients', loop='ecdf1_mns2016_b'),
     T_TERM, TERM)
prop('C11', 'Lower and upper one-sided computations are mirror images',
     'For both one-sided algorithms and every accepted list x of length n, the computation for lower bounds and the one for upper bounds are related by reflection: one of them gives the other the '
     'list 1 - x_n, ..., 1 - x_1, of the same length and in this order, and returns its result unchanged.',
     ['inputs'], 'all valid lists of all lengths, an arbitrary position in the list, both algorithms',
     'The tests compare a few lists with at most ten elements; an index or value error for particular lengths or positions goes unnoticed.',
     ['src/ecdf1_new.cc', 'src/ecdf1_mns2016.cc'],
     M(block_algorithm='ecdf1_new_b', polynomial_algorithm='ecdf1_mns2016_B'),
     T_TERM, TERM)
prop('C07', 'crossprob evaluates the requested computation and prints its result',
     'crossprob <algorithm> <file> reads the lists from that file and evaluates exactly the named algorithm: ecdf1-mns2016 and ecdf1-new need exactly one non-empty list and use the lower-bound form '
     'for the first line and the upper-bound form for the second; ecdf2-ks2001 uses direct and ecdf2-mn2017 FFT convolution, an empty line standing for all zeros (first) or all ones (second). '
     'It prints the returned value, to at least six significant digits, and a line end, and nothing else, whatever the length of the lists and the size of the value.',
     ['inputs', 'configurations'], 'all commands, all combinations of list lengths, all list contents and all computed values (compared over length and value classes the program distinguishes)',
     'The tests run each command on a few small files; a choice that depends on the length of a list, the combination of empty lines or the size of the result goes unnoticed.',
     ['src/crossprob.cc'],
     M(commands='handle_command_line_arguments', lists='calculate_ecdf1_mns2016, calculate_ecdf1_new, calculate_ecdf2_ks2001, calculate_ecdf2_mn2017', output='handle_command_line_arguments'),
     T_PATH, TERM)
prop('C08', 'Failed requests are reported as failures by both programs',
     'Both programs end with exit status 0 exactly when they have printed the one number that was asked for. For a wrong number of arguments, an unknown command, lists of unsuitable shape, a number of '
     'simulations that is not a positive integer, an unreadable file, or an invalid list they print a message (that of the error raised by the library, if any) and no number, and end with a non-zero status.',
     ['inputs', 'fault_sequences'], 'both programs, all argument counts, commands, list shapes and every library call failing with each exception type it can raise',
     'Tests check a few successful runs and almost none of the failures.',
     ['src/crossprob.cc', 'src/crossprob_mc.cc'],
     M(crossprob='main and handle_command_line_arguments in src/crossprob.cc', crossprob_mc='main and handle_command_line_arguments in src/crossprob_mc.cc'),
     T_PATH, TERM)
prop('C09', 'Boundary files and integer arguments are read exactly as written',
     'The lists come from the file that was named: the first list holds, in order, the comma-separated numbers of its first line, the second those of its second line, each number being what strtod '
     'gives for the whole field; only one empty last field is left out, at any line length and number of fields. A file that cannot be opened, a missing line, and a field that does not start with a '
     'number or is out of the range of a double are errors. An integer argument must be a decimal number in the range of long, without anything after it.',
     ['inputs', 'fault_sequences'], 'all lines of all lengths, an arbitrary character, field and line from arbitrary state; all outcomes of opening, reading and converting',
     'The tests read a few short well-formed files; long fields, many fields, missing lines, conversion failures and out-of-range values are not among them.',
     ['src/read_boundaries_file.cc', 'src/string_utils.cc'],
     M(lines='read_and_check_boundaries_file, read_next_line', fields='split, read_comma_delimited_doubles', numbers='string_to_double, string_to_long'),
     T_PATH, TERM)
prop('C10', 'The simulation draws the specified paths and counts those that cross',
     'crossprob_mc checks both lists, draws as many paths as asked for and prints one minus the fraction that crosses. A path is counted exactly when it has fewer points than the second list, or (if the '
     'first list is not empty) more points than the first list, or some i-th point is below the first or above the second list. An ecdf path is n ordered points, partial sums of n+1 exponentials over '
     'their total; a Poisson path is the points up to 1 with exponential gaps of mean 1/n. No random number is used twice. All of this for any list lengths and number of simulations.',
     ['inputs', 'histories'], 'arbitrary lists, counts, generator states and repetitions; interpreted situations sampled from a fixed set, with the size thresholds of the code',
     'The tests run the simulation on a few short lists and accept a wide band of random results, so a wrong path, a wrong decision at one index or a reused random number passes.',
     ['src/crossprob_mc.cc', 'src/common.cc'],
     M(decision='does_integer_step_function_cross', ecdf='ecdf_crossing_probability_montecarlo, does_random_ecdf_cross', poisson='poisson_process_crossing_probability_montecarlo', program='handle_command_line_arguments'),
     T_PATH, TERM)

prop('C17', 'The Python module passes lists, results and errors through unchanged',
     'Each of the five functions of the Python module takes the lists (any Python sequence of int or float, of any length) and the flag, and evaluates exactly the library function of the same name on '
     'lists of the same length with the same numbers in the same order, and on the same flag. It returns the value of that evaluation as a float, on every call. If an argument is not a sequence of '
     'numbers or the library raises an error, Python gets an exception (RuntimeError for a runtime error of the library) and no value. Lists made by the conversion are released exactly once.',
     ['inputs', 'histories', 'fault_sequences'], 'all five functions, lists of any length and content, both flags, every failing conversion, each exception type, any earlier calls',
     'The tests only run the command line programs; the extension is imported once by the build, with one call.',
     ['python_extension/crossprob.cc', 'python_extension/crossprob.py'],
     M(wrappers='_wrap_ecdf*', conversion='swig::asptr, SWIG_AsVal_double, SWIG_AsVal_bool', module='the functions of crossprob.py'),
     T_PATH, TERM)
prop('C18', 'Random numbers are those of the published TinyMT64 generator',
     'For every generator (any state words and parameters), a draw moves the state as the published 64-bit TinyMT algorithm does, leaves the parameters alone, and yields the published number; the number '
     'drawn in the open interval is never 0 or 1. Seeding with any 64-bit seed (tinymt64_init) or with an array of words (tinymt64_init_by_array) gives the published state words, never the all-zero '
     'state. The generator of each simulation in crossprob_mc has the standard parameters (mat1 fa051f40, mat2 ffd0fff4, tmat 58d02ffeffbfffbc) when it is seeded and at every draw.',
     ['inputs', 'histories'], 'every bit of the state, parameters and seed symbolic, one draw from an arbitrary state (hence any number of draws); arrays of 0 to 16 words (thorough: to 39, 64 and 100)',
     'The tests run the simulation on a few short lists and accept a wide band of results; a generator with short period, truncated seed or biased bits passes.',
     ['src/tinymt64.h', 'src/tinymt64.cc', 'src/crossprob_mc.cc'],
     M(step='tinymt64_next_state', number='tinymt64_temper*, tinymt64_generate_*', seeding='tinymt64_init, tinymt64_init_by_array', parameters='RandomNumberGenerator'),
     'bit-precise abstract interpretation: the bits after a draw or seeding are derived as polynomials over GF(2) from compiler IR and compared with those of the published algorithm; constant propagation of the parameters', 'The polynomials are a canonical form, so equality is decided for all inputs; sums and products of words are atoms.')
prop('C04', 'Results are accurate to a stated relative error in floating point',
     'For every accepted input the computed probability differs from the exact one by no more than a small multiple of the rounding unit (or, for FFT convolution, of the largest intermediate value).',
     ['inputs'], 'all accepted inputs', 'The tests compare a few short lists with stored results.', ['src/ecdf2.cc', 'src/ecdf1_new.cc', 'src/ecdf1_mns2016.cc'], M(sums='the convolution and integration loops'),
     na='Needs bounds on the accumulated rounding error of data-dependent sums of any length (with cancellation in two of the algorithms) and of the FFT library; sound static error domains become vacuous after a few steps. The other checks decide the real-number meaning.')
prop('C20', 'All algorithms agree with each other',
     'The one-sided algorithms and the two-sided algorithm with the other boundary left open give the same probability.',
     ['inputs'], 'all accepted lists', 'The tests compare the algorithms on a few short lists.', ['src/ecdf2.cc', 'src/ecdf1_new.cc', 'src/ecdf1_mns2016.cc'], M(entries='ecdf2, ecdf1_new_*, ecdf1_mns2016_*'),
     na='That the three recursions, each of which is decided on its own (C14, C15, C16), have the same value is a theorem of probability theory and no fact about this source; agreement of the floating-point results is C04.')
