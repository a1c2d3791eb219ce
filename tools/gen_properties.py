"""Write /verif/properties.jsonl (kept as code so that it is easy to review)."""
import json
from pathlib import Path

S = 'src/triumvirate/'
P = []


def at(f):
    return f if f.startswith('apps/') else S + f


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=[at(f) for f in files],
            mechanism=[dict(name=n, where=at(w)) for n, w in mech],
            observe_at=observe, hook_needed=None,
        )))


prop('C01', 'Placing catalogues in a box only shifts, wraps and reports them truthfully',
     'Any sequence of offset, centring, padding and periodising operations on a catalogue (alone or with a reference catalogue) applies one common rigid displacement to every particle of every catalogue involved (modulo the box size when periodising, after which every coordinate lies in [0, box size) ), and puts the reference extents exactly where the operation promises (midpoint at box centre, minimum at the requested padding). The recorded coordinate bounds and spans always describe the current coordinates, no other column changes, and the lines of sight are the unit vectors towards the particles as they were when computed.',
     ['inputs', 'histories'],
     'all catalogues, box sizes, paddings and all sequences of placement operations on one or two catalogues',
     'The tests place one fixed catalogue once with each method; they cannot cover arbitrary geometry (points on edges, one particle, negative coordinates) or operation sequences on paired catalogues.',
     ['catalogue.py', 'src/particles.cpp'],
     [('centre/pad/periodise/offset_coords', 'catalogue.py'), ('bounds and spans bookkeeping', 'catalogue.py'), ('compute_los', 'catalogue.py')],
     ['catalogue columns, bounds, spans, compute_los()'])

prop('C02', 'Catalogues hold exactly the data they were given, with documented defaults',
     'A catalogue built from arrays or read from a text file (any column order, extra columns, comments, either reader) holds exactly the given values in the given order; missing redshift-space densities and weights take the documented defaults, unknown or missing coordinate columns are rejected. The particle count, the total systematic and overall weights and the mean density always equal the sums over the columns, and writing then reading item by item returns what was stored.',
     ['inputs', 'configurations'],
     'all column contents, orders, subsets and file layouts',
     'The tests load one fixed file with one column list; they do not vary layouts, optional columns, weights or read/write of individual columns.',
     ['catalogue.py', 'src/particles.cpp', '_particles.pyx'],
     [('ParticleCatalogue constructor and read_from_file', 'catalogue.py'), ('__getitem__/__setitem__', 'catalogue.py')],
     ['catalogue attributes and columns'])

prop('C03', 'Periodic-box power spectrum equals its definition',
     'For every particle set in a periodic box, grid, assignment scheme, interlacing choice, multipole degree and binning, the reported raw power, shot noise, mode count and effective wavenumber in each bin equal the values computed directly from the definition (mass assignment by the stated B-spline kernel, discrete Fourier transform, window compensation, line-of-sight-weighted averaging over exactly the modes in the bin).',
     ['inputs', 'configurations'],
     'all particle sets, box shapes, grids (odd or even, including anisotropic), assignment schemes, interlacing, degrees, binnings',
     'The tests compare one configuration with stored outputs produced by the same code; that does not settle correctness for other schemes, grids, degrees or particle positions such as cell edges.',
     ['twopt.py', '_twopt.pyx', 'src/twopt.cpp', 'src/field.cpp', 'src/maths.cpp'],
     [('mass assignment and interlacing', 'src/field.cpp'), ('mode binning', 'src/field.cpp'), ('compute_powspec_in_gpp_box', 'src/twopt.cpp')],
     ['compute_powspec_in_gpp_box() results'])

prop('C04', 'Survey power spectrum multipoles equal the local plane-parallel estimator',
     'For every pair of data and random catalogues with weights and lines of sight, the reported raw power multipoles, shot noise, mode counts and effective wavenumbers equal a direct evaluation of the local plane-parallel (Yamamoto-type) estimator built from the weighted data field minus the scaled random field, for every degree, assignment scheme, interlacing choice, alignment and binning.',
     ['inputs', 'configurations'],
     'all catalogue pairs, weights, lines of sight, boxes, grids, schemes and degrees',
     'The tests check one stored configuration; sums over azimuthal orders, conjugations and weight factors can be wrong elsewhere without any test noticing.',
     ['twopt.py', '_twopt.pyx', 'src/twopt.cpp', 'src/field.cpp', 'src/maths.cpp'],
     [('compute_powspec', 'src/twopt.cpp'), ('compute_ylm_wgtd_field', 'src/field.cpp'), ('shot noise amplitude', 'src/twopt.cpp')],
     ['compute_powspec() results'])

prop('C05', 'Two-point correlation functions and their window equal their definitions',
     'For every input, the two-point correlation function multipoles of a periodic box, of a survey catalogue pair and of a random-catalogue window equal a direct evaluation: the shot-noise-subtracted three-dimensional power is transformed to configuration space and averaged with the multipole weighting over exactly the separation vectors in each bin (resolved to the sampling width of the implementation), with the matching pair counts and effective separations.',
     ['inputs', 'configurations'],
     'all catalogues, boxes, grids, schemes, degrees and separation bins',
     'The tests hold one stored configuration per function; shot-noise subtraction, grid geometry and degree dependence are not examined elsewhere.',
     ['twopt.py', '_twopt.pyx', 'src/twopt.cpp', 'src/field.cpp'],
     [('compute_corrfunc*', 'src/twopt.cpp'), ('compute_2pt_stats_in_config', 'src/field.cpp')],
     ['compute_corrfunc(), compute_corrfunc_in_gpp_box(), compute_corrfunc_window()'])

prop('C06', 'Periodic-box bispectrum equals its definition',
     'For every particle set in a periodic box, the raw bispectrum and its shot-noise contribution in every pair of wavenumber bins equal a direct evaluation of the tripolar-spherical-harmonic estimator from the particle field and its discrete Fourier modes, for every allowed multipole, statistic form, assignment scheme and binning, together with mode counts and effective wavenumbers.',
     ['inputs', 'configurations'],
     'all particle sets, boxes, grids, schemes, multipoles (l1,l2,L), forms and bins',
     'The tests store one measurement of the (0,0,0) diagonal form; other multipoles, forms and shot-noise terms are never compared with anything.',
     ['threept.py', '_threept.pyx', 'src/threept.cpp', 'src/field.cpp'],
     [('compute_bispec_in_gpp_box', 'src/threept.cpp'), ('band-limited inverse transforms', 'src/field.cpp'), ('uncoupled and coupled shot noise', 'src/field.cpp')],
     ['compute_bispec_in_gpp_box() results'])

prop('C07', 'Survey bispectrum equals its local plane-parallel definition',
     'For every pair of data and random catalogues with weights and lines of sight, the raw bispectrum multipoles and their shot-noise contribution equal a direct evaluation of the estimator with the local line of sight on the third leg and all its coupled sums over azimuthal orders, for every allowed multipole, form, scheme and binning.',
     ['inputs', 'configurations'],
     'all catalogue pairs, weights, boxes, grids, schemes, multipoles and forms',
     'The tests store one measurement of one multipole; the azimuthal sums, symmetry shortcuts and weighted shot-noise terms of other multipoles are not examined.',
     ['threept.py', '_threept.pyx', 'src/threept.cpp', 'src/field.cpp'],
     [('compute_bispec', 'src/threept.cpp'), ('compute_ylm_wgtd_quad_field', 'src/field.cpp')],
     ['compute_bispec() results'])

prop('C08', 'Three-point correlation functions equal their definition',
     'For every input, the raw three-point correlation function multipoles of a periodic box and of a survey catalogue pair, and the shot noise reported with them, equal a direct evaluation by spherical-Bessel-weighted transforms at the centres or effective values of the separation bins (separations resolved to the sampling width of the implementation), for every allowed multipole, form, scheme and binning.',
     ['inputs', 'configurations'],
     'all catalogues, boxes, grids, schemes, multipoles, forms and bins',
     'The tests store one multipole in the diagonal form per function.',
     ['threept.py', '_threept.pyx', 'src/threept.cpp', 'src/field.cpp', 'src/maths.cpp'],
     [('compute_3pcf*', 'src/threept.cpp'), ('inv_fourier_transform_sjl_ylm_wgtd_field', 'src/field.cpp')],
     ['compute_3pcf(), compute_3pcf_in_gpp_box()'])

prop('C09', 'Three-point window functions, with wide-angle terms, equal their definition',
     'For every random catalogue, the three-point correlation function window multipoles equal a direct evaluation of the three-point estimator on the unsubtracted weighted random field, and for wide-angle orders (i, j) the third leg carries exactly the extra power law of radial distance (measured from the mesh corner, as the code documents) with the exponent the orders prescribe; separations are resolved to the sampling width of the implementation.',
     ['inputs', 'configurations'],
     'all random catalogues, boxes, grids, schemes, multipoles, forms, bins and wide-angle orders',
     'The tests check one stored window multipole; wide-angle orders other than the defaults are not covered.',
     ['threept.py', '_threept.pyx', 'src/threept.cpp', 'src/field.cpp'],
     [('compute_3pcf_window', 'src/threept.cpp'), ('apply_wide_angle_pow_law_kernel', 'src/field.cpp')],
     ['compute_3pcf_window()'])

prop('C10', 'Forms and multipoles of one three-point statistic are mutually consistent',
     'Diagonal, off-diagonal, row, full and triangular measurements of the same statistic report identical values, coordinates, shot noise and counts wherever they cover the same bin pair, in the documented order. Exchanging the first two degrees transposes the full-form result, and multipoles that vanish by angular-momentum selection rules are rejected rather than measured.',
     ['inputs', 'configurations'],
     'all inputs, all multipoles, all forms and indices, all three-point statistics',
     'No test relates two forms or two multipoles to each other.',
     ['threept.py', 'src/threept.cpp', '_threept.pyx'],
     [('form/shape handling in every three-point algorithm', 'src/threept.cpp'), ('multipole validation', 'threept.py')],
     ['all three-point functions'])

prop('C11', 'Measurements respect the symmetries of the estimators',
     'Every statistic is unchanged (to numerical precision) when particles are reordered, when a periodic box is translated by whole grid cells or shifted particles wrap around it, when the number of threads changes, and when any common factor multiplies the weights of one catalogue, up to the known power of that factor. Permuting the three coordinate axes of an isotropic statistic together with box and grid leaves it unchanged.',
     ['inputs', 'configurations', 'schedules'],
     'all catalogues and configurations, all permutations, translations, weight factors and thread counts',
     'Each test runs one catalogue in one order with one thread setting.',
     ['twopt.py', 'threept.py', 'src/twopt.cpp', 'src/threept.cpp', 'src/field.cpp', 'src/particles.cpp'],
     [('parallel loops and reductions', 'src/field.cpp'), ('alpha contrast', 'src/particles.cpp')],
     ['all measurement functions'])

prop('C12', 'Normalisation follows the chosen convention',
     'The normalisation factor reported and applied equals the one the chosen convention defines (particle sums, mesh integrals, mixed data-random mesh integrals, or none), for two- and three-point statistics of survey, box and window type; the reported alternatives match their own definitions. Catalogues whose densities, weights or lack of overlap make the chosen integral vanish, and conventions that do not apply to the statistic, raise an error rather than returning infinite or meaningless statistics.',
     ['inputs', 'configurations'],
     'all catalogues, all conventions, all statistics',
     'The tests only use the particle or no-normalisation default on one catalogue.',
     ['twopt.py', 'threept.py', 'src/field.cpp', 'src/twopt.cpp', 'src/threept.cpp'],
     [('calc_*_normalisation_from_{particles,mesh,meshes}', 'src/field.cpp'), ('norm_convention handling', 'twopt.py')],
     ['measurement functions with each norm_convention; normalisation wrappers'])

prop('C13', 'Binnings are contiguous, ordered and centred as their scheme says',
     'For every range, bin count and scheme, the bin edges are strictly increasing, start and end where requested, number one more than the bins, and follow the scheme (linear, logarithmic, custom, or padded with the leading fixed-width bins), with centres and widths consistent with the edges. This also holds after any sequence of re-ranging, re-schemings and custom settings, independent of the path taken, and binnings built from parameters agree with those built directly.',
     ['inputs', 'histories'],
     'all ranges, counts, schemes, spaces and setting sequences',
     'The tests build one binning per scheme.',
     ['dataobjs.pyx', 'src/dataobjs.cpp'],
     [('Binning.set_bins', 'src/dataobjs.cpp'), ('set_edges_and_centres', 'src/dataobjs.cpp'), ('from_parameter_set', 'dataobjs.pyx')],
     ['Binning attributes'])

prop('C14', 'Recorded mesh vectors are exactly the vectors each bin contains',
     'For every box, grid and binning in either space, the recorded vectors are precisely the mesh vectors whose length falls in each bin (lower edge included, upper edge excluded), each once, with the matching bin index and edges, sorted by bin, and they reproduce the mode or pair counts and effective coordinates of measurements on the same mesh.',
     ['inputs', 'configurations'],
     'all boxes, grids (including anisotropic), binnings, both spaces',
     'The tests check shapes of one recording.',
     ['fieldmesh.py', '_field.pyx', 'src/field.cpp'],
     [('record_binned_vectors', 'src/field.cpp')],
     ['record_binned_vectors(); saved binned-vector files'])

prop('C15', 'Parameter sets are validated and completed as documented',
     'Every parameter set built from a mapping, a YAML file or the program\'s parameter file either carries a documented legal combination, with the derived quantities (volume, mesh size, grid from cutoff, assignment order, point order and space, interlacing, form/shape, FFTW planner flag and wisdom files) consistent with the given values, or is rejected with an error; no illegal value or combination of the documented parameters is silently accepted and no legal one rejected. In the program\'s parameter file only whole parameter names count, in any order and whatever the values, comments and white space around them.',
     ['inputs', 'configurations'],
     'all parameter mappings and files, legal and illegal, near the documented boundaries',
     'The tests probe a handful of single illegal values.',
     ['parameters.pyx', 'src/parameters.cpp', 'resources/params_template.yml', 'resources/params_template.ini'],
     [('ParameterSet.validate', 'src/parameters.cpp'), ('ParameterSet.read_from_file', 'src/parameters.cpp'), ('_parse_params', 'parameters.pyx')],
     ['ParameterSet construction and lookups', 'parameters_used print-out and exit status of the program'])

prop('C16', 'A parameter set depends on its present content only, and round-trips',
     'After any sequence of item updates and bulk updates (accepted or rejected) and measurements, a parameter set has the same entries and gives the same measurements as one freshly built from its present content, and rejected updates never leave it claiming validity. Building or updating one never alters the mapping passed in. Saving it to YAML and loading it gives an equal set, and a C++ parameter set equals its copies and, to the printed digits, what is read back from its print-out.',
     ['histories', 'inputs'],
     'all sequences of updates and all parameter contents',
     'The tests set one or two values once; nothing compares an updated set with a fresh one.',
     ['parameters.pyx', 'src/parameters.cpp'],
     [('__setitem__/update/_validate', 'parameters.pyx'), ('save', 'parameters.pyx'), ('print_to_file', 'src/parameters.cpp')],
     ['ParameterSet items, save(), C++ print_to_file(), measurements made with it'])

prop('C17', 'Measurements are repeatable and have no hidden side effects',
     'Calling a measurement again with the same catalogues, lines of sight and parameters returns the same result, whatever other measurements ran in between and whichever logger, verbosity, progress bar, planner, thread number or output options are chosen, and its threads never race for the same memory. Arguments are left unchanged apart from the documented effects (catalogues are placed in the box, missing mean densities of box catalogues are filled in, and a given parameter set takes the overriding values). Explicit arguments and their equivalents inside the parameter set give the same result, and omitted lines of sight, box sizes and grid cell numbers are determined from the catalogues as documented.',
     ['histories', 'configurations'],
     'all sequences of measurements, thread schedules and optional-argument combinations',
     'Each test calls one function once in a fresh process state.',
     ['twopt.py', 'threept.py', 'logger.py', 'parameters.pyx'],
     [('_amalgamate_parameters', 'twopt.py'), ('catalogue conversion', 'catalogue.py'), ('degree/binning overrides', 'threept.py')],
     ['all measurement functions, parameter and catalogue state before and after'])

prop('C18', 'Saved measurements contain what was returned, where they should be',
     'A measurement saved as text or as an archive is written in the configured directory under the name composed of the statistic, multipole, form, wide-angle orders and the full user tag, and reading it back gives the returned values to the printed precision in the columns named. The header describes the catalogues, box, mesh and normalisation of the run, and the stated normalisation factor is the one that was applied. Configurations with different names never overwrite each other, unknown formats are rejected, and no other file is written.',
     ['inputs', 'configurations'],
     'all statistics, multipoles, forms, tags, formats and directories',
     'The tests never read a saved file back.',
     ['twopt.py', 'threept.py'],
     [('_assemble_measurement_datatab / _print_measurement_header', 'twopt.py'), ('file naming and saving', 'threept.py')],
     ['files in the measurement directory'])

prop('C19', 'The command-line program and the Python interface measure the same thing',
     'For the same catalogue files and parameter values, the compiled program writes for every statistic and form the same bins, counts, effective coordinates, raw values, shot noise and normalisation that the Python interface returns, to output precision, and exits with success; it exits with failure and no output file when the parameters are illegal or catalogues are unreadable.',
     ['inputs', 'configurations', 'programs'],
     'all catalogue files, column layouts and parameter combinations supported by both',
     'No test runs the program at all.',
     ['main/triumvirate.cpp', 'src/io.cpp', 'src/parameters.cpp', 'src/particles.cpp', 'src/threept.cpp', 'src/twopt.cpp'],
     [('program main', 'main/triumvirate.cpp'), ('parameter file reader', 'src/parameters.cpp'), ('print_measurement_datatab_to_file', 'src/io.cpp')],
     ['program exit status and output files'])

prop('C20', 'Malformed inputs are rejected without memory errors or corrupted results',
     'Whatever the command line, the parameter file or the catalogue files contain (truncated lines, wrong or missing columns, non-numeric text, missing or repeated keys, over-long values, extreme numbers, empty or missing files), the program either completes and leaves its measurement file or stops with an error status and a message (an uncaught exception reported with its message included), leaving none; neither these nor ordinary runs read or write outside the memory of the program or have undefined behaviour. A catalogue file without a readable number in a needed column is always rejected, and changes of layout alone (comments, blank lines, surplus columns, spacing) never change a measurement.',
     ['inputs', 'fault_sequences'],
     'all parameter and catalogue file contents',
     'No test runs the program, and none uses malformed files.',
     ['main/triumvirate.cpp', 'src/parameters.cpp', 'src/particles.cpp', 'src/io.cpp', 'src/field.cpp', 'src/threept.cpp'],
     [('parameter file reader', 'src/parameters.cpp'), ('catalogue file reader', 'src/particles.cpp')],
     ['program exit status and sanitizer reports'])

prop('C21', 'Hankel-type transforms compute the transforms they define',
     'For every degree, bias, sampling and admissible input, the logarithmic Hankel and (double) spherical Bessel transforms return samples at the reciprocal points and values matching the defining integral for functions with known transforms; forward then backward returns the original samples to numerical precision, and the transform is linear. Calls leave the inputs untouched and give the same result when repeated on the same object or computed through any documented entry (biased, low-ringing, extrapolated and cosmological variants).',
     ['inputs', 'configurations', 'histories'],
     'all degrees, biases, sample counts, ranges, extrapolation options and complex inputs',
     'The tests compare one analytic pair at one degree.',
     ['transforms.py', '_fftlog.pyx', 'src/fftlog.cpp', 'src/maths.cpp', 'src/arrayops.cpp'],
     [('HankelTransform', 'src/fftlog.cpp'), ('SphericalBesselTransform, DoubleSphericalBesselTransform', 'transforms.py')],
     ['transform() results, resampling helpers'])

prop('C22', 'Array extrapolation and reshaping helpers obey their definitions',
     'For every admissible array, each extrapolation option extends the samples by exactly the requested amount on each side, leaves the original block untouched and follows the stated law (zero, constant, linear, log-linear, oscillatory log-linear) in one and two dimensions; spacing and shape checks accept exactly the arrays they describe. Flattened and tabulated three-point data convert to two-dimensional arrays and back without loss or reordering.',
     ['inputs', 'configurations'],
     'all arrays, extents, options and shapes',
     'The tests use a few hand-made arrays.',
     ['_arrayops.py', 'src/arrayops.cpp'],
     [('extrap_* and extrap2d_*', '_arrayops.py'), ('reshape_threept_datatab', '_arrayops.py'), ('_check_*', '_arrayops.py')],
     ['returned arrays'])

prop('C23', 'Window-convolution coefficients and multipole labels follow their algebra',
     'The coefficients of the two- and three-point window-convolution formulae equal their closed angular-momentum expressions for all multipoles, built-in formulae list exactly the non-zero terms with those coefficients, and formula objects report exactly the multipoles their terms involve. Multipole labels given as strings, tuples or objects are equal, hash equal and order consistently as a total order.',
     ['inputs'],
     'all multipoles up to the degrees used, all named and user-made formulae',
     'The tests check a few hand-picked coefficients and default construction.',
     ['winconv.py'],
     [('calc_threept_winconv_coeff', 'winconv.py'), ('WinConvFormulae', 'winconv.py'), ('Multipole', 'winconv.py')],
     ['coefficients, formula tables, comparisons and sorting'])

prop('C24', 'Window convolution applies its formula to any input',
     'Convolving correlation-function multipoles with window multipoles gives at every sample the sum of coefficient times window times correlation prescribed by the formula minus the integral constraint where requested, which is the window-weighted mean of the correlation function so that the convolved monopole integrates to zero; power-spectrum and bispectrum convolution equals transforming, multiplying and transforming back; results are linear in the inputs, a unit monopole window returns the input, and every documented multipole label type, sampling, interpolation and concatenation option is honoured. A generated convolution matrix acts on vectors exactly as the direct convolution does.',
     ['inputs', 'configurations'],
     'all formulae, windows, inputs, samplings and options',
     'The tests stop at construction; no convolution result is checked.',
     ['winconv.py', 'transforms.py', '_arrayops.py'],
     [('TwoPCFWinConv, PowspecWinConv, ThreePCFWinConv, BispecWinConv', 'winconv.py'), ('convolution matrix', 'winconv.py')],
     ['convolve(), gen_winconv_mat() results'])

prop('C25', 'Window containers keep, select, resample and reload their contents faithfully',
     'A three-point window built from arrays, dictionaries, measurement files or a saved file holds the same multipoles, sources and samples; saving and loading returns an equal container. Selecting a sub-range keeps exactly the requested samples in place or as a copy, resampling onto log-linear points interpolates the held values and keeps the requested ranges, and none of these alter the original data unless asked to.',
     ['inputs', 'histories'],
     'all multipole sets, sampling arrays, ranges and sequences of operations',
     'The tests never construct a window container.',
     ['winconv.py', '_arrayops.py'],
     [('ThreePointWindow', 'winconv.py')],
     ['container attributes and saved files'])

prop('C26', 'Work distribution covers every task exactly once',
     'For every number of tasks and processes, the allocation gives every process a non-negative share, shares differ by at most one, and the segments handed to the processes are contiguous, ordered, disjoint and cover all tasks, so that a convolution matrix gathered from any number of processes, with any process as root and in any order of progress, equals the serial result on the root and nothing elsewhere; warnings caught on the way are repeated once each and by the root only.',
     ['inputs', 'schedules', 'configurations'],
     'all task counts and process counts',
     'No test runs the distribution code.',
     ['_mpitools.py', 'winconv.py'],
     [('allocate_tasks, distribute_tasks', '_mpitools.py')],
     ['allocation results, matrix assembly over simulated processes'])

prop('C27', 'Special functions behind the estimators equal their mathematical definition',
     'For every admissible argument, the Wigner 3-j symbols, reduced spherical harmonics (pointwise and tabulated on Fourier and configuration meshes), spherical Bessel functions, gamma functions and gamma ratios used by the estimators and transforms equal their mathematical definition to floating-point accuracy and vanish exactly where selection rules say so. Tabulated versions agree with the pointwise ones, and interpolated ones within the accuracy of the interpolation.',
     ['inputs'],
     'all degrees and orders used by the library and all real or complex arguments in the domain, including zero vectors, axes and large arguments',
     'The tests evaluate one or two hand-picked arguments per function, if any.',
     ['src/maths.cpp', 'threept.py', 'winconv.py'],
     [('wigner_3j, SphericalHarmonicCalculator, SphericalBesselCalculator', 'src/maths.cpp'), ('eval_gamma_lnratio', 'src/maths.cpp')],
     ['compiled special functions called directly; exported coupling coefficients'])

prop('C28', 'Measurements and objects give back the memory and files they take',
     'A measurement, a transform, a catalogue, a binning or a parameter set, made and dropped again and again in one process, leaves neither memory nor open files behind, whether each repetition succeeds or raises an error, with one thread or several and with results saved or not. The program ends its run with all the memory it accounts for released.',
     ['histories', 'fault_sequences'],
     'all statistics and objects, valid or raising errors at any stage, repeated any number of times',
     'No test measures memory or runs an operation more than a few times; error paths, where release is skipped most easily, are hardly tested at all.',
     ['_twopt.pyx', '_threept.pyx', '_field.pyx', 'dataobjs.pyx', 'parameters.pyx', '_particles.pyx', '_fftlog.pyx', 'src/field.cpp', 'src/twopt.cpp', 'src/threept.cpp', 'main/triumvirate.cpp'],
     [('FieldStats, MeshField destructors', 'src/field.cpp'), ('lines of sight passed to C++', '_threept.pyx'), ('memory account', 'src/monitor.cpp')],
     ['memory in use and open descriptors of the process', 'warnings of the program'])

prop('C29', 'The companion scripts transform files exactly as they describe',
     'The scripts in apps do what their descriptions say for any valid input, change no input file and write nothing when they refuse one. Combining data vectors takes the bin centres, effective coordinates, counts, raw values and shot noise of each component from the files the package saves, one row per realisation in file-name order, every row from a single realisation; realisations outside the asked range are left out, incomplete sets are refused and differing bins are warned of. Exchanging the axes of a two-dimensional three-point measurement swaps both coordinates, the rows, the file name and the column names, changes nothing else, and done twice restores the file; a measurement whose first two degrees are equal is left alone. A generated parameter file is its template with exactly the named parameters replaced, with values of the right type. The coefficient table lists every non-vanishing window-convolution coefficient exactly once, correct and in the order asked for.',
     ['inputs', 'configurations'],
     'all sets of saved measurements, serial numbers, file-name patterns, measurement shapes, parameter names and values, and multipole lists',
     'No test runs any of these scripts.',
     ['apps/io/comb_data_vectors.py', 'apps/io/exchange_coord_axes.py', 'apps/io/gen_param_file.py', 'apps/calculators/gen_wc_coeffs.py'],
     [('read_measurements, combine_components', 'apps/io/comb_data_vectors.py'), ('transpose_datatab', 'apps/io/exchange_coord_axes.py'), ('gen_python_params, gen_cpp_params', 'apps/io/gen_param_file.py')],
     ['files written and text printed by the scripts'])

prop('C30', 'Logs and progress bars report each event once, in order and at its level',
     'A message logged through the Python logger or the C++ one appears exactly once if its level reaches the level asked for and not at all otherwise, whole and unaltered whatever characters it has, with its level, a time that does not go back and, from Python, whether C++ is entered, running or left; setting up the logger again adds no copies, and captured warnings name their file, line and category. A measurement or program run at a verbosity level logs exactly the messages of a run at level zero that reach it. A progress bar starts at its first node, is shown once at each, never goes back or beyond 100 %, and every component of a three-point measurement, in any form, runs its bar to exactly 100 % before the next one starts; none is shown when not asked for.',
     ['histories', 'configurations', 'inputs'],
     'all messages, levels, histories of logger set-ups, terminals, elapsed times, bar intervals, task counts, statistics, forms and multipoles',
     'The tests set up the logger once and never look at what is logged or at a progress bar.',
     ['logger.py', 'src/monitor.cpp', 'src/threept.cpp', 'main/triumvirate.cpp'],
     [('setup_logger', 'logger.py'), ('Logger, ProgressBar, show_elapsed_time', 'src/monitor.cpp'), ('progbar_task_count', 'src/threept.cpp'), ('command-line options', 'main/triumvirate.cpp')],
     ['lines written to standard output'])

out = Path(__file__).resolve().parent.parent / 'properties.jsonl'
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
