# Property table, exec'd by gen.py
FREQ = AE + 'frequency_handling/frequency_handler.py'
CONV = AE + 'frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py'
P('P01', 'Mode frequencies are correct in every reference frame and unit system',
  'For every mode triad and every supported requested frequency unit, the co-rotating and inertial '
  'cyclic, angular and dimensionless frequencies (adiabatic and non-adiabatic), and the surface rotation frequency, '
  'are exact unit conversions of the same physical quantity given by the pulsation code, whatever units and frame '
  'each input file uses. Inertial and co-rotating values always differ by the azimuthal order times the '
  'rotation frequency. Re-using one handler for another triad never leaks values of the earlier triad.',
  ['inputs', 'configurations', 'histories'],
  'all frequencies, azimuthal orders, rotation rates, stellar masses and radii; all combinations of given/requested '
  'units, frames and rotation conventions; object re-use',
  'Tests use a handful of fixed unit/frame combinations and regression values; the identity must hold for every '
  'combination and every value.',
  [FREQ, CONV],
  [('unit conversion factors', CONV), ('frame transformation', FREQ)],
  ['frequency getters of the frequency handler'])
P('P02', 'Triad detuning, driving rates, quality factors and spins obey their definitions',
  'Linear detuning is the parent minus both daughter co-rotating angular frequencies; driving/damping rates are the '
  'imaginary parts in the requested units; quality factors, their pairwise products, the detuning-to-damping ratios '
  'and the spin factors are the defining ratios of those quantities, for adiabatic and non-adiabatic input alike.',
  ['inputs', 'configurations'],
  'all triads, all unit and frame combinations',
  'The existing tests check shapes and a few regression numbers for one unit choice.',
  [FREQ, CONV], [('derived scalar quantities of the triad', FREQ)],
  ['properties of the frequency handler read by the stationary solver and stability checkers'])
STAT = AE + 'stationary_solving/three_mode/three_mode_stationary.py'
GENSTAT = AE + 'stationary_solving/generic/stationary_solve.py'
STAB3 = AE + 'stability_checker/three_mode/stab_checker_quadratic_three_sum.py'
STAB2 = AE + 'stability_checker/two_mode/stab_checker_quadratic_two_sum.py'
HYP = AE + 'stability_checker/hyperbolicity/hyperbolicity_checker.py'
PRE3 = AE + 'pre_checks/specific/three_mode_checks.py'
PREG = AE + 'pre_checks/generic/generic_quadratic_checks.py'
P('P03', 'Stationary three-mode solutions are fixed points of the amplitude equations',
  'The amplitudes and combination phase reported for a triad satisfy the stationary three-mode amplitude equations '
  'with the driving rates, detuning and coupling coefficient of that triad; the reported threshold amplitude, '
  'amplitude ratios, surface velocities and luminosity fluctuations (theoretical and as seen by an observer) are '
  'their defining functions of these amplitudes. Triads that fail the pre-checks get no (NaN or zero) solution.',
  ['inputs', 'configurations'],
  'all admissible driving rates, detunings, coupling coefficients, surface eigenfunction values and azimuthal orders',
  'Tests compare a few numbers computed with the same formulas; the fixed-point identity must hold for every triad.',
  [STAT, GENSTAT],
  [('amplitudes, phases, thresholds', STAT), ('observables', STAT), ('failed triads', GENSTAT)],
  ['attributes of the stationary solver that are stored'])
P('P04', 'Three-mode stability verdict is the exact Routh-Hurwitz verdict',
  'A triad of three distinct modes is declared to have a linearly stable stationary solution exactly when the '
  'amplitude equations linearised about that stationary solution have only decaying perturbations.',
  ['inputs'], 'all growth/damping rates and detuning-to-damping ratios of parametric triads',
  'Tests use a few fixed triads and compare with stored truth values.',
  [STAB3, PRE3], [('coefficient conditions', STAB3), ('verdict', PRE3)],
  ['stability verdicts used by the pre-checks'])
P('P05', 'Harmonic stability verdict is the exact Routh-Hurwitz verdict',
  'A triad whose two daughters are the same mode is declared to have a linearly stable stationary solution exactly '
  'when the harmonic amplitude equations linearised about that solution have only decaying perturbations, for '
  'parametric and direct configurations alike.',
  ['inputs'], 'all growth/damping rates and detuning-to-damping ratios of harmonic triads',
  'Tests use a few fixed triads and compare with stored truth values.',
  [STAB2, PRE3], [('coefficient conditions', STAB2), ('verdict', PRE3)],
  ['stability verdicts used by the pre-checks'])
P('P06', 'Hyperbolicity verdict reflects the Jacobian eigenvalues at the fixed point',
  'The Jacobians used to decide whether a stationary solution is hyperbolic are the Jacobians of the amplitude '
  'equations at that solution. A stationary solution is called hyperbolic exactly when no eigenvalue has '
  'a zero real part (within the documented tolerance).',
  ['inputs'], 'all rates, frequencies, detunings and coupling coefficients; all eigenvalue spectra',
  'Tests check single matrices; the entries are functions of eight real parameters.',
  [HYP], [('Jacobians', HYP), ('verdict', HYP)], ['hyperbolicity flags in the results file'])
P('P07', 'Selection rules and resonance classification decide which triads are computed',
  'A triad passes the azimuthal rule exactly when the azimuthal orders (with the applicable conjugation) cancel, and '
  'the meridional rule exactly when the sum of meridional orders is even. It is classified parametric, direct or '
  'driven from the signs of the three driving rates, and passes the pre-checks exactly when the enabled conditions '
  'all hold; the verdict of one triad never depends on the other triads.',
  ['inputs', 'configurations'],
  'all mode identifications, conjugation lists, driving rates and pre-check configurations; any number of triads',
  'Tests use single triads with fixed quantum numbers.',
  [PREG, PRE3], [('selection rules', PREG), ('classification and verdict', PRE3)],
  ['pre-check results, the set of triads computed'])
BASEQ = AE + 'solver/solver_base_classes/quadratic_solver.py'
GRIDQ = AE + 'solver/quadratic_grid.py'
STORER = AE + 'data_handling/storer.py'
UNPACK = AE + 'data_handling/unpacker.py'
P('P08', 'Each row of the results file holds the quantities of its own triad',
  'For every mode triad of a grid computation, the row of the results file with its radial orders holds the '
  'frequencies, rotation and driving rates, coupling coefficient and its terms, mode normalisations, stationary '
  'solution and pre-check verdicts of exactly that triad, whatever the outcomes of the other triads. Quantities that '
  'were not computed for a triad are stored as zero or NaN, never as values of another triad. The stored run '
  'parameters and quantum numbers are those of the run.',
  ['inputs', 'configurations', 'histories'],
  'all frequencies, coupling values and verdicts; sequences of passing and failing triads; adiabatic/nonadiabatic, '
  'polytrope and integration options',
  'The existing tests never run the solver and its saver together.',
  [BASEQ, GRIDQ, UNPACK, STORER, AE + 'data_handling/data_specific/hdf5_saver.py'],
  [('per-triad computation and storage', BASEQ), ('triad loop', GRIDQ), ('unpacking', UNPACK), ('saving', STORER)],
  ['HDF5 results file'])
PCOMB = 'py-combinations/py_combinations/'
INGEN = AE + 'mode_input_generator/input_generator.py'
P('P18', 'Pairing functions are invertible one-to-one encodings of integer pairs',
  'Each pairing function maps every pair of integers (ordered for Cantor, unordered for the symmetric and Xie '
  'functions) not below the chosen lowest integer to a distinct integer without leaving gaps, and its inverse '
  'recovers the pair, for every lowest integer.',
  ['inputs'], 'all pairs of integers and all lowest integers',
  'There are no tests of these functions.',
  ['py-combinations/pairing_functions/'],
  [('Cantor', 'py-combinations/pairing_functions/cantor_pairing.py'),
   ('symmetric', 'py-combinations/pairing_functions/symmetric_pairing.py'),
   ('Xie', 'py-combinations/pairing_functions/xie_pairing.py')],
  ['return values of the pairing functions and of their inverses'])
P('P19', 'Every requested combination of radial orders is enumerated exactly once',
  'A grid computation enumerates every driven order of the (inclusive) driven range with every unordered pair of '
  'radial orders having one member in each (inclusive) damped range, equal orders included, and nothing else; with a '
  'single damped range every pair of distinct orders of it is used. The reported numbers of combinations, average '
  'radial orders and Wu difference statistics are those of the enumerated combinations.',
  ['inputs', 'configurations'], 'all ranges of radial orders, all finite integer sets',
  'Tests use one or two small ranges.',
  [PCOMB, INGEN],
  [('symmetric product', PCOMB + 'symmetric_product.py'), ('triads and statistics', INGEN)],
  ['combinations, cardinalities and statistics used by the grid solver'])
NDERIV = 'num-tools/num_deriv/num_deriv.py'
P('P17', 'Numerical derivatives are exact for polynomials up to the order of the scheme',
  'At every grid point the Fornberg scheme of a given accuracy order reproduces the derivatives of polynomials up to '
  'that degree exactly on any grid of distinct points, without touching memory outside its arrays; the gradient and '
  'stencil schemes do so for the degrees their order implies. The differentiator returns one value per requested '
  'derivative order and per original grid point, also when it interpolates first.',
  ['inputs', 'configurations'],
  'all grids, all grid sizes, all polynomials up to the order of the scheme',
  'Tests use three functions on uniform grids with a tolerance.',
  ['fornberg-num-deriv/fornberg_num_deriv/fornberg.f90', NDERIV, 'num-tools/num_deriv/stencils.py'],
  [('finite-difference weights', 'fornberg-num-deriv/fornberg_num_deriv/fornberg.f90'), ('dispatch', NDERIV),
   ('stencils', 'num-tools/num_deriv/stencils.py')],
  ['derivative arrays returned by the differentiator'])
QCC = AE + 'coupling_coefficients/quadratic_coupling_coefficient_rotating.py'
CCR = AE + 'coupling_coefficients/coefficient_support_classes/coupling_coefficient_rotating.py'
SCC = AE + 'coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py'
P('P14', 'The coupling coefficient is the third-order perturbation integral of its modes',
  'For every triad that satisfies the azimuthal selection rule the four contributions to the quadratic coupling '
  'coefficient equal the volume integrals of the contracted displacement gradients of the three normalised modes '
  '(pressure, density, gravity and shear terms), and their sum, its energy-normalised form and the Lee (2012) form '
  'follow from them. For other triads they vanish. This holds for polytropic and stellar-structure models, for every '
  'rotation rate and every assignment of conjugated modes.',
  ['inputs', 'configurations'],
  'all radial and angular mode functions, structure profiles, grids, quantum numbers and frequencies',
  'Tests call single helper functions with fixed arrays; no test computes a coupling coefficient.',
  [QCC, CCR, SCC], [('coupling integrals', QCC), ('radial vectors', CCR), ('structure profiles', SCC)],
  ['coupling_coefficient, coupling_terms_quadratic, normed and eta forms'])
HFUN = 'hough-func-tools/hough_function/hough_function.py'
HHAND = AE + 'angular_integration/rotating_tar_angular/hough_function_handler.py'
HINTF = AE + 'angular_integration/rotating_tar_angular/hough_integration.py'
HNORM = 'hough-func-tools/hough_function/hough_normalizer.py'
CHEB = 'hough-func-tools/cheby_transform/cheby_transform.py'
NUMI = 'cpp-numintegrator/num_integrator/num_integration.cpp'
DISCI = 'cpp-disc-integrator/disc_integrator/disc_integrals.cpp'
LDF = 'cpp-ld-funcs/ld_funcs/ld_functions.cpp'
P('P11', 'Chebyshev collocation differentiates parity-adapted expansions exactly',
  'For any number of points, parity and parity factor, the Chebyshev differentiation operators reproduce the first '
  'and second derivative at the collocation points of every function in the span of the expansion (even or odd '
  'Chebyshev polynomials, times sin(theta) for odd azimuthal orders), apply returns c0 f + c1 f\' + c2 f\'\' and '
  'solve_eig returns eigenpairs of that operator.',
  ['inputs', 'configurations'], 'all functions of the expansion space, all coefficient functions, numbers of points',
  'There are no tests of the Chebyshev operators.',
  [CHEB], [('operator matrices', CHEB)], ['diff1, diff2, apply, solve_eig'])
P('P12', 'Hough functions obey the tidal equation and their derivatives are consistent',
  'For every spin parameter, degree, azimuthal order and definition, the radial Hough function is the real '
  'eigenfunction of Laplace\'s tidal operator whose negative eigenvalue is nearest to the requested one, scaled to '
  'unit maximum. The latitudinal and azimuthal functions follow from it by their definition. All returned mu- and '
  'theta-derivatives are the derivatives of the returned functions, on both hemispheres with the right parity. The '
  'gradient terms (theta-phi, phi-phi) are consistent with them, so that the horizontal divergence equals the '
  'eigenvalue times the radial function.',
  ['inputs', 'configurations'], 'all spin parameters, radial functions, latitudes, degrees and orders',
  'There are no tests of the Hough functions themselves.',
  [HFUN, HHAND], [('Hough functions', HFUN), ('handler', HHAND)],
  ['get_relevant_hough_output'])
P('P13', 'Hough functions are normalised and angular integrals obey selection rules',
  'Normalised Hough functions have unit L2 norm over the sphere (lee2012) or unit maximum (prat2019), and all '
  'functions of a mode are scaled by the same factor. An angular integral of named functions equals 2 pi times the '
  'latitudinal quadrature of their product (optionally times mu or over sin theta) on the actual grid - or, if '
  'requested or as protection against a blow-up, the Gauss-Chebyshev sum of its linear interpolant - when the '
  'azimuthal orders, after conjugation, sum to zero or no check is requested; otherwise it is exactly zero. The '
  'operands are left unchanged.',
  ['inputs', 'configurations'], 'all functions, grids, azimuthal orders and conjugations',
  'Tests use fixed polynomials on one grid.',
  [HINTF, HNORM, QCC], [('angular integrals', HINTF), ('normalisation', HNORM)],
  ['angular integrals, normalised Hough functions'])
P('P15', 'Native quadrature returns the trapezoid and Simpson rules exactly',
  'The compiled integrator returns the composite trapezoid rule on any grid (exact for linear integrands), and '
  'Simpson\'s rule for an odd number of equally spaced points (exact for cubics), independent of the number of '
  'threads and the parallel option. It never reads outside its arrays and returns zero for fewer than two points.',
  ['inputs', 'configurations'], 'all integrands and grids, array sizes and options',
  'Tests integrate one array.',
  [NUMI, 'cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx'], [('quadrature', NUMI)],
  ['num_integrator.cni.integrate'],
  note='Proved for every number of nodes and all real contents by induction over clang\'s AST of the C++ source, and '
       'for each size up to 9 a second time by compiling the source with double replaced by a symbolic type. Serial '
       'semantics of OpenMP loops; the concrete runs use OpenMP.')
P('P16', 'Disc-integral factors are the limb-darkened integrals over the visible disc',
  'The two disc-integral factors are the quadratures, over exactly the grid points with 0 <= mu <= 1, of mu f h and '
  'of mu h (2 mu f\' + (mu^2 - 1) f\'\') on the actual grid spacing, with the Eddington limb-darkening law '
  'h = 1 + 1.5 mu, independent of threads and the parallel option.',
  ['inputs', 'configurations'], 'all angular functions, derivatives and mu grids',
  'Tests use one five-point grid.',
  [DISCI, LDF, 'cpp-disc-integrator/disc_integrator/libcpp_disc_integration.pyx'],
  [('disc integrals', DISCI), ('limb darkening', LDF)], ['disc_integrator.di.get_integrals, ld_funcs.ldf.compute'],
  note='Proved for every number of grid points (two or more of them visible) and all real contents over clang\'s AST '
       'of the C++ source, and per grid pattern of up to 6 points a second time by compiling the source with double '
       'replaced by a symbolic type. Serial semantics of OpenMP loops; the concrete runs use OpenMP.')

HOGG = 'histogram_maker/hogg_jacky/'
P('P20', 'Histograms count every datum once, in its bin, as normalised as asked for',
  'For bins of a given width every datum is counted once, in the bin holding it (the lowest in the first, the highest '
  'in the last); for given edges edge < datum <= next edge, the outermost bins also holding the outermost datum beyond '
  'them. A histogram is these numbers, or divided by the number of data, or by that and the bin widths. The jackknife '
  'histogram is that of the combination of bins and smoothing with the largest likelihood (Hogg 2008), data that are '
  'not numbers excluded, the same for all back ends.',
  ['inputs', 'configurations'], 'all data, bin widths, edges, kinds of normalisation and back ends',
  'Tests never build a histogram.',
  [HOGG + x for x in ('blas_jacky.py', 'numexpr_jacky.py', 'numpy_iterator_jacky.py',
                      'shared/shared_computation_functions.py', 'cython_jacky/cy_jacky.py')],
  [('linear bins', HOGG + 'numexpr_jacky.py'), ('likelihood, normalisation', HOGG + 'blas_jacky.py'),
   ('given edges', HOGG + 'shared/shared_computation_functions.py')],
  ['histogram arrays, bin edges and widths, chosen number of bins and smoothing'])
P('P21', 'Eigenfunctions are normalised to the mode energy in every function',
  'After construction every mode carries the energy G M^2/R of the requested convention: the factor applied to a '
  'mode is sqrt(G M^2/R / E), with E its energy computed from the raw eigenfunctions, and every eigenfunction, '
  'derivative and divergence of that mode carries the same factor. Entry i of the coupling profile is the coupling of '
  'the shells up to node i, ending at the total; normed and per-term profiles are it divided by G M^2/R.',
  ['inputs', 'configurations'], 'all eigenfunctions, structure profiles, rotation rates, degrees and conventions',
  'Tests do not build coupling coefficient objects from eigenfunctions.',
  [QCC, 'gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py',
   'gyre-tools/gyre_eigen_norm/enumeration_modules/enum_norm.py'],
  [('normalisation', 'gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py'), ('mode energies, profile', QCC)],
  ['normalization_factors, energies, coupling_coefficient_profile'])
P('P26', 'Profile runs show where the approximation holds and the coupling it leaves',
 'In a profile run a node is valid if a tenth of its buoyancy frequency exceeds twice the surface rotation frequency and '
 'the co-rotating frequency (absolute) of each mode; the zones and indices returned are the maximal runs of valid and '
 'of other nodes. The adjusted coupling is the total minus, for each other zone, its growth over that zone up to the '
 'next valid node; adjusted profiles do this node by node. The reported amplitudes, luminosities and '
 'thresholds (in ppm) are divided by adjusted/total, and the hyperbolicity verdict uses the adjusted coupling. Every '
 'plotted kernel is the product of the functions its legend assigns to modes A, B and C, times the constant, '
 'stellar profiles, r^3/energy or 1/sin(theta) of its term.',
 ['inputs', 'configurations'], 'all buoyancy profiles, frequencies, rotation rates, coupling profiles, eigenfunctions',
 'Tests do not make profile runs.',
 [AE + 'solver/quadratic_profile.py', AE + 'solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py',
  AE + 'solver/profile_print_functions/coupling_coefficient_print_functions.py',
  AE + 'solver/profile_helper_classes/radial_kernels/radial_kernel_helper.py',
  AE + 'solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py'],
 [('validity zones, run', AE + 'solver/quadratic_profile.py'),
  ('adjustment', AE + 'solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py'),
  ('kernels', AE + 'solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py')],
 ['get_masking_info_tar_validity, compute_mode_triad_profile, RadialKernelData, AngularKernelData'])
P('P09', 'Polytropic structure follows the Lane-Emden solution',
  'For every polytropic index and Lane-Emden solution, density, pressure, gravity, enclosed mass, buoyancy frequency '
  'and the coefficients V, U, c_1 and A* are those of the polytrope of the given mass and radius, and the first three '
  'radial derivatives of density, pressure and gravity are the derivatives of these profiles (Lane-Emden equation, '
  'Poisson equation, hydrostatic equilibrium).',
  ['inputs'], 'all indices, masses, radii, Lane-Emden solutions at interior nodes',
  'Tests do not read polytrope models.',
  [AE + 'polytropic_computations/poly_struct_comps.py'],
  [('structure', AE + 'polytropic_computations/poly_struct_comps.py')],
  ['polytrope property dictionary'])
P('P10', 'Structure and modes share one radial grid; derivatives obey stellar structure',
  'Eigenfunctions are expressed on the longest radial grid of the three modes, and every structure profile on that '
  'same grid, ordered from centre to surface: unchanged when the grids agree, linearly interpolated in the fractional '
  'radius otherwise. Gravity, its derivatives and the pressure derivatives obey Poisson\'s equation and hydrostatic '
  'equilibrium, the density gradient follows from the buoyancy frequency (or numerical differentiation in radius), '
  'and normed profiles are the profiles divided by their reference value.',
  ['inputs', 'configurations'], 'all profiles and eigenfunctions, differing grids, model types',
  'Tests do not build coupling coefficient objects from structure models.',
  [AE + 'coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py'], [('interpolation, derivatives', AE + 'coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py')], ['structure profiles of the coupling coefficient object'],
  note='Per pair of grids (concrete nodes, all profile values). Structure and mode grids with the same number of '
       'points are taken to be the same grid, as the code does.')
P('P27', 'Mode files become consistent dimensioned quantities',
  'Compound re/im arrays become the complex number of their parts. Dimensionless GYRE perturbations are multiplied by '
  'the dimension of their quantity (radius, pressure, density, G M/R, ...) at each point. Converting a model to a '
  'unit system (any letter case) converts every dimensioned quantity and the gravitational constant to that system '
  'and leaves dimensionless ones alone.',
  ['inputs', 'configurations'], 'all arrays, scales and supported unit systems',
  'Tests convert a few scalars.',
  ['num-tools/carr_conv/carr_conv.py', 'aesolver/aesolver/model_handling/load_models.py',
   'aesolver/aesolver/model_handling/enumeration_files/enumeration_dimensions.py',
   'aesolver/aesolver/model_handling/enumeration_files/enumeration_models.py'],
  [('complex values', 'num-tools/carr_conv/carr_conv.py'), ('unit systems', 'aesolver/aesolver/model_handling/load_models.py')],
  ['re_im, ModelLoader'])
P('P22', 'Inlist values reach solver, saver, plotter and analyzer under the right names',
  'Every documented inlist key and command-line argument reaches the object that uses it, under the argument that '
  'controls it and with the value written in the file: per-mode settings keep the order parent, daughter 1, '
  'daughter 2, polytrope runs use the polytrope settings, empty tables mean None, and the information folders are '
  'those of the inlist. The user\'s file overrides the defaults. Command lines without a save name, naming a missing '
  'inlist, or asking for both or no kind of run, start nothing.',
  ['inputs', 'configurations'], 'all inlists and command lines (values opaque to the parser for all inputs; whole runs on random inlists)',
  'Tests do not run the scripts, and parse a handful of fixed lines.',
  ['aesolver/aerunners/solve_quadratic.py', 'aesolver/aerunners/plot_quadratic.py',
   'aesolver/aerunners/analyze_quadratic.py', 'util-tools/generic_parser/generic_parser.py',
   'util-tools/inlist_handler/toml_inlist_handler.py', 'util-tools/inlist_handler/inlist_handler.py',
   'aesolver/aesolver/read_load_info/read_info_dirs.py'],
  [('key to argument mapping', 'aesolver/aerunners/solve_quadratic.py'),
   ('command line', 'util-tools/generic_parser/generic_parser.py'),
   ('typed values', 'util-tools/inlist_handler/inlist_handler.py')],
  ['constructor arguments of solver, saver, plotter and analyzer'],
  note='The mapping of every key is decided for arbitrary (opaque) values; whole runs, custom-format inlists and '
       'default/user merging are bounded to random inlists.')
P('P23', 'Analysis and plots: derived quantities and isolated/valid/stable populations',
  'For every stored triad the analyzer and the plotter derive exactly the documented quantities (detuning, spin, '
  'threshold variations, amplitude ratios, nonlinear frequency shifts with locked phases, mirrored frequencies), NaN '
  'where undefined. A triad is isolated if it has the lowest threshold of all parametric triads of its modes and its '
  'parent saturates below the next threshold; valid, stable and plotted sets, printed values and counts follow from these.',
  ['inputs', 'configurations'], 'all stored values; orders of up to three triads (larger populations by random runs)',
  'No test covers these modules; the masks depend on the ordering of many real values.',
  ['aesolver/ae_analyzer/quadratic_stationary_analyzer.py', 'aesolver/ae_analyzer/library_functions/masking.py',
   'aesolver/aeplotter/quadratic_plotter.py', 'aesolver/aeplotter/library_functions/masking.py',
   'aesolver/aeplotter/overview_plot/plot.py', 'aesolver/aeplotter/overview_plot/figure_class.py',
   'aesolver/aeplotter/resonance_sharpness/plot.py', 'aesolver/aeplotter/resonance_sharpness/histogram.py',
   'aesolver/aeplotter/resonance_sharpness/figure_class.py'],
  [('derived quantities', 'aesolver/aeplotter/quadratic_plotter.py'),
   ('isolation', 'aesolver/ae_analyzer/library_functions/masking.py')],
  ['derived arrays, masks, counts, printed tables, plotted points and bars'],
  note='Radial orders identify modes (daughters of one family), thresholds are distinct. Per pattern of radial orders of '
       'at most three triads all values are symbolic, as are those printed about the isolated triads; larger '
       'populations, printed totals and figures (points, histogram bars, saved files) are bounded.')
P('P28', 'GYRE helper tools: eigenvalue tables, end-point removal, unit labels',
  'The tidal eigenvalue of (l, m, nu) comes from the GYRE table of that m and k = l - |m|; a missing table or GYRE '
  'directory ends the run. Removing the central (or surface) point shortens exactly the listed attributes by exactly '
  'these points, for stellar models and polytropes, and leaves all others as they were. Each GYRE frequency unit gets '
  'its own label.',
  ['inputs', 'configurations'], 'all degrees, orders, spins, attribute values and cut lists',
  'Tests use a mock for the table and do not cut polytropic objects.',
  ['gyre-tools/lam_tar_gyre/lam_tar_gyre.py', 'gyre-tools/gyre_cutter/gyre_cutter.py',
   'gyre-tools/gyre_unit_converter/gyre_unit_converter.py'],
  [('table choice', 'gyre-tools/lam_tar_gyre/lam_tar_gyre.py'), ('point removal', 'gyre-tools/gyre_cutter/gyre_cutter.py')],
  ['GyreLambdas.get_lambda, EnumerationCutter.cutter'],
  note='Table choice is bounded (random sets of table files in a scratch directory).')
P('P29', 'Adiabatic/non-adiabatic comparison figures show the modes they name',
  'For each mode of the chosen combination the figures draw the real and imaginary parts of the radial and horizontal '
  'displacement (or any quantity asked for) of both calculations, each under its own label, against the fractional radius or mass '
  'of its own model, with the quantum numbers, frequencies, unit and frame of that mode. Profile figures draw each named '
  'quantity under its own label, normalised or differenced as asked.',
  ['inputs', 'configurations'], 'all eigenfunctions and model profiles (values symbolic, 2-3 nodes); files on random ones',
  'No test draws a comparison.',
  [AE + 'ad_nad_comparer/comparer.py', AE + 'ad_nad_comparer/plotting/gyre_plotter.py',
   AE + 'ad_nad_comparer/plotting/mesa_plotter.py', AE + 'ad_nad_comparer/plotting/plotter.py'],
  [('modes loaded', AE + 'ad_nad_comparer/comparer.py'), ('eigenfunctions drawn', AE + 'ad_nad_comparer/plotting/gyre_plotter.py'),
   ('profiles drawn', AE + 'ad_nad_comparer/plotting/mesa_plotter.py')],
  ['figures of AdNadComparer'],
  note='Which files are loaded is bounded (random scratch directories, real matplotlib); what is drawn from loaded data is discharged for all values.')
P('P30', 'Published stability domains and threshold follow from the criteria of the solver',
  'The domain the figure script draws as stable is, for all damping ratios and detunings, the Routh-Hurwitz domain of '
  'three-mode fixed points, and the one the solver uses; the hatched domain is the original 1982 condition. Panels show their own ratio and '
  'grid, under a file name that says which. The threshold script regresses the damping ratio on the amplitude ratio '
  'through the nearest triads on either side of ratio one, takes the line there and adds its errors in quadrature.',
  ['inputs', 'configurations'], 'all damping ratios, detunings and regression results; tables and grids on random ones',
  'No test runs these scripts.',
  ['VB_et_al_2024_additional_plot_compute_scripts/dziembowski_subplot.py',
   'VB_et_al_2024_additional_plot_compute_scripts/compute_threshold_theta.py'],
  [('stability domains', 'VB_et_al_2024_additional_plot_compute_scripts/dziembowski_subplot.py'),
   ('threshold', 'VB_et_al_2024_additional_plot_compute_scripts/compute_threshold_theta.py')],
  ['figure panels and printed threshold'],
  note='Domains and regression formulae are discharged; selection of the triads (argpartition) and the scripts as run are bounded.')
P('P24', 'The files of a triad are found, unique and read as stored',
  'For modes with given degree, azimuthal and radial order and kind, exactly the files named for that mode are read '
  '(no other mode, substring or suffix), in the order parent, daughters; a missing or ambiguous mode or structure '
  'file ends the run instead of continuing. Every known quantity in an HDF5 or MESA file is read completely, with its '
  'sign and digits; unknown ones are left out. Directories are inferred only when there is one candidate.',
  ['inputs', 'configurations'], 'all directory contents, mode names and file contents (bounded to random ones, values of HDF5 files for all)',
  'Tests read a handful of fixed files; formats and clashing names depend on the user\'s models.',
  [AE + 'model_handling/load_models.py', AE + 'model_handling/read_models.py',
   AE + 'model_handling/subselection_classes.py'],
  [('file selection', AE + 'model_handling/subselection_classes.py'),
   ('values', AE + 'model_handling/read_models.py')],
  ['ModelLoader.gyre_details, .mesa_profile, .polytrope_model, .polytrope_oscillation_models'],
  level='exploration',
  note='File selection and text formats are bounded: the contracts run on the real code with random scratch directories. '
       'Only the hand-over of the values of HDF5 files is discharged for all values.')
P('P25', 'Saved results: location, overwriting and reading back',
  'A run saves one results file, in the requested directory and sub-directory under a name with the quantum numbers '
  'of its modes, whatever characters the name has. Saving again replaces the contents by those of the last run, '
  'without losing or mixing entries. The names generated for analysis and plotting are those files, and analyzer and '
  'plotter derive their quantities from the values the solver obtained.',
  ['inputs', 'configurations', 'histories'], 'all results of a run (symbolic, solver to analyzer); names, directories and repeated saves on random ones',
  'Tests save no solver results and read none back.',
  [AE + 'data_handling/storer.py', AE + 'data_handling/data_specific/hdf5_saver.py',
   AE + 'data_handling/data_specific/hdf5_specific/overwrite_dataset.py',
   AE + 'read_load_info/load_name_plots.py', 'aesolver/ae_analyzer/quadratic_stationary_analyzer.py',
   'aesolver/aeplotter/quadratic_plotter.py'],
  [('save location', AE + 'data_handling/storer.py'), ('overwriting', AE + 'data_handling/data_specific/hdf5_specific/overwrite_dataset.py'),
   ('names read back', AE + 'read_load_info/load_name_plots.py')],
  ['results files, derived arrays of analyzer and plotter'],
  note='The chain solver, results file, analyzer or plotter is discharged for all values of one triad; names, '
       'directories and repeated saves are bounded to random ones in scratch directories.')
