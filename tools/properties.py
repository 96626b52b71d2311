# ---- bindings
HIR = 'abstract interpretation of the type-checked program (rustc HIR) with global value numbering'
prop('A01', 'Every C-ABI export computes exactly what its Rust function computes',
     'Every C-callable symbol of the library computes, for all arguments, exactly the value that the Rust function of the same module and name computes on the same arguments in the same order. It reads only the memory the caller passed and writes nothing else.',
     ['programs', 'inputs'], 'all exported C symbols, all argument values',
     'The foreign interface is compiled only with a feature the Rust test suite leaves off; its wrong argument, callee or constant would compile and pass every Rust test.',
     [SC, 'src/constitutive'], [('C exports', SC + '/**/ex.rs, src/constitutive/hyperelastic/**/ex.rs'), ('feature extern', 'Cargo.toml, src/lib.rs')],
     'value numbering of each extern "C" function against its Rust function, all symbols of the resolved program', 'translation_validation',
     'Every exported symbol is translated to a symbolic value over its parameters and compared with the value of the Rust function of the same module and name; exact up to value numbering (probabilistic identity testing of the two expressions, no execution). Type widths and symbol names are matched exactly.')
prop('A02', 'Every Julia binding faithfully calls the library function it is named after',
     'Every Julia function of the package calls the C symbol of its own module and name, with a declared signature equal to the C function\'s real one and with its arguments in the parameter order of the library. Julia model objects pass their own parameters, and every closure they offer equals the object\'s parameters bound into the corresponding function.',
     ['programs', 'inputs'], 'all Julia modules, functions, constructors and closures of the package, all argument values',
     'ccall signatures are not checked by any compiler, and the build and its test list do not run Julia at all.',
     [SC, 'src/constitutive', 'src/Polymers.jl'], [('Julia bindings', SC + '/**/*.jl, src/constitutive/**/*.jl'), ('C exports', SC + '/**/ex.rs')],
     'own Julia parser and evaluator; ccall sites checked against the resolved Rust extern signatures and parameter order', 'translation_validation',
     'All 86 Julia modules, 554 functions, 553 ccall sites, 78 constructors and 528 closures are parsed and evaluated over symbolic arguments; signature, symbol, order and binding are exact.')
prop('A03', 'Every Python binding faithfully calls the library method it is named after',
     'Every method and property of every Python class returns, for all arguments, exactly what the Rust method of the same class and name returns; array arguments are mapped element by element in order. Every Python constructor passes its parameters in the documented order to the Rust constructor.',
     ['programs', 'inputs'], 'all Python classes and methods, all argument values',
     'The Python layer is compiled only under a feature the test suite leaves off; its own tests sample a few values per method and are not run here.',
     [SC, 'src/constitutive', 'src/lib.rs'], [('Python bindings', SC + '/**/py.rs, src/constitutive/**/py.rs'), ('module registration', 'src/**/py.rs register_module')],
     'value numbering of each pyo3 method against the Rust method of the same class, all methods of the resolved program', 'translation_validation',
     'All Python classes and methods (macro-expanded, type-checked) are abstractly interpreted on symbolic arguments with arrays as symbolic sequences; a class or method that disappears lowers a floor and fails.')

prop('A04', 'Every library function is offered by every language interface',
     'For every single-chain model, every function and object method the Rust library offers is also offered under the same name by the C, Julia and Python interfaces; the deformation modes of the constitutive models are offered by Python, those of the hyperelastic model also by C. Classes are registered in the Python module of their own path, and every Julia module file is included under its own module path.',
     ['programs'], 'all models, functions, methods and registrations',
     'A binding that is missing, registered in the wrong module or never included compiles and passes every test that does not use it.',
     [SC, 'src/constitutive', 'src/lib.rs', 'src/Polymers.jl'], [('registration', 'src/**/py.rs register_module'), ('includes', 'src/**/mod.jl')],
     'queries over the resolved program, the parsed Julia modules and the abstractly executed registration functions', 'translation_validation',
     '4208 offered (function, language) pairs, compared with the pairs confirmed on the reference tree; new functions are only counted.')
prop('B01', 'Model objects bind their own parameters into the library functions',
     'For every model object, every method returns, for all arguments, exactly what the free function of the same module and name returns at the parameters the object was constructed with. No method uses another parameter, function or sub-object.',
     ['inputs', 'programs'], 'all model objects and methods, all argument values',
     'Tests call methods at sampled parameters where two parameters can coincide or cancel; object methods are generated by hand for each of 84 classes.',
     [SC, 'src/constitutive'], [('impl blocks', SC + '/**/mod.rs, src/constitutive/**/mod.rs')],
     'value numbering of each method on a symbolically constructed object against the free function of its module', 'translation_validation',
     '557 methods of 60+ objects; one array-valued method (damage) is covered by F01 instead.')
prop('B02', 'Constructors store their arguments and derived fields under the right names',
     'Every model object built by its constructor stores each constructor argument in the field of the same name, passes the same parameters to every nested ensemble object, and the stored derived constants equal their definitions in terms of those parameters.',
     ['inputs', 'programs'], 'all constructors and fields, all argument values',
     'Swapped fields of equal type compile; a test that constructs with random values checks only the fields it reads.',
     [SC, 'src/constitutive'], [('init functions', SC + '/**/mod.rs, src/constitutive/**/mod.rs')],
     'abstract interpretation of every constructor on distinct symbols, fields compared as value numbers', 'other',
     '487 fields of 60 constructors, all decided.')

# ---- thermodynamics
prop('C01', 'Results are covariant under a change of physical units',
     'For every model and ensemble, expressing every argument and physical constant in other units of length, energy, temperature and time changes a result by exactly the unit of that result; nondimensional results do not change. An absolute free energy is defined up to a constant per link.',
     ['inputs'], 'all models, ensembles, functions; all argument values; all unit changes',
     'Unit tests use the same fixed units (and unit-order parameters) everywhere, so a term with a wrong power of a length, temperature or stiffness can agree at the sampled values.',
     [SC], [('free functions', SC + '/*/thermodynamics/**/mod.rs'), ('physical constants', 'src/physics/mod.rs')],
     'dimensional analysis as value numbering: each function\'s value at unit-rescaled arguments against unit * value', 'other',
     'Decided for every free function with a known result dimension (563 obligations). Known findings: absolute free energies of five families take the logarithm of a dimensional quantity.')
prop('C02', 'Dimensional functions equal their nondimensional forms in units of kT and l',
     'For every model and ensemble, a dimensional force, length, energy or distribution equals the corresponding nondimensional function evaluated at the nondimensionalised arguments, times kT/l, l (or N l), kT, or the inverse contour volume or length. This includes forms that are implemented separately in the two versions.',
     ['inputs'], 'all models, ensembles and function pairs; all argument values',
     'Tests compare the pair at randomly drawn points of a subset of models with tolerances; they do not cover the full parameter space or functions without such a test.',
     [SC], [('free functions', SC + '/*/thermodynamics/**/mod.rs')],
     'value numbering of each dimensional function against its scaled nondimensional sibling', 'other',
     '277 function pairs in all modules; a pair the value-number domain cannot decide is counted undecided in the evidence.')
prop('C03', 'Per-link quantities times the number of links equal the totals',
     'For every model, ensemble and quantity offered both as a total and per link, the total equals the number of links times the per-link value, for all arguments.',
     ['inputs'], 'all models, ensembles, quantities; all argument values',
     'Tests sample random parameters with a tolerance for some of the quantities.',
     [SC], [('free functions', SC + '/*/thermodynamics/**/mod.rs')],
     'value numbering of N * per-link value against the total', 'other', 'All 250 pairs.')
prop('C04', 'Relative and absolute free energies differ by a state-independent reference',
     'For every model and ensemble, the difference between a free energy and its relative counterpart does not depend on the applied force, extension or potential distance: it is a reference value fixed by model and temperature. The relative free energy vanishes at its reference state of (practically) zero force, extension or distance.',
     ['inputs'], 'all models, ensembles; all argument values',
     'Tests compare free-energy differences at a few random states with a tolerance.',
     [SC], [('free functions', SC + '/*/thermodynamics/**/mod.rs')],
     'value-number independence of (absolute - relative) from the control variable; value number at the reference state', 'other',
     '212 pairs for the first sentence; the second is decided for the 196 of 212 functions written as a difference or polynomial, the rest (logarithms of 0/0 forms at zero) are counted as not decided.')
prop('C05', 'Legendre-module free energies are the Legendre transforms of their ensemble',
     'In every Legendre module of an isotensional ensemble the Helmholtz free energy equals the Gibbs free energy of the parent ensemble plus force times extension; in every Legendre module of an isometric ensemble the offered free energy equals the conjugate free energy of the parent or of the isotensional sibling, transformed with the force the module predicts. Relative free energies obey this up to a state-independent constant.',
     ['inputs'], 'all Legendre modules of all models, dimensional, nondimensional, total and per link; all argument values',
     'Tests check the transformation at random parameters for some variants within 1e-5; separate closed forms for each variant can drift apart elsewhere in parameter space.',
     [SC], [('Legendre modules', SC + '/*/thermodynamics/**/legendre/mod.rs')],
     'value numbering of the transformation identity, inverse functions eliminated by parametrising the control variable', 'other',
     '232 identities in 25 Legendre modules. The series form an implementation uses in a neighbourhood of zero is not compared.')
prop('C06', 'Conjugate pairs: the derivative of a free energy is the force or extension',
     'Within an ensemble, minus the derivative of the Gibbs free energy with respect to force is the extension, and the derivative of the Helmholtz free energy with respect to extension (or potential distance) is the force, for all arguments, in dimensional, nondimensional, total and per-link form. Along an ensemble with the other control, the corresponding chain-rule relation holds.',
     ['inputs'], 'all models and ensembles that are closed under differentiation (all but two approximate forms); all argument values',
     'Tests differentiate numerically with a finite step at random points for some models; closed forms that are right to the test tolerance at the tested stiffness can be wrong elsewhere (as the EFJC isotensional extension was).',
     [SC], [('free energies and their conjugates', SC + '/*/thermodynamics/**/mod.rs'), ('repaired defect', SC + '/efjc/thermodynamics/isotensional/mod.rs')],
     'symbolic differentiation of the free energy in the abstract domain, value numbering against the conjugate function', 'other',
     '408 of 440 candidate pairs are instances (32 belong to approximations that are not conjugate by design, e.g. the FJC Legendre approximation against the exact ensemble). Derivatives are exact; sums, special functions (erf, Bessel, Lambert W) and inverse functions included.')
prop('C07', 'Equilibrium distributions are normalised Boltzmann densities',
     'In every model the radial distribution is 4 pi r^2 times the distribution, and the distribution times exp(Helmholtz free energy / kT) does not depend on the extension. A density with a stored normalisation constant is divided by it, and the constant computed at construction is the integral of the unnormalised radial density over the admissible extensions.',
     ['inputs'], 'all models with distributions; all argument values',
     'Tests integrate a few random models numerically with a coarse tolerance.',
     [SC], [('distributions', SC + '/*/thermodynamics/isometric/**/mod.rs'), ('normalisation constants', 'init functions of the same modules')],
     'value numbering of the density identities; the stored constant evaluated as a symbolic midpoint sum', 'other',
     '39 obligations, all decided.')
prop('C10', 'Forces and extensions are odd, free energies and densities even',
     'Reversing the sign of the applied force or extension reverses the sign of the conjugate extension or force and leaves free energies and distributions unchanged, for every function whose defining formula is meant for both signs.',
     ['inputs'], 'the 228 functions of one control variable whose formula is symmetric; all argument values',
     'Tests only use positive forces and extensions.',
     [SC], [('free functions', SC + '/*/thermodynamics/**/mod.rs')],
     'value numbers at the negated control variable', 'other',
     'Armed for the 228 confirmed symmetric functions; asymptotic forms that are only meant for positive arguments (270) are not instances and are listed as undecided.')
prop('C11', 'Inverted relations: Newton derivatives are exact and inverses invert',
     'Wherever the library inverts a relation numerically, the derivative it hands to the iteration is the derivative of the function it hands over (or its central difference). The equation solved for the force of a Legendre-approximated isometric ensemble is, for every extension, that the isotensional extension of the same model at this force is the given one.',
     ['inputs'], 'all Newton call sites and Legendre inversions; all argument values',
     'A wrong derivative usually still converges, only slower or from fewer starting points, so sampled tests pass.',
     [SC, 'src/math'], [('Newton call sites', SC + '/*/thermodynamics/**/mod.rs'), ('inverse_newton_raphson', 'src/math/mod.rs')],
     'symbolic differentiation of the closure passed as f, value numbering against the closure passed as fp; inverse composition by value numbering', 'other',
     '35 obligations, all decided. Convergence of the iteration is not addressed.')
# ---- effects and safety
prop('D01', 'Library functions are pure: results depend only on the arguments',
     'Apart from the Monte Carlo samplers, which may only draw random numbers, every library function returns a value that depends only on its arguments and the object it is called on. None reads or writes global state, files, the environment or the clock, and none changes an argument or the object it is called on.',
     ['programs', 'histories'], 'all functions and methods reachable from any interface; all call histories',
     'A hidden cache or counter shows only in particular sequences of calls, which single-call unit tests do not make.',
     ['src'], [('library functions', 'src/**/*.rs'), ('random draws', SC + '/*/monte_carlo')],
     'effect analysis over the call graph of the resolved program: allowed external callees, no statics, no unsafe, no interior mutability, no mutable escapes', 'other',
     'Every function body is visited; calls to external functions are checked against a list of pure std operations.')
prop('D03', 'Integer arithmetic and indexing cannot overflow, underflow or run out of bounds',
     'For all documented parameters (link counts, bin and sample counts, any real arguments) no library function overflows or underflows an integer, divides an integer by zero, indexes outside an array or panics, except for the explicit rejections the library documents as errors.',
     ['inputs'], 'all functions; all argument values with at least one link',
     'Integer limits are reached only at particular link counts or at extreme extensions (beyond full contour length), which sampled tests leave out.',
     ['src'], [('treloar sums and indices', SC + '/fjc/thermodynamics/isometric'), ('grids and tables', 'src/math/mod.rs'), ('Monte Carlo histograms', SC + '/*/monte_carlo')],
     'interval analysis of every integer operation, cast, index and panic under its path condition', 'other',
     'About 550 obligations; 4 are left undecided (counted in the evidence). Known findings: factorial-like products in FJC isometric sums exceed their integer type at large link counts.')
prop('D04', 'Every call terminates: loops are bounded and recursion is well-founded',
     'Every library call finishes for every argument value, including NaN and infinities: each loop has a bounded number of iterations that does not depend on convergence, and no function calls itself, directly or through others, without end.',
     ['inputs'], 'all functions and loops reachable from any interface; all argument values',
     'Non-termination needs an input for which an iteration does not converge; the tests only use convergent ones.',
     ['src'], [('Newton iterations', 'src/math/mod.rs'), ('loops', 'src/**/*.rs')],
     'call-graph cycle analysis and loop ranking: each loop is over a finite iterator or has a strictly increasing bounded counter in its continuation condition', 'other',
     'All loops and call-graph components of the resolved program.')
# ---- numerical building blocks
prop('G01', 'Quadrature routines are the composite midpoint rule',
     'Every integration routine returns, for every integrand, every limits and every number of points, the composite midpoint sum: the integrand at the centre of each of the equal cells, each exactly once, times the cell size. The grid variants return the sum of the integrand over all grid points (or pairs of points) times the given weight.',
     ['inputs'], 'all six integration routines; all integrands, limits, grids and point counts',
     'A shifted abscissa or a missing end cell changes results only within the quadrature error, which the tolerances of sampled tests allow.',
     ['src/math'], [('integrate_*', 'src/math/mod.rs')],
     'abstract interpretation with an uninterpreted integrand and symbolic limits and counts; value numbers of the resulting sums', 'other',
     'Exact for a symbolic number of points, and expanded term by term for 1, 2 and 5 points.')
prop('G02', 'Numerical inverses solve the equation they are given',
     'The Newton routines return the Newton iterate, from the given start, at which the relative residual first meets the tolerance, or the last one within the iteration limit; an exact root is returned as it is. inverse_langevin(y) is an odd function that solves coth(x) - 1/x = y for every y between -1 and 1.',
     ['inputs'], 'both Newton routines for arbitrary functions and iteration limits; inverse_langevin for all y in (-1, 1)',
     'Only particular starts, tolerances or signs reach an exact root, the iteration limit or a rarely used branch.',
     ['src/math'], [('inverse_newton_raphson', 'src/math/mod.rs'), ('inverse_langevin', 'src/math/mod.rs')],
     'symbolic unrolling with uninterpreted functions compared with the definition of the iteration; Taylor-model enclosure of the closed forms of inverse_langevin', 'other',
     'Iteration limits 0 to 3 are unrolled (the loop body is the same for every limit). Convergence for arbitrary functions is not claimed.')
prop('G03', 'Special functions equal their mathematical definitions',
     'erf, erfc, erfcx and the modified Bessel functions bessel_i(0, x) and bessel_i(1, x) agree with their mathematical definitions to near double precision at every argument, negative and large ones included, in every branch and table entry. lambert_w(x) solves w exp(w) = x to near double precision for every x from just above -1/e up, by an iteration of third order.',
     ['inputs'], 'all real arguments (erfcx from -26.5, Bessel functions within 700, where the result is representable)',
     'Each table row serves a small interval of arguments; sampled tests visit a few rows, and a wrong digit in another passes.',
     ['src/math'], [('erfcx table', 'src/math/mod.rs'), ('bessel_i', 'src/math/mod.rs'), ('lambert_w', 'src/math/mod.rs')],
     'Taylor-model abstract interpretation of the coefficients and branches read from the source, against enclosures of the true functions', 'other',
     'Relative error bounds of about 1e-13 on every cell of a cover of the argument range, as real arithmetic on the source\'s double coefficients; overflow of intermediates by intervals of doubles.')
# ---- constitutive models
prop('F01', 'Damage model: broken chains stay broken, intact chains keep their weight',
     'In the damage model a chain contributes its distribution weight to stress and total probability if and only if it has never been beyond the critical extension, judged at the largest stretch of the history (starting from 1); otherwise it contributes nothing. The response at one step of a history depends only on its own stretch and the largest stretch so far, and total probability is the fraction of intact chains, 1 at rest for every swelling ratio.',
     ['histories', 'inputs'], 'all stretch histories, methods, swelling ratios and chain parameters',
     'The repository has no tests of the constitutive models, and damage shows only in load-unload histories.',
     ['src/constitutive/hyperelastic_damage'], [('uniaxial_tension', 'src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs')],
     'abstract interpretation of one step on a grid of symbols and of histories of symbolic stretches; value numbers of indicator, weight and running maximum', 'other',
     'The grid size is abstracted to 3 and histories to at most 4 steps; both loops are uniform in their index.')
prop('F02', 'Constitutive kinematics: deformation modes are incompressible and consistent',
     'The stress is the sum of chain elements weighted by the equilibrium distribution at the pulled-back extension: (z/s, sqrt(s) r) in uniaxial tension. Equibiaxial tension at stretch s is minus uniaxial tension at 1/s^2, and the damage model with no broken chains and no swelling has the stress of the hyperelastic model.',
     ['inputs'], 'all stretches, methods and chain parameters, both models',
     'The repository has no tests of the constitutive models.',
     ['src/constitutive'], [('uniaxial_tension', 'src/constitutive/**/mod.rs'), ('equibiaxial_tension', 'src/constitutive/hyperelastic/buche_silberstein/mod.rs')],
     'abstract interpretation on a grid of symbols; value numbers of the weights and substitution between deformation modes', 'other',
     'The grid size is abstracted to 3.')
prop('F03', 'Constitutive tables: virial elements, quadrature weights and normalisation',
     'A constitutive model object is built with a grid that covers its extensions evenly in its coordinate, chain elements N f(g) (2 z^2 - r^2)/g times ring measure and quadrature weight, the Gaussian exponent of the extensible chain, and a normalisation that is the integral of the same distribution on the same grid. The swelling ratio enters as its inverse cube in the elements and its inverse in the normalisation.',
     ['inputs'], 'both constructors, both methods; all chain parameters',
     'The repository has no tests of the constitutive models.',
     ['src/constitutive'], [('init', 'src/constitutive/**/mod.rs')],
     'abstract interpretation of the constructors; quadrature weights derived by differentiating the grid position function', 'other',
     'The grid size is abstracted to 3; every element, weight and factor is compared.')
# ---- sampling and constants
prop('E01', 'Monte Carlo histograms count every sample once, in its own bin',
     'The Monte Carlo radial distributions divide the extensions from zero to the largest possible one into equal bins, report the middle of each bin, and count each of the requested samples exactly once, in the bin its length falls in. The reported values are a probability density: counts per sample and per bin width, integrating to one. Extensible chains draw link lengths with mean one and variance one over the link stiffness.',
     ['inputs', 'schedules'], 'all four samplers; all sampled lengths within the largest extension, next to bin edges included',
     'Sampled tests see random draws, so an off-by-one bin or a wrong normalisation is hidden in the noise or not compared at all.',
     [SC], [('nondimensional_equilibrium_radial_distribution', SC + '/*/thermodynamics/isometric/monte_carlo/mod.rs')],
     'abstract interpretation with a symbolic sampled length; comparison of every bin in every cell of the length domain', 'other',
     '1 to 5 links, 2 to 4 bins, 1 and 2 samples; the code is uniform in all three. The statistical error of a finite sample is not addressed.')
prop('E02', 'Monte Carlo configurations obey the geometry of their chain model',
     'Every sampled configuration is the running sum of its links. Freely jointed links have their drawn (or unit) length and independent directions uniform on the sphere; freely rotating links keep the fixed bond angle to the link before with a dihedral angle uniform over a full turn. The sampled end-to-end length is the distance from the origin to the last position.',
     ['inputs', 'schedules'], 'all four samplers; all outcomes of the random draws, all bond angles',
     'Random configurations differ on every run; a test can only compare averages within wide tolerances.',
     [SC], [('random_configuration', SC + '/*/thermodynamics/isometric/monte_carlo/mod.rs')],
     'abstract interpretation with the random draws as symbols; value numbering and symbolic differentiation with respect to each draw', 'other',
     'Four links are followed; the loop is uniform. Gaussian link lengths are taken as the model (no l^2 weight).')
prop('H01', 'Physical constants have their SI values in every language',
     'The Boltzmann and Planck constants, wherever the Rust and Julia sources define them, have the values fixed by the SI in the units the documentation states (J/(mol K) and J ns/mol).',
     ['programs'], 'all definitions of constants in the Rust and Julia sources',
     'Tests use the library\'s own constant on both sides of each comparison, so a wrong value cancels.',
     ['src/physics'], [('constants', 'src/physics/mod.rs, src/physics/mod.jl'), ('local copies', SC + '/**/mod.jl')],
     'exact constant evaluation of every definition against the defining SI values', 'other',
     'Known finding: PLANCK_CONSTANT holds the reduced Planck constant; not repaired because the repository\'s Python tests hold the same literal.')
# ---- formulas
prop('K01', 'Absolute free energies carry the momentum integral of every free link',
     'For every model and ensemble, an absolute (not relative) free energy depends on the hinge mass m and the Planck constant h only through -n kT ln(m kT/h^2), where n is the number of links N when an end of the chain is free (isotensional ensembles and their Legendre transformations, the weak-potential limit, the ideal chain) and N - 1 when both ends are held (isometric ensembles and their Legendre transformations, the modified canonical ensemble and its strong-potential limit); per-link forms are divided by N and nondimensional forms by kT, and for nondimensional forms m, T and 1/h^2 enter alike. Nondimensional forms depend on the link length only through the same integrals: l^2 for each, or l^3 where the sum over link stretches is carried by the stiffness form 2 pi l^2 kT/k_link (EFJC, uFJC asymptotics); and the isometric Legendre free energy carries the momentum integrals of the isotensional one less one link, all other terms being linear in N. This holds for all arguments and parameters.',
     ['inputs'], 'all absolute free energies of all models and ensembles, all argument values',
     'Tests of absolute free energies compare two functions of the library that share the term or test differences in which it cancels.',
     [SC], [('free energies', SC + '/*/thermodynamics/**/mod.rs'), ('physical constants', 'src/physics/mod.rs')],
     'symbolic differentiation of every extracted free energy with respect to mass, Planck constant and temperature, decided by value numbering', 'other',
     '212 absolute free energies, 647 derivatives and differences, all decided.')
prop('K02', 'Every model evaluates its documented single-chain formula',
     'For all arguments in the domain, the nondimensional extension per link of each isotensional ensemble (ideal, FJC, EFJC, SWFJC, uFJC with Lennard-Jones, log-squared and Morse links, WLC) is the derivative of the logarithm of the documented single-link (WLC: chain) partition function, that is of the integral of sinh(eta s)/(eta s) exp(-u(s)) s^2 over the link stretch s; the asymptotic, alternative and reduced forms are the documented expressions in the Langevin function and the stretch lambda(eta) solving u\'(lambda) = eta. The nondimensional Gibbs free energies per link of the ideal chain, FJC, SWFJC and of the EFJC and uFJC asymptotic forms are the documented expressions. The isometric nondimensional densities and forces are the Gaussian (ideal), the Treloar sum (FJC) and the Becker-Rosa-Everaers interpolation (WLC), and the nondimensional force of the modified canonical FJC is the mean force of the potential over the Treloar density, with its documented weak- and strong-potential forms.',
     ['inputs'], 'all anchor functions (42), all argument values in the domain',
     'The tests compare functions of the library with each other, so a formula that is wrong in the same way in a function and its siblings, or whose error vanishes in the limit tested, passes.',
     [SC], [('isotensional ensembles', SC + '/*/thermodynamics/isotensional/**/mod.rs, ' + SC + '/ufjc/*/thermodynamics/isotensional/**/mod.rs'),
            ('isometric ensembles', SC + '/{ideal,fjc,wlc}/thermodynamics/isometric/mod.rs'), ('modified canonical', SC + '/fjc/thermodynamics/modified_canonical/**/mod.rs')],
     'abstract interpretation to a closed expression, compared with independently stated formulas by value numbering; where the formula is an integral or an implicit equation the extracted expression is evaluated in multiple precision (no code of the library is run)', 'other',
     '42 anchor functions: 19 identities for all arguments; 23 whose formula is an integral, a finite sum with a variable number of terms or an implicit function, compared at 4-8 parameter points each by evaluating the extracted expression (quadrature ones with a refined grid and relative tolerance 1e-3 to 2e-3).')

# ---- outside this family
prop('N01', 'Numerical inversions converge for every admissible argument',
     'Every force or extension the library obtains by Newton iteration satisfies its equation to the stated relative tolerance, for every admissible argument and parameter.',
     ['inputs'], 'all arguments and parameters of the inverting functions',
     'Tests sample arguments in the middle of the range, from which the iteration converges.',
     ['src/math', SC], [('inverse_newton_raphson', 'src/math/mod.rs')])
na('N01', 'Whether an iterate has converged within the iteration limit depends on run-time values of iterates; a bound needs a contraction estimate per model and parameter range that no static domain here provides. What can be decided from the source (exact derivatives, correct iterates, stopping test, fixed points, termination) is claimed in C11, G02 and D04.')
prop('N02', 'Monte Carlo densities converge to the equilibrium distribution of the model',
     'With growing numbers of samples and bins the Monte Carlo radial distributions converge to the radial distribution of the isometric ensemble of the same model.',
     ['schedules'], 'all sequences of random draws',
     'A finite sample only bounds the error statistically.',
     [SC], [('monte_carlo', SC + '/*/thermodynamics/isometric/monte_carlo/mod.rs')])
na('N02', 'Convergence is a statement about run-time random samples and needs a limit theorem, not an analysis of the source; the geometry and the counting of single samples are claimed in E01 and E02.')
prop('N03', 'Approximate ensembles approach the exact ones in their asymptotic limits',
     'The Legendre-transform ensembles approach the exact ensembles as the number of links grows, and the asymptotic modules approach the exact ones as the links stiffen, at the documented rates.',
     ['inputs'], 'all parameters in the limit',
     'The tests check the limits at a few large values.',
     [SC], [('legendre', SC + '/**/legendre/mod.rs'), ('asymptotic', SC + '/**/asymptotic/**/mod.rs')])
na('N03', 'The rates are limits over integrals, sums with a growing number of terms and numerically inverted functions, which no abstract domain at hand encloses uniformly in the limit variable.')
prop('N04', 'Worm-like chain formulas approximate the exact chain to their stated accuracy',
     'The interpolated worm-like chain distribution and its free energies agree with the exact worm-like chain within the accuracy of the cited interpolation, for every stiffness and extension.',
     ['inputs'], 'all stiffnesses and extensions',
     'No exact values are available to the tests.',
     [SC + '/wlc'], [('wlc isometric', SC + '/wlc/thermodynamics/isometric/mod.rs')])
na('N04', 'The reference is the solution of a diffusion problem on the sphere that the source does not contain; deciding the error would take a numerical solver, not an analysis of the code. The internal consistency of the formulas is claimed in C06, C07 and C10.')
