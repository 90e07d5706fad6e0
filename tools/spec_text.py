p('C01', 'Arithmetic encloses the exact real result',
  'For proper intervals and numbers with finite ends (integers up to 2**53 in magnitude), every element of the result of '
  '+, -, *, / (between scalars, arrays, Python or numpy numbers of any integer or floating type, reflected, in place and as functions of numpy) and of @ contains the exact real '
  'result for every choice of points of the operands. Dividing by an interval or number that contains zero raises an error.',
  ['inputs'], 'all operators, operand kinds (interval, number, array, ndarray), shapes, signs and magnitudes of the ends, thin and wide intervals, '
  'including results that are not representable and results in the subnormal range',
  'The tests compare a few hundred fixed pairs, nearly all exactly representable; containment must hold for every pair of doubles, and the '
  'failing inputs are those whose exact result falls between two doubles.',
  [PYX, RI], [('directed rounding around every end computation', PYX), ('elementwise dispatch of array operators', RI)],
  'runtime monitor: exact-rational oracle on every observed result',
  'Each observed result is judged with exact rational arithmetic, so a pass is a proof for the executed operands; between them it is sampling '
  '(about 320000 operations quick, 5.7 million thorough, stratified by operator, form, sign and number regime). Trusts CPython fractions.')
p('C02', 'Kaucher arithmetic gives the exact extended interval results',
  'For improper as well as proper operands with finite ends, +, -, *, / give the Kaucher (extended) arithmetic result: the lower end is at most '
  'and the upper end at least the exact one, both within a few units in the last place of it, whether a proper operand is of the classical or the '
  'extended kind. Opposite and inverse intervals cancel addition and multiplication, dual, pro, opp, inv and negation have their defining ends, and division by an interval whose proper projection contains zero raises. All this holds however the operands were obtained.',
  ['inputs'], 'all operators and operand forms, all sixteen sign combinations of proper, improper and thin operands, any kind of proper operand',
  'The tests fix a handful of improper products; the result is piecewise over sixteen sign cases and rounding interacts with each of them.',
  [PYX], [('product formula over positive and negative parts', PYX), ('directed rounding', PYX)],
  'runtime monitor: exact-rational Kaucher oracle and algebraic-law monitor',
  'Exact-rational judgement of every observed element plus algebraic laws; sampling over operands (about 250000 quick, 5 million thorough).')
p('C03', 'Arithmetic results are sharp',
  'For proper operands with finite ends the ends of the result of a single +, -, *, / are within two units in the last place of the exact ends, and '
  'equal to them whenever +, - or * has an exactly representable end (so point arithmetic that is exact stays a point). '
  'A matrix or dot product exceeds the exact natural interval value by no more than accumulated rounding error.',
  ['inputs'], 'all operators, forms and operand magnitudes whose exact ends stay below 1e300',
  'Tests compare equality on hand-picked exact cases; an overestimate by a few ulps, or only for some sign or operand kind, is invisible to them.',
  [PYX, RI], [('directed rounding instead of blanket widening', PYX)],
  'runtime monitor: ulp-distance oracle against exact rationals',
  'Exact judgement of every observed end; sampling over operands.')
p('C04', 'Elementary functions enclose the exact range',
  'exp, log, sqrt, sin and cos of a proper interval or array (through numpy or the package, also of a plain number) contain the function value at every '
  'point of the argument, including arguments that reach critical points of sin and cos, very large arguments (up to 1e9) and arguments where exp over- or underflows. '
  'For an improper argument exp, log, sin and cos give the dual of the range, rounded outward up to the tolerance with which a critical point is located.',
  ['inputs'], 'all five functions, argument positions relative to critical points, magnitudes, thin and wide, proper and improper, scalars and arrays of any shape',
  'The tests sample a few arguments with a tolerance; a lost ulp or a missed critical point shows only at particular arguments.',
  [PYX, 'intvalpy/kernel/elementary_functions.py', RI],
  [('outward rounding of libm values', PYX), ('critical point location', PYX), ('elementwise dispatch', RI)],
  'runtime monitor: 1500-bit range oracle (mpmath)',
  'Every observed element is compared with the range computed to 1500 bits; sampling over arguments, concentrated near critical points and ends of the domain.')
p('C05', 'Elementary functions are tight and respect their domains',
  'For finite arguments the results of exp, log, sin and cos exceed the exact range by at most a few units in the last place (sqrt by a relative 1e-12), never leave [-1, 1] for sin and cos nor '
  'go below 0 for exp and sqrt, and the absolute value of a proper interval is exact. An argument of log or sqrt that lies partly outside the domain gives the range over the part inside, one wholly outside gives a nan interval, and infinite ends of exp and log map to their limits.',
  ['inputs'], 'all functions, arguments across and outside the domain, infinite ends',
  'Tests check a few points; overestimation and domain edges need inputs at the edges.',
  [PYX], [('domain intersection before evaluation', PYX), ('clamping to the range', PYX)],
  'runtime monitor: 1500-bit range oracle, tightness from outside',
  'As C04 with the comparison reversed.')
p('C06', 'Powers enclose the exact range and reject undefined bases',
  'A natural power of a proper interval encloses the exact range of t**n over the interval (a straddling base with even n gives 0 as lower end) within n units in the last place; '
  'for an improper base it is the dual of that range, except that an even power of an interval of negative numbers keeps its ends in place. A fractional or negative exponent on a nonnegative base encloses the range to a relative 1e-12 and is rejected with ValueError '
  'when the base contains negative numbers; arrays behave elementwise, with one exponent or one per element, of any numpy integer or floating type.',
  ['inputs'], 'bases of every sign, proper and improper, natural exponents 0..17 and now and then up to 1200, real exponents in [-5, 5], scalar and array forms, Python and numpy exponents',
  'Tests fix about thirty powers with exactly representable results.',
  [PYX, RI], [('directed repeated multiplication', PYX), ('exp/log composition', PYX)],
  'runtime monitor: exact-rational and 1500-bit range oracle',
  'Exact judgement of each observed power; sampling over bases and exponents.')
p('C07', 'Expression programs are inclusion monotone interval extensions',
  'Evaluating any program composed of +, -, *, /, natural powers, abs, exp, log, sqrt, sin and cos over a box of proper intervals gives, at every step, an interval that contains the real value of that step '
  'at every point of the box where it is defined. Evaluating it over a sub-box gives, at every step, a subinterval of the result over the box (to rounding error when elementary functions are involved) and is defined whenever the result over the box is.',
  ['programs', 'inputs'], 'random programs of up to nine steps over scalars and vectors, mixed with Python and numpy constants, nested boxes, corner and interior points',
  'Tests never compose operations; faults in result kinds or in re-used results surface only in compositions.',
  [PYX, RI], [('result kinds of operators and functions', PYX), ('elementwise dispatch', RI)],
  'runtime monitor: step-by-step trace oracle (exact rationals, mpmath) and nesting monitor',
  'Each step of each executed program is judged exactly; sampling over programs.')
p('C09', 'Array operations equal the elementwise scalar operations',
  'Operators (binary, reflected, in place), unary operations, powers, elementary functions, accessors, comparisons with arrays and numbers, matrix products, indexing, slicing, masks, assignment, iteration, transposition, reshaping and diag on interval arrays '
  'produce the numpy broadcast/index shape, and every element equals the corresponding scalar result (to a few units in the last place). Incompatible shapes are rejected.',
  ['inputs', 'programs'], 'shapes of one to three dimensions with broadcasting in every position, mixed proper and improper elements, all operand kinds',
  'Tests use a few fixed vectors and one matrix product.',
  [RI, 'intvalpy/kernel/elementary_functions.py', 'intvalpy/kernel/utils.py'], [('ArrayInterval operator dispatch', RI), ('ufunc dispatch', RI)],
  'runtime monitor: differential oracle, array result against scalar results and numpy shapes',
  'Each observed element is compared with the scalar operation and numpy indexing semantics; sampling over shapes and operands.')
p('C10', 'Construction and characteristics are faithful',
  'Every construction (two ends, a pair, arrays of ends, nested pairs, midpoint-radius, a single number, conversion, zeros/full/eye/diag/copy) yields exactly the given ends (midpoint-radius to one rounding), ordered when sorting is on and kept as given when off, whatever mix of integers, floats and numpy number types is used. '
  'a, b, inf, sup, mid, rad, wid, mag, dual, opp, pro, inv, khi, negation and vertex, and mig of proper intervals, have their defining values for scalars and arrays, through the package functions also for numbers and mixed sequences. Non-numeric ends, a negative radius, mismatched shapes and too many arguments are rejected.',
  ['inputs'], 'all construction forms and flags, nestings up to three dimensions, number kinds, magnitudes',
  'Tests construct a few intervals with small numbers; mixed integer/float arrays and flag combinations are not covered.',
  [RI, PYX, 'intvalpy/kernel/new_objects.py', 'intvalpy/kernel/preprocessing.py', 'intvalpy/kernel/utils.py'],
  [('Interval factory', RI), ('end storage as int or double', PYX)],
  'runtime monitor: exact-rational oracle over constructed objects',
  'Exact comparison of every observed end and characteristic; sampling over forms and values.')
p('C11', 'Set operations and relations match the sets of reals',
  'For proper intervals and arrays, intersection is the set intersection (nan interval when disjoint, gaps up to 1e-15 may count as touching), membership and the subset/superset families match inclusion of the sets, and the sign function and comparison matrix match their definitions. '
  'Order, equality and (for improper intervals) inclusion are the endwise relations with intervals and numbers of any Python or numpy integer or floating type. dist is the stated metric of any order: exact to rounding, symmetric, zero on equal arguments and satisfying the triangle inequality.',
  ['inputs'], 'relative positions of intervals including shared ends, ends one ulp apart, infinite ends, arrays with mixed situations, arrays against scalars and numbers',
  'Tests use a few positions; ends equal or one ulp apart and mixed arrays are not sampled.',
  ['intvalpy/kernel/preprocessing.py', 'intvalpy/kernel/utils.py', PYX, 'intvalpy/kernel/elementary_functions.py'],
  [('intersect', 'intvalpy/kernel/preprocessing.py'), ('relations', PYX)],
  'runtime monitor: set-relation oracle',
  'Exact judgement of each observed relation; sampling over relative positions.')

LIN = 'intvalpy/linear/'
p('C15', 'Enclosing linear solvers never lose a solution',
  'For a square interval linear system A x = b every box returned by Gauss, Gauss_Seidel, HBR or Rohn contains every solution of every point system inside A and b (Gauss and Gauss_Seidel rigorously, HBR and Rohn to a relative 1e-9), also when A is merely regular, permuted or singular, and Rohn also for overdetermined systems; '
  'a solver that cannot enclose says so with an exception. Gauss_Seidel stays inside its initial box, keeps every solution of it, and declares emptiness only when there is none; strictly diagonally dominant systems with rows of comparable size are never rejected, point systems are solved and HBR is optimal when the midpoint is the identity.',
  ['inputs'], 'systems of dimension 1 to 9 of eight kinds (dominant, permuted, integer, point, identity midpoint, triangular, wide, arbitrary), rectangular systems, initial boxes and preconditioners',
  'Tests solve a handful of fixed systems with tolerances; a lost corner of the solution set needs the right signs and zeros.',
  [LIN + 'Gauss.py', LIN + 'Gauss_Seidel.py', LIN + 'HBR.py', LIN + 'Rohn.py'],
  [('interval elimination with pivoting', LIN + 'Gauss.py'), ('preconditioned iteration', LIN + 'Gauss_Seidel.py'), ('hull formula', LIN + 'HBR.py')],
  'runtime monitor: exact hull oracle (vertex matrices, orthant polyhedra in rationals)',
  'Every returned box is compared with the exact hull or exact solutions; sampling over systems.')
p('C16', 'Partitioning solvers enclose at every budget and are optimal on convergence',
  'PSS and PPS return, whatever iteration budget, tolerance, requested component or starting box they are given, an enclosure of the hull of the united solution set (to a relative 1e-9, and 1e-6 when the equations or unknowns are in quite different units). '
  'When they run to convergence on regular well-behaved systems the enclosure equals the hull.',
  ['inputs', 'interruption points'], 'square and overdetermined systems of dimension 2 to 4, budgets 0 to 2000, all or one component, starting boxes',
  'Tests run a few systems to convergence; what is returned when the search is cut short is never examined.',
  [LIN + 'PSS.py', LIN + 'PPS.py'], [('work list of boxes', LIN + 'PSS.py'), ('monotonicity and Rohn tests', LIN + 'PSS.py')],
  'runtime monitor: exact hull oracle at injected iteration budgets',
  'Exact hull comparison of every observed result, including runs stopped at 0, 1, 2, 3, 5, 10 and 40 iterations.')
p('C17', 'Recognizing functionals have their defining values and signs',
  'Tol, Uni, Uss and ChebNorm values and constituents at any point equal their defining formulas in the interval data and weights, exactly when the data are small dyadic numbers. '
  'Tol is nonnegative exactly at the points of the tolerable solution set, Uni and Uss exactly at the points of the united one.',
  ['inputs'], 'systems of 1 to 6 equations in 1 to 5 unknowns, integer and fractional data, points inside, on the boundary of and outside the sets, no weights, one weight, a weight per row',
  'Tests evaluate one or two points; membership on the boundary is not sampled.',
  [LIN + 'Tol.py', LIN + 'Uni.py', LIN + 'Uss.py', LIN + 'ChebNorm.py'],
  [('constituents', LIN + 'Tol.py'), ('worst matrix of the row', LIN + 'ChebNorm.py')],
  'runtime monitor: rational evaluation of the defining formulas and of membership',
  'Exact judgement of each observed value; sampling over systems and points.')
p('C18', 'Functional optimization reaches the constrained optimum and reports it truly',
  'Tol.maximize and ChebNorm.minimize reach the global optimum over the linear constraints (1e-6 relative with a long stagnation window, 1e-2 with the default one) at a point that violates them by at most 1e-6; all four functionals report the value taken at the returned point, reduced by the penalty when it violates constraints, and never worse than at an admissible starting point. '
  'Weights act per row or as one number, constraints may be lists or arrays of any number type, unlimited sides constrain nothing, and a constraint object gives the same result after it was used with another system.',
  ['inputs', 'histories'], 'feasible and infeasible systems, degenerate rows and columns, weights, one- and two-sided constraints, starting points, budgets and tolerances, re-used constraint objects',
  'Tests maximize one or two systems; optimality, penalties and re-use need generated systems and an independent optimum.',
  ['intvalpy/kernel/abstract.py', LIN + 'Tol.py', LIN + 'Uni.py', LIN + 'Uss.py', LIN + 'ChebNorm.py'],
  [('exact penalty', 'intvalpy/kernel/abstract.py'), ('subgradients', LIN + 'Tol.py')],
  'runtime monitor: rational evaluation at the returned point, independent LP optimum re-evaluated exactly',
  'Each observed optimum is compared with an LP candidate whose value is recomputed exactly.')
p('C19', 'ralgb5 reports the best observed point and true counters and exit codes',
  'ralgb5 calls the objective first at x0, then after a step of length h0 against the subgradient, and returns the best observed value with the point it was observed at, the true number of calls, and an iteration count within the budget. '
  'The exit code is truthful: it stops at once on a small subgradient (2), on stagnation over the window (1), a short step (3), the budget (4) or a runaway descent (5), and on convex functions without a small budget it reaches the minimum (1e-6 relative with a long window).',
  ['histories', 'inputs'], 'polyhedral, quadratic, distance, weighted-sum and unbounded functions in 1 to 5 variables, all options',
  'Tests look at the final value only; counters, codes and the correspondence of point and value are properties of the whole trace.',
  ['intvalpy/kernel/ralgb5.py'], [('best point record', 'intvalpy/kernel/ralgb5.py'), ('stopping tests', 'intvalpy/kernel/ralgb5.py')],
  'runtime monitor: offline checker over the recorded trace of objective calls',
  'Every recorded call of every run is checked against the returned tuple.')
p('C20', 'Tolerable solution set estimates are inner and outer respectively',
  'For any center in the tolerable solution set Neumaier returns a box around it, with radii proportional to the weights, whose image under A stays inside b (to rounding) and which is at least as large as the stated formula allows. '
  'Rohn with consistency "tol" returns the hull of the tolerable solution set (1e-6 relative) and reports emptiness only of sets that are empty or without interior.',
  ['inputs'], 'square and rectangular systems, integer and fractional, centers inside and on the boundary, weights, empty and unbounded sets',
  'The only tests of these estimates import a module that does not exist, so none runs.',
  [LIN + 'Neumaier.py', LIN + 'Rohn.py'], [('radius', LIN + 'Neumaier.py'), ('linear programs', LIN + 'Rohn.py')],
  'runtime monitor: exact substitution and exact tolerable hull (orthant polyhedra in rationals)',
  'Each observed box is multiplied back in rationals.')
p('C21', 'Subdiff returns the formal solution',
  'For a system with a strictly diagonally dominant matrix, proper, improper or mixed, Subdiff returns (with any relaxation from 0.5 to 1) a vector that turns every equation into an equality of Kaucher arithmetic to a relative 1e-9, and it is the planted solution when the right-hand side was computed from one. '
  'A proper formal solution of a proper system is a box of tolerable solutions.',
  ['inputs'], 'systems of dimension 1 to 5, integer and fractional, proper and improper coefficients around and away from zero, proper and improper solutions',
  'Tests solve two systems; most of the sixteen sign cases of the product are not reached.',
  [LIN + 'Subdiff.py'], [('subgradient cases', LIN + 'Subdiff.py')],
  'runtime monitor: exact Kaucher substitution',
  'Residual of every observed solution computed in rationals.')
p('C22', 'Point inequality sets are drawn with exactly their vertices',
  'lineqs and lineqs3D return exactly the vertices of {x | A x >= b} (clipped by the bounds where it is unbounded, per facet in three dimensions), each to rounding, none lost and none outside, an empty result for an empty set (a set that is a single point may be lost to rounding), whether or not it is drawn, in whatever order, multiplicity, scale or number type the inequalities are written. '
  'Without bounds the automatic window of an unbounded set contains all its vertices, and the result does not depend on sets drawn before. non_repeat drops only inequalities implied by an identical one.',
  ['inputs', 'histories'], 'systems of 1 to 10 inequalities in two and three unknowns: bounded, unbounded, empty, with zero, repeated, scaled, opposite and redundant rows, given and automatic windows',
  'Tests compare a few bounded sets; degenerate rows and unbounded sets drawn in sequence are where vertices get lost.',
  [LIN + 'boundary_intervals.py', 'intvalpy/kernel/visualization.py', 'intvalpy/kernel/preprocessing.py'],
  [('boundary intervals', LIN + 'boundary_intervals.py')],
  'runtime monitor: exact vertex enumeration in rationals',
  'Each observed vertex list is compared with an exact enumeration.')
p('C23', 'IntLinIncR2 and IntLinIncR3 return the solution set in every orthant',
  'For an interval linear system in two or three unknowns the vertices returned for each orthant are exactly those of the united or tolerable solution set in that orthant, clipped by the bounds where it is unbounded, with an empty list exactly where the set is empty; automatic windows contain all vertices. '
  'Drawing, and systems drawn before, do not change the result.',
  ['inputs', 'histories'], 'square and rectangular systems of 1 to 5 rows, both consistencies, bounded, unbounded and empty sets, with and without bounds, drawn or not, after an unbounded set',
  'Tests compare a few bounded systems; orthants with unbounded or empty pieces are not covered.',
  [LIN + 'boundary_intervals.py', 'intvalpy/kernel/visualization.py'],
  [('orthant systems', LIN + 'boundary_intervals.py')],
  'runtime monitor: exact orthant polyhedra in rationals',
  'Each observed orthant is compared with an exact enumeration.')
p('C08', 'No call leaves a trace in the floating-point environment',
  'Every public call, whether it returns, raises, is interrupted in the middle or calls back into user code that fails, leaves the rounding mode, numpy error state and warning filters as it found them. '
  'Its result does not depend on the rounding mode the caller had set, and the caller\'s own arithmetic rounds to nearest afterwards.',
  ['inputs', 'faults'], 'all kinds of public calls under the four rounding modes, calls that raise, callbacks that raise, interruptions at random lines inside the library',
  'Tests never look at the rounding mode; a mode that leaks changes later results by one ulp only.',
  [PYX, 'intvalpy/kernel/real_intervals.py', 'intvalpy/kernel/utils.py'],
  [('change_rounding_mode', PYX)],
  'runtime monitor: fegetround, error state and probe arithmetic compared around each observed call, in four ambient modes, with injected exceptions',
  'Each observed call is bracketed; interruption points are sampled.')
p('C12', 'Calls change nothing but the object they are documented to change',
  'No public function, operator or method changes its arguments or, apart from conversions that return their argument, shares storage with them: a result does not change when the arguments are overwritten later. '
  'Item assignment, deletion and in-place operators change exactly the addressed elements of an interval array, as a plain array of the same elements would, and a rejected one changes nothing.',
  ['inputs', 'histories'], 'all kinds of public calls, and histories of up to 40 reads, assignments, deletions, in-place operations, copies and views on arrays of one and two dimensions',
  'Tests look at results only, never at arguments after the call or at elements next to the assigned one.',
  [RI, 'intvalpy/kernel/utils.py', 'intvalpy/kernel/preprocessing.py', 'intvalpy/kernel/new_objects.py'],
  [('ArrayInterval storage', RI)],
  'runtime monitor: snapshots of arguments around each observed call, model array stepped along each history',
  'Every step of every observed history is compared with the model.')
p('C13', 'No input crashes the process, corrupts memory or leaks',
  'Whatever arguments a public constructor, method, operator or function is given, it returns or raises an ordinary exception: the process survives, no memory is accessed out of bounds, uninitialized or after being freed, no undefined behaviour is executed, and later arithmetic is unharmed. '
  'Results do not depend on the contents of fresh memory, and repeated calls neither accumulate memory nor keep their arguments.',
  ['inputs', 'faults'], 'every public name, method and operator of scalars and arrays with well-formed and hostile arguments (wrong types, nan, infinities, huge numbers, objects whose conversions raise)',
  'Tests run well-formed calls on an ordinary build, where a wild read or a stale reference goes unnoticed.',
  [PYX, RI, 'intvalpy/kernel/utils.py'], [('compiled interval classes', PYX)],
  'sanitizers: the extension under AddressSanitizer and UBSan with filled memory, outcome comparison with the plain build, reference and allocation monitors',
  'Every executed call is judged by the sanitizers; between calls it is sampling (about 4000 hostile and 4500 regular calls per build quick).')
p('C25', 'Krawczyk and Hansen-Sengupta keep every root of the box',
  'For functions and Jacobians given by interval extensions (scalar or vector), Krawczyk and HansenSengupta return, at any iteration budget, a box inside the initial one that contains every root it had, and never declare empty a box that has one. '
  'Boxes on which the preconditioned Jacobian is clearly regular are accepted and contracted to a width governed by the uncertainty of the equations, and the box passed in is not changed.',
  ['inputs'], 'polynomial and transcendental equations of 1 to 3 unknowns with point and interval parameters, roots inside, on the border and outside, any budget',
  'Tests solve one system with one root; losing a root needs a second one, or one at the border, or interval parameters.',
  ['intvalpy/nonlinear/external_evaluation.py'], [('interval Newton steps', 'intvalpy/nonlinear/external_evaluation.py')],
  'runtime monitor: planted roots looked up in every observed result, widths against the exact contraction limit',
  'Every observed box is judged; refusal is allowed only where the Jacobian is not clearly regular.')
p('C26', 'globopt bounds the global minimum at any budget',
  'globopt returns a box inside the initial one and the value of the function on it, whose lower end is at most the global minimum over the initial box and whose upper end is at least that minimum, whatever the budget. '
  'It stops only when that value is narrower than tol or the budget is used, a larger budget never gives a lower bound that is worse, and the initial box is not changed.',
  ['inputs', 'histories'], 'functions of 1 to 3 variables with minimizers inside, on borders, corners and bisection planes, many or flat minimizers, any budget and tolerance',
  'Tests minimize two functions at one tolerance; the bound must hold in every state of the list of boxes.',
  ['intvalpy/nonlinear/globopt.py'], [('list of boxes', 'intvalpy/nonlinear/globopt.py')],
  'runtime monitor: recorded trace of evaluated boxes, exact values at planted minimizers',
  'Every observed result is compared with function values in rationals or at 200 bits.')
p('C27', 'WILS reaches its optimum, reports its true value and predicts ranges',
  'After WILS.fit the reported estimator value is the value of the chosen objective and norm at the coefficients with the given weights (smoothed by alpha), reduced by the penalty where a constraint is violated, and is not worse than the start. '
  'For the tolerable objective it is the optimum (1e-6 relative with a long window), with constraints too, predictions are the exact ranges to rounding, and fitting again gives the same model.',
  ['inputs', 'histories'], 'interval and point data of 1 to 6 rows and 1 to 4 columns, all objectives and norms, weights, smoothing, constraints, starting points',
  'Tests fit a few data sets; whether the reported value is the one of the returned coefficients, or the best possible, needs an independent optimum.',
  ['intvalpy/models/WILS.py', LIN + 'Tol.py', LIN + 'Uni.py', LIN + 'Uss.py'], [('smoothed weights and estimator', 'intvalpy/models/WILS.py')],
  'runtime monitor: exact functional at the returned coefficients, LP optimum, exact ranges of predictions',
  'Every observed model is judged; Uni and Uss are not concave, so only their values are judged.')
p('C28', 'ISPAE reaches its optimum, reports its true value and predicts enclosures',
  'After ISPAE.fit the reported estimator value is the value of the objective and norm at the coefficients, computed from the ranges of the basis polynomials over the data; for the tolerable objective no polynomial of the basis is better by more than 1e-5 (relative, long window). '
  'value() gives the range of each basis polynomial, predict encloses the polynomial over every box and is no wider than the sum over the terms, in all five bases, and the data frame passed in is not changed.',
  ['inputs'], 'interval and point data frames of 1 to 3 columns, five bases, orders, with and without bias, objectives, norms, weights, smoothing',
  'Tests fit three small data sets in one basis.',
  ['intvalpy/models/ISPAE.py'], [('basis ranges', 'intvalpy/models/ISPAE.py')],
  'runtime monitor: exact ranges from basis recurrences in rationals, exchange of linear programs as optimum',
  'Every observed model is judged.')
p('C29', 'The test systems have exactly their documented elements',
  'Shary_system, Neumaier_system and Toft_system return, for every dimension and every admissible parameter, the matrix and right-hand side whose elements are given by the documented formulas (to one unit in the last place). '
  'They refuse parameters outside the documented range, and elements of a returned system are independent of each other and of later calls.',
  ['inputs'], 'dimensions 2 to 9, all parameters inside, at the border of and outside their ranges, defaults',
  'Tests compare one system of one dimension each; indices and borders differ between dimensions.',
  ['intvalpy/kernel/new_objects.py'], [('element formulas', 'intvalpy/kernel/new_objects.py')],
  'runtime monitor: every observed element against the formula in rationals',
  'Every element of every observed system is judged.')
p('C30', 'Pictures show the data and exactly the returned sets',
  'Whatever is drawn is what is returned: the polygons of lineqs, lineqs3D, IntLinIncR2 and IntLinIncR3 have exactly the returned vertices, IPlot.scatter draws each pair of intervals as its box (segment, point), on the requested axes and on no others. '
  'show=False opens no figure, save writes a picture under the title, and given bounds are the limits of the axes.',
  ['inputs'], 'scatter data with boxes, segments and points, grids of axes, two- and three-dimensional sets with and without bounds, saving and not',
  'No test draws anything.',
  ['intvalpy/kernel/visualization.py', LIN + 'boundary_intervals.py'], [('drawing', 'intvalpy/kernel/visualization.py')],
  'runtime monitor: artists found on every open figure compared with data and returned vertices',
  'Every artist of every observed figure is judged.')
p('C14', 'Concurrent calls give the results of sequential calls',
  'Public calls made in several threads at once, of the same or different functions, on own or shared arguments, give exactly the results (or raise the exceptions) that the same calls give when made alone. '
  'Shared arguments are not changed, and calls made afterwards are not affected.',
  ['schedules', 'inputs'], 'groups of 2 to 6 threads over all kinds of public calls, with thread switches at random lines of the library',
  'Tests run in one thread.',
  ['intvalpy/kernel/visualization.py', PYX, RI, LIN + 'PSS.py', 'intvalpy/models/ISPAE.py'],
  [('drawing window and other state kept during a call', LIN + 'boundary_intervals.py')],
  'runtime monitor: outcomes under forced thread switches compared with outcomes of the same calls made alone',
  'Observed interleavings only (about 240 groups, 500000 observed thread changes quick); sound oracle, sampled schedules. The interpreter lock serializes the compiled classes.')
p('C24', 'Results depend on the arguments only, not on earlier calls',
  'Any public call gives the same result, to the last bit, or raises the same exception in a fresh process as after any sequence of other calls: nearly identical ones, failing ones, drawings, aborted callbacks. '
  'A WILS or ISPAE object fitted before gives after a new fit exactly what a fresh object gives.',
  ['histories'], 'all kinds of public calls after histories of 10 to 50 others, mostly near variants of them (one number, type or option changed); sequences of 2 to 5 fits of one model',
  'Each test calls on a fresh state; a cache keyed too coarsely or a module global that is not reset needs the right earlier call.',
  [RI, 'intvalpy/kernel/utils.py', 'intvalpy/models/WILS.py', 'intvalpy/models/ISPAE.py', LIN + 'boundary_intervals.py', LIN + 'PSS.py'],
  [('module and object state', RI)],
  'runtime monitor: outcomes after observed histories compared with outcomes in freshly forked processes',
  'Every observed outcome is compared exactly; histories are sampled (about 20000 calls quick).')
p('C31', 'Printed forms and array helpers are faithful',
  'The printed form of an interval or interval array shows the endpoints it has (to the six digits printed), element by element in the bracket structure of its shape. '
  'get_shape gives the shape of nested lists, unique and non_repeat keep exactly one of each group of equal rows in the order of first appearance, and clear_zero_rows drops exactly the rows without content.',
  ['inputs'], 'scalars and arrays of 0 to 3 dimensions with endpoints of all magnitudes; nested lists; arrays with repeated, nearly repeated and zero rows',
  'Tests compare no printed form and call the helpers only through the drawing functions.',
  [PYX, RI, 'intvalpy/kernel/preprocessing.py'], [('printed forms', RI)],
  'runtime monitor: printed text parsed back and compared with the endpoints; helper results against rows compared one by one',
  'Every observed text and helper result is judged. Arrays of more than 1000 elements, which numpy abbreviates, are not.')
p('C32', 'ive is the documented measure over the corner matrices',
  'ive(A, b, N) is the square root of the number of unknowns times the maximum of Tol, the 2-norm of its maximizer, the least condition number met among N corner matrices of A, divided by the 2-norm of the magnitudes of b. '
  'The condition number in the result is always that of a corner matrix of A, for every N; when N is large against the number of corner matrices it is the least of all of them.',
  ['inputs'], 'square and tall systems with 0 to 4 uncertain elements, compatible and incompatible, N from 1 to 600',
  'No test calls ive; the result is random for systems with uncertain matrices.',
  [LIN + 'system_properties.py'], [('corner sampling', LIN + 'system_properties.py')],
  'runtime monitor: implied condition number of every observed result looked up among all corner matrices',
  'Every observed result is judged. The least one is expected only where missing it has a probability below 1e-11.')
p('C33', 'Arguments whose dimensions do not fit are refused',
  'Every solver, recognizing functional, model, drawing function and array operation raises an exception instead of returning a result when the dimensions of its arguments do not fit: right-hand sides, non-square matrices where square ones are required, points, centers, start points and boxes, weights of two or more rows, constraints, orders, data to predict for. '
  'Arguments that fit are never refused for their dimensions.',
  ['inputs'], 'every public entry point with all combinations of 1 to 5 rows, 1 to 5 columns and vectors of 1 to 7 elements',
  'Tests pass fitting arguments only; a length of one silently broadcasts.',
  [LIN + 'PSS.py', LIN + 'Gauss.py', 'intvalpy/kernel/abstract.py', LIN + 'boundary_intervals.py', 'intvalpy/models/ISPAE.py', RI], [('dimension assertions', 'intvalpy/kernel/abstract.py')],
  'runtime monitor: every observed call with unfitting dimensions must raise, every fitting one must return',
  'Every observed call is judged (about 4800 quick).')
p('C34', 'Empty intervals stay empty',
  'An operation, elementary function, positive power or set construction with an empty interval (nan ends, as intersection of disjoint intervals gives) has an empty result, every comparison and set relation with it is false and its characteristics are nan, while the other elements of an array are what they are without it; isnan finds exactly the empty elements. '
  'Enclosing solvers and recognizing functionals given an empty coefficient give nothing but nan or raise.',
  ['inputs'], 'scalars and arrays with empty elements obtained in four ways, against proper, improper and zero-ended intervals, numbers and arrays; systems with one empty coefficient',
  'Tests make empty intervals but never compute with them; one max() or clamp turns nan into a number, and an empty solution set into a wrong enclosure.',
  [PYX, RI, 'intvalpy/kernel/preprocessing.py'], [('clamps and maxima that drop nan', PYX)],
  'runtime monitor: emptiness of every observed result compared with that of the operands',
  'Every observed result is judged. x ** 0, PSS, intervals with one nan end and comparisons raising NotImplementedError are not claimed.')
