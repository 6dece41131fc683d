"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
CORE='uncertainties/core.py'; UM='uncertainties/umath_core.py'; UN='uncertainties/unumpy/core.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=hook)))

p('C01','Derivatives follow the chain rule through any computation',
  "For any quantity obtained from independent variables by composing operators, math functions and wrapped functions, the derivative it reports with respect to each variable is the chain-rule combination of the local partial derivatives, added up over every path through which that variable enters: correlated contributions combine or cancel exactly as in the formula (x-x and 2*x-x-x have derivative 0 and uncertainty 0; x*x has derivative 2x). Its nominal value is the same computation performed on the nominal values.",
  ['inputs','programs'],'every expression (any depth, any sharing of sub-expressions, any number of variables) and all nominal values at which the local derivatives exist',
  'tests evaluate a few dozen fixed formulas; the expression graph, its depth and sharing, and the coefficients are unbounded',
  [CORE,UM],[('wrap()/f_with_affine_output builds the linear part',CORE),('LinearCombination.expand',CORE),('AffineScalarFunc.derivatives',CORE)],
  [('_linear_part','lazy linear combination of variable differentials',CORE)],
  ['x.derivatives','x.nominal_value','x.std_dev'])

p('C02','Uncertainty is the quadrature sum over the independent variables',
  "For any number with uncertainty, the error component due to each independent variable is |derivative| times that variable's current standard deviation, and the standard deviation is the square root of the sum of the squared components; .n/.s and the nominal_value()/std_dev() helpers give the same values, and std_score(v) is (v-nominal)/std_dev (ValueError when the std_dev is zero). Changing the standard deviation of a variable is reflected by every quantity that depends on it, at once and including quantities that were already evaluated. A variable with zero standard deviation contributes exactly 0, even where the derivative is NaN or infinite.",
  ['inputs','histories'],'all quantities over any number of variables, all derivative and standard deviation values, and all sequences of std_dev updates (components whose squares overflow or underflow the range of floats excepted)',
  'tests check two or three variables with fixed values',
  [CORE],[('AffineScalarFunc.error_components',CORE),('AffineScalarFunc.std_dev',CORE),('Variable.std_dev setter',CORE)],
  [('Variable._std_dev','current standard deviation',CORE)],['x.std_dev','x.error_components()','x.std_score()'])

p('C03','Arithmetic operators: float value and exact partial derivatives',
  "For +, -, *, /, //, %, **, unary -, +, abs() (and math.trunc), with numbers with uncertainty on either or both sides (the other being a plain int or float), the nominal value is what Python floats give for the nominal values (same exceptions too, and ValueError for complex powers), and the derivative with respect to each operand is the mathematical partial derivative wherever it exists (floor division and truncation: 0; modulo: 1 for the dividend and -(x//y) for the divisor; absolute value: the sign). Operands on the left, on the right and in-place forms are handled with the operands in the right order.",
  ['inputs'],'all operand values in the domain of each operator, all operand kinds and orders',
  'tests compare derivatives numerically at a few fixed points per operator',
  [CORE],[('get_ops_with_reflection()',CORE),('add_operators_to_AffineScalarFunc()',CORE),('no_complex_result',CORE)],(),['x+y','x**y','derivatives'])

p('C04','umath functions: math value and exact partial derivatives',
  "Every function of uncertainties.umath, applied to numbers with uncertainty (in any argument position that takes a float), gives as nominal value what the math function of the same name gives for the nominal values, and the derivative with respect to each uncertain argument is the mathematical partial derivative (analytically for all functions except fmod, gamma and lgamma, which are differentiated numerically). Locally constant functions (ceil, floor, trunc, isinf, isnan) return the plain value of the math function on the nominal values; fsum, modf, ldexp and frexp return results whose linear parts are those of the mathematical maps.",
  ['inputs'],'all functions of the module, all argument values in the domain where the derivative exists, all argument forms (one- and two-argument log, plain/uncertain mixes)',
  'tests check the analytical derivatives against numerical ones at a few random points for a subset of functions',
  [UM],[('fixed_derivatives',UM),('wrap_locally_cst_func',UM),('modf, ldexp, frexp, fsum',UM)],(),['umath.sin(x)','derivatives'])

p('C05','Undefined derivatives give NaN uncertainty, never an exception',
  "Whenever an operator or umath function can be evaluated at the nominal values, it succeeds for numbers with uncertainty: where a partial derivative is undefined or cannot be computed (division by zero, domain or overflow error in its formula), the derivative is NaN and the uncertainty of the result is NaN if that operand has a non-zero uncertainty, while an operand whose uncertainty is exactly zero contributes 0 (umath.sqrt(ufloat(0,1)) is 0+/-nan, umath.sqrt(ufloat(0,0)) is 0+/-0). Powers have the documented special cases: x**y has derivative 0 with respect to x where y is 0, and derivative 0 with respect to y where x is 0 and y positive.",
  ['inputs'],'all operators that define such derivatives (powers) and all umath functions, at every point where the value exists but a derivative does not',
  'tests sample the special cases of powers and a single sqrt(0)',
  [CORE,UM],[('nan_if_exception',CORE),('pow_deriv_0/pow_deriv_1',CORE),('AffineScalarFunc.error_components',CORE)],(),['std_dev','derivatives'])

p('C06','wrap() uses the right derivative for every uncertain argument',
  "A wrapped function evaluates the original function once at the nominal values (other arguments being passed unchanged) for its nominal value, and for each argument carrying an uncertainty, positional or keyword, uses the derivative supplied for that parameter - also when a positional parameter is given by keyword - or, where none (or None) was supplied, a symmetric numerical derivative with respect to that argument; each derivative is called with the same nominal arguments as the function. Derivative lists may be short, contain None, or be infinite iterators; behaviour does not depend on previous calls of the wrapped function, and the caller's arguments are never modified. A result which is not float-like yields NotImplemented.",
  ['inputs','histories','programs'],'all functions f, derivative specifications, argument mixes (positional/keyword, uncertain/plain) and call histories',
  'tests use a handful of fixed functions and signatures',
  [CORE],[('wrap',CORE),('IndexableIter',CORE),('partial_derivative, NumericalDerivatives',CORE)],
  [('derivatives_args_index / derivatives_all_kwargs','derivative caches shared between calls',CORE)],['wrap(f,...)(*args,**kwargs)'])

p('C07','Calls without uncertain arguments behave like the original function',
  "A wrapped function or a umath function called only with plain (non-uncertain) arguments returns exactly what the original function returns (same value and type) or raises the same kind of exception, whatever the arguments; nominal_value() and std_dev() return a plain argument unchanged and 0.0.",
  ['inputs'],'all wrapped callables and umath functions, all plain arguments',
  'tests call a few functions on a few floats',
  [CORE,UM],[('wrap: test for no uncertain argument',CORE),('wrap_locally_cst_func, modf, ldexp, frexp, fsum',UM),('nominal_value(), std_dev()',CORE)],(),['umath.sin(0.3)','wrap(f)(1.0)'])

p('C08','Covariance and correlation matrices agree with the derivatives',
  "covariance_matrix(seq) is, for any sequence of numbers with uncertainty, the symmetric list of lists of floats whose (i,j) entry is the sum over the variables common to i and j of derivative_i * derivative_j * std_dev(var)**2; hence its diagonal holds the variances and quantities without common variable have covariance exactly 0. correlation_matrix(seq) is the same matrix divided by the products of standard deviations. A variable with zero standard deviation contributes 0 to every entry.",
  ['inputs'],'sequences of any length of quantities over any set of variables (components whose squares overflow or underflow the range of floats excepted)',
  'tests check one or two fixed 3x3 matrices',
  [CORE],[('covariance_matrix',CORE),('correlation_matrix',CORE)],(),['covariance_matrix()','correlation_matrix()'])

p('C09','Correlated values reproduce the requested values and covariances',
  "correlated_values(values, covariance_matrix) and correlated_values_norm(pairs, correlation_matrix) return quantities whose nominal values are the given ones and whose covariances and standard deviations are the requested ones (up to rounding) for every valid (symmetric positive semi-definite) matrix, including singular ones and values of zero variance or very different scales. They depend on newly created independent variables that carry the given tags, in order, and the inputs are not modified.",
  ['inputs'],'all sizes, nominal values, positive semi-definite matrices and scales',
  'tests use two or three fixed matrices',
  [CORE],[('correlated_values',CORE),('correlated_values_norm',CORE)],(),['covariance_matrix(correlated_values(...))'])

p('C10','Comparisons have the documented semantics and are mutually consistent',
  "x < y and x > y compare nominal values; x == y holds exactly when x-y has nominal value 0 and uncertainty 0, so that x == x and correlated expressions that are identical to first order are equal while distinct uncertain variables never are; x != y is its negation, and x <= y (x >= y) holds exactly when x < y (x > y) or x == y. Plain numbers, on either side, behave as numbers with zero uncertainty, bool(x) is x != 0, and comparison with an object that is not a number is left to that object (== gives False, orderings raise TypeError).",
  ['inputs'],'all pairs of quantities (any correlation, NaN and infinite values included) and plain numbers (components whose squares overflow or underflow the range of floats excepted)',
  'tests compare a few fixed pairs',
  [CORE],[('eq/ne/gt/ge/lt/le_on_aff_funcs',CORE),('force_aff_func_args, to_affine_scalar',CORE),('__bool__',CORE)],(),['==','<','bool()'])

p('C11','History independence: evaluating or using a quantity never changes it',
  "Reading, printing, comparing, hashing, copying or pickling quantities, or using them in further computations, in any order and any number of times, never changes the nominal value, derivatives, standard deviation or set of variables of any quantity (operands included); in particular results do not depend on whether or when intermediate results were evaluated. Only assigning a variable's std_dev changes standard deviations.",
  ['histories'],'all interleavings of building expressions and of reading attributes of any intermediate quantity',
  'lazy evaluation mutates shared internal structures; tests never interleave evaluation and construction systematically',
  [CORE],[('LinearCombination.expand (in-place, shared sub-combinations)',CORE),('derivatives cache',CORE),('f_with_affine_output',CORE)],
  [('LinearCombination.linear_combo','changes form on first evaluation',CORE)],['x.derivatives before/after'])

p('C12','Creating variables: independence, validation and attributes',
  "ufloat(value, std_dev, tag) returns a new variable with nominal value float(value), the given standard deviation and tag, that depends only on itself (derivative 1) and is independent of every other variable ever created. A negative standard deviation (also -inf), given at creation or assigned later, is rejected and leaves the variable unchanged, while 0, positive, infinite and NaN ones are accepted; nominal_value cannot be assigned and conversions to int, float and complex raise TypeError. The obsolete forms ufloat((v, s)), ufloat((v, s), tag), ufloat(str) and ufloat(str, tag) give the same variables, with a warning.",
  ['inputs','histories'],'all values, standard deviations and tags, all call forms, all sequences of creations and assignments',
  'tests use a few fixed values',
  [CORE],[('Variable.__init__, std_dev setter',CORE),('ufloat, ufloat_obsolete',CORE),('coercion methods',CORE)],(),['ufloat()','std_dev assignment'])

p('C13','Copies and pickles preserve values; correlations are kept or cut as documented',
  "copy.copy(f) of a computed quantity keeps its full dependence on the same variables, while copying or deep-copying a variable, or deep-copying a computed quantity, yields a quantity with the same nominal value, standard deviation, error magnitudes (and tags) that depends on new variables, hence is independent of the original. Unpickling (any protocol) gives new variables with the same values, standard deviations, derivatives and tags, and quantities pickled together keep all their mutual correlations; instance attributes of user subclasses (slots or dict) are restored too. The originals are not affected.",
  ['inputs','histories'],'all quantities and variables, evaluated or not, all pickle protocols, user subclasses with or without slots',
  'tests pickle and copy two or three objects',
  [CORE],[('__copy__/__deepcopy__',CORE),('__getstate__/__setstate__ (AffineScalarFunc, LinearCombination)',CORE)],(),['copy.copy()','pickle.loads(pickle.dumps())'])

p('C14','Automatic precision follows the Particle Data Group rounding rule',
  "When no precision is given and the nominal value is finite, the uncertainty is displayed with the number of significant digits prescribed by the Particle Data Group: with the three most significant digits of the uncertainty (truncated) read as an integer, 2 digits for 100-354, 1 digit for 355-949, and for 950-999 the uncertainty is rounded up to 1000 and shown with 2 digits. This holds for positive finite uncertainties of any magnitude.",
  ['inputs'],'every positive finite normal float standard deviation with a finite nominal value (subnormal numbers and ratios below 1e-200 excepted)',
  'tests check five values',
  [CORE],[('PDG_precision',CORE),('first_digit',CORE),('signif_dgt_to_limit',CORE)],(),['str(x)','format(x, "")','format(x,"e")'])

p('C15','Displayed digits: same precision for both parts, correctly rounded',
  "When the uncertainty controls the precision (no precision given, or '.nu'), the uncertainty is shown with exactly the requested number of significant digits (more only where integer digits left of the decimal point must be shown), and nominal value and uncertainty are shown with the same number of decimals under the same exponent. With a plain precision ('.nf', '.ne', '.ng') the digits are counted as for floats, both parts again sharing the last digit position, and in every case each displayed part is the true value (times 100 for '%') correctly rounded at its last displayed digit. A zero uncertainty is shown as the integer 0, and an exponent is used for the empty/g formats exactly when the float rule (exponent of the rounded larger part below -4 or beyond the displayed precision) requires it.",
  ['inputs'],'all nominal values and uncertainties (finite, zero, NaN, infinite; subnormal numbers and ratios below 1e-200 excepted), all presentation types and precisions',
  'tests cover a table of fixed values and formats',
  [CORE],[('AffineScalarFunc.__format__',CORE),('signif_dgt_to_limit',CORE),('format_num',CORE)],(),['format(x, spec)'])

p('C16','Format layout options do exactly what is documented',
  "Width, fill, alignment, sign, zero-padding and comma apply to each part (globally in shorthand notation; the sign only to the nominal value), an explicit width disables the factoring of the exponent, and the default alignment is to the right. The options S (shorthand: digits in parentheses refer to the last digits of the nominal value, or carry a decimal point), P (pretty-print signs and superscript exponents), L (LaTeX), p (parentheses around the +/- part unless an exponent or percent sign already groups it) and the % type (a single percent sign at the end, values multiplied by 100) combine as documented, leave the displayed digits unchanged, and an invalid specification raises ValueError. repr() gives all digits of both parts, with the tag for tagged variables.",
  ['inputs','configurations'],'all combinations of format options for all values',
  'tests cover a table of fixed combinations',
  [CORE],[('format_num',CORE),('__format__ specification parsing',CORE),('GROUP_SYMBOLS, EXP_PRINT, to_superscript',CORE)],(),['format(x, spec)','repr(x)'])

p('C17','Parsing reads every documented notation exactly and rejects the rest',
  "ufloat_fromstr (and ufloat on strings) reads every documented notation - '+/-' and '±' forms, shorthand parentheses with digits counting from the last digit of the nominal value or with an explicit decimal point, an implicit uncertainty of 1 on the last digit, individual or factored exponents with e, E or ×10 and superscripts, surrounding parentheses and spaces, nan and inf - to the nominal value and standard deviation that the notation denotes, with the given tag. Strings in none of these notations raise ValueError.",
  ['inputs'],'all strings',
  'tests cover about fifty fixed strings',
  [CORE],[('ufloat_fromstr, str_to_number_with_uncert',CORE),('parse_error_in_parentheses, to_float, nrmlze_superscript',CORE)],(),['ufloat_fromstr(s)'])

p('C18','Printed values parse back to what was printed',
  "For every number with uncertainty and every non-LaTeX, non-percent format without thousands separator or non-space padding, parsing the printed text (surrounding spaces aside) gives back a nominal value and standard deviation equal to the displayed ones, i.e. equal to the original ones up to the displayed precision (subnormal numbers and zero-padded nan or inf excepted). repr() of an untagged quantity parses back to exactly the same nominal value and standard deviation, zero, infinite and NaN values included.",
  ['inputs'],'all numbers with uncertainty and all parsable format specifications',
  'tests round-trip a fixed table',
  [CORE],[('__format__/format_num',CORE),('__repr__',CORE),('str_to_number_with_uncert',CORE)],(),['ufloat_fromstr(format(x, spec))'])

p('C19','Array functions act element by element exactly like the scalar ones',
  "unumpy.uarray/umatrix build arrays of new independent variables with the given nominal values and standard deviations, position by position; nominal_values() and std_devs() return float arrays of the same shape with each element's values (plain numbers: themselves and 0; matrices give matrices). Each vectorized unumpy function applied to an array, of any shape and mix of plain and uncertain elements, gives elementwise the result of the corresponding umath function, with all correlations (and NumPy names for inverse trigonometric functions), and ceil, floor, isinf, isnan and trunc give plain arrays. Arithmetic operators between an array and a number (plain or with uncertainty, on either side) or another array also act element by element; products of unumpy matrices with plain numbers, lists, arrays and matrices, on either side, and with a number with uncertainty on the left are the matrix products, with all correlations.",
  ['inputs'],'non-empty arrays of any shape and content',
  'tests use 1-D arrays of two or three elements',
  [UN],[('uarray, umatrix, nominal_values, std_devs',UN),('define_vectorized_funcs',UN),('derivative, array_derivative',UN)],(),['unumpy.sin(arr)','unumpy.nominal_values(arr)'])

p('C20','Inverse, pseudo-inverse and wrapped array functions exact to first order',
  "The inverse (ulinalg.inv, umatrix.I for square matrices) of a matrix of quantities has as nominal value the inverse of the nominal matrix and derivatives dB = -B dA B with respect to every variable, so that A*B is the identity with zero uncertainty; the pseudo-inverse (ulinalg.pinv, .I for non-square matrices) satisfies the Golub-Pereyra differential, for real matrices of any shape and constant rank, with an optional rcond. Functions wrapped for arrays have the derivatives of the array function with respect to every variable; results for arrays without uncertain elements are the plain NumPy results and input arrays are not modified.",
  ['inputs'],'all invertible/constant-rank matrices of all sizes, with arbitrary correlations between elements',
  'tests compare with numerical derivatives for a couple of 2x2 and 3x2 matrices',
  [UN,'uncertainties/unumpy/ulinalg.py'],[('inv_with_derivatives, pinv_with_derivatives',UN),('func_with_deriv_to_uncert_func',UN),('wrap_array_func',UN),('matrix.getI',UN)],(),['ulinalg.inv(m)','ulinalg.pinv(m)','m.I'])

p('C21','The 1to2 code converter rewrites obsolete calls only, and correctly',
  "The code updater turns x.std_dev() and x.std_devs() into attribute accesses, x.set_std_dev(v) into x.std_dev = v, ufloat((n, s)[, tag]) into ufloat(n, s[, tag]), ufloat(string literal[, tag]) into ufloat_fromstr(...), uarray/umatrix((n, s)) into two arguments and uarray/umatrix(arg) into uarray(*arg), with or without a module prefix and inside larger expressions, keeping argument text and everything else unchanged. Code that already uses the current forms is left unchanged, so converting twice gives the same code as converting once.",
  ['programs'],'all Python source files',
  'tests convert about forty fixed one-line snippets',
  ['uncertainties/lib1to2/fixes/fix_std_dev.py','uncertainties/lib1to2/fixes/fix_std_devs.py','uncertainties/lib1to2/fixes/fix_ufloat.py','uncertainties/lib1to2/fixes/fix_uarray_umatrix.py'],
  [('FixStdDev.transform, FixStdDevs.transform, FixUfloat.transform, FixUarrayUmatrix.transform','uncertainties/lib1to2/fixes'),('PATTERN','uncertainties/lib1to2/fixes')],(),['refactored source text'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
