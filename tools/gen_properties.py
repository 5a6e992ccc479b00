#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=False, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe]}
    if state: a["state"] = [{"name": "cache", "meaning": state}]
    if hook: a["hook_needed"] = "crate-private items, reached through the cfg(algebraics_verif) wrapper module"
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

AN = "src/algebraic_numbers.rs"; IV = "src/interval_arithmetic.rs"; PO = "src/polynomial.rs"
p("C01", "Field arithmetic on real algebraic numbers is exact",
  "For any two real algebraic numbers, addition, subtraction, multiplication, division, negation and reciprocal return exactly the mathematical result, however the operands were built (any valid isolating interval, however wide, or any chain of earlier operations) and in every by-value, by-reference and assigning form of the operators. Division by zero and the reciprocal of zero are reported as absent by the checked forms, never as a number.",
  ["inputs", "histories"], "all pairs of real algebraic numbers in any valid representation, and all finite chains of operations on them",
  "There are infinitely many operands and representations: which conjugate is selected depends on the interplay of the two isolating intervals, which a handful of hand-picked sums cannot cover.",
  [AN], [("resultant of the minimal polynomials, factored, then root selection by shrinking intervals", f"{AN} RootSelector::select_root, AddAssign, MulAssign"), ("reciprocal by reversing the polynomial", f"{AN} checked_recip"), ("negation", f"{AN} neg")],
  "result's minimal polynomial and interval, operator results")
p("C02", "Equality, ordering and sign of real algebraic numbers are the true ones",
  "Comparing two real algebraic numbers gives exactly the order of their values: equal exactly when the values are equal (whatever representation each has), and less/greater consistent with the real line, with partial and total comparison, min/max and operators agreeing. The sign queries (comparison with zero, is positive/negative/zero/one/minus one, signum, absolute value, positive difference) agree with the value.",
  ["inputs"], "all pairs of real algebraic numbers in any valid representation, including equal values represented differently, conjugates and values closer than any fixed precision",
  "Fails only for particular near-equal, conjugate or oddly represented pairs; sampling a few literals cannot show that refinement always reaches the right decision.",
  [AN], [("comparison through the difference's sign", f"{AN} Ord::cmp, PartialEq::eq"), ("sign by Sturm counts at the bounds and zero", f"{AN} cmp_with_zero"), ("signed helpers", f"{AN} impl Signed")],
  "cmp, ==, <, signum, abs, is_positive ...")
p("C03", "Every number carries a canonical minimal polynomial and isolating interval",
  "Every real algebraic number produced by the library reports the minimal polynomial of its value: integer coefficients with no common factor, positive leading coefficient and irreducible over the rationals, so the reported degree and the rational/integer classification are those of the value. Its interval contains the value and no other real root of that polynomial, after any history of operations.",
  ["inputs", "histories"], "all numbers reachable by any sequence of constructors and operations",
  "An invariant over every reachable representation; later operations silently return wrong numbers when it is broken, and tests compare only a few final results.",
  [AN, "src/polynomial/factorization_over_integers.rs"], [("factor choice and interval after an operation", f"{AN} RootSelector::select_root"), ("representation after reciprocal and power", f"{AN} checked_recip, checked_pow_impl"), ("degree and classification", f"{AN} degree, is_rational, is_integer, to_rational, to_integer")],
  "minimal_polynomial(), interval(), degree(), is_rational(), is_integer(), to_rational(), to_integer()")
p("C04", "Floor, ceiling, truncation, fraction and remainder are exact",
  "For every real algebraic number, floor and ceiling are the nearest integers below and above, truncation rounds toward zero, and the fractional part is the number minus its floor, in every by-value and by-reference form. For every nonzero divisor the remainder equals the dividend minus the divisor times the truncated quotient.",
  ["inputs"], "all real algebraic numbers (integers, rationals and irrationals of either sign, arbitrarily close to an integer) and all nonzero divisors",
  "Errors show only for particular signs, exact integers, or values within the current interval width of an integer.",
  [AN], [("interval refinement until the floor is decided", f"{AN} into_integer_floor, into_fract"), ("ceil/trunc through negation and sign", f"{AN} into_integer_ceil, into_integer_trunc"), ("remainder", f"{AN} RemAssign")],
  "to_integer_floor/ceil/trunc, floor/ceil/trunc/fract and their into_ forms, %")
p("C05", "Rational powers and roots are exact, and undefined ones are absent",
  "Raising a real algebraic number to a rational exponent returns exactly the real power: the positive real root for positive bases, the integer power with its sign for negative bases, and the reciprocal power for negative exponents. It reports absence exactly when the base is zero with exponent zero or negative, or the base is negative with a non-integer exponent.",
  ["inputs"], "all real algebraic bases in any valid representation and all rational exponents of moderate size",
  "The selected root depends on the base interval, the exponent's parity and sign, and on logarithm/exponential enclosures; tests sample a few bases.",
  [AN, IV], [("resultant with y^d - x^n, then root selection through log/exp enclosures", f"{AN} checked_pow_impl, PowRootSelector"), ("special cases", f"{AN} checked_pow_impl")],
  "checked_pow, checked_into_pow, Pow::pow")
p("C06", "Base-2 logarithm queries return the exact integer bounds",
  "For every positive real algebraic number the floor and ceiling base-2 logarithms are the exact integers bracketing the true logarithm, equal to each other exactly for powers of two. They are absent for zero and negative numbers, and the exact-power query answers exactly for the powers of two with integer exponent, positive or negative.",
  ["inputs"], "all real algebraic numbers, of any magnitude and arbitrarily close to a power of two",
  "Only values very close to, or exactly at, a power of two, or of extreme magnitude, distinguish a wrong bound.",
  [AN, IV, "src/traits.rs"], [("refinement until both interval ends agree", f"{AN} do_checked_floor_ceil_log2"), ("interval log2 bounds", f"{IV} floor_log2, ceil_log2"), ("power of two test", f"{AN} to_integer_log2")],
  "checked_floor_log2, checked_ceil_log2, into_ forms, to_integer_log2")
p("C07", "Conversions between integers, rationals and algebraic numbers are lossless",
  "Converting any integer of any supported width, or any ratio of them, to a real algebraic number preserves its exact value, and converting back returns that same integer or reduced rational; irrational numbers convert back to neither and non-integers never convert to an integer. Exponents given as integers, ratios or pairs denote the same rational exponent.",
  ["inputs"], "all values of all supported integer widths and ratios of them, including the extreme values of each width",
  "Every width has its own code path and extremes; tests exercise a few small values.",
  [AN], [("conversions by macro per type", f"{AN} impl_from_int_or_ratio"), ("back conversions", f"{AN} to_rational, to_integer"), ("exponent conversion", f"{AN} IntoRationalExponent")],
  "From<T>, From<Ratio<T>>, to_integer, to_rational")
p("C08", "Interval arithmetic always encloses the true result and rounds outward",
  "For dyadic intervals, every operation (add, subtract, multiply, divide, reciprocal, square, square root, integer power, negation, absolute value, floor, ceiling, union, precision change, and mixing with integers or rationals) returns an ordered interval that contains the exact result for every choice of points in the operands. Conversions, addition, subtraction, multiplication, square, square root, reciprocal and division by an integer or rational return the tightest such interval at the result's precision, and an operation is absent or refuses exactly when it is undefined (dividing by an interval that contains zero, square root of a negative bound).",
  ["inputs"], "all pairs of intervals of any sign pattern, width and precision, all points in them, all operator forms",
  "Enclosure must hold for every point and every rounding case; a bound rounded the wrong way is off by one unit only for some bit patterns and sign combinations.",
  [IV], [("directed rounding of bounds", f"{IV} convert_log2_denom_floor/ceil, do_op_assign"), ("multiplication and division by sign cases", f"{IV} do_mul_assign, checked_recip"), ("square, sqrt and power", f"{IV} into_square, do_sqrt_assign, Pow"), ("floor/ceil/abs/union", f"{IV} floor_assign, ceil_assign, abs_assign, interval_union_assign")],
  "lower_bound(), upper_bound(), log2_denom() of results")
p("C09", "Exponential, logarithm and mean enclosures contain the true value",
  "For every interval in their domain, the exponential, the natural logarithm and the arithmetic-geometric mean return an ordered interval at the operand's precision that contains the true function value at every point of the operands. The built-in constants (natural logarithm of two, square root of two) enclose the true constant at every requested precision, with a width of at most a few units of that precision. At a single point, the exponential and the logarithm, and the mean of two points that are at least one, are resolved to within a few (for the mean, a few dozen) units of that precision.",
  ["inputs"], "all intervals (positive ones for the logarithm and mean) of any magnitude and precision, and all precisions",
  "The true value is transcendental; an enclosure that misses it by one unit at some argument is invisible to tests that compare a few stored outputs.",
  [IV], [("exp by argument reduction and series", f"{IV} into_exp"), ("log by arithmetic-geometric mean", f"{IV} log"), ("constants", f"{IV} natural_log_of_2, sqrt_2")],
  "bounds of exp(), log(), arithmetic_geometric_mean(), natural_log_of_2(), sqrt_2()")
p("C10", "Results do not depend on query history or on other threads",
  "Asking for a built-in constant or a function that uses one gives, at every precision, the same answer whatever was computed earlier in the process and in whatever order precisions were requested, including requests made concurrently from several threads. The same holds for arithmetic, comparison, rounding, powers and factorisation on algebraic numbers and polynomials: the value returned depends only on the operands. No such history or schedule makes a query fail.",
  ["histories", "schedules"], "all finite sequences of queries (constants at arbitrary precisions, algebraic operations), from one or several threads, starting in a fresh process",
  "The shared cache is process-wide, so a test run sees one accidental order; a wrong entry shows only when a low-precision request follows (or races with) a particular high-precision one.",
  [IV], [("process-wide growing cache of constants", f"{IV} ConstantCache"), ("cached constants and their users", f"{IV} natural_log_of_2, sqrt_2, log, into_exp")],
  "bounds returned by sqrt_2(), natural_log_of_2(), log(), exp(), and values returned by operations on algebraic numbers, in a child process", state="process-wide constant cache")
p("C11", "Polynomial ring operations are exact and results are in canonical form",
  "For polynomials over big integers, rationals, fixed-width integers, modular integers and nested polynomials, addition, subtraction, multiplication, negation, scalar operations, powers, derivative and evaluation give exactly the mathematical result in every operator form. Results are in canonical form, so equality, hashing, degree, length, coefficient access, iteration from both ends, and printing depend only on the polynomial's value. The coefficient interface beneath (zero and one, conversion between a coefficient and its element and divisor, multiplication by an integer, powers, common divisors and their reduction) keeps values exact for each of those rings, apart from zero polynomials to the power zero, which are refused.",
  ["inputs"], "all polynomials over each supported coefficient ring, all scalars, exponents and evaluation points",
  "Cancellation of leading terms, common denominators and modular zero coefficients make canonical form fail only for particular coefficient combinations.",
  [PO, "src/polynomial/add_sub.rs", "src/polynomial/mul.rs"], [("add/sub with common denominators", "src/polynomial/add_sub.rs add_sub_assign, add_sub_assign_single"), ("mul and pow", "src/polynomial/mul.rs"), ("normalisation", f"{PO} normalize"), ("evaluation, derivative, accessors, display", f"{PO} eval_generic, derivative, Iter, Display")],
  "coefficients, ==, Hash, Display, degree, iterators")
p("C12", "Polynomial division, exact division and modular powers satisfy their laws",
  "Dividing by a nonzero polynomial whose leading coefficient is not a zero divisor (over a field, or whenever the coefficient divisions are exact) gives the unique quotient and remainder with dividend = quotient times divisor plus remainder and remainder of lower degree; pseudo-division satisfies the same law after multiplying the dividend by the reported factor. Exact division succeeds exactly when the quotient exists and otherwise reports absence leaving the operand unchanged, division by zero is refused, and modular powers equal the remainder of the power.",
  ["inputs"], "all pairs of polynomials over each supported coefficient ring, all scalars and exponents",
  "Degree gaps, zero intermediate coefficients, non-monic divisors and inexact coefficient divisions each take different paths.",
  ["src/polynomial/div_rem.rs"], [("pseudo division", "src/polynomial/div_rem.rs checked_pseudo_div_rem"), ("division and exact division", "src/polynomial/div_rem.rs quotient_len, checked_div_rem, checked_exact_div"), ("modular power", "src/polynomial/div_rem.rs checked_powmod")],
  "quotients, remainders, None/Err results")
p("C13", "Polynomial gcd, Bezout identity and resultant are correct",
  "The greatest common divisor of two polynomials divides both and is divisible by every common divisor; the least common multiple times the gcd equals the product up to a unit, and the extended form satisfies the Bezout identity. The resultant equals the determinant of the Sylvester matrix (also for polynomials whose coefficients are themselves polynomials), hence vanishes exactly when the polynomials share a factor. The content is the gcd of the coefficients with the sign of the leading one, dividing by it gives the primitive part, and the reduced form is content-free over the integers and monic over a field.",
  ["inputs"], "all pairs of polynomials over big integers, rationals, prime fields and nested polynomials, including zero, constant, equal and non-coprime ones",
  "Sign and content errors of remainder sequences depend on degree parities and degree drops that hand-made examples rarely combine.",
  ["src/polynomial/gcd.rs"], [("subresultant gcd", "src/polynomial/gcd.rs subresultant_gcd"), ("resultant", "src/polynomial/gcd.rs nonzero_resultant"), ("gcd, lcm and extended gcd", "src/polynomial/gcd.rs impl GCD, impl ExtendedGCD")],
  "gcd, gcd_lcm, lcm, extended_gcd, resultant, subresultant_gcd results")
p("C14", "Integer polynomial factorisation is complete and correct",
  "Factoring a nonzero integer polynomial returns a constant and distinct, primitive, non-constant factors with positive leading coefficients, each irreducible over the rationals, whose powers multiply back exactly to the input. The answer does not depend on the randomness used, up to the order of the factors.",
  ["inputs", "schedules"], "all integer polynomials (any degree, content, repeated factors, coefficients of any size) and all random generator states",
  "Irreducibility is a claim about all divisors; polynomials that split modulo every prime, or with factors needing many modular pieces, are exactly the ones examples avoid.",
  ["src/polynomial/factorization_over_integers.rs", "src/polynomial/distinct_degree_factorization.rs", "src/polynomial/same_degree_factorization.rs"],
  [("factoring modulo a prime, Hensel lifting, recombination", "src/polynomial/factorization_over_integers.rs factor_square_free_polynomial_with_rng"), ("coefficient bound and prime choice", "src/polynomial/factorization_over_integers.rs"), ("modular factoring", "src/polynomial/distinct_degree_factorization.rs, src/polynomial/same_degree_factorization.rs")],
  "factor(), factor_with_rng() results")
p("C15", "Square-free factorisation and Sturm sequences count roots exactly",
  "Square-free factorisation returns pairwise coprime square-free polynomials whose powers multiply back to the input, and the square-free test agrees with it. For every nonzero polynomial, the difference in sign changes of its Sturm sequence (plain or primitive) between two points that are not roots is exactly the number of distinct real roots between them.",
  ["inputs"], "all polynomials with rational or integer coefficients, with any pattern of repeated, clustered or missing real roots, and all evaluation points",
  "Root counts go wrong only for particular sign patterns and degree drops in the remainder sequence.",
  [PO], [("Yun's algorithm", f"{PO} square_free_factorization_using_yuns_algorithm"), ("Sturm sequences", f"{PO} to_sturm_sequence, to_primitive_sturm_sequence"), ("primitive part and content", f"{PO} content, primitive_part")],
  "square_free_factorization_using_yuns_algorithm, is_square_free, *_sturm_sequence, content, primitive_part")
p("C16", "Modular integers behave as the ring of integers modulo m",
  "For every supported integer width, big integers and every valid modulus, run-time or built-in, modular integers are always reduced to the range from zero to the modulus, and construction from any integer, addition, subtraction, multiplication, negation, powers and division agree with exact integer arithmetic modulo the modulus without overflow, in every operator form; so do the reducing operations on plain integers beneath them, from every integer type. Inverses exist exactly for units, and operands with different moduli are rejected.",
  ["inputs"], "all values and all moduli of every width, including the extreme values, and all exponents",
  "Overflow and sign handling fail only near the limits of each width or for negative inputs.",
  ["src/mod_int.rs"], [("reduction and arithmetic per width", "src/mod_int.rs impl_int_modulus, impl_prim_int_modulus, impl_bigint_modulus"), ("inverse and division", "src/mod_int.rs checked_inverse"), ("modular power", "src/mod_int.rs pow_modular_reduce"), ("static moduli", "src/mod_int.rs impl_static_modulus")],
  "value(), operators, checked_inverse, pow_modular_reduce")
p("C17", "Integer utilities: primes, gcd, exact division, logarithms, bits, signs",
  "Primality and next/previous prime queries are exact over their whole range; gcd, lcm and extended gcd of integers and rationals satisfy divisibility and Bezout identities; and exact division succeeds exactly when the quotient is exact. Floor/ceiling base-2 logarithm and trailing-zero counts are exact for every width and absent exactly when undefined.",
  ["inputs"], "all values of all supported widths, arbitrary big integers and rationals",
  "A sieve wheel or shift error affects isolated values out of billions; tests check a prefix.",
  ["src/util.rs", "src/traits.rs"], [("prime tables and trial division", "src/util.rs is_prime_u32, next_prime_u32, prev_prime_u32"), ("gcd family", "src/traits.rs GCD, ExtendedGCD"), ("log2 and trailing zeros", "src/traits.rs FloorLog2, CeilLog2, TrailingZeros"), ("exact division", "src/traits.rs ExactDiv")],
  "return values")
p("C18", "Lattice reduction preserves the lattice and returns a reduced basis",
  "For linearly independent integer vectors, lattice reduction returns a basis of exactly the same lattice that is size-reduced and satisfies the exchange condition for its parameter, and orthogonalisation returns pairwise orthogonal vectors spanning the same nested subspaces. The two-dimensional array they use maps each position to its own element through slices, mutable slices and iterators from both ends.",
  ["inputs"], "all integer bases of any dimension and rank and all reduction parameters; all array shapes and slice ranges",
  "Correctness is a relation between input and output for every basis; tests compare a few stored outputs.",
  ["src/lattice.rs", "src/array2d.rs"], [("orthogonalisation", "src/lattice.rs gram_schmidt"), ("reduction", "src/lattice.rs lll_reduce_with_delta"), ("strided views", "src/array2d.rs do_slice, Iter")],
  "hook wrappers returning plain vectors", hook=True)
p("C19", "Real quadratic numbers compare, negate, normalise and add rationals exactly",
  "For every quadratic polynomial with real roots, the represented root is kept exactly by normalisation (with rational roots recognised as such); negation, absolute value, sign and order (among quadratic numbers and against rationals) and addition or subtraction of a rational are those of the real value; conversion to f64 is accurate to rounding in the terms of the quadratic formula. Construction is refused exactly for polynomials without a real root.",
  ["inputs"], "all integer quadratic, linear and degenerate polynomials and all rationals",
  "Comparison of two surds runs through four sign cases with several branches each; only particular combinations take a given branch.",
  ["src/quadratic_numbers.rs"], [("surd comparison", "src/quadratic_numbers.rs quadratic_less_than, PartialOrd<BigRational>"), ("normalisation", "src/quadratic_numbers.rs into_reduced"), ("rational addition", "src/quadratic_numbers.rs add_rational_with_real_quadratic_number")],
  "hook wrappers", hook=True)
p("C20", "Factorisation over prime fields and subset enumeration are complete",
  "Splitting a square-free polynomial over a prime field by degree yields, for each degree, exactly the product of its irreducible factors of that degree, and splitting a product of equal-degree irreducibles yields exactly those irreducibles for any random state. Subset enumeration of a non-empty index range visits every subset of the requested size exactly once, in order, and stops when asked.",
  ["inputs", "schedules"], "all square-free polynomials over odd prime fields of any size, all generator states, all set and subset sizes",
  "Randomised splitting and rare degree patterns: the failing polynomial or draw is not among a few samples.",
  ["src/polynomial/distinct_degree_factorization.rs", "src/polynomial/same_degree_factorization.rs", "src/util.rs"],
  [("distinct degree splitting", "src/polynomial/distinct_degree_factorization.rs distinct_degree_factorization"), ("equal degree splitting", "src/polynomial/same_degree_factorization.rs same_degree_factorization"), ("subset enumeration", "src/util.rs for_subsets_of_size")],
  "hook wrappers", hook=True)
p("C21", "The Python bindings expose the same exact arithmetic",
  "Every operation of the Python class returns the same number as the Rust operation, accepts plain integers on either side, and raises a Python exception where the Rust operation is undefined.",
  ["inputs"], "all operands and operations from Python", "Requires crossing the language boundary for every operand kind.",
  ["src/python.rs"], [("bindings", "src/python.rs")], "Python results")
p("C22", "Nearest division returns the closest quotient with its exact remainder",
  "Division with remainder to the nearest quotient, for every fixed-width and arbitrary-size integer type, returns a quotient and remainder with dividend = quotient times divisor plus remainder, where for signed types the quotient is the integer nearest to the true quotient with halves going towards zero, and for unsigned types it is rounded down; for rationals the quotient is exact and the remainder zero. Division by zero and a quotient that does not fit are refused by the checked form.",
  ["inputs"], "all pairs of operands of each integer type and of rationals",
  "Rounding differs between the sign combinations and next to half-way points and the type's extreme values.",
  ["src/traits.rs"], [("nearest division", "src/traits.rs DivRemNearest")],
  "hook wrappers", hook=True)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P), "properties")
