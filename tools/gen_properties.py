#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (kept as code so that the text is reviewable).
import json, os
P = []
def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Integer exponentiation is exact",
 "Raising an arbitrary-precision integer to any exponent n >= 0 returns exactly the n-fold product (1 for n = 0, also for base 0), whatever the sign or size of the base. All forms of the operation (exponent given as a machine integer, as a big integer, or as a reference to one) agree.",
 "every integer base and every exponent n >= 0",
 "One test raises 2 to the third power; the square-and-multiply loop has a different path for every bit pattern of the exponent and the base is unbounded.",
 ["src/bigint.rs"], [("BigInt::power (i32, BigInt, &BigInt)", "src/bigint.rs impl Power for BigInt")],
 observe=["return value"])

prop("C02", "Modular exponentiation and modular inverse are correct and reduced",
 "For a modulus p >= 2 and exponent n >= 0, modular exponentiation returns the unique integer in [0, p) congruent to base^n, for every integer base including negative ones and ones larger than p. For prime p and any integer a not divisible by p the modular inverse of a lies in [0, p) and multiplies with a to 1 modulo p.",
 "every integer base, every n >= 0, every p >= 2; every prime p and every a not divisible by p",
 "The tests sample p = 5 and p = 19 with tiny positive bases; negative bases, bases above p and long exponents are never combined.",
 ["src/bigint.rs"], [("BigInt::power_modulo", "src/bigint.rs"), ("BigInt::inverse (Fermat)", "src/bigint.rs")],
 observe=["return value"])

prop("C03", "Extended gcd returns a greatest common divisor with Bezout coefficients",
 "For every pair of integers (a, b), the extended gcd returns (g, x, y) with a*x + b*y = g, where g divides both a and b (hence |g| is the greatest common divisor). For non-negative inputs g is non-negative.",
 "every pair of integers, including zero and negative ones",
 "Two tests use the pair 8, 11; the recursion runs to a different depth and with different truncated quotients for each pair and sign combination.",
 ["src/bigint.rs"], [("extended_gcd", "src/bigint.rs")], observe=["return value"])

prop("C04", "Chinese remaindering satisfies every congruence",
 "For every list of congruences whose moduli are positive and pairwise coprime, Chinese remaindering returns the product of the moduli together with an integer that satisfies every one of the given congruences. The residue is determined modulo the product; it need not be reduced.",
 "every list length, every pairwise coprime positive moduli, every residues",
 "One test uses moduli 3, 5, 7.",
 ["src/bigint.rs"], [("chinese_remainder", "src/bigint.rs"), ("extended_gcd", "src/bigint.rs")], observe=["return value"])

prop("C05", "Monomials are totally ordered, consistently with equality",
 "Comparing monomials (and subscripted variables) is a total order: lexicographic in the exponents of x, then y, then q, then the variable, where no variable sorts before every variable and variables sort by their two subscripts. Two monomials compare equal exactly when all exponents agree and both have no variable or the same variable, and comparison of terms is comparison of their monomials.",
 "every pair and triple of monomials and subscripted variables, every i32 exponent and subscript",
 "The order is never tested directly; every polynomial is a map keyed by it, so one inconsistent pair silently splits or merges coefficients.",
 ["src/term.rs", "src/subscripted_variable.rs"], [("Ord for Monomial / Term", "src/term.rs"), ("Ord, PartialEq for SubscriptedVariable", "src/subscripted_variable.rs")], observe=["cmp, partial_cmp, ==, order of printed terms"])

prop("C06", "Addition, subtraction and negation act coefficient by coefficient",
 "For all polynomials in canonical form (no stored zero coefficient) and all terms, every form of addition, subtraction and negation - between polynomials and terms, by value, by reference and in place - gives, for every monomial, exactly the sum, difference or negated coefficient. The result is again in canonical form, so that equality and the zero test agree with mathematical equality.",
 "every pair of canonical polynomials (terms may have any coefficient, also zero), every exponent, every coefficient",
 "Tests add and subtract a handful of disjoint monomials; cancellation, shared monomials and zero terms meet in only one or two cases.",
 ["src/polynomial.rs", "src/term.rs"], [("impl_op_ex + - += -= neg", "src/polynomial.rs"), ("Term + Term, Term - Term, -Term, to_pol", "src/term.rs")],
 state=[("terms", "map from monomial to non-zero coefficient", "src/polynomial.rs struct Polynomial")], observe=["terms, ==, is_zero"])

prop("C07", "Multiplication is the ring product, in canonical form",
 "For all canonical polynomials of which at most one contains subscripted variables, every form of multiplication (with polynomials or terms, by value, by reference and in place) gives the convolution of the coefficients, negative exponents included. The result stores no zero coefficient, so that for example (x+1)*(x-1) equals x^2-1; as long as exponents stay within i32.",
 "every pair of canonical polynomials (at most one with subscripted variables) whose exponent sums fit in i32",
 "Tests compare the printed form of a few products, which hides stored zero coefficients, and never produce a cancelling middle term.",
 ["src/polynomial.rs", "src/term.rs"], [("impl_op_ex * and *=", "src/polynomial.rs"), ("Term * Term", "src/term.rs")],
 observe=["terms, ==, is_zero"])

prop("C08", "Polynomial and term powers are repeated products",
 "For every canonical polynomial or term without subscripted variables and every n >= 0, raising it to the n-th power (machine-integer or big-integer exponent, square, cube) gives the n-fold ring product, 1 for n = 0. The result is canonical; as long as exponents stay within i32.",
 "every canonical polynomial or term without subscripted variables, every n >= 0 with n times the largest exponent within i32",
 "Tests use exponents 0, 2 and 3 on two-term polynomials.",
 ["src/polynomial.rs", "src/term.rs"], [("Power for Polynomial, square, cube", "src/polynomial.rs"), ("Power for Term", "src/term.rs")], observe=["terms"])

prop("C09", "Division by a monomial is exact where it can be",
 "Dividing a canonical polynomial or a term by a non-zero term without subscripted variable shifts every exponent down by the divisor's and floor-divides every coefficient, keeping the dividend's variable; if every coefficient is divisible, quotient times divisor gives the dividend back. The quotient is canonical, and the in-place forms agree.",
 "every canonical dividend, every single-term divisor with non-zero coefficient and no subscripted variable (exponent differences within i32)",
 "One test divides a two-term polynomial with positive, divisible coefficients.",
 ["src/polynomial.rs", "src/term.rs"], [("impl_op_ex / and /=", "src/polynomial.rs"), ("Term / Term", "src/term.rs")], observe=["terms"])

prop("C10", "Reduction modulo an integer gives least non-negative residues",
 "For every modulus n >= 1, reducing a polynomial or a term modulo n (by operator, in place, or per term) replaces each coefficient by its residue in [0, n) and drops those that become zero, changing no monomial. Modular powers (for n-th powers of a polynomial without subscripted variables, or of a term's coefficient, with modulus p >= 2) are congruent modulo p to the true power and have all coefficients in [0, p).",
 "every polynomial (canonical or not), every modulus; every base and every exponent >= 0",
 "Tests reduce positive coefficients modulo 5, 6, 19 and 24; negative coefficients and modular powers of polynomials are not tested.",
 ["src/polynomial.rs", "src/term.rs"], [("Rem, modular_assign, power_modulo", "src/polynomial.rs"), ("modulo, modular_assign, power_modulo", "src/term.rs")], observe=["terms"])

prop("C11", "Polynomial remainder, monic form and gcd over GF(p)",
 "For prime p, a dividend without subscripted variables and with x-exponents >= 0, and a divisor in x alone with non-negative exponents and leading coefficient not divisible by p, the remainder computation terminates and returns a polynomial of smaller x-degree (zero if the divisor is constant) that differs from the dividend by a multiple of the divisor modulo p. For polynomials in x alone with leading coefficients not divisible by p, the gcd is monic, divides both modulo p and is a combination of both modulo p, and the coprimality test answers true exactly when that gcd is 1.",
 "every prime p, every dividend with non-negative x exponents, every such divisor; every pair of such univariate polynomials, coprime pairs included",
 "One test takes one remainder modulo 19; no test divides by a constant or takes the gcd of coprime polynomials.",
 ["src/polynomial.rs"], [("polynomial_modular", "src/polynomial.rs"), ("gcd, is_gcd_one, to_monic", "src/polynomial.rs"), ("highest_term_x", "src/polynomial.rs")], observe=["return value, termination"])

prop("C12", "Evaluation and substitution are ring homomorphisms",
 "Evaluating a polynomial at integers x and y gives the sum of coefficient * x^i * y^j; fixing only x or only y gives the polynomial in the remaining indeterminates with the same values; substituting a polynomial for x or for y gives the polynomial whose value at any point is that of the original with x or y replaced by the substituted value. All results are canonical, for non-negative exponents of the replaced indeterminate.",
 "every canonical polynomial with non-negative exponents in the replaced indeterminates, every integer argument, every substituted canonical polynomial without subscripted variables",
 "Tests substitute four particular polynomials and evaluate only through the curve code.",
 ["src/polynomial.rs", "src/term.rs"], [("eval_xy, eval_x, eval_y, eval_x_polynomial, eval_y_polynomial", "src/polynomial.rs, src/term.rs")], observe=["return value"])

prop("C13", "Derivatives and exponent maps",
 "The partial derivative in x or y multiplies each coefficient by its exponent and lowers that exponent by one, dropping terms without the indeterminate (exponents >= 0). The maps x->x^n, y->y^n (Frobenius), y->y^n and q->q^n, for n >= 1, multiply exactly those exponents by n and change nothing else.",
 "every canonical polynomial (non-negative exponents for derivatives), every n >= 1 with products within i32",
 "One derivative test with two terms; the exponent maps are only used inside larger computations.",
 ["src/polynomial.rs", "src/term.rs"], [("derivative_x, derivative_y", "src/polynomial.rs, src/term.rs"), ("to_frob, to_y_power, to_q_power", "src/polynomial.rs, src/term.rs")], observe=["terms"])

prop("C14", "Reduction by the curve equation preserves values on the curve",
 "Reducing a polynomial by y^2 = x^3 + a x + b gives a canonical polynomial of y-degree at most 1 that has the same value as the original at every point with y^2 = x^3 + a x + b, for all integers a, b. The modular form does the same modulo p and leaves all coefficients in [0, p).",
 "every canonical polynomial with y-exponents >= 0 and no subscripted variables, every a, b, every modulus p >= 2",
 "One test reduces x*y^3 with a = 2, b = 7, and one larger identity is checked modulo 2003.",
 ["src/polynomial.rs"], [("reduction, reduction_modular", "src/polynomial.rs")], observe=["return value"])

prop("C15", "q-series truncation, coefficient extraction and degree queries",
 "On polynomials without x and y, truncating at order N >= 0 keeps exactly the terms with q-exponent <= N, and truncated powers of a series with q-exponents >= 0 agree with the true power in every coefficient up to q^N and have none above. Extracting the coefficient of a power of q or of a subscripted variable returns exactly that coefficient (0 if absent), the leading term is the largest monomial with its coefficient (0 for the zero polynomial), and the queries for the presence of x, y, q and for the x-degree are exact.",
 "every canonical polynomial, every order N >= 0 and power n >= 0 (within i32), every subscripted variable",
 "Tests cover 24th powers to order 1 and printed leading terms of two polynomials.",
 ["src/polynomial.rs"], [("omit_high_order_q, power_omit_high_order_q", "src/polynomial.rs"), ("to_q_power_coef, to_variable_coef, to_scalar, highest_term_x, degree_x, has_x, has_y, has_q", "src/polynomial.rs")], observe=["return value"])

prop("C16", "Point addition follows the chord-and-tangent group law",
 "On a curve y^2 = x^3 + a x + b over GF(p), p > 3 prime, adding any two points of the curve (in any coordinate representatives) gives the point prescribed by the chord-and-tangent law, which lies on the curve; the point at infinity is neutral on both sides, a point plus its negation is infinity, and addition is commutative as an operation on residue classes. The on-curve test accepts exactly infinity and the pairs satisfying the equation modulo p.",
 "every prime p > 3, all a and b, every pair of points on the curve including infinity on either side, equal and opposite points and two-torsion",
 "Tests add points of a few small curves through scalar multiples; adding infinity on the right is never tested.",
 ["src/elliptic_curve.rs"], [("plus, negate, is_on_curve, canonicalize", "src/elliptic_curve.rs"), ("ECPoint::new, infinity, is_infinity", "src/elliptic_curve.rs")], observe=["return value"])

prop("C17", "Scalar multiplication is repeated addition",
 "On a non-singular curve over GF(p), p > 3 prime, multiplying a point by an integer n gives the sum of n copies for n > 0, infinity for n = 0 and the negation of the |n|-fold sum for n < 0, as residue classes; a multiple that is infinity is returned in the canonical form (0, 1, 0) when the argument is infinity-canonical or finite.",
 "every non-singular curve over a prime field p > 3, every point on it, every integer n",
 "Tests multiply by 1, 2, 3 on secp256k1; chains that pass through infinity and negative scalars are never tested.",
 ["src/elliptic_curve.rs"], [("multiply_scalar", "src/elliptic_curve.rs"), ("plus", "src/elliptic_curve.rs")], observe=["return value"])

prop("C18", "Point enumeration lists every rational point exactly once",
 "Constructing a curve over a prime p > 2 lists every pair (x, y) in [0, p) x [0, p) that satisfies the equation exactly once, with z = 1, in ascending x, followed by infinity, and nothing else. The reported cardinality is therefore the number of rational points.",
 "every odd prime p, all a and b",
 "Tests list the points over GF(5) and print others without checking them.",
 ["src/elliptic_curve.rs"], [("create_points, new, points, cardinality", "src/elliptic_curve.rs")], observe=["points(), cardinality()"])

prop("C19", "Point order and torsion subsets are exact",
 "The order reported for a point of a non-singular curve over GF(p), p > 3 prime, is the least n >= 1 whose n-fold sum is infinity. The division points for n >= 0 on a non-singular curve are exactly those enumerated points whose n-fold sum is infinity, in enumeration order, and keep their coordinates when the result is dereferenced or converted to a vector.",
 "every non-singular curve over a prime field p > 3, every point on it, every n >= 0",
 "Tests check the orders on one curve over GF(5) and three torsion subsets.",
 ["src/elliptic_curve.rs"], [("point_order, division_points", "src/elliptic_curve.rs")], observe=["return value"])

prop("C20", "The j-invariant of a curve is correct",
 "For a non-singular curve over GF(p), p > 3 prime, the j-invariant is the residue j in [0, p) with j * (4 a^3 + 27 b^2) = 1728 * 4 a^3 modulo p. It depends only on a, b modulo p.",
 "every prime p > 3, all a, b with 4a^3+27b^2 not divisible by p",
 "Tests print it for one curve.",
 ["src/elliptic_curve.rs"], [("j_invariant", "src/elliptic_curve.rs")], observe=["return value"])

prop("C21", "Division polynomials satisfy their defining recurrences",
 "For all integers a, b and n >= 0, the division polynomial psi_n has, at every point with y^2 = x^3 + a x + b and y != 0, the value given by the classical initial values and recurrences; it is free of y for odd n and y times a polynomial in x with even coefficients for even n >= 2. Likewise phi_n has the value x psi_n^2 - psi_(n+1) psi_(n-1) for n >= 1, and omega_n satisfies 4 y omega_n = psi_(n+2) psi_(n-1)^2 - psi_(n-2) psi_(n+1)^2 for n >= 2 (omega_1 = y); phi_n is free of y, omega_n is free of y for even n and y times a polynomial in x for odd n. With x counted 2 and y counted 3, the terms of the highest weight n^2 - 1 of psi_n have coefficient sum n, those of weight 2 n^2 of phi_n and 3 n^2 of omega_n have coefficient sum 1.",
 "all integers a, b; every n as far as exponents fit in i32",
 "Tests print psi up to 5, phi up to 3 and omega up to 5 for a = b = 1 only, so every occurrence of a and b could be swapped without notice.",
 ["src/division_polynomial.rs"], [("psi, phi, omega", "src/division_polynomial.rs")], observe=["return value"])

prop("C22", "Divisor sums and q-expansions are exact up to the requested order",
 "The divisor sum sigma_k(n) is the sum of d^k over the positive divisors d of n. The Eisenstein series E4 to order N has coefficient 1 at q^0 and 240 sigma_3(n) at q^n for 1 <= n <= N and nothing else; delta1(N) agrees with the product of (1-q^n)^24 up to q^N; delta1_inverse(N) times delta1(N) is 1 up to q^N; and the j-invariant series to order N times q * delta1 agrees with E4^3 up to that order.",
 "every n, every k >= 0, every order N >= 0",
 "Tests print the first three to six coefficients.",
 ["src/divisor.rs", "src/eisenstein.rs", "src/delta.rs", "src/j_invariant.rs"], [("sigma_divisor, eisenstein4, delta1, delta1_inverse, j_invariant1, j_invariant", "src/divisor.rs, src/eisenstein.rs, src/delta.rs, src/j_invariant.rs")], observe=["return value"])

prop("C23", "Linear solving returns the integer solution",
 "Given the augmented matrix of an integer linear system (coefficient columns followed by the constant column, at least as many rows as unknowns, unknowns independent) that has an integer solution, the solver returns that solution: row i of the result has the i-th unknown in its last column. Inconsistent or singular inputs are outside the contract.",
 "every such matrix of any size, every row order, every sign",
 "The solver has no test of its own; it is used for two particular systems whose first pivot is one.",
 ["src/simultaneous_equation.rs"], [("solve", "src/simultaneous_equation.rs")], observe=["last column of the result"])

prop("C24", "Subscripted-variable numbering is a bijection",
 "For prime p (within the machine-integer range), the number of variables c_i_j with 0 <= i <= j <= p is (p+1)(p+2)/2 and is what the converter counts; the index of a variable and the variable of an index are mutually inverse between those variables and the indices below the count, off-diagonal variables first in lexicographic order, then diagonal ones. The index of the empty variable is none.",
 "every prime p small enough for the counters, every variable and index",
 "One test enumerates p = 3.",
 ["src/subscripted_variable.rs"], [("SubscriptedVariableConverter::count, index_from_variable, variable_from_index", "src/subscripted_variable.rs")], observe=["return value"])

prop("C25", "Modular polynomials: symmetric, monic and satisfied by the j-function",
 "For prime p, the modular polynomial template is x^(p+1) + y^(p+1) plus, for 0 <= i <= j <= p, the variable c_i_j times x^i y^j + x^j y^i (once when i = j). The modular polynomial that is returned is symmetric in x and y, has coefficient 1 at x^(p+1) and y^(p+1), and otherwise only monomials x^i y^j with i, j <= p; and whenever there are integers for which the template, with x and y replaced by the q-expansions j(q) and j(q^p), has no terms in q^0 and below, it is the template with those integers for the variables.",
 "every prime p up to 200 (beyond that intermediate exponents approach the machine-integer range)",
 "Tests print p = 2, 3 (and 5).",
 ["src/modular_polynomial.rs"], [("subscripted_variable_modular_polynomial, modular_polynomial", "src/modular_polynomial.rs")], observe=["return value"])

prop("C26", "Printed form is canonical",
 "Printing a canonical polynomial lists its terms in descending monomial order, separated by '+' or '-' according to the sign of each coefficient, printing absolute values, omitting a coefficient of 1 except for constants and omitting exponents of 1, and prints 0 for the zero polynomial; a power of a variable prints as nothing, x or x^e, factors separated by one space, a subscripted variable as c_i_j. Points print as (x, y) or O, lists of points separated by a comma and a space, curves with their field, equation, number of points and j-invariant.",
 "every canonical polynomial with fewer than 2^31 - 1 terms, every term and point, every non-singular curve over a prime field p > 3",
 "Tests compare a few dozen strings.",
 ["src/term.rs", "src/polynomial.rs", "src/subscripted_variable.rs", "src/elliptic_curve.rs"], [("Display for Term, Polynomial, SubscriptedVariable, ECPoint, EllipticCurve", "src/term.rs, src/polynomial.rs, src/subscripted_variable.rs, src/elliptic_curve.rs")], observe=["to_string()"])

prop("C27", "Schoof's residues match the true trace of Frobenius",
 "For a non-singular curve y^2 = x^3 + a x + b over GF(q), q > 3 prime, Schoof's algorithm returns one residue for each of the moduli 2, 3, 5 that is less than q, in this order, and each residue is the trace of Frobenius q + 1 - #E reduced to [0, l).",
 "every non-singular curve over a prime field GF(q), q > 3; the residue modulo 2 is decided for every such curve (C30), the residues modulo 3 and 5 only within the stated bound q <= 19",
 "The Schoof tests are ignored because they take long, and they check two curves.",
 ["src/schoof.rs"], [("schoof", "src/schoof.rs")], observe=["return value"])

prop("C28", "Isogenies are Velu quotients, so the number of points is kept",
 "For a non-singular curve y^2 = x^3 + a x + b over GF(p), p > 3, isogeny(n) returns Velu's quotient of the curve by the group of its rational points P with n P = O: with v the sum of 3x^2 + a and w the sum of 2y^2 + x (3x^2 + a) over the affine points of that group, the coefficients are (a - 5v) mod p and (b - 7w) mod p, reduced to [0, p), the field is the same and the list of points is that of the new curve. Hence the new curve has as many rational points as the original.",
 "every non-singular curve over a prime field, 3 < p < 2^64, all coefficients (reduced or not), every integer n",
 "The isogeny tests only print results and are marked TODO.",
 ["src/elliptic_curve.rs"], [("isogeny, division_points", "src/elliptic_curve.rs")], observe=["return value"])

prop("C29", "SEA: Elkies classification, degree and neighbouring j-invariants",
 "For a non-singular curve over GF(p) and a prime l, let f be the modular polynomial for l (as the crate returns it) with y replaced by the curve's j-invariant. SEA's gcd is the monic greatest common divisor of x^p - x and f modulo p, with coefficients in [0, p), and its roots in GF(p) are exactly those of f; the reported degree is their number; l is reported as an Elkies prime exactly when there is one; the reported j-invariants are these roots in ascending order, all of them if at most two, otherwise the two smallest.",
 "every prime 3 < p < 2^31, all a, b with 4a^3+27b^2 not divisible by p, every prime l up to 200",
 "Two curves are checked, one of them in an ignored test.",
 ["src/schoof_elkies_atkins.rs"], [("sea", "src/schoof_elkies_atkins.rs")], observe=["return value"])

prop("C30", "Schoof's first residue is the parity of the trace of Frobenius",
 "For a non-singular curve y^2 = x^3 + a x + b over GF(q), q > 3 prime, the first residue that Schoof's algorithm returns has modulus 2, lies in {0, 1} and is congruent to the trace of Frobenius q + 1 - #E modulo 2, where #E counts the points of the curve with the point at infinity.",
 "every prime q with 3 < q < 2^31, all a, b with 4a^3+27b^2 not divisible by q, whenever the computation returns",
 "The Schoof tests are ignored because they take long, and they check two curves.",
 ["src/schoof.rs", "src/polynomial.rs"], [("schoof", "src/schoof.rs"), ("is_gcd_one", "src/polynomial.rs")], observe=["return value"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
