#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after a change here or in tasks.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import tasks as T

INT, RAT, TRAITS = "src/core/num/int.rs", "src/core/num/rat.rs", "src/core/num/traits.rs"
MDEG, ORD, ELTS, COMP, DISP, MAC = ["src/poly/%s.rs" % x for x in ("mdeg", "ord", "elts", "comp", "display", "macros")]
MAT, ALG, CONE, UTIL = ["src/linalg/%s.rs" % x for x in ("mat", "algorithm", "cone", "util")]
P = []


def p(pid, title, statement, text, why, files, mech, observe=(), over=("inputs",), hook=None):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, pid
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


p("C01", "Integer arithmetic, gcd and lcm are exact",
  "The arithmetic, comparison, sign, absolute value and power of integers agree with the mathematical integers whenever the result fits 64 bits. "
  "The greatest common divisor is nonnegative, divides both arguments, is divided by every common divisor and is zero only for two zeros; "
  "the least common multiple is nonnegative, a multiple of both arguments, divides every common multiple, and is zero when an argument is zero.",
  "every pair of 64-bit integers of either sign, including zero and both machine limits, whose result is representable",
  "the tests never call gcd or lcm directly; signs, zeros and the machine limits need all pairs of inputs",
  [INT], [("Euclid's algorithm with sign normalisation", "Integer::gcd"), ("product over gcd", "Integer::lcm"), ("operator macro", "impl_integer_binop!")])
p("C02", "Every rational that can be produced is in lowest terms with positive denominator",
  "Whatever sequence of constructions, sums, differences, products, quotients, negations, reciprocals, powers, conversions and folds produces a rational, "
  "its denominator is positive and has no common factor with its numerator, and zero is 0/1.",
  "every pair of operands and every operation, in owned, borrowed and assigning form, with results that fit 64 bits",
  "two fractions are sampled by the tests; a missing reduction only shows for operands with particular common factors",
  [RAT, INT, TRAITS], [("normalising constructor", "Rational::new"), ("operators", "impl Add/Sub/Mul/Div/Neg for Rational"), ("powers", "Rational::pow, powi")])
p("C03", "Rational arithmetic computes the exact value",
  "Sums, differences, products, quotients, negations, reciprocals, integer powers (also negative), sums and products of sequences, signs and conversions of "
  "rationals have exactly the mathematical value, in every form in which the operator is offered (by value, by reference, assigning).",
  "every pair of rationals and every exponent whose results (and the products they are built from) fit 64 bits",
  "the tests sample a few fractions; sign and cancellation cases need every operand pair",
  [RAT, INT], [("operators", "impl Add/Sub/Mul/Div/Neg/Sum/Product for Rational"), ("powers", "Rational::pow, powi, recip")])
p("C04", "Equality, order and hash of rationals agree with their values",
  "Two rationals compare as their values do, for every numerator and denominator the machine can hold and without overflow; they are equal exactly when the values are, "
  "equal rationals hash alike, and the order is total, antisymmetric and transitive.",
  "every pair and triple of rationals, numerators and denominators of all 64 bits",
  "tests never compare rationals; cross-multiplication overflows only for large parts",
  [RAT, TRAITS], [("cross multiplication", "impl Ord/PartialOrd for Rational"), ("derived equality and hash", "struct Rational")])
p("C05", "Numeric traits are honest: zero, one, tolerance equality and stability order",
  "For every numeric type zero and one are the neutral elements and are recognised exactly. Tolerance equality is reflexive and symmetric, coincides with equality for "
  "rationals and for floats holds exactly when the absolute difference is below the type's epsilon. The pivot preference never "
  "prefers zero over a nonzero value, prefers the larger magnitude among floats, and among nonzero rationals the one with the smaller sum of numerator and denominator magnitudes.",
  "every value of every primitive type (all float bit patterns but NaN) and every rational",
  "tests touch a few numbers; float bit patterns and every rational pair cannot be sampled exhaustively",
  [TRAITS], [("neutral elements", "impl_zero_for_primitives!, impl_one_for_primitives!"), ("tolerance", "EpsilonEquality"), ("pivot preference", "StabilityCmp")])
p("C06", "Multidegrees are canonical and their arithmetic is exact",
  "A multidegree built in any way never ends in a zero exponent, so equality is equality of exponent vectors. Addition adds exponents componentwise; subtraction is defined exactly when every "
  "exponent of the subtrahend is at most the corresponding one, and is then the componentwise difference; length, total degree, divisibility and single variables agree with the exponents.",
  "every pair of exponent vectors of any (also different) lengths with sums that fit the exponent type",
  "tests use a handful of short vectors; different lengths, trailing zeros and cancellation to zero need all of them",
  [MDEG], [("trimming", "MultiDegree::trim_zeros, from_vec"), ("componentwise addition and subtraction", "impl Add for &MultiDegree, checked_sub, is_succ")])
p("C07", "Monomial orders are total orders compatible with multiplication",
  "Each comparison (lexicographic, reverse lexicographic, total degree, graded lexicographic, graded reverse lexicographic) agrees with its definition for every pair of exponent vectors. "
  "They are antisymmetric and transitive, keep the comparison when both sides are multiplied by the same monomial, and put the constant monomial first; "
  "the four monomial orders report equality only for equal monomials.",
  "every pair, triple and common factor of exponent vectors, of any lengths, including degrees whose total exceeds the exponent type",
  "the tests compare a dozen vectors; a flaw in a tie-break or in a length mismatch needs specific vectors",
  [ORD, MDEG], [("comparisons", "Lex, RevLex, GrLex, GRevLex::cmp; grad")])
p("C08", "Terms multiply and divide exactly",
  "A term built from a coefficient and a monomial is zero exactly when the coefficient is, and zero has the zero monomial. The product of terms multiplies coefficients and adds exponents; "
  "the quotient of terms exists exactly when the divisor's monomial divides, and multiplying it back gives the dividend; dividing by zero yields nothing and zero is divisible by every nonzero term.",
  "every pair of coefficients in a field and every pair of exponent vectors",
  "tests multiply and divide three terms",
  [ELTS, MDEG], [("construction", "Term::new, zero, one, monic, var"), ("division", "Term::try_div, divides"), ("product", "impl Mul for &Term")])
p("C09", "Polynomial arithmetic computes the exact polynomial",
  "Sums, differences, products, negations, scalar multiples and scalar quotients of polynomials and terms have, monomial by monomial, the coefficient that the ring of polynomials prescribes, "
  "in every form in which the operator is offered, for every storage order of the terms.",
  "every pair of polynomials over a field, with any order of stored terms and any overlap of monomials",
  "tests add and multiply a few fixed polynomials; cancellations and merges depend on coefficients and monomials",
  [ELTS], [("merging addition", "impl Add<&Term> for &Polynomial, Add for &Polynomial"), ("products", "impl Mul for &Polynomial"), ("forms", "xops::binop")])
p("C10", "Evaluation is the ring homomorphism at a point",
  "Evaluating a polynomial or term at a point gives the sum over its terms of coefficient times the coordinate powers, ignoring spare coordinates. Evaluation of a sum, difference or product is the sum, difference or product of "
  "the evaluations; the zero polynomial evaluates to zero and a constant to itself.",
  "every polynomial over a field and every point with enough coordinates",
  "tests evaluate fixed polynomials at fixed points",
  [ELTS], [("evaluation", "Term::eval, Polynomial::eval")])
p("C11", "Multivariate division satisfies the division equation and ends",
  "Dividing a polynomial by a list of divisors ends, and the dividend equals the remainder plus the sum of quotient times divisor. No remainder term is divisible by the leading term of any nonzero divisor, no quotient-divisor product "
  "has a leading monomial above the dividend's, and dividing by divisors that are zero leaves them alone; there is one quotient per divisor and all results are clean polynomials.",
  "every dividend, every list of divisors (also zero, repeated or empty), every monomial order",
  "the tests divide random small polynomials over floats and only compare two orders of evaluation",
  [COMP], [("division algorithm", "Computer::divide"), ("tail", "Computer::tail")], over=("inputs", "histories"))
p("C12", "Leading terms and sorting follow the monomial order",
  "The leading term of a polynomial is the stored term whose monomial is greatest in the chosen order, its coefficient is the leading coefficient, and the zero polynomial has none. "
  "Sorting keeps the same terms and lists them in the order.",
  "every polynomial in any storage order, every monomial order",
  "tests look at a few polynomials whose leading term is obvious",
  [COMP, ORD], [("maximum", "Computer::leading_term, leading_coef"), ("sorting", "Computer::sort_terms")])
p("C13", "Monic lcm and S-polynomials have their defining properties",
  "The monic least common multiple of two terms has coefficient one and the componentwise larger exponents. The S-polynomial of two nonzero polynomials is the difference of the multiples that bring both leading terms to that monomial with coefficient one, "
  "so the leading monomials cancel; it is undefined only if a polynomial is zero.",
  "every pair of polynomials over a field and every order",
  "tests never inspect S-polynomials",
  [COMP], [("lcm", "Computer::monic_lcm"), ("S-polynomial", "Computer::try_reduce")])
p("C14", "Buchberger's criterion decides whether a list is a Groebner basis",
  "The criterion answers yes exactly when the given nonzero polynomials form a Groebner basis of the ideal they generate in the chosen monomial order.",
  "every list of nonzero polynomials over a field, every monomial order",
  "tests only ask the criterion about outputs of the library itself",
  [COMP], [("S-pair reduction", "Computer::buchberger_criterion, pairs_iter")], over=("inputs", "histories"))
p("C15", "Buchberger's algorithm returns the reduced Groebner basis",
  "For nonzero generators the algorithm ends and replaces them with the reduced Groebner basis of the same ideal: every element is monic, no term of one is divisible by the leading term of another, every generator reduces to zero, "
  "every element lies in the ideal, and the set depends only on the ideal and the order.",
  "every list of nonzero generators over a field (also dependent, repeated or already a basis), every monomial order",
  "tests check three examples up to the library's own criterion",
  [COMP], [("extend, minimise, reduce", "Computer::buchberger_algorithm")], over=("inputs", "histories"))
p("C16", "Matrix operations and elementary matrices are exact at every shape and index",
  "Construction, indexing, row and column access (also mutable), transposition, sums, products, scaling, inner product, squared norm, swaps, equality and triangularity tests agree entry by entry with their definitions for every shape, also non-square. "
  "The scaling, permutation and replacement row operations change exactly the rows they name, and multiplying by the matching elementary matrix performs the same operation.",
  "every shape, every row and column index, every entry of a field",
  "tests use fixed square and 2x3 matrices; strides and index mix-ups need every shape and index",
  [MAT], [("storage and strides", "Mat::index, get_row_iter, get_col_iter"), ("elementary matrices", "Mat::scale_mat, permutation, replacement"), ("products", "impl Mul for &Mat")])
p("C17", "LU decomposition reconstructs the matrix",
  "For every matrix the decomposition returns a row permutation, a lower triangular and an upper triangular factor with permutation times matrix equal to lower times upper; the upper factor has exact ones as pivots.",
  "every matrix of every shape (also rank-deficient, wide or tall), for every choice among admissible pivots",
  "tests decompose random square float matrices up to a tolerance; singular and non-square matrices need specific entries",
  [ALG, MAT], [("elimination with permutation", "Mat::lu, LUDecompositionInternal")])
p("C18", "Row echelon forms, rank and nullity are exact",
  "The echelon form has its zero rows last, leading entries one that move strictly right, and is an invertible row transformation of the matrix which the recorded transformation reproduces; the reduced form also has zeros above leading entries. "
  "Rank is the size of the largest nonzero minor, rank and nullity add up to the number of columns, and the pivot search returns a nonzero candidate whenever there is one.",
  "every matrix of every shape, for every choice among admissible pivots",
  "tests use a few fixed matrices; rank-deficient patterns need specific entries",
  [ALG], [("elimination", "Mat::row_echelon, RowEchelonForm::to_rref"), ("pivot search", "get_stable_column_index_under_row"), ("rank", "zero_rows, rank, nullity")],
  hook="read access to the transformation and the reduced matrix")
p("C19", "Kernel and range are bases of the right subspaces",
  "The kernel vectors are linearly independent, mapped to zero by the matrix, and their number plus the rank is the number of columns. The range vectors are linearly independent columns that span exactly the column space.",
  "every matrix of every shape over a field",
  "tests check a few fixed matrices",
  [ALG], [("kernel", "ReducedRowEchelonForm::compute_kernel"), ("range", "compute_range")])
p("C20", "Cone facets are exactly the supporting facets of the generated cone",
  "For a cone given by generators, every reported facet normal is nonzero, nonnegative on every generator and zero on the generators listed for that facet, which span it; dimensions and the orthogonal complement agree with the span of the generators. "
  "For a cone that spans the space, every hyperplane that is spanned by generators and has all generators on one side is reported.",
  "every list of generators with field coordinates, including degenerate, repeated and opposite ones",
  "there is no test of cones beyond printing",
  [CONE, ALG], [("facet enumeration", "Cone::new")], hook="read access to generators, facets, complement and dimensions")
p("C21", "Index and enumeration helpers visit everything exactly once, in order",
  "The index box lists each pair once in row-major order; the digit expansion of a number in a base gives digits below the base that recombine to the number; the maximum search returns the index of an element no other exceeds; "
  "the matrix enumeration lists every matrix over the given values exactly once.",
  "every box size, number, base, sequence, shape and value list",
  "tests do not call these helpers",
  [UTIL], [("iterators", "get_box_iter, num_to_seq, get_max_index, mat_iterator")])
p("C22", "Displayed values name the value unambiguously",
  "Integers, rationals, multidegrees, terms, polynomials over the rationals and matrices print the text their format prescribes: signs, superscript exponents of any size, variable letters or indices, omitted unit exponents and coefficients, "
  "separators; reading the text back gives the same value.",
  "every value: all exponents, any number of variables, both signs, zero, one and minus one",
  "tests print without asserting; multi-digit exponents, signs and more variables need specific values",
  [DISP, INT, RAT, MAT], [("formatting", "impl Display for MultiDegree, Term, Polynomial, Integer, Rational, Mat; superscript")])
p("C23", "Floating-point computations keep their structural guarantees under rounding",
  "Over floating-point numbers division still ends with no remainder term divisible by the divisor's leading term, S-polynomials cancel the leading monomials exactly, and elimination makes pivots exactly one and the entries below them exactly zero, "
  "so that rank, nullity and kernel agree, whatever the rounding. The pivot search picks an entry of the largest magnitude and finds none only in a column that vanishes up to epsilon.",
  "every finite coefficient and entry, including subnormal and huge ones",
  "the tests use small well-scaled numbers; rounding that leaves residues needs specific bit patterns",
  [COMP, ALG, TRAITS], [("leading terms are dropped, not subtracted", "Computer::divide, try_reduce"), ("pivots divided by themselves", "Mat::lu, row_echelon")], over=("inputs", "histories"))
p("C24", "Undefined operations are rejected, not answered",
  "A zero denominator, division by the zero rational, its reciprocal and its negative powers, division of a polynomial by the zero scalar, evaluation at a point with too few coordinates, and sums and products of matrices of incompatible shapes "
  "are rejected by a panic rather than giving a wrong value.",
  "every numerator and exponent, every term with a variable the point lacks, every pair of incompatible shapes",
  "tests do not exercise rejected calls",
  [RAT, ELTS, MAT], [("assertions", "Rational::new, recip, pow; Term::eval; impl Add/Mul for &Mat")])
p("C25", "Polynomial operations keep polynomials clean",
  "Every polynomial operation applied to clean polynomials gives a clean one: stored monomials are distinct and canonical and no stored coefficient is zero, so that the zero polynomial has no terms and equal polynomials store the same terms.",
  "every pair of clean polynomials and terms, every operation and operator form, including complete and partial cancellation and the zero scalar",
  "tests cancel one or two terms",
  [ELTS, MDEG], [("merging addition drops zeros", "impl Add<&Term> for &Polynomial"), ("zero scalars", "impl Mul<F> for &Polynomial, impl Mul<&Term>")])

TECH = "symbolic execution of the compiler's LLVM IR, assertions decided by SMT (Z3, second solver cvc5) within bounds"


def note(pid):
    pr = T.PROPS[pid]
    s = "Holds for every value within the bounds: " + pr.bounds + "."
    s += " Trusts: the IR of the installed rustc, the executor's reading of it (sampled paths are replayed natively), the solver"
    if pr.assumptions:
        s += "; assumes: " + "; ".join(pr.assumptions)
    return s + ". Outside the bounds nothing is claimed."


def main():
    root = os.path.dirname(HERE)
    assert [x["id"] for x in P] == sorted(T.PROPS), (set(T.PROPS) ^ {x["id"] for x in P})
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    m = {"version": 1, "setup_cmd": "./check --build",
         "hooks": {"guard": "algeo_verif", "enable": "RUSTFLAGS=\"--cfg algeo_verif\" (set by ./check)",
                   "source_commits": json.load(open(os.path.join(HERE, "hook_commits.json")))},
         "checks": [{"property": x["id"], "quick_cmd": "./check %s --tier quick" % x["id"],
                     "thorough_cmd": "./check %s --tier thorough" % x["id"], "technique": TECH,
                     "level": "model_checking", "level_note": note(x["id"])} for x in P],
         "not_applicable": []}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
