"""Which harness instances decide which property, at which bounds."""


class Task:
    def __init__(self, h, *args, tier="quick", time=300, covers=(), note="", panics=False, smt=20000, cross=10,
                 fallback="cvc5", cost=1, hooks=False, replaces=()):
        self.h, self.args, self.tier, self.time, self.covers, self.note = h, args, tier, time, covers, note
        self.panics, self.smt, self.cross, self.fallback, self.cost, self.hooks = panics, smt, cross, fallback, cost, hooks
        self.replaces = replaces
        # the deeper instances: left unfinished they are reported as such, the verdict is about the rest
        self.deep = tier == "thorough" or cost >= 15
        if tier == "thorough" and time == 300:
            self.time = 3600
            self.smt = max(smt, 60000)

    def key(self):
        return "%s(%s)" % (self.h, ",".join(map(str, self.args)))


class Prop:
    def __init__(self, tasks, bounds, assumptions=()):
        self.tasks, self.bounds, self.assumptions = tasks, bounds, list(assumptions)


COMMON_ASSUMPTIONS = [
    "LLVM IR emitted by the installed rustc (optimized, overflow checks on, panic=abort) represents the source",
    "the symbolic executor interprets that IR correctly (every explored-path sample is replayed natively; a share of the "
    "discharged assertions is re-decided by a second solver)",
    "allocation succeeds",
]
Q, TH = "quick", "thorough"
PROPS = {}


def prop(pid, bounds, tasks, assumptions=()):
    PROPS[pid] = Prop(tasks, bounds, assumptions)


prop("C01", "gcd/lcm laws: both arguments arbitrary 6-bit (quick) / 8-bit (thorough) signed; one argument any 64-bit number and the other "
     "a fixed small one (up to 12, both signs; as first argument up to 4); one argument 16-bit or near a machine limit and the other any of magnitude up to 3; common factors up to 24 bits; multiples by 0 to 3 of consecutive Fibonacci numbers up to 2^62 (Euclid's longest runs); powers of 0, 1, -1 with exponents near every power of two, of six other bases with every exponent that fits", [
    Task("h_gcd", 6, covers=(1, 2), note="6-bit arguments", cost=20),
    Task("h_gcd", 8, tier=TH, covers=(1, 2), note="8-bit arguments", replaces=("h_gcd(6)",)),
    Task("h_gcd_wide", 0, 16, 3, covers=(2, 3), note="16-bit by |b|<=3", cost=30),
    Task("h_gcd_wide", 1, 4, 3, covers=(2, 3), note="near the minimum by |b|<=3", cost=30),
    Task("h_gcd_wide", 2, 4, 3, covers=(2, 3), note="near the maximum by |b|<=3", cost=30),
    Task("h_gcd_wide", 1, 6, 10, tier=TH, covers=(2, 3), note="near the minimum by |b|<=10", replaces=("h_gcd_wide(1,4,3)",)),
    Task("h_gcd_scale", 6, 4, 20, covers=(1,), note="common factor up to 20 bits", cost=10),
    Task("h_gcd_scale", 2, 3, 24, covers=(1,), note="common factor up to 24 bits", cost=10),
    Task("h_gcd_fib", 90, 2, covers=(1, 2), note="multiples of neighbouring Fibonacci numbers up to 2^62"),
    Task("h_lcm", 5, covers=(1, 2), note="5-bit arguments", cost=10),
    Task("h_lcm", 7, tier=TH, covers=(1, 2), note="7-bit arguments", replaces=("h_lcm(5)",)),
] + [Task("h_gcd_by", 64, b, 0, covers=(1,), note="any 64-bit number and %d" % b, cost=5) for b in (1, 2, 3, -3, 4, 5, -6, 7, 8, 12)] + [
    Task("h_gcd_by", 64, b, 1, covers=(1,), note="%d and any 64-bit number" % b, cost=25) for b in (1, 2, -2)] + [
    Task("h_gcd_by", 32, b, 1, covers=(1,), note="%d and any 32-bit number" % b, cost=10) for b in (3, -4)] + [
    Task("h_gcd_by", 64, b, 1, tier=TH, covers=(1,), note="%d and any 64-bit number" % b) for b in (3, -4, 6)] + [
    Task("h_lcm_by", 64, b, 0, covers=(1,), note="any 64-bit number and %d, representable result" % b, cost=40) for b in (1, 2, -2, 3, -3, 4)] + [
    Task("h_lcm_by", 32, b, 1, covers=(1,), note="%d and any 32-bit number" % b, cost=30) for b in (2, 3)] + [
    Task("h_int_pow_unit", 4, covers=(1,), note="powers of 0, 1, -1: exponents of 32 bits near powers of two", cost=8),
] + [Task("h_int_pow_by", b % 256, e, covers=(1,), note="powers of %d, exponents up to %d" % (b, e)) for b, e in
     ((2, 62), (-2, 63), (3, 39), (-5, 27), (10, 18), (-9, 19))] + [
    Task("h_int_ops", covers=(1, 2, 3, 4, 5, 6, 7), note="64-bit operands (products: 31-bit, powers: 8-bit base)"),
])


def rat(part):
    P = part
    return [
        Task("h_rat_new", 5, 0, P, covers=(1, 2), note="5-bit numerator and denominator"),
        Task("h_rat_new", 5, 1, P, covers=(1, 2), note="5-bit numerator and denominator"),
        Task("h_rat_new", 8, 0, P, tier=TH, covers=(1, 2), note="8-bit", replaces=("h_rat_new(5,0,%d)" % P,)),
        Task("h_rat_new_fib", 90, 2, P, covers=(1,), note="quotients of multiples of neighbouring Fibonacci numbers up to 2^62"),
    ] + [Task("h_rat_bin", 3, op, form, P, covers=(1, 2), note="3-bit signed parts", cost=3) for op in range(4) for form in range(2)
    ] + [Task("h_rat_bin", 4, op, 0, P, tier=TH, covers=(1, 2), note="4-bit signed parts", replaces=("h_rat_bin(3,%d,0,%d)" % (op, P),))
         for op in (0, 1, 3)
    ] + [Task("h_rat_bin", 4, 2, 0, P, covers=(1, 2), note="4-bit signed parts", cost=40)
    ] + [Task("h_rat_fold", 3, 2, op, P, covers=(1,), note="two 3-bit rationals", cost=3) for op in range(2)
    ] + [Task("h_rat_fold", 3, 3, op, P, covers=(1,), note="three 3-bit rationals", cost=15) for op in range(2)
    ] + [Task("h_rat_fold_den", 3, 4, st, op, P, covers=(1,), note="four rationals over fixed denominators", cost=25) for st, op in ((0, 0), (0, 1), (1, 1))
    ] + [Task("h_rat_fold_den", 3, 4, 1, 0, P, tier=TH, covers=(1,), note="four rationals over fixed denominators")
    ] + [Task("h_rat_fold_den", 7, 8, 2, op, P, covers=(1,), note="eight 7-bit integers") for op in range(2)
    ] + [Task("h_rat_fold", 3, k, op, P, covers=(1,), note="%d rationals" % k) for op in range(2) for k in (0, 1)
    ] + [
        Task("h_rat_un", 5, P, covers=(1, 2, 3, 4), note="5-bit signed parts"),
        Task("h_rat_un", 8, P, tier=TH, covers=(1, 2, 3, 4), note="8-bit signed parts", replaces=("h_rat_un(5,%d)" % P,)),
    ] + [Task("h_rat_wide", 58, op, a, b, P, covers=(1,), note="58-bit numerators over %d and %d" % (a, b), cost=10)
         for op, a, b in ((0, 1, 1), (0, 2, 2), (0, 2, 4), (1, 1, 1), (1, 2, 2), (1, 2, 4), (2, 1, 1), (2, 2, 4), (3, 4, 6))
    ] + [Task("h_rat_wide", 30, 3, a, b, P, covers=(1,), note="30-bit numerators over %d and %d" % (a, b), cost=40) for a, b in ((1, 1), (2, 4))
    ] + [Task("h_rat_wide", 13, op, a, b, P, covers=(1,), note="13-bit numerators over %d and %d" % (a, b), cost=40)
         for op, a, b in ((0, 3, 1), (0, 6, 4), (0, 3, 3), (1, 3, 1), (1, 6, 4), (2, 3, 3), (3, 3, 1))
    ] + [Task("h_rat_un_wide", w, d, P, covers=(1, 2) if d > 0 else (1,), note="%d-bit numerator over %d" % (w, d), cost=20)
         for w, d in ((63, 1), (63, 2), (63, -1), (63, -2), (16, 3), (30, -4), (24, 4))
    ] + [
         Task("h_rat_pow_unit", 9, P, covers=(1,), note="powers of 0, 1, -1, 9-bit exponents"),
         Task("h_rat_pow_sparse", 3, P, covers=(1,), note="powers of 0, 1, -1, exponents of 31 bits near powers of two", cost=10)
    ] + [Task("h_rat_pow_by", n % 256, d, e, P, covers=(1,), note="powers of %d/%d, exponents of magnitude up to %d" % (n, d, e)) for n, d, e in
         ((2, 1, 62), (1, 2, 62), (2, 3, 39), (-3, 2, 39), (-1, 5, 27), (-10, 7, 18))
    ] + [Task("h_rat_pow", 3, 3, f, P, covers=(1, 2), note="3-bit signed parts, exponents -3..3") for f in range(3)
    ] + [Task("h_rat_pow", 4, 4, 0, P, tier=TH, covers=(1, 2), note="4-bit signed parts, exponents -4..4")]


prop("C02", "rationals with 3- to 5-bit parts (thorough: up to 8-bit); numerators of 58 bits (30 for quotients) over denominators 1, 2, 4 and of 13 bits "
     "over 3, 4, 6; fractions of multiples of consecutive Fibonacci numbers up to 2^62; folds of up to three 3-bit rationals, of four over fixed denominators, of eight integers; exponents of magnitude up to 3 (4), powers of 0, 1, -1 with exponents of 31 bits, of six other rationals with every exponent that fits",
     rat(1), ["operands are in lowest terms with a positive denominator (the constructors guarantee it)"])
prop("C03", "rationals with 3- to 5-bit parts (thorough: up to 8-bit); numerators of 58 bits (30 for quotients) over denominators 1, 2, 4 and of 13 bits "
     "over 3, 4, 6; fractions of multiples of consecutive Fibonacci numbers up to 2^62; folds of up to three 3-bit rationals, of four over fixed denominators, of eight integers; exponents of magnitude up to 3 (4), powers of 0, 1, -1 with exponents of 31 bits, of six other rationals with every exponent that fits",
     rat(0), ["operands are in lowest terms with a positive denominator (the constructors guarantee it)"])
prop("C04", "equality, hashing and the order laws: 5-bit and 4-bit parts; order against the values: all 64-bit numerators and positive denominators", [
    Task("h_rat_eq", 5, covers=(1, 2), note="5-bit parts"),
    Task("h_rat_eq", 8, tier=TH, covers=(1, 2), note="8-bit parts", replaces=("h_rat_eq(5)",)),
    Task("h_rat_cmp", 64, covers=(1,), note="64-bit parts"),
] + [Task("h_rat_cmp_den", 64, a, b, covers=(1,), note="64-bit numerators over %d and %d" % (a, b), cost=9) for a, b in ((1, 1), (1, 2), (3, 3), (3, 7), (1 << 40, 1))] + [
    Task("h_rat_cmp", 8, covers=(1,), note="8-bit parts"),
    Task("h_rat_order_laws", 4, covers=(1,), note="4-bit parts"),
    Task("h_rat_order_laws", 6, tier=TH, covers=(1,), note="6-bit parts", replaces=("h_rat_order_laws(4)",)),
])
prop("C05", "rationals with 5-bit parts (thorough 10-bit; pivot preference: 60-bit parts); every f32/f64 bit pattern (not-a-number excluded); every value of the primitive integers", [
    Task("h_stab_rat", 5, covers=(1, 2, 3), note="5-bit parts"),
    Task("h_stab_rat", 10, tier=TH, covers=(1, 2, 3), note="10-bit parts", replaces=("h_stab_rat(5)",)),
    Task("h_stab_wide", 60, covers=(1,), note="pivot preference of rationals with 60-bit parts"),
    Task("h_stab_f64", covers=(1,), note="all non-NaN f64"),
    Task("h_stab_f32", covers=(1,), note="all non-NaN f32"),
    Task("h_eps_f64", covers=(1, 2), note="all finite f64", smt=60000, cost=30),
    Task("h_eps_f32", covers=(1, 2), note="all finite f32", smt=60000, cost=10),
    Task("h_prim", covers=(1,), note="all primitive values"),
    Task("h_inv_f64", covers=(1,), note="all non-NaN f64"),
])

# ---- multidegrees and orders ------------------------------------------------------------------
ORD = ("lexicographic", "reverse lexicographic", "graded lexicographic", "graded reverse lexicographic", "graded (total degree)")
prop("C06", "multidegrees of up to 6 variables, every 8-bit exponent (and vectors of 9 to 20 positive exponents, and of 20, 40 and 300 with four arbitrary ones); sums that fit 8 bits", [
    Task("h_mdeg_make", 6, covers=(1, 2, 3), note="vectors of up to 6 exponents"),
    Task("h_mdeg_var", 6, covers=(1, 2), note="6 variables"),
] + [Task("h_mdeg_add", 4, f, covers=(1, 2), note="up to 4 variables", cost=3) for f in range(1, 4)] + [
    Task("h_mdeg_add", 6, 0, covers=(1, 2), note="up to 6 variables", cost=20),
    Task("h_mdeg_sub", 6, covers=(1, 2), note="up to 6 variables", cost=30),
    Task("h_mdeg_long", 20, 60, 5, covers=(1,), note="sums, 20 variables"),
    Task("h_mdeg_long", 9, 255, 6, covers=(1, 2), note="differences, 9 variables", cost=10),
] + [Task("h_mdeg_sparse", n, d, 120, 5, covers=(1,), note="sums, %d variables, four arbitrary exponents" % n) for n, d in ((20, 0), (40, 1), (300, 0))] + [
    Task("h_mdeg_sparse", n, d, 255, 6, covers=(1, 2), note="differences, %d variables, four arbitrary exponents" % n) for n, d in ((20, 0), (40, 1), (300, 0))] + [
], ["exponent sums fit the exponent type (8 bits); multidegrees are canonical (no trailing zeros), as every constructor makes them"])

prop("C07", "agreement with the definition: up to 6 variables (ungraded: every 8-bit exponent; graded: every 8-bit exponent up to 4 variables, 2-bit up to 6), "
     "12 variables with positive exponents up to 15, 20 to 300 variables with four arbitrary exponents; transitivity: up to 4 variables (ungraded orders: all 8-bit exponents, graded: 2-bit) and 3 (graded: 4-bit); "
     "compatibility with multiplication: ungraded: 4 variables, graded: 3 variables with 2-bit exponents, 2 with 8-bit exponents", [
    Task("h_ord_def", w, 6, 255, covers=(1, 2, 3), note=ORD[w] + ", up to 6 variables", cost=20) for w in range(2)] + [
    Task("h_ord_def", w, 4, 255, covers=(1, 2, 3), note=ORD[w] + ", up to 4 variables", cost=30, smt=40000) for w in range(2, 5)] + [
    Task("h_ord_def", w, 6, 3, covers=(1, 2, 3), note=ORD[w] + ", up to 6 variables, 2-bit exponents", cost=60) for w in range(2, 5)] + [
    Task("h_mdeg_long", 12, 15, w, covers=(1, 2), note=ORD[w] + ", 12 variables", cost=20) for w in range(5)] + [
    Task("h_mdeg_sparse", n, d, 255, w, covers=(1, 2), note=ORD[w] + ", %d variables, four arbitrary exponents" % n) for w in range(5) for n, d in ((20, 0), (40, 1), (300, 0))] + [
    Task("h_ord_trans", w, 4, 255, covers=(1,), note=ORD[w] + ", up to 4 variables", cost=50) for w in range(2)] + [
    Task("h_ord_trans", w, 4, 3, covers=(1,), note=ORD[w] + ", up to 4 variables, 2-bit exponents", cost=80) for w in range(2, 5)] + [
    Task("h_ord_trans", w, 3, 15, covers=(1,), note=ORD[w] + ", up to 3 variables", cost=20) for w in range(2, 5)] + [
    Task("h_ord_mul", w, 4, 255, covers=(1, 2), note=ORD[w] + ", up to 4 variables", cost=20) for w in range(2)] + [
    Task("h_ord_mul", w, 3, 3, covers=(1, 2), note=ORD[w] + ", up to 3 variables", cost=30) for w in range(2, 5)] + [
    Task("h_ord_mul", w, 2, 255, covers=(1, 2), note=ORD[w] + ", up to 2 variables, 8-bit exponents", smt=60000, cost=60) for w in range(2, 5)] + [
    Task("h_ord_def", w, 5, 255, tier=TH, covers=(1, 2, 3), note=ORD[w] + ", up to 5 variables") for w in range(2, 5)] + [
    Task("h_ord_trans", w, 4, 63, tier=TH, covers=(1,), note=ORD[w] + ", up to 4 variables") for w in range(2, 5)] + [
    Task("h_ord_mul", w, 3, 7, tier=TH, covers=(1, 2), note=ORD[w] + ", up to 3 variables") for w in range(2, 5)] + [
    Task("h_ord_mul", w, 4, 31, tier=TH, covers=(1, 2), note=ORD[w] + ", up to 4 variables") for w in range(2, 5)
], ["multidegrees are canonical"])

# ---- terms and polynomials ----------------------------------------------------------------------
REAL = "coefficients are arbitrary elements of the field of real numbers (the generic code instantiated at a symbolic field)"
prop("C08", "up to 6 variables, all 8-bit exponents whose sums fit, arbitrary real coefficients", [
    Task("h_term_make", 6, covers=(1, 2), note="construction"),
] + [Task("h_term_mul", 6, 255, f, covers=(1, 2), note="products", cost=3) for f in range(4)] + [
    Task("h_term_div", 6, 255, covers=(1, 2, 3, 4), note="exact division, divisibility", cost=7),
    Task("h_many_term", 6, 20, covers=(1,), note="operations in 20 variables over fixed monomials", cost=2),
    Task("h_many_term", 3, 40, covers=(1,), note="operations in 40 variables over fixed monomials", cost=4),
], [REAL, "divisibility of the zero term is left open"])


def ring(part):
    ts = [Task("h_term_sum", 3, 3, op, f, part, covers=(1, 2), note="term and term") for op in range(2) for f in range(4)]
    ts += [Task("h_poly_term", 2, 2, 2, op, side, f, part, covers=(1, 2), note="polynomial and term")
           for op in range(3) for side in range(2) for f in range(4)]
    ts += [Task("h_poly_term", 3, 2, 2, op, side, 0, part, covers=(1, 2), note="polynomial of up to 3 terms and term", cost=2)
           for op in range(3) for side in range(2)]
    ts += [Task("h_poly_bin", 2, 2, 2, 2, op, f, part, covers=(1, 2), note="polynomials of up to 2 terms", cost=3) for op in range(2) for f in range(4)]
    ts += [Task("h_poly_bin", 3, 2, 2, 2, op, 0, part, covers=(1, 2), note="polynomials of up to 3 and 2 terms", cost=8) for op in range(2)]
    ts += [Task("h_poly_bin", 3, 3, 1, 5, op, 0, part, covers=(1, 2), note="univariate, up to 3 terms", cost=8) for op in range(2)]
    ts += [Task("h_poly_bin", 2, 2, 2, 1, 2, f, part, covers=(1, 2), note="products of up to 2 by 2 terms", cost=8) for f in range(4)]
    ts += [Task("h_poly_bin", 3, 2, 1, 3, 2, 0, part, covers=(1, 2), note="univariate products of up to 3 by 2 terms", cost=12)]
    ts += [Task("h_poly_bin", 3, 3, 2, 3, 0, 0, part, covers=(1, 2), note="up to 3 terms each", cost=20),
           Task("h_poly_bin", 3, 3, 2, 2, 1, 0, part, covers=(1, 2), note="up to 3 terms each", cost=15),
           Task("h_poly_bin", 3, 3, 2, 3, 1, 0, part, tier=TH, covers=(1, 2), note="up to 3 terms each")]
    ts += [Task("h_poly_bin", 4, 4, 1, 7, op, 0, part, covers=(1, 2), note="univariate, up to 4 terms each", cost=18) for op in range(2)]
    ts += [Task("h_poly_bin", 3, 2, 2, 2, 2, 0, part, covers=(1, 2), note="products of up to 3 by 2 terms", cost=18),
           Task("h_poly_bin", 2, 2, 3, 2, 2, 0, part, covers=(1, 2), note="products in three variables", cost=28),
           Task("h_poly_bin", 3, 3, 1, 4, 2, 0, part, covers=(1, 2), note="univariate products of up to 3 by 3 terms", cost=40),
           Task("h_poly_bin", 3, 3, 1, 2, 2, 0, part, covers=(1, 2), note="univariate products of up to 3 by 3 terms", cost=7),
           Task("h_poly_bin", 4, 2, 1, 4, 2, 0, part, covers=(1, 2), note="univariate products of up to 4 by 2 terms", cost=12)]
    ts += [Task("h_long_bin", n, m, nv, st, sd, op, part, covers=(1,), note="%d and %d terms, %s" % (n, m, t), cost=2) for n, m, nv, st, sd, op, t in (
        (20, 20, 1, 16, 1, 0, "univariate sums"), (20, 20, 2, 17, 1, 1, "differences in two variables"), (34, 6, 1, 31, 1, 0, "univariate sums"),
        (6, 34, 1, 3, 1, 1, "univariate differences"), (8, 8, 1, 0, 8, 2, "products without overlap"), (12, 3, 1, 0, 11, 2, "univariate products"),
        (12, 2, 1, 0, 8, 2, "univariate products"), (2, 7, 1, 0, 1, 2, "dense univariate products"))]
    ts += [Task("h_many_bin", n, m, nv, st, op, part, covers=(1,), note="%d and %d terms in %d variables" % (n, m, nv), cost=k) for n, m, nv, st, op, k in (
        (6, 6, 20, 3, 2, 1), (12, 12, 20, 9, 2, 5), (70, 70, 12, 67, 0, 7), (70, 6, 40, 67, 1, 4), (70, 3, 9, 0, 2, 12), (20, 20, 24, 16, 0, 1), (20, 20, 24, 16, 1, 1), (4, 4, 300, 2, 2, 1), (260, 4, 12, 258, 1, 9))]
    ts += [Task("h_long_bin", 6, 6, 2, 0, 4, 2, part, tier=TH, covers=(1,), note="6 by 6 terms in two variables")]
    ts += [Task("h_long_cancel", 24, nv, op, part, covers=(1, 2), note="24 and 24 terms, one coefficient or all cancel", cost=5) for nv, op in ((1, 0), (2, 1))]
    ts += [Task("h_poly_bin", 4, 4, 1, 3, 2, 0, part, tier=TH, covers=(1, 2), note="univariate products of up to 4 by 4 terms"),
           Task("h_poly_bin", 3, 3, 2, 2, 2, 0, part, tier=TH, covers=(1, 2), note="products of up to 3 by 3 terms")]
    ts += [Task("h_poly_term", 4, 3, 2, 2, side, 0, part, tier=TH, covers=(1, 2), note="polynomial of up to 4 terms and term") for side in range(2)]
    ts += [Task("h_poly_scalar", 3, 2, 2, part, covers=(1, 2, 3, 4, 5, 6), note="scalar operations and negation"),
           Task("h_poly_make", 3, covers=(1, 2), note="constructors")]
    return ts


prop("C09", "sums and differences: up to 3 terms in two variables with exponents up to 3 (difference: 2), up to 4 terms in one variable with exponents up to 7; products: "
     "3 by 2 terms in two variables with exponents up to 2, 2 by 2 terms in three, 3 by 3 (exponents up to 4) and 4 by 2 terms in one; operands of up to 34 terms (products: 8 by 8, 12 by 3; dense ones 2 by 7) over fixed monomials, of up to 70 terms in 9 to 40 variables, of 260 in 12, of 4 in 300; arbitrary real coefficients",
     ring(0), [REAL, "operands are clean: distinct monomials, nonzero coefficients"])
prop("C25", "sums and differences: up to 3 terms in two variables with exponents up to 3 (difference: 2), up to 4 terms in one variable with exponents up to 7; products: "
     "3 by 2 terms in two variables with exponents up to 2, 2 by 2 terms in three, 3 by 3 (exponents up to 4) and 4 by 2 terms in one; operands of up to 34 terms (products: 8 by 8, 12 by 3; dense ones 2 by 7) over fixed monomials, of up to 70 terms in 9 to 40 variables, of 260 in 12, of 4 in 300; arbitrary real coefficients",
     ring(1), [REAL, "operands are clean: distinct monomials, nonzero coefficients"])
prop("C10", "polynomials of up to 3 terms in up to 2 variables with exponents up to 3, of 2 terms in 4 variables, of 4 terms in one variable; 24 terms in three variables and 40 in one over fixed monomials, 20 in 20, 260 in ten and 4 in 300 variables; one term in up to 3 variables with exponents up to 255; the homomorphism laws: "
     "2 by 2 terms in two variables with exponents up to 2, 3 by 3 (products: 3 by 2) terms in one variable with exponents up to 3; arbitrary real points", [
    Task("h_eval", 3, 1, 3, 0, covers=(1, 2), note="univariate"),
    Task("h_eval", 2, 2, 2, 1, covers=(1, 2), note="two variables, one spare coordinate"),
    Task("h_eval", 2, 3, 1, 0, covers=(1, 2), note="three variables"),
    Task("h_eval", 1, 2, 5, 2, covers=(1, 2), note="one term, exponents up to 5"),
    Task("h_eval_hom", 2, 1, 2, 1, 0, covers=(1,), note="sums"),
    Task("h_eval_hom", 2, 2, 1, 3, 0, covers=(1,), note="sums, univariate"),
    Task("h_eval_hom", 2, 2, 1, 3, 1, covers=(1,), note="differences, univariate"),
    Task("h_eval_hom", 2, 2, 1, 2, 2, covers=(1,), note="products, univariate"),
    Task("h_eval_hom", 2, 1, 2, 2, 2, covers=(1,), note="products"),
    Task("h_eval_hom", 2, 2, 2, 1, 2, covers=(1,), note="products of 2 by 2 terms"),
    Task("h_eval_hom", 2, 2, 2, 2, 0, covers=(1,), note="sums", cost=40),
    Task("h_eval_hom", 2, 2, 2, 2, 1, covers=(1,), note="differences", cost=40),
    Task("h_eval_hom", 2, 2, 2, 2, 2, covers=(1,), note="products", cost=40),
    Task("h_eval_hom", 3, 3, 1, 3, 0, covers=(1,), note="sums, univariate", cost=30),
    Task("h_eval_hom", 3, 2, 1, 3, 2, covers=(1,), note="products, univariate", cost=18),
    Task("h_eval", 3, 2, 3, 1, covers=(1, 2), note="three terms", cost=34),
    Task("h_eval", 2, 4, 2, 1, covers=(1, 2), note="four variables", cost=50),
    Task("h_eval", 4, 1, 5, 1, covers=(1, 2), note="four terms, univariate", cost=6),
    Task("h_eval", 4, 1, 7, 0, tier=TH, covers=(1, 2), note="four terms, univariate"),
    Task("h_long_eval", 24, 3, covers=(1,), note="24 terms in three variables"),
    Task("h_long_eval", 40, 1, covers=(1,), note="40 terms in one variable"),
    Task("h_many_eval", 20, 20, covers=(1,), note="20 terms in 20 variables"),
    Task("h_many_eval", 70, 10, covers=(1,), note="70 terms in ten variables"),
    Task("h_many_eval", 260, 10, covers=(1,), note="260 terms in ten variables"),
    Task("h_many_eval", 4, 300, covers=(1,), note="4 terms in 300 variables"),
] + [Task("h_eval_wide", nv, covers=(1,), note="one term in %d variables, exponents up to 255" % nv) for nv in (1, 2, 3)] + [
], [REAL, "the power function of the symbolic field is repeated multiplication (the rational one is decided by C03)"])

DIV = []
for w in range(4):
    for part in range(2):
        DIV += [Task("h_divide", w, 2, 1, 2, 2, 1, part, covers=(1, 2), note=ORD[w] + ", one divisor of up to 2 terms", cost=6),
                Task("h_divide", w, 2, 2, 1, 2, 1, part, covers=(1, 2), note=ORD[w] + ", two one-term divisors", cost=6),
                Task("h_divide", w, 2, 2, 2, 1, 2, part, covers=(1, 2), note=ORD[w] + ", univariate, two divisors", cost=6),
                Task("h_divide", w, 3, 1, 2, 1, 3, part, covers=(1, 2), note=ORD[w] + ", univariate", cost=6),
                Task("h_divide", w, 2, 1, 2, 2, 2, part, covers=(1, 2), note=ORD[w] + ", exponents up to 2", cost=16),
                Task("h_divide", w, 2, 2, 2, 2, 1, part, covers=(1, 2), note=ORD[w] + ", two divisors of up to 2 terms", cost=10),
                Task("h_divide", w, 3, 1, 2, 2, 1, part, covers=(1, 2), note=ORD[w] + ", dividend of up to 3 terms", cost=8),
                Task("h_divide", w, 2, 3, 1, 2, 1, part, covers=(1, 2), note=ORD[w] + ", three one-term divisors", cost=2),
                Task("h_divide", w, 3, 2, 1, 2, 1, part, covers=(1, 2), note=ORD[w] + ", dividend of up to 3 terms, two one-term divisors", cost=2),
                Task("h_divide", w, 3, 2, 2, 1, 2, part, covers=(1, 2), note=ORD[w] + ", univariate, dividend of up to 3 terms, two divisors", cost=6),
                Task("h_divide", w, 2, 1, 3, 2, 1, part, covers=(1, 2), note=ORD[w] + ", divisor of up to 3 terms", cost=4),
                Task("h_long_divide", w, 8, 1, 1, 2, part, covers=(1,), note=ORD[w] + ", dense univariate dividend of 8 terms", cost=3),
                Task("h_long_divide", w, 6, 1, 2, 2, part, covers=(1,), note=ORD[w] + ", dense univariate dividend of 6 terms, two divisors"),
                Task("h_long_divide", w, 8, 2, 2, 2, part, covers=(1,), note=ORD[w] + ", dividend of 8 terms, two divisors"),
                Task("h_long_divide", w, 8, 2, 3, 1, part, covers=(1,), note=ORD[w] + ", dividend of 8 terms, three divisors"),
                Task("h_long_divide", w, 9, 3, 4, 1, part, covers=(1,), note=ORD[w] + ", dividend of 9 terms, four divisors"),
                ] + [Task("h_many_divide", w, n, nv, m, k, covers=(1, 2), note=ORD[w] + ", %d terms in %d variables by %d divisors" % (n, nv, m))
                     for n, nv, m, k in ((4, 12, 2, 2), (12, 12, 3, 3), (8, 30, 4, 2), (4, 300, 2, 2)) if part == 0] + [
                Task("h_long_divide", w, 8, 1, 1, 3, part, tier=TH, covers=(1,), note=ORD[w] + ", dense univariate dividend of 8 terms"),
                Task("h_divide", w, 2, 3, 2, 1, 3, part, tier=TH, covers=(1, 2), note=ORD[w] + ", univariate, three divisors"),
                Task("h_divide", w, 4, 1, 2, 1, 4, part, tier=TH, covers=(1, 2), note=ORD[w] + ", univariate, dividend of up to 4 terms"),
                Task("h_divide", w, 2, 1, 2, 3, 1, part, tier=TH, covers=(1, 2), note=ORD[w] + ", three variables"),
                ]
prop("C11", "one divisor of up to 2 terms (dividend of up to 2 terms in two variables with exponents up to 2, of up to 3 terms with exponents up to 1 or in one variable up to 3) or of up to 3 terms, "
     "two divisors of up to 2 terms (exponents up to 1; in one variable up to 2, dividend of up to 3 terms), three of one term; zero divisors included; dense univariate dividends of up to 8 terms by one or two divisors, dividends of 8 or 9 terms over fixed monomials by two to four divisors, also in 12, 30 and 300 variables; "
     "arbitrary real coefficients, all four orders; termination within the step budget", DIV,
     [REAL, "operands are clean"])
prop("C12", "polynomials of up to 4 terms in 2 variables and 3 terms in 3 variables with exponents up to 3, 5 terms in one variable, 2 terms in 3 variables with 8-bit exponents; 16 terms of which one 8-bit exponent each is arbitrary; 24 and 34 terms over fixed monomials, up to 300 terms in 5 and 17 and 8 terms in 300 variables; all four orders", [
    Task("h_lead", w, 3, 2, 3, covers=(1, 2), note=ORD[w], cost=3) for w in range(4)] + [
    Task("h_sort", w, 3, 2, 3, covers=(1,), note=ORD[w], cost=3) for w in range(4)] + [
    Task("h_lead", w, 2, 3, 255, covers=(1, 2), note=ORD[w] + ", 8-bit exponents", cost=5, smt=40000) for w in range(4)] + [
    Task("h_lead", w, 4, 2, 3, covers=(1, 2), note=ORD[w] + ", up to 4 terms", cost=10) for w in range(4)] + [
    Task("h_sort", w, 4, 2, 3, covers=(1,), note=ORD[w] + ", up to 4 terms", cost=10) for w in range(4)] + [
    Task("h_lead", w, 3, 3, 3, covers=(1, 2), note=ORD[w] + ", three variables", cost=6) for w in range(4)] + [
    Task("h_lead", w, 5, 1, 9, covers=(1, 2), note=ORD[w] + ", univariate, up to 5 terms", cost=2) for w in range(4)] + [
    Task("h_sort", w, 5, 1, 9, covers=(1,), note=ORD[w] + ", univariate, up to 5 terms", cost=3) for w in range(4)] + [
    Task("h_long_lead", w, 16, v, so, covers=(1 if so else 2,), note=ORD[w] + ", 16 terms, 8-bit exponents of one variable", cost=3) for w in range(4) for v in (0, 2) for so in (0, 1)] + [
    Task("h_family_lead", w, n, nv, so, covers=(1 if so else 2,), note=ORD[w] + ", %d terms in %d variables" % (n, nv)) for w in range(4) for n, nv in ((24, 3), (34, 2)) for so in (0, 1)] + [
    Task("h_many_lead", w, n, nv, so, covers=(1,), note=ORD[w] + ", %d terms in %d variables" % (n, nv)) for w in range(4) for n, nv in ((30, 17), (130, 5), (300, 17), (8, 300)) for so in (0, 1)] + [
    Task("h_lead", w, 5, 2, 3, tier=TH, covers=(1, 2), note=ORD[w] + ", up to 5 terms") for w in range(4)] + [
    Task("h_sort", w, 5, 2, 3, tier=TH, covers=(1,), note=ORD[w] + ", up to 5 terms") for w in range(4)
], [REAL])
prop("C13", "polynomials of up to 2 terms in 2 variables with exponents up to 2, of up to 3 and 2 terms with exponents up to 1, univariate of up to 3 terms with exponents "
     "up to 3, 16 and 5 terms in three and 6 and 6 terms in two variables over fixed monomials, 40 and 3 terms in 30 and 10 and 10 in 12 and 4 and 3 in 300 variables, all four orders; monic least common multiples of terms: 5 variables, all 8-bit exponents; up to 60 variables, three arbitrary exponents each", [
    Task("h_lcm_term", 5, 255, covers=(1, 2), note="terms", cost=2)] + [
    Task("h_lcm_long", n, covers=(1,), note="terms in %d variables" % n) for n in (7, 12, 20, 34, 60)] + [
    Task("h_spoly", w, 2, 2, 2, 1, covers=(1, 2, 3), note=ORD[w], cost=8) for w in range(4)] + [
    Task("h_spoly", w, 2, 2, 1, 3, covers=(1, 2, 3), note=ORD[w] + ", univariate", cost=5) for w in range(4)] + [
    Task("h_spoly", w, 2, 1, 2, 2, covers=(1, 2), note=ORD[w] + ", second operand of one term", cost=5) for w in range(4)] + [
    Task("h_spoly", w, 2, 2, 2, 2, covers=(1, 2, 3), note=ORD[w] + ", exponents up to 2", cost=36) for w in range(4)] + [
    Task("h_spoly", w, 3, 2, 2, 1, covers=(1, 2, 3), note=ORD[w] + ", up to 3 and 2 terms", cost=15) for w in range(4)] + [
    Task("h_spoly", w, 3, 3, 1, 3, covers=(1, 2, 3), note=ORD[w] + ", univariate, up to 3 terms", cost=20) for w in range(4)] + [
    Task("h_long_spoly", w, 16, 5, 3, 12, covers=(2,), note=ORD[w] + ", 16 and 5 terms in three variables", cost=2) for w in range(4)] + [
    Task("h_long_spoly", w, 6, 6, 2, 1, covers=(2,), note=ORD[w] + ", 6 and 6 terms in two variables", cost=3) for w in range(4)] + [
    Task("h_many_spoly", w, n, m, nv, sh, covers=(1,), note=ORD[w] + ", %d and %d terms in %d variables" % (n, m, nv), cost=3)
    for w in range(4) for n, m, nv, sh in ((6, 6, 12, 3), (40, 3, 30, 38), (10, 10, 12, 3), (4, 3, 300, 2))] + [
    Task("h_spoly", w, 2, 2, 3, 1, tier=TH, covers=(1, 2, 3), note=ORD[w] + ", three variables") for w in range(4)
], [REAL])

GBN = "generators with arbitrary nonzero real coefficients, every combination of monomials: "
prop("C14", GBN + "two generators of up to 3 terms in two variables (total degree 2) or 2 terms in three (total degree 3), three generators of up to 2 terms in two or "
     "(squarefree) three variables (total degree 2); eighteen systems of two to six generators in up to four variables with one to three arbitrary nonzero parameters as coefficients and six in eight variables, all four orders", [
    Task("h_gb_criterion", w, 2, 2, 2, 2, 2, covers=(1, 2), note=ORD[w] + ", two generators", cost=4) for w in range(4)] + [
    Task("h_gb_criterion", w, 3, 2, 2, 1, 2, covers=(1, 2), note=ORD[w] + ", three generators", cost=6) for w in range(4)] + [
    Task("h_gb_criterion", w, 1, 2, 2, 2, 2, covers=(1,), note=ORD[w] + ", one generator") for w in range(4)] + [
    Task("h_gb_criterion", w, 2, 3, 2, 2, 2, covers=(1, 2), note=ORD[w] + ", up to 3 terms", cost=22) for w in range(4)] + [
    Task("h_gb_criterion", w, 2, 2, 3, 2, 3, covers=(1, 2), note=ORD[w] + ", three variables", cost=15) for w in range(4)] + [
    Task("h_gb_criterion", w, 3, 2, 2, 2, 2, covers=(1, 2), note=ORD[w] + ", three generators of total degree 2", cost=26) for w in range(4)] + [
    Task("h_gb_criterion", w, 3, 2, 3, 1, 2, covers=(1, 2), note=ORD[w] + ", three generators, three variables", cost=32) for w in range(4)] + [
    Task("h_gb_system", w, c, 1, note=ORD[w] + ", system %d" % c) for w in range(4) for c in range(18) if (w, c) != (1, 16)] + [
    Task("h_many_gb", w, c, 8, 1, note=ORD[w] + ", system %d in eight variables" % c, cost=8 if c == 0 else 1) for w in range(4) for c in range(6) if (w, c) not in ((0, 0), (1, 0))] + [
    Task("h_gb_criterion", w, 4, 2, 2, 1, 2, tier=TH, covers=(1, 2), note=ORD[w] + ", four generators") for w in range(4)
], [REAL, "generators are nonzero (documented by the panic message of the code)"])
prop("C15", GBN + "two generators of up to 2 terms (total degree 2), three generators of up to 2 terms (squarefree), two of up to 3 terms (degree 1); eighteen systems of two to six generators in up to four variables with one to three arbitrary nonzero parameters as coefficients and six in eight variables, all four orders", [
    Task("h_gb", w, 2, 2, 2, 2, 2, covers=(1, 2, 3), note=ORD[w] + ", two generators", cost=10) for w in range(4)] + [
    Task("h_gb", w, 3, 2, 2, 1, 2, covers=(2,), note=ORD[w] + ", three generators", cost=15) for w in range(4)] + [
    Task("h_gb", w, 2, 3, 2, 1, 1, covers=(1,), note=ORD[w] + ", linear generators", cost=5) for w in range(4)] + [
    Task("h_gb", w, 2, 2, 3, 1, 2, covers=(1, 2, 3), note=ORD[w] + ", three variables", cost=10) for w in range(4)] + [
    Task("h_gb", w, 3, 1, 2, 3, 4, covers=(1, 2), note=ORD[w] + ", three one-term generators", cost=3) for w in range(4)] + [
    Task("h_gb", w, 2, 2, 3, 1, 3, covers=(1, 2, 3), note=ORD[w] + ", three variables, squarefree", cost=18) for w in range(4)] + [
    Task("h_gb_system", w, c, 0, note=ORD[w] + ", system %d" % c, cost=2, tier=TH if c in (0, 13) or (w, c) == (1, 10) else Q)
    for w in range(4) for c in range(18) if (w, c) != (1, 16)] + [
    Task("h_many_gb", w, c, 8, 0, covers=(1,), note=ORD[w] + ", system %d in eight variables" % c, cost=10 if c == 0 or (w, c) == (1, 2) else 2)
    for w in range(4) for c in range(6) if (w, c) not in ((0, 0), (1, 0))] + [
    Task("h_gb", w, 2, 3, 2, 1, 2, tier=TH, covers=(1, 2), note=ORD[w] + ", up to 3 terms") for w in range(4)] + [
    Task("h_gb", w, 2, 2, 2, 3, 3, tier=TH, covers=(1, 2, 3), note=ORD[w] + ", total degree 3") for w in range(4)
], [REAL, "generators are nonzero (documented by the panic message of the code)",
    "the reference computation of the reduced basis, which the harness carries and which is unique for an ideal and an order"])

# ---- matrices --------------------------------------------------------------------------------------
SHAPES = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (5, 4), (4, 5), (8, 7)]
prop("C16", "the listed shapes up to 8x7 and 17x16, 1x33, 33x2, 1x300, 300x1 (products up to 17x17 by 17x17, triangularity tests up to 4x3, 2x5, 1x9, permutations of up to 6, epsilon equality up to 3x3 with two "
     "differing entries), arbitrary real entries, every row and column index", [
    Task(h, r, c, covers=cv, note="%dx%d" % (r, c)) for r, c in SHAPES
    for h, cv in (("h_mat_add", (1,)), ("h_mat_scalar", (1, 2, 3, 4)), ("h_mat_make", (2,)), ("h_mat_view", (1,)))] + [
    Task("h_mat_rowop", r, c, covers=(1, 2, 3, 4), note="%dx%d" % (r, c)) for r, c in ((2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (5, 2), (7, 8), (8, 7))] + [
    Task("h_mat_tri", r, c, covers=(1, 2, 3), note="%dx%d" % (r, c)) for r, c in ((1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 5), (5, 2), (1, 9), (8, 1))] + [
    Task("h_mat_tri", r, c, covers=(1, 2, 3), note="%dx%d" % (r, c), cost=30) for r, c in ((3, 4), (4, 3))] + [
    Task("h_mat_eps", r, c, k, covers=(1, 2), note="%dx%d, %d entries may differ" % (r, c, k)) for r, c, k in ((1, 1, 1), (1, 2, 2), (2, 2, 2), (2, 3, 2), (3, 3, 1), (3, 3, 2))] + [
    Task("h_mat_mul", r, k, c, covers=(1,), note="%dx%d by %dx%d" % (r, k, k, c)) for r, k, c in
    ((1, 1, 1), (1, 3, 1), (3, 1, 3), (2, 3, 2), (3, 2, 3), (2, 2, 3), (3, 3, 3), (4, 4, 4), (2, 5, 3), (8, 8, 8), (17, 17, 17), (1, 33, 1), (33, 1, 33), (9, 16, 17), (1, 300, 1), (300, 1, 2))] + [
    Task(h, r, c, covers=cv, note="%dx%d" % (r, c), cost=2) for r, c in ((17, 16), (1, 33), (33, 2))
    for h, cv in (("h_mat_add", (1,)), ("h_mat_scalar", (1, 2, 3, 4)), ("h_mat_view", (1,)))] + [Task("h_mat_make", 1, 33, covers=(2,), note="1x33")] + [
    Task("h_mat_perm", n, covers=(1,), note="all permutations of %d" % n) for n in (1, 2, 3, 4, 5, 6)] + [
    Task("h_mat_eq", *a, covers=(1,), note="%dx%d and %dx%d" % a) for a in ((2, 3, 3, 2), (1, 4, 2, 2), (6, 1, 1, 6), (3, 3, 9, 1), (2, 2, 2, 3), (3, 2, 4, 2))] + [
    Task("h_mat_eq", r, c, r, c, covers=(1, 2), note="%dx%d" % (r, c)) for r, c in ((4, 4), (8, 7), (17, 16), (1, 300))] + [
    Task(h, r, c, covers=cv, note="%dx%d" % (r, c), cost=k) for h, r, c, cv, k in (("h_mat_add", 1, 300, (1,), 1), ("h_mat_add", 300, 1, (1,), 1), ("h_mat_scalar", 2, 150, (1, 2, 3, 4), 1), ("h_mat_view", 300, 1, (1,), 9))] + [
    Task("h_mat_make", 4, 3, covers=(2,), note="4x3"), Task("h_mat_view", 4, 3, covers=(1,), note="4x3"),
    Task("h_mat_rowop", 4, 3, covers=(1, 2, 3, 4), note="4x3"),
], [REAL, "row indices of an elementary replacement are distinct"])

def wide(what, rows):
    return [Task("h_wide", r, c, lead, k, dup, seed, what, hooks=True, cost=cost, covers=(2 if dup and what not in (2, 3) and r < c + 1 else 1,),
                 note="%dx%d, mostly constant, %d arbitrary entries" % (r, c, k)) for r, c, lead, k, dup, seed, cost in rows]
PIV = "the pivot search may return any nonzero candidate of the column (every preference between nonzero entries is explored)"
LU = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)]
prop("C17", "matrices of 1 to 4 rows and columns but 4x4, 1x6, 2x6, 3x5, 5x2, 6x1 (thorough: 4x4, 5x3, 4x5) with arbitrary real entries; 5x5, 5x4, 6x3, 4x8 (thorough: 6x6, 7x4) when every candidate for a pivot is nonzero; mostly constant matrices with 2 to 4 arbitrary entries up to 12x12, 300x2, 2x300", [
    Task("h_lu", r, c, p, covers=(1,), note="%dx%d" % (r, c), cost=r * c) for r, c in LU + [(2, 4), (3, 4), (1, 6), (2, 5), (2, 6), (3, 5), (4, 1), (5, 1), (6, 1), (4, 2), (5, 2)]
    for p in range(2)] + [
    Task("h_lu", r, c, p, covers=(1,), note="%dx%d" % (r, c), cost=k) for r, c, k in ((4, 3, 20),) for p in range(2)] + [
    Task("h_lu", 4, 4, p, tier=TH, covers=(1,), note="4x4") for p in range(2)] + [
    Task("h_lu", r, c, p + 4, covers=(1,), note="%dx%d, pivot candidates nonzero" % (r, c), cost=k) for r, c, p, k in
    ((4, 4, 0, 3), (5, 3, 0, 3), (5, 3, 1, 2), (5, 4, 0, 9), (5, 5, 0, 12), (5, 5, 1, 8), (4, 6, 0, 4), (4, 8, 0, 4), (4, 8, 1, 3), (6, 3, 0, 20))] + [
    Task("h_lu", r, c, p, tier=TH, covers=(1,), note="%dx%d, pivot candidates nonzero" % (r, c)) for r, c, p in ((6, 6, 4), (6, 6, 5), (7, 4, 4))] + [
    Task("h_lu", r, c, p, tier=TH, covers=(1,), note="%dx%d" % (r, c)) for r, c in ((5, 3), (4, 5)) for p in range(2)
] + wide(2, [(40, 2, 0, 2, 0, 1, 1), (66, 2, 0, 2, 0, 1, 1), (8, 8, 0, 3, 0, 1, 10), (12, 12, 0, 2, 1, 3, 10), (3, 40, 30, 3, 1, 2, 1), (2, 70, 0, 4, 0, 1, 2), (260, 2, 0, 2, 0, 1, 14), (2, 300, 298, 3, 0, 1, 1)])
  + wide(3, [(40, 2, 0, 2, 0, 1, 1), (66, 2, 0, 2, 0, 1, 1), (8, 8, 0, 3, 0, 1, 10), (12, 12, 0, 2, 1, 3, 10), (3, 70, 60, 3, 0, 1, 3), (300, 1, 0, 2, 0, 1, 9), (2, 300, 298, 3, 0, 1, 1)]), [REAL, PIV])
prop("C18", "matrices up to 3x3, 1x5, 2x5, 3x4, 4x2, 5x2, 6x1 and 4x3 with arbitrary real entries (thorough: 4x4; rank of 4x3); up to 5x5 when every candidate for a pivot is nonzero; mostly constant matrices with 2 to 4 arbitrary entries up to 12x12, 300x2, 2x300", [
    Task("h_echelon", r, c, red, p, covers={0: (), 1: (1, 2), 2: ()}[p], note="%dx%d" % (r, c), cost=r * c, hooks=True)
    for r, c in LU + [(1, 5), (2, 5), (4, 1), (6, 1)] for red in range(2) for p in range(3)] + [
    Task("h_echelon", r, c, red, p, covers={0: (), 1: (1, 2), 2: ()}[p], note="%dx%d" % (r, c), cost=k, hooks=True)
    for r, c, k, ps in ((4, 2, 24, (0, 1, 2)), (5, 2, 8, (1, 2)), (4, 3, 18, (1, 2)), (3, 4, 15, (1, 2))) for red in range(2) for p in ps] + [
    Task("h_echelon", 3, 4, red, 0, note="3x4", cost=15, hooks=True) for red in range(2)] + [
    Task("h_echelon", 4, 3, red, 0, note="4x3", cost=60, hooks=True) for red in range(2)] + [
    Task("h_rank", r, c, covers=(1, 2), note="%dx%d" % (r, c), cost=3 * r * c) for r, c in LU + [(1, 5), (2, 4), (4, 2), (4, 1), (6, 1)]] + [
    Task("h_rank", 2, 5, covers=(1, 2), note="2x5", cost=35)] + [
    Task("h_echelon", r, c, red, p, covers={4: (), 5: (1, 2) if (r, c) == (5, 5) else (1,), 6: ()}[p], note="%dx%d, pivot candidates nonzero" % (r, c), hooks=True, cost=k)
    for r, c, red, p, k in ((4, 4, 1, 5, 2), (4, 4, 1, 6, 2), (4, 4, 0, 4, 3), (4, 4, 1, 4, 4), (4, 5, 1, 4, 4), (4, 5, 0, 4, 4), (5, 3, 1, 4, 5), (5, 4, 1, 4, 6),
                            (5, 5, 0, 4, 10), (5, 5, 1, 4, 11), (5, 5, 1, 5, 6), (5, 5, 1, 6, 20))] + [
    Task("h_zero_rows", r, c, covers=(1,), note="%dx%d" % (r, c)) for r, c in ((1, 1), (2, 3), (3, 2), (4, 4))] + [
    Task("h_pivot", r, c, covers=(1, 2), note="%dx%d" % (r, c)) for r, c in ((1, 2), (3, 2), (4, 1), (5, 2))] + [
    Task("h_rank", 3, 4, covers=(1, 2), note="3x4", cost=110), Task("h_rank", 4, 3, tier=TH, covers=(1, 2), note="4x3")] + [
    Task("h_echelon", r, c, red, p, tier=TH, covers={0: (), 1: (1, 2), 2: ()}[p], note="%dx%d" % (r, c), hooks=True)
    for r, c, ps in ((4, 4, (0, 1, 2)), (5, 2, (0,))) for red in range(2) for p in ps
] + wide(4, [(40, 2, 0, 2, 0, 1, 1), (66, 2, 0, 2, 0, 1, 1), (10, 10, 0, 2, 1, 1, 8), (12, 12, 0, 2, 1, 3, 14), (6, 40, 0, 2, 0, 5, 5), (3, 40, 30, 3, 1, 2, 1), (3, 70, 60, 3, 0, 1, 3), (300, 2, 0, 2, 0, 1, 10), (2, 300, 298, 3, 0, 1, 1)])
  + wide(5, [(40, 3, 0, 2, 0, 2, 9), (3, 40, 30, 3, 1, 2, 1), (2, 66, 0, 4, 0, 1, 3), (12, 12, 0, 2, 1, 3, 10), (300, 2, 0, 2, 0, 1, 4), (2, 300, 298, 3, 0, 1, 1)]), [REAL, PIV])
prop("C19", "kernel: matrices up to 3x4, 1x6, 2x6, 4x2, 6x1; range: up to 3x3, 1x5, 2x4, 4x2; arbitrary real entries (thorough: range 3x4, 2x5; kernel 4x3); mostly constant matrices with 2 to 4 arbitrary entries up to 12x12, 300x2, 2x300", [
    Task("h_kernel", r, c, note="%dx%d" % (r, c), cost=3 * r * c,
         covers=tuple(x for x, ok in ((1, r >= c), (2, c > 1), (3, r >= c - 1)) if ok)) for r, c in LU + [(2, 4), (4, 1), (4, 2), (6, 1), (1, 5), (1, 6)]] + [
    Task("h_kernel", 2, 5, note="2x5", cost=40, covers=(2,)), Task("h_range", 2, 4, note="2x4", cost=40, covers=(1, 2)),
    Task("h_kernel", 2, 6, note="2x6", cost=110, covers=(2,)), Task("h_kernel", 3, 4, note="3x4", cost=120, covers=(2, 3)),
    Task("h_range", 3, 3, note="3x3", cost=80, covers=(1, 2))] + [
    Task("h_range", r, c, note="%dx%d" % (r, c), cost=2 * r * c, covers=(1, 2) if min(r, c) > 1 else (1,)) for r, c in LU[:-1] + [(4, 2), (1, 5)]] + [
    Task("h_range", r, c, tier=TH, covers=(1, 2), note="%dx%d" % (r, c)) for r, c in ((2, 5), (3, 4))] + [
    Task("h_kernel", r, c, tier=TH, covers=(2, 3), note="%dx%d" % (r, c)) for r, c in ((4, 3),)
] + wide(0, [(1, 40, 0, 2, 0, 0, 1), (2, 66, 0, 4, 0, 1, 7), (2, 40, 30, 4, 0, 1, 1), (3, 40, 30, 4, 1, 1, 2), (3, 70, 60, 3, 0, 1, 3), (6, 40, 0, 2, 1, 4, 6), (40, 2, 0, 2, 0, 1, 1), (8, 8, 0, 2, 0, 1, 20), (12, 12, 0, 2, 1, 3, 18), (300, 2, 0, 2, 0, 1, 6)])
  + wide(1, [(2, 40, 30, 4, 0, 1, 1), (3, 40, 30, 4, 1, 1, 1), (20, 4, 0, 2, 0, 1, 20), (12, 12, 0, 2, 1, 3, 19), (66, 2, 0, 2, 0, 1, 5), (300, 2, 0, 2, 0, 1, 6), (2, 300, 298, 3, 0, 1, 1)]), [REAL, PIV])
prop("C20", "cones of up to 3 generators in the plane (dimension and complement: 4), up to 2 in space, four and five dimensions, 3 in space (dimension, complement and completeness of the facet list; thorough: all), arbitrary real coordinates; 13 lists of 4 to 8 generators in two to four dimensions with one or two arbitrary coordinates", [
    Task("h_cone", 1, 1, 0, hooks=True, covers=(1, 2), note="1 generator on a line"),
    Task("h_cone", 1, 2, 1, hooks=True, covers=(1, 2), note="2 generators on a line"),
    Task("h_cone", 2, 1, 0, hooks=True, covers=(2,), note="1 generator in the plane"),
    Task("h_cone", 2, 1, 1, hooks=True, covers=(1, 2), note="1 generator in the plane"),
    Task("h_cone", 2, 2, 0, hooks=True, covers=(1, 2), note="2 generators in the plane"),
    Task("h_cone", 2, 2, 1, hooks=True, covers=(1, 2), note="2 generators in the plane"),
    Task("h_cone", 2, 2, 2, hooks=True, covers=(1,), note="2 generators in the plane"),
    Task("h_cone", 2, 3, 0, hooks=True, covers=(1, 2), note="3 generators in the plane", cost=30),
    Task("h_cone", 2, 3, 1, hooks=True, covers=(1, 2), note="3 generators in the plane", cost=40),
    Task("h_cone", 2, 3, 2, hooks=True, covers=(1, 2), note="3 generators in the plane", cost=30),
    Task("h_cone", 3, 1, 1, hooks=True, covers=(1, 2), note="1 generator in space"),
    Task("h_cone", 3, 2, 0, hooks=True, covers=(2,), note="2 generators in space", cost=10),
    Task("h_cone", 3, 2, 1, hooks=True, covers=(1, 2), note="2 generators in space", cost=20),
    Task("h_cone", 3, 2, 2, hooks=True, note="2 generators in space"),
    Task("h_cone", 4, 1, 1, hooks=True, covers=(1, 2), note="1 generator in four dimensions"),
    Task("h_cone", 4, 2, 1, hooks=True, covers=(1, 2), note="2 generators in four dimensions", cost=8),
] + [Task("h_cone", 3, 3, p, hooks=True, covers=(1,), note="3 generators in space", cost=k) for p, k in ((0, 140), (2, 50))]
  + [Task("h_cone", 3, 3, 1, hooks=True, tier=TH, covers=(1,), note="3 generators in space", time=3400)]
  + [Task("h_cone", 2, 4, 0, hooks=True, covers=(1, 2), note="4 generators in the plane", cost=130),
     Task("h_cone", 5, 2, 1, hooks=True, covers=(1, 2), note="2 generators in five dimensions", cost=10)]
  + [Task("h_cone", 2, 4, p, hooks=True, tier=TH, covers=(1,), note="4 generators in the plane", time=3400) for p in (1, 2)]
  + [Task("h_cone_family", c, p, hooks=True, note="list of generators %d" % c, cost={2: 14}.get(c, 3), covers=() if c == 8 and p != 1 else (1,)) for c in range(13) for p in range(3) if not (c == 8 and p == 2)],
    [REAL, PIV, "completeness of the facet list is decided for cones that span the space"])
prop("C21", "index boxes up to 12x12; digits of 12-bit numbers in bases up to 15 and 8-bit numbers in bases up to 255; numbers of every magnitude (3 arbitrary bits after a fixed prefix) in twelve bases; maxima of up to 6 values "
     "of 32 bits; all matrices up to 2x2 and 1x4 over up to 3 values, up to 3x3 and 4x2 over 2", [
    Task("h_box", 12, covers=(1, 2), note="up to 12x12"),
    Task("h_digits", 8, 8, covers=(1, 2), note="8-bit numbers, 8-bit bases", cost=20, smt=40000),
    Task("h_digits", 12, 4, covers=(1, 2), note="12-bit numbers, 4-bit bases", cost=20, smt=40000),
    Task("h_digits", 16, 4, tier=TH, covers=(1, 2), note="16-bit numbers, 4-bit bases"),
    Task("h_digits_wide", 3, covers=(1,), note="numbers of every magnitude, twelve bases", cost=26),
    Task("h_max_index", 6, 32, covers=(1, 2), note="up to 6 values", cost=14),
] + [Task("h_mats", r, c, n, covers=(1,), note="%dx%d over %d values" % (r, c, n)) for r, c, n in
     ((1, 1, 1), (1, 1, 3), (2, 2, 1), (2, 2, 2), (1, 3, 2), (3, 1, 3), (2, 2, 3), (2, 3, 2), (3, 2, 2), (1, 4, 3), (4, 2, 2), (3, 3, 2))]
  + [Task("h_mats", 2, 3, 3, tier=TH, covers=(1,), note="2x3 over 3 values")],
    ["bases are at least 2", "number times base fits the machine word"])
prop("C22", "exponents: all 8-bit values of one and two variables, up to 30 in three, 11 in four, 5 in five; six to twelve variables with exponents up to 1 (seven: up to 3); "
     "integers of 20 bits, and of every magnitude near powers of two; rationals with 10-bit parts; terms with 8-bit coefficients; polynomials of up to 2 terms (4 with 2-bit coefficients; "
     "thorough: 3 in two variables); float polynomials with coefficients from a list of seven; matrix layout up to 3x4", [
    Task("h_show_power", 5, covers=(1, 2), note="one variable, all exponents", cost=20),
    Task("h_show_mdeg", 2, 255, covers=(1,), note="two variables, all exponents", cost=14),
    Task("h_show_mdeg", 3, 30, covers=(1,), note="three variables", cost=6),
    Task("h_show_mdeg", 4, 11, covers=(1,), note="four variables", cost=4),
    Task("h_show_mdeg", 5, 5, covers=(1,), note="five variables"),
    Task("h_show_long", 6, 2, covers=(1,), note="six variables"),
    Task("h_show_long", 7, 3, covers=(1,), note="seven variables", cost=4),
    Task("h_show_long", 12, 1, covers=(1,), note="twelve variables"),
    Task("h_show_int", 20, covers=(1,), note="20-bit integers", cost=20, smt=60000),
    Task("h_show_rat", 10, covers=(1, 2), note="10-bit parts", cost=6),
    Task("h_show_wide", 3, covers=(1,), note="integers and rationals near every power of two"),
    Task("h_show_term", 8, 3, 2, covers=(1, 2), note="8-bit parts", cost=3),
    Task("h_show_term", 6, 5, 1, covers=(1, 2), note="6-bit parts, five variables"),
    Task("h_show_term", 10, 1, 3, covers=(1, 2), note="10-bit parts, one variable", cost=9),
    Task("h_show_poly", 2, 5, 2, 1, covers=(1, 2), note="up to 2 terms", cost=3),
    Task("h_show_poly", 2, 3, 3, 1, covers=(1, 2), note="up to 2 terms, three variables"),
    Task("h_show_poly", 2, 8, 1, 1, covers=(1, 2), note="up to 2 terms, univariate", cost=9),
    Task("h_show_poly", 3, 3, 2, 1, covers=(1, 2), note="up to 3 terms", cost=5),
    Task("h_show_poly", 4, 2, 1, 3, covers=(1, 2), note="up to 4 terms", cost=5),
    Task("h_show_fpoly", 2, 2, 2, covers=(1, 2), note="float coefficients from a list"),
    Task("h_show_fpoly", 3, 1, 2, covers=(1, 2), note="float coefficients from a list, up to 3 terms", cost=3),
    Task("h_show_poly", 3, 3, 2, 2, tier=TH, covers=(1, 2), note="up to 3 terms"),
    Task("h_show_int", 24, tier=TH, covers=(1,), note="24-bit integers", smt=120000),
    Task("h_show_rat", 12, tier=TH, covers=(1, 2), note="12-bit parts"),
] + [Task("h_show_mat", r, c, covers=(1,), note="%dx%d" % (r, c)) for r, c in ((1, 1), (1, 3), (3, 1), (2, 2), (3, 4))])
prop("C23", "division and S-polynomials over f32 and f64: dividend of up to 2 terms, divisor of up to 2 terms, every finite coefficient; elimination of one-column "
     "matrices of up to 3 rows (f32; 2 rows f64), every finite entry; pivot search in up to 4 rows (f64: 3), every finite entry; elimination over f32 of 2x2, 1x3, 2x1 and 3x1 matrices "
     "of small integers (8 and 16 bits; reduced 2x2: 2 bits), where quotients round", [
    Task("h_flt_divide", w, 0, 1, 1, 1, 2, covers=(1, 2), note="f32, " + ORD[w]) for w in range(4)] + [
    Task("h_flt_divide", w, 1, 1, 1, 1, 2, covers=(1, 2), note="f64, " + ORD[w], cost=8) for w in (0, 3)] + [
    Task("h_flt_divide", w, 0, 2, 1, 2, 1, covers=(1, 2), note="f32, " + ORD[w], cost=10) for w in range(4)] + [
    Task("h_flt_divide", 0, 0, 2, 2, 1, 1, covers=(1, 2), note="f32, lexicographic", cost=20, smt=60000)] + [
    Task("h_flt_spoly", w, 0, 1, 2, 2, 1, covers=(1,), note="f32, " + ORD[w], cost=3) for w in (1, 2)] + [
    Task("h_flt_spoly", w, 0, 2, 1, 2, 1, covers=(1,), note="f32, " + ORD[w], cost=20, smt=60000) for w in (0, 3)] + [
    Task("h_flt_column", 0, 2, 0, covers=(1,), note="f32 LU", cost=10), Task("h_flt_column", 0, 2, 1, covers=(1, 2), note="f32 echelon", cost=6),
    Task("h_flt_column", 0, 3, 0, covers=(1,), note="f32 LU, 3 rows", cost=20), Task("h_flt_column", 0, 3, 1, covers=(1, 2), note="f32 echelon, 3 rows", cost=16),
    Task("h_flt_pivot", 0, 3, covers=(1, 2), note="f32 pivot search", cost=4), Task("h_flt_pivot", 1, 3, covers=(1, 2), note="f64 pivot search", cost=8),
    Task("h_flt_pivot", 0, 4, covers=(1, 2), note="f32 pivot search, 4 rows", cost=9),
    Task("h_flt_small", 1, 3, 8, 0, covers=(1,), note="LU of 1x3 integers", cost=8), Task("h_flt_small", 1, 3, 8, 1, covers=(1,), note="echelon of 1x3 integers", cost=5),
    Task("h_flt_small", 2, 1, 8, 1, covers=(1,), note="echelon of 2x1 integers", cost=7), Task("h_flt_small", 3, 1, 16, 0, covers=(1,), note="LU of 3x1 integers", cost=36, smt=60000),
    Task("h_flt_small", 2, 2, 8, 0, covers=(1,), note="LU of 2x2 integers", cost=66, smt=60000), Task("h_flt_small", 2, 2, 2, 1, covers=(1,), note="echelon of 2x2 integers", cost=73, smt=60000),
    Task("h_flt_small", 2, 3, 3, 0, tier=TH, covers=(1,), note="LU of 2x3 integers"), Task("h_flt_small", 2, 2, 3, 1, tier=TH, covers=(1,), note="echelon of 2x2 integers", replaces=("h_flt_small(2,2,2,1)",)),
    Task("h_flt_column", 1, 2, 0, covers=(1,), note="f64 LU", cost=50, smt=100000), Task("h_flt_column", 1, 2, 1, covers=(1, 2), note="f64 echelon", cost=40, smt=100000),
], ["entries and coefficients are finite"])
prop("C24", "every canonical rational over 64 bits by zero, negative exponents at twelve magnitudes up to 2^30; polynomials of up to 3 terms by the zero scalar; one to 6 terms with too few coordinates, "
     "up to 20 variables; matrix shapes with 1, 2, 3, 8 or 17 rows and columns", [
    Task("h_rat_reject", k, panics=True, note="rational by zero, case %d" % k) for k in range(8)] + [
    Task("h_poly_reject", k, panics=True, note="polynomial case %d" % k) for k in range(4)] + [
    Task("h_poly_reject_div", n, 2, 2, panics=True, note="polynomial of %d terms by zero" % n) for n in range(4)] + [
    Task("h_poly_reject_eval", n, nv, panics=True, note="evaluation of %d terms in %d variables" % (n, nv)) for n, nv in ((1, 3), (3, 3), (6, 20))] + [
    Task("h_mat_reject", k, panics=True, note="matrix shapes, case %d" % k) for k in range(2)])
