"""What each check covers: engines, bounds and assumptions, as they go into the evidence."""

SYM = ["symx"]
ENGINES = {
    "P01": SYM, "P02": SYM, "P03": SYM, "P04": SYM, "P05": SYM, "P06": SYM, "P07": SYM, "P08": SYM,
    "P09": ["kani"], "P10": SYM, "P11": SYM, "P12": SYM, "P13": ["symx", "kani"], "P14": ["symx", "kani"],
    "P15": SYM, "P16": ["symx", "kani"], "P17": ["symx", "kani"], "P18": SYM, "P19": SYM, "P20": ["symx", "kani"],
    "P21": ["symx", "llvm"], "P22": ["kani"], "P23": SYM, "P24": SYM, "P25": SYM, "P26": ["symx", "kani"], "P27": SYM,
    "P28": SYM, "P29": SYM,
}


def qt(common, quick, thorough):
    return {"quick": f"{common} {quick}".strip(), "thorough": f"{common} {thorough}".strip()}


BOUNDS = {
    "P01": qt("All coefficient values in R (M2(R), i.e. non-commuting 2x2 matrices, where said); lengths m, n of the operands concrete.",
              "+, -, in all forms: m, n <= 12 and 22 larger pairs up to 1000 + 1025, 2 + 4099 (M2(R): m, n <= 5). Products: m*n <= 8500 of these (M2(R): m*n <= 50 and 3 larger pairs). Negation: lengths <= 20, 33, 64, 65, 129.",
              "+, -: m, n <= 20 and 20 larger pairs up to 513 + 1000. Products: m*n <= 17000 (M2(R): m*n <= 150). Negation as in quick."),
    "P02": qt("All coefficients and all arguments in R or M2(R); lengths concrete.",
              "Lengths <= 70, 100, 127..129, 255..257, 513, 1025 over R; <= 5 over M2(R), and 6..20, 33, 64, 65 over M2(R) at fixed arguments with arbitrary coefficients. Commuting with the ring operations: both lengths <= 7 (3 over M2(R)).",
              "Lengths <= 140 and up to 4099 over R; over M2(R) also 129. Both lengths <= 9 for the ring operations."),
    "P03": qt("All coefficients in R or M2(R), including every pattern of zeros; lengths concrete.",
              "Equality: both lengths <= 12 (M2(R): 3), 25 larger pairs up to 1030, zero padding of up to 1030 behind lengths up to 1025. Ring axioms: three lengths <= 4 (2 over M2(R)) and 3 larger triples.",
              "Equality: both lengths <= 16. Ring axioms: three lengths <= 5."),
    "P04": "All components in R, M2(R) or C. No other bound.",
    "P05": "All components in R (exact field), no other bound.",
    "P06": "All components in R (conj and norm also in M2(R) and C), no other bound; sqrt exact.",
    "P07": "All components in R, no other bound; square roots exact.",
    "P08": "All components in R; exp, sin, cos, sinh, cosh, ln, atan2 are uninterpreted functions with the analytic identities used as axioms.",
    "P09": "All 2^32 / 2^64 bit patterns of every argument. Every standard library function other than abs is replaced by a distinguishing stand-in.",
    "P10": qt("All components in R (M2(R) and C for small ones); dimensions concrete.",
              "Dimensions 0..20, 24, 31..33, 48, 63..65, 100, 127..129.", "Also 21..23, 25, 40, 50, 96, 255..257, 500, 513."),
    "P11": qt("All entries in R (M2(R) for small shapes, C for 2x3); shapes concrete.",
              "Entry-wise operations: all shapes up to 4x4 and 19 larger up to 16x16, 17x2, 2x33; sums and matrix-vector products also 33x31, 1x129, 129x1, 65x3. Products: all L, M, N <= 3 and 18 larger up to 24x24x24 and inner dimension 129; over M2(R) those with L*M*N <= 1100, matrix-vector products over M2(R) up to 66 entries.",
              "Also shapes 33x33, 1x129, 65x3 and products up to 33x33x33 and inner dimension 257."),
    "P12": qt("All entries in R or M2(R); nesting depth and sizes concrete.",
              "34 nested types: matrices 1x1..4x4, complex, polynomials of up to 3 coefficients, their pairwise nestings and some triple ones.",
              "41 nested types, also 5x5 and matrices three levels deep."),
    "P13": qt("symx: all entries in R, M2(R) or C. Kani: lazy expressions of every length < 2^64 at every index, stored vectors of concrete length with arbitrary 64-bit entries.",
              "symx: lengths 0..10, 12, 15..17, 31..33, 63..65 and 9 larger up to 4099 (equality up to 1025); every program of 2 combinators over M2(R) and C, of 3 over R, also added and subtracted in place. Kani: stored length 3, evaluation of 4.",
              "symx: lengths up to 4099, every program of 3 combinators (length 2) and of 4 combinators over R. Kani: stored lengths 3, 5, 8."),
    "P14": qt("symx: all entries in R, M2(R) or C. Kani: lazy expressions of every shape < 2^64 x 2^64 at every index, stored matrices of concrete shape with arbitrary 64-bit entries.",
              "symx: all shapes up to 4x4 and 23 larger up to 33x33, 65x66, 257x1, 1x1025, 0x20; every program of 2 combinators over M2(R) and C, of 3 over R, also added and subtracted in place. Kani: stored 2x3 and 3x1, evaluation of 3x2, 0x3, 3x0.",
              "symx: all shapes up to 6x6 and 29 larger up to 129x130, 1030x1; every program of 3 combinators and of 4 over R. Kani: also stored 3x2, 3x3, 1x5."),
    "P15": qt("All entries in R, and in M2(R), C and (smaller) nested over M2(R); shapes concrete.",
              "Products: all L, M, N <= 6, inner dimensions up to 1025, 33x33x33; over M2(R) and C up to 8x8x8 and inner dimension 33. Dot products: lengths 0..20 and 13 larger up to 1025.",
              "Products: all L, M, N <= 8, inner dimensions up to 1025, 65x65x65. Dot products up to 4099."),
    "P16": qt("Kani: lazy operands of every length and shape (64-bit words), stored operands of length 3 and shape 2x3 (and empty ones) against any other. symx: all pairs of listed lengths or shapes, entries in R.",
              "symx: lengths 0..9, 15..17, 31..33, 64, 65, 128, 256, 1000; shapes up to 3x3 and 11 longer; all ordered pairs.",
              "symx: lengths up to 1024; shapes up to 4x4 and 18 longer; all ordered pairs."),
    "P17": qt("Kani: every 64-bit index (every pair of them), every 64-bit entry; containers and expressions of concrete shape; four ways of reading and mutable indexing. symx: entries in R; every inside index, and outside indices next to the shape, at powers of two, at the ends of the machine word and at positions that wrap around into the data.",
              "Kani: static vectors of 0, 1, 3, 4; slices of 0, 4; arrays 0x2, 2x3, 4x1; expressions over vectors of 3 and matrices 2x3, 3x1; vectors of 0, 1, 2, 4; matrices 0x0, 0x3, 3x0, 1x1, 1x4, 4x1, 2x2, 2x3, 3x2. symx: lengths 0..9 and 16 larger up to 257, shapes up to 9x9 and 18 larger up to 32x32, 1x129, 128x2; writes at all (above 40 entries, or 100 of a matrix: 12 to 30) positions.",
              "Kani: also vectors of 6; matrices 0x1, 1x0, 3x3, 2x4, 4x2, 3x4, 4x4. symx: lengths up to 140 and 9 larger up to 1025, shapes up to 20x20 and 34 larger up to 40x40, 255x4, 1x513."),
    "P18": qt("All real candidate coordinates and costs; comparator: any total preorder of the costs (strict or with ties).",
              "Any cost order: no iterations for populations 4..11, 1 iteration with all random sequences for populations 4, 5, up to 5 iterations with fixed random sequences for populations 4..6, population and iterations together up to 10. Each candidate in turn the best one, or a cost order given by a seed: populations up to 257 without iterations, up to 67 with up to 137 iterations. Given orders: 10 iterations for populations up to 65537, 1200 iterations for population 10, 60 iterations per candidate without any improvement (populations 4..7, 16) and 2p + 9 with nothing but improvements.",
              "Any cost order: no iterations up to population 13; all random sequences also for 2 iterations of population 4 and 1 of 6; up to 8 iterations, population and iterations together up to 12. Given orders: populations up to 513 (no iterations), 100 (up to 203 iterations), 6000 iterations for population 10."),
    "P19": qt("All real coordinates, bounds, weights and costs.",
              "No iterations: populations 4..9, up to 5 coordinates. 1 iteration with all random sequences: populations 4, 5, up to 3 coordinates. 2 iterations with all random sequences: population 4. Fixed random sequences: populations 4..8 with crossover 0, 0.3, 0.5, 0.9, 1; up to 300 without iterations and up to 130 with 2p+3 iterations, 4..10 with 9p+5, 16 and 32 with 5p+1; up to 33 coordinates; 1200 iterations for population 9, 600 for 8.",
              "Populations up to 12 (no iterations) and 11 (fixed sequences); up to 600 without iterations; 3000 iterations for population 9; 1 iteration with all random sequences also for population 6; 10 random sequences each."),
    "P20": qt("Kani: every bit pattern of crossover probability (f32) and weight (f32, f64), populations 0..5 (thorough: ..9), 0 iterations. symx: all real weights, 12 invalid and 7 valid crossover probabilities.",
              "symx: 1 iteration with all random sequences and comparator answers for population 4; no iterations with all answers for populations 4..10; fixed random sequences for populations 4..12, 26 larger up to 65537, for 1..18 coordinates and 10 larger up to 257, and 5000 iterations for population 6.",
              "symx: also 2 iterations for population 4 and 1 for population 5 with all random sequences and answers; fixed random sequences for populations 4..40."),
    "P21": "All real x, y; every path of the function as compiled (LLVM code of an optimised build), no loop bound reached. Float constants are read as the fractions and multiples of pi, e and sqrt(2) they round.",
    "P23": qt("All real arguments; every combination of rounding errors of the standard model with unit roundoff up to 2^-24.",
              "Polynomials of up to 4 coefficients, sums of up to 3 products.", "Polynomials of up to 6 coefficients, sums of up to 6 products."),
    "P24": qt("Every pattern of undefined entries, all real values of the others; sizes concrete. Divisors are not zero.",
              "Static vectors <= 9 and 5 larger up to 129, static matrices up to 17x17, products up to 17 terms; dynamic vectors <= 10 and 10 larger up to 1025, matrices <= 4x4 and 9 larger up to 33x34, products up to 257 terms, compositions of 2 combinators, polynomials of lengths <= 7 and 7 larger pairs up to 65. Equality: up to 17 entries, polynomials with m + n <= 18.",
              "Dynamic matrices <= 6x6, compositions of 3 combinators, polynomials of lengths <= 12. Equality: up to 36 entries, polynomials with m + n <= 36."),
    "P25": qt("All ranges that contain 0 and 1, all values in them; sizes concrete. 'Room' means 4 times the sum of the magnitudes on both sides.",
              "Static vectors <= 9 and 4 larger up to 65, static matrices up to 8x8, products up to 9 terms; dynamic vectors <= 9 and 6 larger up to 257, matrices <= 3x3 and 8 larger up to 16x16, products up to 33 terms; polynomials of lengths <= 6 and 6 larger pairs up to 40 (products with m * n <= 64, evaluation up to 6 coefficients).",
              "Dynamic vectors <= 17, matrices <= 5x5, polynomials of lengths <= 10 (evaluation up to 8 coefficients)."),
    "P26": qt("Kani: every 64-bit length, shape and index of lazy operands in each combinator and some compositions; stored operands of 3 entries and 2x3. symx: concrete sizes, all real entries.",
              "Kani: eval and in-place operations at lengths 1 and 4, shapes 2x3 and 3x1. symx: lengths <= 20 and 11 larger up to 257, shapes <= 7x7 and 9 larger up to 130, every composition of 3 combinators.",
              "Kani: also length 9 and shape 3x4. symx: lengths <= 70, shapes <= 12x12, every composition of 4 combinators."),
    "P27": qt("All real values, all signs of zeros; sizes concrete. Divisors are not zero.",
              "Static vectors <= 9 and 10 larger up to 257, static matrices up to 17x17; dynamic vectors <= 10 and 11 larger up to 1025, matrices <= 4x4 and 10 larger up to 33x34, real and complex entries; compositions of 2 combinators over R.",
              "Dynamic vectors <= 40, matrices <= 8x8, compositions of 3 combinators."),
    "P28": qt("All real coordinates, bounds and weights.",
              "No iterations with all comparator answers: populations 4..8. 1 iteration with all random sequences and answers: population 4, 1 and 2 coordinates. Fixed random sequences and answers: 2p + 5 iterations for populations 4..12 and 8 larger up to 256, up to 65 coordinates, 400 iterations for population 7; two to five runs, up to 310 others between them.",
              "No iterations: populations 4..11. Also 1 iteration for population 5 and 2 iterations for population 4 with all random sequences and answers; populations 4..24, 2000 iterations."),
    "P29": qt("All real values, where not fixed to zero or one; sizes concrete.",
              "Polynomials of lengths <= 8 and 14 larger pairs up to 511 + 513 (products with m * n <= 1100, comparisons up to 3 + 65); up to 60 sums, differences and products in a row; static vectors up to 130, static matrices up to 16x16 and 3x40, dynamic vectors <= 9 and 5 larger up to 257, matrices <= 4x4 and 13 larger up to 50x2, 65x9, products up to 16x16x16 and 1x257x1.",
              "Polynomials of lengths <= 12 and up to 1025 + 1023 (comparisons up to 2 + 300); 100 sums, differences and products in a row; dynamic vectors <= 17, matrices <= 6x6."),
    "P22": qt("conj, zero, one: every value of every primitive type. By-reference products and quotients: every pair of values of a type with free (uninterpreted-like) operations, and machine types within the stated widths, where the built-in operator does not panic.",
              "Integers: multiplication of 8- and 16-bit operands in every type, division of 8-bit operands. Floats: all signs and exponents, 7 to 8 leading mantissa bits (division 2 to 3).",
              "Integers: multiplication of all 32-bit operands, division of 8-bit operands. f32 products: all bit patterns; f64: 12 leading mantissa bits."),
}

ASSUME = {
    "all": [
        "z3 and CaDiCaL verdicts are trusted; a counterexample is reported only after it failed when run on the compiled code",
        "results hold within the bounds under coverage.bounds only",
    ],
}
for _p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P24", "P25", "P26", "P27", "P28", "P29"):
    ASSUME.setdefault(_p, []).append(
        "symx: machine floats of the LLVM code are treated as exact real numbers; rounding, overflow and underflow are outside the claim"
        if _p == "P21" else
        "symx: the generic code is monomorphised with a symbolic scalar over the exact real numbers; rounding, overflow and underflow of machine floats are outside the claim")
for _p in ("P09", "P13", "P14", "P16", "P17", "P20", "P22", "P26"):
    ASSUME.setdefault(_p, []).append(
        "Kani: dev profile without overflow checks or debug assertions, x86_64, no allocation failure; 'NaN on ...' checks are ignored because NaN is an ordinary result")
ASSUME["P23"] = [
    "symx: the generic code is monomorphised with a number type that carries an exact real value and a bound on its rounding error",
    "standard model of rounding: every operation and sqrt is right up to a relative error u <= 2^-24, the real exp, sin, cos, sinh, cosh, ln, atan2 up to 2 u; no overflow or underflow",
    "a bound that cannot be shown counts as a violation only when the compiled f32 code exceeds it at or near the solver's values, against f64",
]
ASSUME["P24"].append("an operation on numbers is undefined exactly when an operand is; infinities (inf - inf, 0 * inf) are outside the claim")
ASSUME["P27"].append("signs of zeros follow IEEE 754, round to nearest; a nonzero result does not underflow; the entries of a static matrix are read from its Debug output")
ASSUME["P25"].append("an operation fails exactly when its exact result is outside the range; division is exact")
ASSUME["P08"].append("axioms: the functional identities of exp, sin, cos, sinh, cosh, sqrt and ln listed in DESIGN.md")
ASSUME["P21"].append("exp is positive and increasing with exp(0) = 1, |cos| <= 1, the angle sum identities, 3.1415926 < pi < 3.1415927, 2.7182818 < e < 2.7182819")
ASSUME["P09"].append("the standard library's functions are what they claim to be; only which function is called with which arguments is decided")
ASSUME["P16"].append("vectors of 2^64 entries are described by lazy expressions, stored ones are small")
for _p in ("P18", "P19", "P20", "P28"):
    ASSUME[_p].append("rand's gen_range and gen::<f32> deliver any value of their range; where a random sequence is fixed, it is the stated one")
