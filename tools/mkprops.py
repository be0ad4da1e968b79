#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the text stays readable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe,hook_needed=None)))
A="src/algebra/"; L="src/linalg/"; F="src/functions/"; O="src/optimize/"
p("P01","Polynomial arithmetic computes the exact coefficient-wise results",
 "For polynomials of any lengths (empty, equal or different), addition, subtraction and negation act coefficient by coefficient with missing coefficients counting as zero, and multiplication is the convolution of the coefficient lists with factors kept in left-right order. Every form of an operator (by value, by reference, in place) gives the same result, and operands taken by reference are left unchanged.",
 ["inputs"],"all coefficient lists (lengths and values) for both operands, every operator form",
 "Each operator form has one test on two fixed length-3 (or length-2) integer lists; unequal lengths, empty operands and non-commuting coefficients are never exercised.",
 [A+"polynomial.rs"],[("Add/AddAssign/Sub/SubAssign/Mul/MulAssign/Neg impls for Polynomial",A+"polynomial.rs")],
 ["Polynomial operators, observed through eval() and =="])
p("P02","Evaluating a polynomial yields the sum of a_i * x^i",
 "For every coefficient list and every argument x, evaluation returns a_0 + a_1*x + ... + a_n*x^n (coefficients to the left of the powers when multiplication does not commute), and zero for the empty polynomial. Evaluating by value and by reference agree, and evaluation commutes with addition, subtraction, negation and (for commuting elements) multiplication of polynomials; the zero and one polynomials evaluate to 0 and 1 everywhere.",
 ["inputs"],"all coefficient lists and all evaluation points",
 "The tests evaluate one quadratic at x=2 and the constants 0 and 1 at x=5.",
 [A+"polynomial.rs"],[("Horner loop in eval_ref; eval",A+"polynomial.rs"),("Zero/One for Polynomial",A+"polynomial.rs")],["Polynomial::eval","Polynomial::eval_ref"])
p("P03","Polynomial equality is equality of polynomials, and ring laws hold under it",
 "Two polynomials compare equal exactly when all their coefficients agree, with missing high-order coefficients counting as zero. Under this equality polynomials satisfy the ring axioms the Ring trait requires: addition is associative and commutative with neutral element zero() and inverse -p, p - p equals zero(), one() is neutral for multiplication, multiplication is associative and distributes over addition.",
 ["inputs"],"all triples of coefficient lists",
 "Tests compare only results of equal length; no test states a ring axiom, and p - p == zero() was in fact false before the fix commit.",
 [A+"polynomial.rs",A+"ring.rs"],[("PartialEq/Eq for Polynomial",A+"polynomial.rs"),("impl Ring for Polynomial",A+"polynomial.rs")],["== on Polynomial","Polynomial operators"])
p("P04","Complex addition, subtraction, negation and multiplication are exact",
 "For all components, (a+bi)+(c+di)=(a+c)+(b+d)i, (a+bi)-(c+di)=(a-c)+(b-d)i, -(a+bi)=-a-bi, (a+bi)*(c+di)=(ac-bd)+(ad+bc)i and (a+bi)*t=at+bti, with zero() and one() neutral and == meaning both components agree. All operator forms (by value, by reference, in place) give the same result.",
 ["inputs"],"all pairs/triples of complex numbers over any ring of components",
 "Each operator is tested on a single pair such as (1,2),(3,4); mul only squares one number, so sign or operand mix-ups between re/im of the two factors can hide.",
 [A+"complex.rs"],[("Add/Sub/Mul/Neg/Assign impls, Zero/One for Complex",A+"complex.rs")],["Complex operators"])
p("P05","Complex division inverts multiplication",
 "For every complex z and every non-zero w over a field, z / w is the number q with q * w = z, in by-value and by-reference form, and dividing by a non-zero real scalar (by value or by reference) divides both components. Division never divides by zero internally when the divisor is non-zero.",
 ["inputs"],"all complex dividends and all non-zero divisors, complex or scalar",
 "Tests divide two fixed numbers where divisor is 1+i or 4.",
 [A+"complex.rs"],[("Div impls for Complex",A+"complex.rs"),("sqr_norm",A+"complex.rs")],["Complex / Complex","Complex / T","Complex / &T"])
p("P06","Complex conjugate, squared norm and absolute value fit together",
 "conj negates exactly the imaginary part, is an involution, and commutes with sums and products; z * conj(z) equals the squared norm re^2+im^2 with zero imaginary part. abs, by value and by reference, is the non-negative square root of the squared norm, so it is multiplicative and zero only for z = 0.",
 ["inputs"],"all complex numbers and pairs of them",
 "Tests look at 3+4i, 1-i and 1+2i only.",
 [A+"complex.rs",A+"conj.rs"],[("Conj for Complex",A+"complex.rs"),("sqr_norm, Abs for Complex and &Complex",A+"complex.rs")],["Complex::conj","Complex::sqr_norm","Complex::abs"])
p("P07","Complex square root is the principal root",
 "For every complex z, s = sqrt(z) satisfies s*s = z with Re(s) >= 0, and Im(s) has the sign of Im(z) (non-negative when Im(z) is 0), so negative reals map to the positive imaginary axis and zero to zero. No input makes the computation divide by zero or take the root of a negative number.",
 ["inputs"],"all complex numbers: every quadrant, both axes, the origin and the boundary between the two evaluation branches",
 "The test draws 100 random points and checks s*s and Re(s)>=0 only: axes, origin and branch boundaries have probability zero and the sign of Im(s) is not checked.",
 [A+"complex.rs",F+"sqrt.rs"],[("Sqrt for Complex: two branches for numerical stability and sign selection",A+"complex.rs")],["Complex::sqrt"])
p("P08","Complex elementary functions follow their analytic definitions",
 "For every z = x+iy: exp z = e^x(cos y + i sin y), sin z = sin x cosh y + i cos x sinh y, cos z = cos x cosh y - i sin x sinh y, sinh z = sinh x cos y + i cosh x sin y, cosh z = cosh x cos y + i sinh x sin y, and tan z * cos z = sin z. For z != 0, ln z = ln|z| + i atan2(y,x), and arg z = atan2(y,x).",
 ["inputs"],"all complex arguments (where cos z != 0 for tan, z != 0 for ln)",
 "Tests check single points (for sinh/cosh/sin/cos the same one) or random points; the ln test's imaginary-part branch accepts any difference up to 8*pi.",
 [A+"complex.rs"],[("Exp/Sin/Cos/Sinh/Cosh/Tan/Ln impls and arg for Complex",A+"complex.rs")],["Complex::{exp,sin,cos,sinh,cosh,tan,ln,arg}"])
p("P09","Real function traits return exactly what the standard library returns",
 "For f32 and f64, each of abs, sqrt, exp, ln, sin, cos, tan, asin, sinh, cosh and atan2 provided by this crate's traits returns for every input bit pattern (including negative zero, subnormals, infinities and NaN) the same value as the floating point method of the same name in the standard library, with arguments in the same order. abs through a reference agrees with abs by value, and sqrt of a negative number is NaN.",
 ["inputs"],"all 2^32 / 2^64 bit patterns (pairs of them for atan2)",
 "Most tests check a few points, several without taking the absolute difference (any too-small result passes); asin, ln and tan sample a narrow range.",
 [F+"abs.rs",F+"asin.rs",F+"atan2.rs",F+"cos.rs",F+"cosh.rs",F+"exp.rs",F+"log.rs",F+"sin.rs",F+"sinh.rs",F+"sqrt.rs",F+"tan.rs"],
 [("impl of each function trait for f32 and f64",F)],["the trait methods"])
p("P10","Static vectors obey vector-space and dot-product definitions",
 "For every dimension, SVector addition and subtraction act component-wise, multiplication by a scalar multiplies every component (scalar on the right), and the product of two vectors is the sum of products of matching components; all by-value, by-reference and in-place forms agree. zero() has all components zero, == compares all components, and indexing, mutable indexing and the three iterators visit exactly the components in order.",
 ["inputs"],"all dimensions and all component values",
 "All tests use dimension 2 (or 3 for zero) and one fixed set of small integers.",
 [L+"svector.rs"],[("operator, index and iterator impls for SVector",L+"svector.rs")],["SVector operators"])
p("P11","Static matrices obey the matrix-algebra definitions",
 "For all shapes, SMatrix addition, subtraction, negation and conjugation act entry-wise, and the product of an LxM and an MxN matrix has entries sum_m a[l][m]*b[m][n] (factors in this order); matrix-vector product is sum_n a[m][n]*v[n]. All by-value, by-reference and in-place forms agree, zero() is all zeros, one() has ones exactly on the main diagonal (also when not square), and == compares all entries.",
 ["inputs"],"all shapes (square or not) and all entry values",
 "Doc tests use one fixed integer example per operator, 2x3 by 3x2 at most; no test multiplies matrices over a non-commutative ring.",
 [L+"smatrix.rs"],[("operator impls, Zero/One/Conj for SMatrix",L+"smatrix.rs")],["SMatrix operators observed through == and matrix-vector products"])
p("P12","Ring constructions compose: nested structures are rings again",
 "Complex numbers, square static matrices and polynomials over a ring are themselves rings, so nesting them (matrices of complex numbers or polynomials, polynomials of matrices, complex numbers of matrices or polynomials, matrices of matrices) again satisfies the ring axioms: associativity, commutativity of addition, neutral zero() and one(), additive inverses, subtraction as addition of the inverse, and both distributive laws. Products never swap factors, so this holds when the entries do not commute.",
 ["inputs"],"all element values for each nesting",
 "No test instantiates any structure over anything but primitive numbers (or Complex for conj).",
 [A+"ring.rs",A+"ops_with_ref.rs",A+"complex.rs",A+"polynomial.rs",L+"smatrix.rs"],[("impl Ring for Complex/Polynomial/SMatrix; MulRefs blanket impl",A+"ring.rs")],["ring operators of nested types"])
p("P13","Vector expressions evaluate to the entries their definition gives",
 "For every length and every index below it, make_vector_expr, map, zip, +, -, mul_elemwise, div_elemwise, conj, zeros, ones, same and arbitrary compositions of them yield at index i exactly the defined function of the operands' entries i, and len/is_empty report the operand length. Evaluating an expression, a wrapper, a stored vector, a reference to it or a slice stores exactly these entries in order, and += / -= on a stored vector add/subtract matching entries in place.",
 ["inputs","programs"],"all lengths, indices, entry values and compositions of the combinators",
 "One fixed small example per combinator; the tests named for subtraction (dvec_sub, sub_assign_dvector) actually test addition, so vector subtraction is untested.",
 [L+"dvector.rs"],[("VectorExpr trait, wrapper combinators, DVector impls",L+"dvector.rs")],["VectorExpr::entry/len/eval","DVector operators"])
p("P14","Matrix expressions evaluate to the entries their definition gives",
 "For every shape (square, rectangular or empty) and every index inside it, make_matrix_expr, map, zip, +, -, mul_elemwise, div_elemwise, t, h, diag (matrix to vector and vector to matrix), eye, zeros, ones, same and arbitrary compositions of them have the defined number of rows and columns and the defined entry at (row, col). Evaluating an expression, a wrapper, a stored matrix, a reference or a nested array yields a matrix of the same shape holding exactly these entries, two stored matrices are equal exactly when shapes and entries agree, and += / -= add/subtract matching entries in place.",
 ["inputs","programs"],"all shapes, indices, entry values and compositions of the combinators",
 "One fixed example (2x2, 2x3 or 3x2) per combinator; h() on a stored matrix is never called by a test (the test wraps an array), no composition is tested.",
 [L+"dmatrix.rs",L+"dvector.rs"],[("MatrixExpr trait, wrapper combinators, DMatrix impls",L+"dmatrix.rs"),("VectorExprWrapper::diag",L+"dvector.rs")],["MatrixExpr::entry/num_rows/num_cols/eval","DMatrix operators"])
p("P15","Dynamic matrix product and dot product compute the defined sums",
 "The product of an LxM and an MxN dynamic matrix is the LxN matrix with entries sum_m a[l][m]*b[m][n], every term counted exactly once and factors in this order, for every inner dimension. The product of two dynamic vectors is the sum of conj(u_i)*v_i, so for complex entries <u,v> is the conjugate of <v,u> and <u,u> is the sum of squared norms; it is zero for empty vectors.",
 ["inputs"],"all shapes and entry values",
 "One integer 2x3 by 3x2 product and one integer dot product of length 3; integers cannot show a missing or misplaced conjugation.",
 [L+"dmatrix.rs",L+"dvector.rs"],[("MulDMatrix::entry",L+"dmatrix.rs"),("Mul for &DVector / DVector",L+"dvector.rs")],["&DMatrix * &DMatrix","DVector * DVector"])
p("P16","Combining containers of different shapes always panics",
 "Adding, subtracting, zipping, element-wise multiplying or dividing two vector or matrix expressions, adding to or subtracting from a stored vector or matrix in place, and taking a dot product panics whenever the operands' lengths (or numbers of rows or columns) differ, and a matrix product panics whenever the left number of columns differs from the right number of rows. It never panics because of shapes when they match, and never silently truncates, wraps around or reads a neighbouring row. A rejected in-place operation leaves its target as it was.",
 ["inputs"],"all pairs of shapes",
 "No test exercises a mismatch; before the fix commits +=, -= and the dot product accepted mismatched operands silently.",
 [L+"dmatrix.rs",L+"dvector.rs"],[("assert_eq! on dimensions in zip/add/sub/mul and the in-place operators",L+"dmatrix.rs"),("length assertions",L+"dvector.rs")],["whether the call returns or panics"])
p("P17","Element access hits exactly the addressed element or panics",
 "Reading a stored dynamic vector or matrix (by indexing or through its expression interface) at an index inside its shape returns the element stored there, and a write through mutable indexing changes that element and no other. Any index outside the shape, however large, panics instead of returning or modifying some other element. The same holds for reading static vectors, slices and nested arrays through the expression interface, and for reading expressions built from stored operands (maps, zips, sums, differences, element-wise products, conjugates, transposes, diagonals and products with a non-empty inner dimension): an entry inside the shape of the expression is the one its definition gives, an index outside panics.",
 ["inputs"],"all index values up to usize::MAX and all shapes",
 "Tests read and write the in-range cells of one 2x2 matrix and one vector; an out-of-range column used to alias into the next row and large indices to wrap around in release builds.",
 [L+"dmatrix.rs",L+"dvector.rs"],[("Index/IndexMut/entry for DMatrix",L+"dmatrix.rs"),("Index/IndexMut/entry for DVector",L+"dvector.rs")],["DMatrix[[r,c]]","DVector[i]","entry()"])
p("P18","Differential evolution returns the best candidate it ever compared",
 "With a comparator that orders candidates consistently, the returned candidate is not worse than any initial candidate nor any trial candidate the comparator was ever given, and it is one of those candidates. This holds for every population size of at least 4 (even or odd), every number of iterations including 0, and every random sequence.",
 ["inputs","histories"],"all population sizes, iteration counts, random draws, candidate values and orderings",
 "The only tests check convergence on one function with population 20 (and are excluded from the stable suite because they are random); odd populations and short runs are never exercised.",
 [O+"differential_evolution.rs"],[("greedy replacement loop and knockout stage",O+"differential_evolution.rs")],["arguments the comparator receives; return value"])
p("P19","Differential evolution builds and replaces candidates by its stated rules",
 "Every initial coordinate is drawn from its own bounds; in iteration t each trial is compared against the current candidate t mod population size, differs from it only in coordinates set to a + weight*(b - c) for three candidates a, b, c distinct from each other and from the target, and always sets at least one coordinate this way (all of them with crossover probability 1, exactly one with probability 0). The target is replaced exactly when the comparator prefers the trial, and the comparator is called once per iteration plus population size minus one times.",
 ["inputs","histories"],"all random draws, bounds, weights, comparator answers",
 "Tests only look at where the optimiser ends up on one function.",
 [O+"differential_evolution.rs"],[("index selection loops, trial construction, replacement",O+"differential_evolution.rs")],["arguments the comparator receives; ranges asked of the random source"])
p("P20","Differential evolution rejects invalid parameters and accepts all valid ones",
 "The optimiser panics when the population has fewer than 4 members, the crossover probability is not within [0,1] (NaN included), or the differential weight is not within [0,2], before comparing any candidates. For parameters inside these ranges, including the end points, at least one coordinate and non-empty bounds, it runs to completion without panicking for every random sequence and comparator.",
 ["inputs"],"all population sizes, crossover probabilities and weights",
 "No test passes an invalid or boundary parameter.",
 [O+"differential_evolution.rs"],[("assertions at the start of optimize",O+"differential_evolution.rs")],["whether the call panics"])
p("P21","The Ackley test function is the Ackley function",
 "For all real x and y, the provided test function equals 20 + e - 20*exp(-0.2*sqrt((x^2+y^2)/2)) - exp((cos(2*pi*x)+cos(2*pi*y))/2) up to rounding of constants. In exact arithmetic it is therefore symmetric in x and y, even in both, non-negative, and zero at the origin only.",
 ["inputs"],"all pairs of arguments",
 "It is only used inside a randomised optimiser test that looks at the minimum's location.",
 [O+"test_functions.rs"],[("ackley",O+"test_functions.rs")],["ackley(x, y)"])
p("P22","Primitive scalars model zero, one, conjugation and by-reference products",
 "For every primitive number type that provides them, zero() and one() are the values 0 and 1, conj returns its argument unchanged for every value, and multiplication or division by reference returns the same as the built-in operator with the operands in the same order.",
 ["inputs"],"all primitive types, all values",
 "One value for one type each (i64 zero, f32 one, i16 conj, u16 product, f64 quotient).",
 [A+"ring.rs",A+"conj.rs",A+"ops_with_ref.rs"],[("Zero/One blanket impls",A+"ring.rs"),("Conj impls",A+"conj.rs"),("MulRefs/DivRefs blanket impls",A+"ops_with_ref.rs")],["the trait methods"])
p("P23","Rounding errors of complex functions, evaluation and products stay small",
 "With floats as the scalar and away from overflow and underflow, results are accurate to a few units of roundoff u for every argument: both parts of the complex sqrt, exp, sin, cos, sinh and cosh, and abs and sqr_norm, each have a relative error of at most 16 u (also where one part is much smaller than the other); complex products, quotients and tan are off by at most a small multiple of u times the product of their operands' magnitudes; ln by a small multiple of u in its argument's angle and of u(1+|ln|z||) in its real part; evaluating a polynomial by at most (2n+4) u times the sum of |a_i||x|^i; dot and matrix products of n terms by at most (n+4) u times the product of the sums of magnitudes. Sums, differences, scalings (also by division) and element-wise products and quotients round every component only once.",
 ["inputs"],"all arguments of all magnitudes, every combination of rounding errors",
 "Tests compare random points of moderate size; cancellation shows only where one part of an argument or result is tiny against the other.",
 [A+"complex.rs",A+"polynomial.rs","src/linalg/dvector.rs","src/linalg/dmatrix.rs","src/linalg/smatrix.rs","src/linalg/svector.rs"],[("case distinction in sqrt for stability",A+"complex.rs"),("Horner's scheme",A+"polynomial.rs"),("product loops","src/linalg")],["values of the functions on floats"])
p("P24","Undefined entries (NaN) are neither lost nor spread, and are equal to nothing",
 "When some components, entries or coefficients are not a number, exactly those components of a result are undefined that depend on an undefined one: sums, differences, negatives, conjugates, transposes and element-wise operations position by position, scalings also by the factor, complex products and quotients in both parts, a dot or matrix product entry by its row and column, a polynomial's value by its argument or any coefficient, and a polynomial product by its operands (zero factors hide nothing). In comparisons, complex numbers, vectors, matrices and polynomials with an undefined component are different from everything, themselves and their copies included, also where other entries differ or are zero; != is always the opposite of ==.",
 ["inputs"],"all patterns of undefined entries, all values of the others, all sizes and operator forms",
 "The only tests with NaN are of single primitive calls; no test has an undefined entry in a vector, matrix, polynomial or complex number.",
 [A+"complex.rs",A+"polynomial.rs","src/linalg/dvector.rs","src/linalg/dmatrix.rs","src/linalg/smatrix.rs","src/linalg/svector.rs"],[("PartialEq impls",A+"complex.rs"),("PartialEq for Polynomial",A+"polynomial.rs"),("PartialEq for Vector and Matrix expressions","src/linalg/dvector.rs")],["==, !=, results of operators"])
p("P25","No overflow that the result does not demand",
 "With numbers of a bounded range (any range that contains 0 and 1, such as those of the machine integers), complex numbers, vectors, matrices and polynomials add, subtract, negate, conjugate, scale and divide or multiply element by element without overflow whenever all components of the result are in the range, and zero, one, transposes and diagonal matrices never overflow. Products of complex numbers, vectors, matrices and polynomials, and values of polynomials, do not overflow when the range has room for four times the sum of the magnitudes of operands, products and powers.",
 ["inputs"],"all values, all ranges, all sizes and operator forms",
 "The tests use small integers, far from the ends of the range.",
 [A+"complex.rs",A+"polynomial.rs","src/linalg/dvector.rs","src/linalg/dmatrix.rs","src/linalg/smatrix.rs","src/linalg/svector.rs"],[("operators",A+"complex.rs"),("Sub/SubAssign for Polynomial",A+"polynomial.rs"),("operators and products","src/linalg")],["whether the operator panics with bounded integers"])
p("P26","Expressions compute nothing that is not asked for, and nothing twice",
 "Building a vector or matrix expression (map, zip, sum, difference, element-wise product or quotient, conjugate, transpose, diagonal, also with a stored operand) computes no entry and calls no function. Reading an entry computes exactly the one entry of each operand that it depends on, once, and calls a mapped function once with it; an off-diagonal entry of a diagonal matrix computes none. eval, += and -= compute every entry of an operand exactly once, and no entry outside the shape is ever asked for.",
 ["inputs"],"all lengths, shapes and indices; all operand kinds",
 "The tests compare results only, for a handful of small vectors and matrices.",
 ["src/linalg/dvector.rs","src/linalg/dmatrix.rs"],[("make_vector_expr, map, zip and the operators","src/linalg/dvector.rs"),("make_matrix_expr, map, zip, t, h, diag and the operators","src/linalg/dmatrix.rs")],["calls of user-supplied functions and VectorExpr/MatrixExpr implementations"])
p("P27","Zeros keep the signs that scalar arithmetic gives them",
 "Where zeros have a sign (floats), sums, differences, negatives and conjugates, scalings and element-wise products and quotients of complex numbers, vectors and matrices, by value, by reference and in place, give every component the sign that the scalar operation on the matching components gives (so -0 and 0 negate each other, x - x is 0, and -0 + 0 is 0); transposes, diagonals and evaluation pass signs on; zero() has positive zeros. Complex exp, sin, cos, sinh, cosh and tan therefore map conjugates to conjugates also on the axes, and arg and ln of negative real numbers have the side of the branch cut that the sign of the imaginary zero tells. Zeros of either sign are equal under ==.",
 ["inputs"],"all values, all signs of zeros, all sizes and operator forms",
 "No test has a negative zero, and == cannot see one in results.",
 [A+"complex.rs","src/linalg/dvector.rs","src/linalg/dmatrix.rs","src/linalg/smatrix.rs","src/linalg/svector.rs"],[("operators, conj, functions",A+"complex.rs"),("operators and expressions","src/linalg")],["signs of zeros in results"])
p("P28","Differential evolution depends on its arguments and random source alone",
 "Two runs of the optimiser with the same bounds, population size, crossover probability, weight and number of iterations, with a random source that delivers the same numbers and a comparator that gives the same answers draw the same numbers, make the same comparisons of the same candidates in the same order, and return the same candidate, whatever was optimised before or between them.",
 ["inputs","histories"],"all random sequences, comparator answers, bounds and weights; repeated and interleaved runs",
 "The only test runs the optimiser once and looks at where it ends up.",
 [O+"differential_evolution.rs"],[("differential_evolution",O+"differential_evolution.rs")],["draws from the random source, arguments of the comparator, return value"])
p("P29","Work and results stay proportional to what the definitions need",
 "No operation does much more than its definition says, whatever the values of the entries (also if many are zero or equal). With n the number of scalar operations in the definition (two per coefficient of a polynomial evaluation, two per term of a polynomial, matrix or dot product, one per entry and combinator otherwise) plus the entries of the operands and the result, every operation on complex numbers, polynomials, static and dynamic vectors and matrices, by value, by reference and in place, performs at most 4n + 16 operations and comparisons of elements and makes at most 8n + 16 copies of elements. Reading one entry of an expression takes work independent of its size (for a product: proportional to the inner dimension). Polynomials do not grow beyond their degree: sums, differences and products, also after many in-place operations, can be evaluated with the work that the longest length their definition allows needs.",
 ["inputs","histories"],"all values, hence all comparisons of elements on the way; all sizes; sequences of in-place operations",
 "The tests compare results of tiny inputs; a quadratic evaluation or a polynomial with thousands of superfluous zero coefficients compares equal.",
 [A+"polynomial.rs",A+"complex.rs","src/linalg/dvector.rs","src/linalg/dmatrix.rs","src/linalg/smatrix.rs","src/linalg/svector.rs"],[("polynomial operators, eval, ==",A+"polynomial.rs"),("operators, expressions, eval, ==","src/linalg")],["counts of operations, comparisons and copies in a user-supplied element type"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
