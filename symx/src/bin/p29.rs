//! P29: the work done is a small multiple of what the definitions need.
use magnesia::algebra::{Complex, Conj, MulRefs, One, Polynomial, Zero};
use magnesia::linalg::{make_matrix_expr, make_vector_expr, DMatrix, DVector, MatrixExpr, SMatrix, SVector, VectorExpr};
use symx::counted::*;
use symx::*;

/// `f` takes at most four times the operations and eight times the copies of `need` (operations of the
/// definition and entries of the operands and results), plus 16.
fn work<R>(label: &str, need: usize, f: impl FnOnce() -> R) -> R {
    counts();
    let r = f();
    let (ops, copies) = counts();
    check(&format!("{label}: {ops} operations where the definition needs {need}"), ops <= 4 * need as u64 + 16);
    check(&format!("{label}: {copies} copies where the definition needs {need}"), copies <= 8 * need as u64 + 16);
    r
}

/// How the values are chosen.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Vals {
    Any,
    /// zero from the middle on
    ZeroAbove,
    /// zero up to the middle
    ZeroBelow,
    Zero,
    /// every other entry zero
    Gaps,
    One,
}
use Vals::*;
fn value(k: Vals, name: &str, i: usize, n: usize) -> Ct {
    let zero = match k {
        Any => false,
        ZeroAbove => 2 * i >= n,
        ZeroBelow => 2 * i < n,
        Zero => true,
        Gaps => i % 2 == 1,
        One => return Ct(int(1)),
    };
    Ct(if zero { int(0) } else { any(&format!("{name}{i}")) })
}
fn list(k: Vals, name: &str, n: usize) -> Vec<Ct> {
    (0..n).map(|i| value(k, name, i, n)).collect()
}

fn polynomials(m: usize, n: usize, k: Vals, l: Vals) {
    let p = || Polynomial::from_coefficients(list(k, "a", m));
    let q = || Polynomial::from_coefficients(list(l, "b", n));
    let x = || Ct(any("x"));
    let size = m + n;
    // the results are no longer than they have to be either: evaluating them takes the operations of
    // the longest they may be
    let len = m.max(n);
    let prod = if m == 0 || n == 0 { 0 } else { m + n };
    let mul = 2 * m * n + m + n + prod;
    let fresh = |label: &str, len: usize, r: Polynomial<Ct>| {
        work(&format!("evaluation of {label}"), 3 * len, || r.eval(x()));
    };
    fresh("p", m, p());
    work("eval_ref", 3 * m, || p().eval_ref(&x()));
    let (a, b) = (p(), q());
    fresh("p + q", len, work("p + q", size + len, || a + b));
    let (mut a, b) = (p(), q());
    work("p += q", size + len, || a += b);
    fresh("p += q", len, a);
    let (mut a, b) = (p(), q());
    work("p += &q", size + len, || a += &b);
    fresh("p += &q", len, a);
    let (a, b) = (p(), q());
    fresh("p - q", len, work("p - q", size + len, || a - b));
    let (mut a, b) = (p(), q());
    work("p -= q", size + len, || a -= b);
    fresh("p -= q", len, a);
    let (mut a, b) = (p(), q());
    work("p -= &q", size + len, || a -= &b);
    fresh("p -= &q", len, a);
    let a = p();
    fresh("-p", m, work("-p", 2 * m, || -a));
    let a = p();
    work("clone", 2 * m, || a.clone());
    if m * n <= 1100 {
        let (a, b) = (p(), q());
        fresh("&p * &q", prod, work("&p * &q", mul, || &a * &b));
        let (a, b) = (p(), q());
        fresh("p * q", prod, work("p * q", mul, || a * b));
        let (a, b) = (p(), q());
        fresh("mul_refs", prod, work("mul_refs", mul, || a.mul_refs(&b)));
        let (mut a, b) = (p(), q());
        work("p *= q", mul, || a *= b);
        fresh("p *= q", prod, a);
    }
}

/// Comparisons branch, so each is a case of its own.
fn compared(m: usize, n: usize, k: Vals, l: Vals, op: usize) {
    let a = Polynomial::from_coefficients(list(k, "a", m));
    let b = Polynomial::from_coefficients(list(l, "b", n));
    let need = m + n + m.max(n);
    match op {
        0 => work("p == q", need, || a == b),
        1 => work("p != q", need, || a != b),
        2 => work("p == 0", 2 * m, || a == Polynomial::zero()),
        _ => work("1 == q", 2 * n + 1, || <Polynomial<Ct> as One>::one() == b),
    };
}

/// Sums and products again and again: nothing grows beyond its degree.
fn repeated(rounds: usize, n: usize, k: Vals) {
    let q = || Polynomial::from_coefficients(list(k, "q", n));
    let one = || Polynomial::from_coefficients(list(k, "p", 2));
    let mut sum = Polynomial::<Ct>::zero();
    let mut diff = Polynomial::<Ct>::zero();
    let mut prod = Polynomial::<Ct>::one();
    for i in 0..rounds {
        let b = q();
        work("sum", 3 * n, || sum += &b);
        let b = q();
        work("sum", 3 * n, || sum += b);
        let b = q();
        sum = work("sum", 3 * n, || sum + b);
        let b = q();
        work("difference", 3 * n, || diff -= &b);
        let b = q();
        work("difference", 3 * n, || diff -= b);
        let b = q();
        diff = work("difference", 3 * n, || diff - b);
        let b = one();
        let mul = 2 * 2 * (i + 1) + 2 * (i + 3);
        if i % 2 == 0 {
            prod = work("product", mul, || prod * b);
        } else {
            work("product", mul, || prod *= b);
        }
    }
    work("evaluation of the sum", 3 * n, || sum.eval(Ct(any("x"))));
    work("evaluation of the difference", 3 * n, || diff.eval(Ct(any("x"))));
    work("evaluation of the product", 3 * (rounds + 1), || prod.eval(Ct(any("x"))));
    work("negative of the product", 2 * (rounds + 1), || -prod);
}

fn complex() {
    let z = || Complex::new(Ct(any("a")), Ct(any("b")));
    let w = || Complex::new(Ct(any("c")), Ct(any("d")));
    let s = || Ct(any("c"));
    assume(any("c").non0());
    macro_rules! forms {
        ($need:literal $y:ident $op:tt) => {
            let (x, y) = (z(), $y());
            work("operator by value", $need, || x $op y);
            let (x, y) = (z(), $y());
            work("operator by reference", $need, || &x $op &y);
        };
    }
    let (x, y) = (z(), w());
    work("+", 8, || x + y);
    let (x, y) = (z(), w());
    work("-", 8, || x - y);
    let (mut x, y) = (z(), w());
    work("+=", 8, || x += y);
    let (mut x, y) = (z(), w());
    work("-=", 8, || x -= y);
    let (mut x, y) = (z(), w());
    work("+= &", 8, || x += &y);
    let (mut x, y) = (z(), w());
    work("-= &", 8, || x -= &y);
    forms!(12 w *);
    let (mut x, y) = (z(), w());
    work("*=", 12, || x *= y);
    forms!(20 w /);
    let (x, y) = (z(), s());
    work("* scalar", 7, || x * y);
    let (x, y) = (z(), s());
    work("/ scalar", 7, || x / y);
    let x = z();
    work("-", 4, || -x);
    let x = z();
    work("conj", 4, || x.conj());
    let x = z();
    work("sqr_norm", 6, || x.sqr_norm());
    let (x, y) = (z(), w());
    work("==", 6, || x == y);
}

fn sv<const N: usize>(k: Vals) {
    let u = || SVector::<Ct, N>(std::array::from_fn(|i| value(k, "a", i, N)));
    let v = || SVector::<Ct, N>(std::array::from_fn(|i| value(Any, "b", i, N)));
    let (x, y) = (u(), v());
    work("+", 4 * N, || x + y);
    let (x, y) = (u(), v());
    work("-", 4 * N, || x - y);
    let (mut x, y) = (u(), v());
    work("+=", 4 * N, || x += y);
    let (mut x, y) = (u(), v());
    work("+= &", 4 * N, || x += &y);
    let (mut x, y) = (u(), v());
    work("-=", 4 * N, || x -= y);
    let (mut x, y) = (u(), v());
    work("-= &", 4 * N, || x -= &y);
    let (x, y) = (u(), v());
    work("dot product", 4 * N + 1, || x * y);
    let (x, s) = (u(), Ct(any("s")));
    work("* scalar", 3 * N + 1, || x * s);
    let x = u();
    work("entries", 0, || (0..N).for_each(|i| _ = &x[i]));
    work("iterators", 0, || (&x).into_iter().count());
}
fn sv_eq<const N: usize>(k: Vals) {
    let x = SVector::<Ct, N>(std::array::from_fn(|i| value(k, "a", i, N)));
    let y = SVector::<Ct, N>(std::array::from_fn(|i| value(Any, "b", i, N)));
    work("==", 3 * N, || x == y);
}

fn sm<const M: usize, const N: usize>(k: Vals) {
    let cnt = M * N;
    let m = |k: Vals, name: &'static str| {
        SMatrix::<Ct, M, N>::from(std::array::from_fn(|i| std::array::from_fn(|j| value(k, name, i * N + j, cnt))))
    };
    let (a, b) = (|| m(k, "a"), || m(Any, "b"));
    let (x, y) = (a(), b());
    work("+", 4 * cnt, || x + y);
    let (x, y) = (a(), b());
    work("-", 4 * cnt, || x - y);
    let (mut x, y) = (a(), b());
    work("+=", 4 * cnt, || x += y);
    let (mut x, y) = (a(), b());
    work("+= &", 4 * cnt, || x += &y);
    let (mut x, y) = (a(), b());
    work("-=", 4 * cnt, || x -= y);
    let (mut x, y) = (a(), b());
    work("-= &", 4 * cnt, || x -= &y);
    let x = a();
    work("-", 3 * cnt, || -x);
    let x = a();
    work("conj", 3 * cnt, || Conj::conj(x));
    let (x, v) = (a(), SVector::<Ct, N>(std::array::from_fn(|i| value(Any, "v", i, N))));
    work("matrix * vector", 3 * cnt + M + N, || &x * &v);
}
fn sm_eq<const M: usize, const N: usize>(k: Vals) {
    let m = |k: Vals, name: &'static str| {
        SMatrix::<Ct, M, N>::from(std::array::from_fn(|i| std::array::from_fn(|j| value(k, name, i * N + j, M * N))))
    };
    let (x, y) = (m(k, "a"), m(Any, "b"));
    work("==", 3 * M * N, || x == y);
}

fn sm_mul<const L: usize, const M: usize, const N: usize>(k: Vals) {
    let a = || SMatrix::<Ct, L, M>::from(std::array::from_fn(|i| std::array::from_fn(|j| value(k, "a", i * M + j, L * M))));
    let b = || SMatrix::<Ct, M, N>::from(std::array::from_fn(|i| std::array::from_fn(|j| value(Any, "b", i * N + j, M * N))));
    let need = 2 * L * M * N + L * M + M * N + L * N;
    let (x, y) = (a(), b());
    work("static product", need, || x * y);
    let (x, y) = (a(), b());
    work("static product by reference", need, || &x * &y);
}

fn dv(n: usize, k: Vals) {
    let u: DVector<Ct> = list(k, "a", n).as_slice().eval();
    let v: DVector<Ct> = list(Any, "b", n).as_slice().eval();
    for i in 0..n {
        assume(any(&format!("b{i}")).non0());
    }
    let lazy = |name: &'static str| make_vector_expr(n, move |i| value(Any, name, i, n));
    work("eval of a stored vector", 2 * n, || (&u).eval());
    work("stored + stored", 4 * n, || (&u + &v).eval());
    work("stored - stored", 4 * n, || (&u - &v).eval());
    work("stored + lazy", 4 * n, || (&u + lazy("b")).eval());
    work("lazy - stored", 4 * n, || (lazy("a") - &v).eval());
    work("mul_elemwise", 4 * n, || u.mul_elemwise(&v).eval());
    work("div_elemwise", 4 * n, || u.div_elemwise(&v).eval());
    work("conj", 3 * n, || u.conj().eval());
    work("map", 3 * n, || u.wrap().map(|x| x).eval());
    let u: DVector<Ct> = list(k, "a", n).as_slice().eval();
    work("six levels", 16 * n, || ((((&u + &v).conj().mul_elemwise(&v) - &u).map(|x| -x)) + &v).eval());
    let mut w: DVector<Ct> = list(k, "a", n).as_slice().eval();
    work("+= stored", 3 * n, || w += &v);
    work("-= stored", 3 * n, || w -= &v);
    work("+= lazy", 3 * n, || w += lazy("b"));
    work("-= difference", 5 * n, || w -= lazy("b") - &u);
    work("dot product", 5 * n + 1, || &u * &v);
    let (w, x): (DVector<Ct>, DVector<Ct>) = (list(k, "a", n).as_slice().eval(), list(Any, "b", n).as_slice().eval());
    work("dot product by value", 5 * n + 1, || w * x);
    if n > 0 {
        work("one entry", 12, || ((&u + &v).conj().mul_elemwise(&v) - &u).entry(n / 2));
        work("one entry by index", 1, || _ = &u[n - 1]);
        let d = u.diag();
        work("one entry of a diagonal matrix", 2, || d.entry(n - 1, 0));
    }
    if n <= 20 {
        work("diagonal matrix", n * n + n, || u.diag().eval());
    }
}
fn dv_eq(n: usize, k: Vals) {
    let (u, v): (DVector<Ct>, DVector<Ct>) = (list(k, "a", n).as_slice().eval(), list(Any, "b", n).as_slice().eval());
    work("==", 3 * n, || u == v);
}

fn dm(m: usize, n: usize, k: Vals) {
    let cnt = m * n;
    let lazy = move |k: Vals, name: &'static str| make_matrix_expr(m, n, move |i, j| value(k, name, i * n + j, cnt));
    let (x, y): (DMatrix<Ct>, DMatrix<Ct>) = (lazy(k, "a").eval(), lazy(Any, "b").eval());
    for i in 0..cnt {
        assume(any(&format!("b{i}")).non0());
    }
    work("stored + stored", 4 * cnt, || (&x + &y).eval());
    work("stored - stored", 4 * cnt, || (&x - &y).eval());
    work("stored + lazy", 4 * cnt, || (&x + lazy(Any, "b")).eval());
    work("mul_elemwise", 4 * cnt, || x.mul_elemwise(&y).eval());
    work("div_elemwise", 4 * cnt, || x.div_elemwise(&y).eval());
    work("t", 2 * cnt, || x.t().eval());
    work("h", 3 * cnt, || x.h().eval());
    work("diagonal", 2 * m.min(n), || x.diag().eval());
    work("six levels", 16 * cnt, || ((((&x + &y).map(|x| -x).mul_elemwise(&y) - &x).t().h()) + &y).eval());
    let mut w: DMatrix<Ct> = lazy(k, "a").eval();
    work("+= stored", 3 * cnt, || w += &y);
    work("-= stored", 3 * cnt, || w -= &y);
    work("+= lazy", 3 * cnt, || w += lazy(Any, "b"));
    work("-= difference", 5 * cnt, || w -= lazy(Any, "b") - &x);
    if cnt > 0 {
        work("one entry", 12, || ((&x + &y).mul_elemwise(&y) - &x).t().entry(n - 1, m / 2));
        work("one entry by index", 1, || _ = &x[[m - 1, n - 1]]);
    }
}
fn dm_eq(m: usize, n: usize, k: Vals) {
    let lazy = move |k: Vals, name: &'static str| make_matrix_expr(m, n, move |i, j| value(k, name, i * n + j, m * n));
    let (x, y): (DMatrix<Ct>, DMatrix<Ct>) = (lazy(k, "a").eval(), lazy(Any, "b").eval());
    work("==", 3 * m * n, || x == y);
}

fn dm_mul(l: usize, m: usize, n: usize, k: Vals) {
    let a: DMatrix<Ct> = make_matrix_expr(l, m, |i, j| value(k, "a", i * m + j, l * m)).eval();
    let b: DMatrix<Ct> = make_matrix_expr(m, n, |i, j| value(Any, "b", i * n + j, m * n)).eval();
    work("building a product", 0, || _ = &a * &b);
    work("product", 2 * l * m * n + l * m + m * n + l * n, || (&a * &b).eval());
    if l * m * n > 0 {
        work("one entry of a product", 4 * m + 1, || (&a * &b).entry(l - 1, n - 1));
    }
}

const ALL: [Vals; 6] = [Any, ZeroAbove, ZeroBelow, Zero, Gaps, One];

fn main() {
    symx::main("P29", |t| {
        let mut v = vec![case("complex numbers", complex)];
        let k = t.pick(8, 12);
        let mut pairs: Vec<(usize, usize)> = (0..=k).flat_map(|m| (0..=k).map(move |n| (m, n))).collect();
        pairs.extend([(16, 17), (17, 16), (33, 33), (32, 31), (64, 3), (3, 65), (100, 1), (1, 100), (257, 2), (2, 300), (300, 0), (0, 300), (130, 129), (511, 513)]);
        if t.pick(0, 1) == 1 {
            pairs.extend([(1025, 1), (1, 1030), (1025, 1023)]);
        }
        for (m, n) in pairs {
            for a in ALL {
                for b in ALL {
                    if a == Any || b == Any {
                        for op in 0..4 {
                            if m + n <= t.pick(9, 24) || (op == 0 && (a == Any && b == Any && m + n <= t.pick(70, 600))) {
                                v.push(case(format!("comparison {op} of lengths {m},{n} ({a:?}, {b:?})"), move || compared(m, n, a, b, op)));
                            }
                        }
                    }
                    if (a == b || a == Any || b == Any) && (m + n <= 40 || a == Any || b == Any) {
                        v.push(case(format!("polynomials of lengths {m},{n} ({a:?}, {b:?})"), move || polynomials(m, n, a, b)));
                    }
                }
            }
        }
        for (r, n) in [(1, 1), (2, 2), (5, 1), (10, 3), (24, 9), (t.pick(60, 100), 2), (20, 40), (5, 130)] {
            for k in [Any, ZeroAbove, ZeroBelow, Zero, One] {
                v.push(case(format!("{r} sums of length {n} and products ({k:?})"), move || repeated(r, n, k)));
            }
        }
        macro_rules! svs {
            ($($n:literal)*) => { $( for k in ALL {
                v.push(case(format!("static vectors of dimension {} ({k:?})", $n), move || sv::<$n>(k)));
                if k == Any || $n <= 9 {
                    v.push(case(format!("equality of static vectors of dimension {} ({k:?})", $n), move || sv_eq::<$n>(k)));
                }
            } )* };
        }
        svs!(0 1 2 3 4 5 7 8 9 16 17 33 65 130);
        macro_rules! sms {
            ($($m:literal $n:literal),*) => { $( for k in ALL {
                v.push(case(format!("static matrices {}x{} ({k:?})", $m, $n), move || sm::<$m, $n>(k)));
                if k == Any || $m * $n <= 9 {
                    v.push(case(format!("equality of static matrices {}x{} ({k:?})", $m, $n), move || sm_eq::<$m, $n>(k)));
                }
            } )* };
        }
        sms!(0 0, 1 1, 1 2, 2 1, 2 2, 2 3, 3 2, 3 3, 1 5, 5 1, 4 4, 4 6, 8 8, 9 3, 1 33, 16 16, 40 3, 3 40);
        macro_rules! prods {
            ($($l:literal $m:literal $n:literal),*) => { $( for k in ALL {
                v.push(case(format!("static product {}x{} * {}x{} ({k:?})", $l, $m, $m, $n), move || sm_mul::<$l, $m, $n>(k)));
            } )* };
        }
        prods!(1 1 1, 1 2 1, 2 1 2, 2 2 2, 2 3 4, 4 3 2, 3 3 3, 4 4 4, 1 8 1, 1 9 2, 8 8 8, 1 33 1, 9 2 7, 30 3 5, 5 3 30, 40 2 1, 1 2 40, 40 1 1, 1 1 40);
        for n in (0..=t.pick(9, 17)).chain([24, 33, 65, 129, 257]) {
            for k in ALL {
                v.push(case(format!("dynamic vectors of length {n} ({k:?})"), move || dv(n, k)));
                if n < 10 || k == Any {
                    v.push(case(format!("equality of dynamic vectors of length {n} ({k:?})"), move || dv_eq(n, k)));
                }
            }
        }
        let k = t.pick(4, 6);
        let mut shapes: Vec<(usize, usize)> = (0..=k).flat_map(|m| (0..=k).map(move |n| (m, n))).collect();
        shapes.extend([(1, 8), (9, 1), (4, 6), (8, 8), (2, 17), (16, 16), (33, 3), (1, 129), (40, 7), (7, 40), (50, 2), (2, 70), (65, 9)]);
        for (m, n) in shapes {
            for k in ALL {
                v.push(case(format!("dynamic matrices {m}x{n} ({k:?})"), move || dm(m, n, k)));
                if m * n < 10 || k == Any {
                    v.push(case(format!("equality of dynamic matrices {m}x{n} ({k:?})"), move || dm_eq(m, n, k)));
                }
            }
        }
        let k = t.pick(3, 4);
        let mut prods = vec![];
        for l in 0..=k {
            for m in 1..=k + 1 {
                for n in 0..=k {
                    prods.push((l, m, n));
                }
            }
        }
        prods.extend([(1, 9, 1), (2, 8, 2), (1, 17, 1), (5, 5, 5), (2, 33, 1), (8, 8, 8), (1, 257, 1), (16, 16, 16), (40, 2, 7), (7, 3, 40), (33, 9, 2), (40, 2, 1), (1, 2, 40), (70, 1, 1), (1, 1, 70)]);
        for (l, m, n) in prods {
            for k in ALL {
                v.push(case(format!("dynamic product {l}x{m} * {m}x{n} ({k:?})"), move || dm_mul(l, m, n, k)));
            }
        }
        v
    })
}
