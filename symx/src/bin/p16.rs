//! P16: shape mismatches always panic, matching shapes never do.
use magnesia::linalg::{make_matrix_expr, make_vector_expr, DMatrix, DVector, MatrixExpr, VectorExpr};
use symx::*;

/// Evaluates every entry when the shapes match, and demands a panic when they do not.
fn pair<R>(label: &str, matching: bool, f: impl FnOnce() -> R, finish: impl FnOnce(R)) {
    if matching {
        match panics(f) {
            Ok(r) => {
                if let Err(m) = panics(|| finish(r)) {
                    fail(&format!("{label}: using the result panics: {m}"));
                }
                check(label, true);
            }
            Err(m) => fail(&format!("{label}: panics although the shapes match: {m}")),
        }
    } else {
        must_panic(label, f);
    }
}

fn all_v<E: VectorExpr>(e: E, n: usize)
where
    E::Entry: Clone,
{
    check("length", e.len() == n);
    for i in 0..n {
        e.entry(i);
    }
    check("evaluated length", e.eval().len() == n);
}

fn all_m<E: MatrixExpr>(e: E, m: usize, n: usize)
where
    E::Entry: Clone,
{
    check("shape", e.num_rows() == m && e.num_cols() == n);
    for i in 0..m {
        for j in 0..n {
            e.entry(i, j);
        }
    }
    let x = e.eval();
    check("evaluated shape", x.num_rows() == m && x.num_cols() == n);
}

/// In-place operations: a rejected one leaves its target as it was.
fn in_place_v(label: &str, matching: bool, u: &DVector<Sym>, f: impl FnOnce(&mut DVector<Sym>)) {
    let mut t = u.clone();
    pair(label, matching, || f(&mut t), |_| ());
    check(&format!("{label}: length afterwards"), t.len() == u.len());
    if !matching {
        for i in 0..u.len() {
            prove(&format!("{label}: entry {i} after the rejection"), t[i].eqs(u[i]));
        }
    }
}
fn in_place_m(label: &str, matching: bool, x: &DMatrix<Sym>, f: impl FnOnce(&mut DMatrix<Sym>)) {
    let mut t = x.clone();
    pair(label, matching, || f(&mut t), |_| ());
    let shape = (x.num_rows(), x.num_cols());
    check(&format!("{label}: shape afterwards"), (t.num_rows(), t.num_cols()) == shape);
    if !matching {
        for i in 0..shape.0 {
            for j in 0..shape.1 {
                prove(&format!("{label}: entry {i},{j} after the rejection"), t[[i, j]].eqs(x[[i, j]]));
            }
        }
    }
}

fn vectors(n: usize, k: usize) {
    let (a, b) = (anys::<Sym>("a", n), anys::<Sym>("b", k));
    for x in &b {
        assume(x.non0());
    }
    let (u, v): (DVector<Sym>, DVector<Sym>) = (a.as_slice().eval(), b.as_slice().eval());
    let same = n == k;
    // right operands in all their forms
    for form in 0..5 {
        let rhs = || -> BoxV<Sym> {
            let b = b.clone();
            match form {
                0 => BoxV::new(v.clone()),
                1 => BoxV::new(make_vector_expr(k, move |i| b[i])),
                2 => BoxV::new(v.clone().wrap().conj()),
                3 => BoxV::new(v.clone().wrap() + v.clone()),
                _ => BoxV::new(v.clone().wrap().diag().diag()),
            }
        };
        let l = |s: &str| format!("{s}, lengths {n} and {k}, right operand form {form}");
        let w = || a.as_slice().wrap();
        pair(&l("zip"), same, || w().zip(rhs()), |e| all_v(e, n));
        pair(&l("expr + expr"), same, || w() + rhs(), |e| all_v(e, n));
        pair(&l("expr - expr"), same, || w() - rhs(), |e| all_v(e, n));
        pair(&l("mul_elemwise"), same, || w().mul_elemwise(rhs()), |e| all_v(e, n));
        pair(&l("div_elemwise"), same, || w().div_elemwise(rhs()), |e| all_v(e, n));
        pair(&l("&stored + expr"), same, || &u + rhs(), |e| all_v(e, n));
        pair(&l("&stored - expr"), same, || &u - rhs(), |e| all_v(e, n));
        pair(&l("stored mul_elemwise"), same, || u.mul_elemwise(rhs()), |e| all_v(e, n));
        pair(&l("stored div_elemwise"), same, || u.div_elemwise(rhs()), |e| all_v(e, n));
        in_place_v(&l("+="), same, &u, |t| *t += rhs());
        in_place_v(&l("-="), same, &u, |t| *t -= rhs());
        // left operands that are expressions
        let f = || w().map(|x| x + x);
        pair(&l("map, zip"), same, || f().zip(rhs()), |e| all_v(e, n));
        pair(&l("map, +"), same, || f() + rhs(), |e| all_v(e, n));
        pair(&l("map, -"), same, || f() - rhs(), |e| all_v(e, n));
        let f = || &u + a.as_slice();
        pair(&l("sum, +"), same, || f() + rhs(), |e| all_v(e, n));
        pair(&l("sum, -"), same, || f() - rhs(), |e| all_v(e, n));
        let f = || &u - a.as_slice();
        pair(&l("difference, +"), same, || f() + rhs(), |e| all_v(e, n));
        pair(&l("difference, zip"), same, || f().zip(rhs()), |e| all_v(e, n));
        let f = || w().zip(a.as_slice()).map(|(x, y)| x * y);
        pair(&l("product, -"), same, || f() - rhs(), |e| all_v(e, n));
        pair(&l("constant, +"), same, || DVector::<Sym>::ones(n) + rhs(), |e| all_v(e, n));
        pair(&l("constant, -"), same, || DVector::<Sym>::zeros(n) - rhs(), |e| all_v(e, n));
        pair(&l("constant, zip"), same, || DVector::same(n, int(3)).zip(rhs()), |e| all_v(e, n));
    }
    let l = |s: &str| format!("{s}, lengths {n} and {k}");
    pair(&l("&stored + &stored"), same, || &u + &v, |e| all_v(e, n));
    pair(&l("&stored - &stored"), same, || &u - &v, |e| all_v(e, n));
    pair(&l("stored mul_elemwise &stored"), same, || u.mul_elemwise(&v), |e| all_v(e, n));
    pair(&l("stored div_elemwise &stored"), same, || u.div_elemwise(&v), |e| all_v(e, n));
    in_place_v(&l("+= &stored"), same, &u, |t| *t += &v);
    in_place_v(&l("-= &stored"), same, &u, |t| *t -= &v);
    in_place_v(&l("+= slice"), same, &u, |t| *t += b.as_slice());
    in_place_v(&l("-= slice"), same, &u, |t| *t -= b.as_slice());
    pair(&l("&u * &v"), same, || &u * &v, |_| ());
    pair(&l("u * v"), same, || u.clone() * v.clone(), |_| ());
}

fn matrices(m: usize, n: usize, k: usize, l: usize) {
    let (a, b) = (RefM::<Sym>::any("a", m, n), RefM::<Sym>::any("b", k, l));
    for x in b.a.iter().flatten() {
        assume(x.non0());
    }
    let (x, y) = (a.stored(), b.stored());
    let same = (m, n) == (k, l);
    for form in 0..6 {
        let rhs = || -> BoxM<Sym> {
            let (b, y) = (b.a.clone(), y.clone());
            match form {
                0 => BoxM::new(y),
                1 => BoxM::new(make_matrix_expr(k, l, move |i, j| b[i][j])),
                2 => BoxM::new(y.t().eval().wrap().t()),
                3 => BoxM::new(y.clone().wrap() + y),
                4 => BoxM::new(y.h().eval().wrap().h()),
                _ => BoxM::new(DMatrix::same(k, l, int(2))),
            }
        };
        let s = |s: &str| format!("{s}, shapes {m}x{n} and {k}x{l}, right operand form {form}");
        let w = || make_matrix_expr(m, n, |i, j| a.a[i][j]);
        pair(&s("zip"), same, || w().zip(rhs()), |e| all_m(e, m, n));
        pair(&s("expr + expr"), same, || w() + rhs(), |e| all_m(e, m, n));
        pair(&s("expr - expr"), same, || w() - rhs(), |e| all_m(e, m, n));
        pair(&s("mul_elemwise"), same, || w().mul_elemwise(rhs()), |e| all_m(e, m, n));
        pair(&s("div_elemwise"), same, || w().div_elemwise(rhs()), |e| all_m(e, m, n));
        pair(&s("&stored + expr"), same, || &x + rhs(), |e| all_m(e, m, n));
        pair(&s("&stored - expr"), same, || &x - rhs(), |e| all_m(e, m, n));
        pair(&s("stored mul_elemwise"), same, || x.mul_elemwise(rhs()), |e| all_m(e, m, n));
        pair(&s("stored div_elemwise"), same, || x.div_elemwise(rhs()), |e| all_m(e, m, n));
        in_place_m(&s("+="), same, &x, |t| *t += rhs());
        in_place_m(&s("-="), same, &x, |t| *t -= rhs());
        let f = || w().map(|x| x + x);
        pair(&s("map, zip"), same, || f().zip(rhs()), |e| all_m(e, m, n));
        pair(&s("map, +"), same, || f() + rhs(), |e| all_m(e, m, n));
        let f = || &x + &x;
        pair(&s("sum, +"), same, || f() + rhs(), |e| all_m(e, m, n));
        pair(&s("sum, -"), same, || f() - rhs(), |e| all_m(e, m, n));
        let f = || &x - &x;
        pair(&s("difference, +"), same, || f() + rhs(), |e| all_m(e, m, n));
        pair(&s("difference, zip"), same, || f().zip(rhs()), |e| all_m(e, m, n));
        // transposed left operand: the shape that counts is the transposed one
        let tr = (n, m) == (k, l);
        pair(&s("t, +"), tr, || x.t() + rhs(), |e| all_m(e, n, m));
        pair(&s("h, -"), tr, || x.h() - rhs(), |e| all_m(e, n, m));
        pair(&s("expr t, zip"), tr, || w().t().zip(rhs()), |e| all_m(e, n, m));
        pair(&s("expr h, mul_elemwise"), tr, || w().h().mul_elemwise(rhs()), |e| all_m(e, n, m));
        if m > 0 && n > 0 {
            let xt = x.t().eval();
            pair(&s("product, +"), (m, m) == (k, l), || (&x * &xt).wrap() + rhs(), |e| all_m(e, m, m));
            pair(&s("product, zip"), (n, n) == (k, l), || (&xt * &x).wrap().zip(rhs()), |e| all_m(e, n, n));
        }
        let d = m.min(n);
        pair(&s("diag, diag, +"), (d, d) == (k, l), || x.diag().diag() + rhs(), |e| all_m(e, d, d));
        pair(&s("eye, -"), (m, m) == (k, l), || DMatrix::<Sym>::eye(m) - rhs(), |e| all_m(e, m, m));
        pair(&s("diag + diag"), d == k.min(l), || x.diag() + rhs().wrap().diag(), |e| all_v(e, d));
    }
    let s = |s: &str| format!("{s}, shapes {m}x{n} and {k}x{l}");
    pair(&s("&stored + &stored"), same, || &x + &y, |e| all_m(e, m, n));
    pair(&s("&stored - &stored"), same, || &x - &y, |e| all_m(e, m, n));
    pair(&s("stored mul_elemwise &stored"), same, || x.mul_elemwise(&y), |e| all_m(e, m, n));
    pair(&s("stored div_elemwise &stored"), same, || x.div_elemwise(&y), |e| all_m(e, m, n));
    in_place_m(&s("+= &stored"), same, &x, |t| *t += &y);
    in_place_m(&s("-= &stored"), same, &x, |t| *t -= &y);
    let full = n > 0; // the product with an empty inner dimension belongs to P15
    pair(&s("&x * &y"), n == k, || &x * &y, |e| if full { all_m(e, m, l) });
    pair(&s("&x * &x"), m == n, || &x * &x, |e| if full { all_m(e, m, n) });
}

fn arrays<const M: usize, const N: usize, const K: usize, const L: usize>() {
    let (a, b) = (RefM::<Sym>::any("a", M, N), RefM::<Sym>::any("b", K, L));
    let p: [[Sym; N]; M] = std::array::from_fn(|i| std::array::from_fn(|j| a.a[i][j]));
    let q: [[Sym; L]; K] = std::array::from_fn(|i| std::array::from_fn(|j| b.a[i][j]));
    for x in b.a.iter().flatten() {
        assume(x.non0());
    }
    let x = p.eval();
    let same = (M, N) == (K, L);
    let s = |s: &str| format!("{s}, shapes {M}x{N} and {K}x{L}");
    pair(&s("array zip array"), same, || p.wrap().zip(q), |e| all_m(e, M, N));
    pair(&s("array + array"), same, || p.wrap() + q, |e| all_m(e, M, N));
    pair(&s("array - array"), same, || p.wrap() - q, |e| all_m(e, M, N));
    pair(&s("array mul_elemwise array"), same, || p.wrap().mul_elemwise(q), |e| all_m(e, M, N));
    pair(&s("array div_elemwise array"), same, || p.wrap().div_elemwise(q), |e| all_m(e, M, N));
    in_place_m(&s("+= array"), same, &x, |t| *t += q);
    in_place_m(&s("-= array"), same, &x, |t| *t -= q);
}

fn main() {
    symx::main("P16", |t| {
        let mut v = vec![];
        let mut lens: Vec<usize> = (0..=6).collect();
        lens.extend(t.pick(vec![7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 128, 256, 1000], vec![7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129, 256, 257, 512, 1000, 1024]));
        for &n in &lens {
            for &k in &lens {
                v.push(case(format!("vectors of lengths {n} and {k}"), move || vectors(n, k)));
            }
        }
        let mut shapes = vec![];
        let lim = t.pick(3, 4);
        for m in 0..=lim {
            for n in 0..=lim {
                shapes.push((m, n));
            }
        }
        shapes.extend([(1, 6), (6, 1), (1, 9), (9, 1), (4, 4), (2, 8), (8, 2), (5, 5), (16, 16), (1, 256), (256, 1)]);
        if t == Tier::Thorough {
            shapes.extend([(1, 16), (16, 1), (4, 16), (16, 4), (8, 8), (1, 64), (64, 64)]);
        }
        for &(m, n) in &shapes {
            for &(k, l) in &shapes {
                v.push(case(format!("matrices {m}x{n} and {k}x{l}"), move || matrices(m, n, k, l)));
            }
        }
        macro_rules! arr {
            ($($m:literal $n:literal $k:literal $l:literal),*) => {
                $(v.push(case(format!("arrays {}x{} and {}x{}", $m, $n, $k, $l), arrays::<$m, $n, $k, $l>));)*
            };
        }
        arr!(2 2 2 2, 2 3 2 3, 2 3 3 2, 2 3 2 2, 2 2 2 3, 2 3 3 3, 3 3 2 3, 1 6 6 1, 1 4 2 2, 0 2 2 0, 0 0 0 1, 1 1 0 0);
        v
    })
}
