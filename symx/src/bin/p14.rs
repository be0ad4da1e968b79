//! P14: dynamic matrices and matrix expressions.
use magnesia::algebra::Complex;
use magnesia::linalg::{make_matrix_expr, DMatrix, MatrixExpr, VectorExpr};
use std::ops::{AddAssign, Div, SubAssign};
use symx::*;

fn expr<T: Elem>(r: &RefM<T>) -> impl MatrixExpr<Entry = T> + '_ {
    make_matrix_expr(r.m, r.n, |i, j| r.a[i][j].clone())
}

fn sources<T: Num>(m: usize, n: usize) {
    let a = RefM::<T>::any("a", m, n);
    let c = T::any("c");
    api("make_matrix_expr");
    same_mat("make_matrix_expr", expr(&a), &a);
    api("MatrixExprWrapper");
    same_mat("wrapped twice", expr(&a).wrap().wrap(), &a);
    api("DMatrix::eval");
    same_mat("stored", a.stored(), &a);
    same_mat("stored, evaluated twice", a.stored().eval(), &a);
    let x = a.stored();
    api("MatrixExpr for &DMatrix");
    same_mat("reference", &x, &a);
    same_mat("reference, wrapped", (&x).wrap(), &a);
    same_mat("wrapped stored", a.stored().wrap(), &a);
    same_dmat("stored after use by reference", &x, &a);
    same_dmat("clone", &x.clone(), &a);
    api("DMatrix::zeros");
    same_mat("zeros", DMatrix::<T>::zeros(m, n), &RefM::new(m, n, |_, _| T::rzero()));
    api("DMatrix::ones");
    same_mat("ones", DMatrix::<T>::ones(m, n), &RefM::new(m, n, |_, _| T::rone()));
    api("DMatrix::same");
    same_mat("same", DMatrix::same(m, n, c.clone()), &RefM::new(m, n, |_, _| c.clone()));
    api("DMatrix::eye");
    same_mat("eye", DMatrix::<T>::eye(m), &RefM::new(m, m, |i, j| if i == j { T::rone() } else { T::rzero() }));
}

fn array<T: Num + Copy, const M: usize, const N: usize>() {
    let a = RefM::<T>::any("a", M, N);
    let x: [[T; N]; M] = std::array::from_fn(|i| std::array::from_fn(|j| a.a[i][j]));
    api("MatrixExpr for [[T; N]; M]");
    same_mat("array", x, &a);
    same_mat("array, wrapped", x.wrap(), &a);
    same_mat("array, t", x.wrap().t(), &a.t());
    let y = a.stored();
    same_mat("&stored + array", &y + x, &a.zip(&a, T::radd));
    same_mat("&stored - array", &y - x, &a.zip(&a, T::rsub));
}

fn unary<T: Num>(m: usize, n: usize) {
    let a = RefM::<T>::any("a", m, n);
    let (k, c) = (T::any("k"), T::any("c"));
    let f = |x: T| x * k.clone() + c.clone();
    let g = |x: &T| x.rmul(&k).radd(&c);
    let x = a.stored();
    api("MatrixExprWrapper::map");
    same_mat("map", expr(&a).wrap().map(f), &a.map(g));
    same_mat("map over stored", (&x).wrap().map(f), &a.map(g));
    same_mat("map, map", (&x).wrap().map(f).map(f), &a.map(g).map(g));
    let e = (&x).wrap().map(|x| (x.clone(), x * k.clone()));
    check("map to pairs: shape", e.num_rows() == m && e.num_cols() == n);
    for i in 0..m {
        for j in 0..n {
            let (p, q) = e.entry(i, j);
            prove("map to pairs", p.eqs(&a.a[i][j]).and(q.eqs(&a.a[i][j].rmul(&k))));
        }
    }
    let h = a.t().map(|x| x.rconj());
    api("MatrixExprWrapper::t");
    same_mat("t", expr(&a).wrap().t(), &a.t());
    same_mat("t, t", expr(&a).wrap().t().t(), &a);
    api("DMatrix::t");
    same_mat("stored t", x.t(), &a.t());
    same_mat("stored t, t", x.t().t(), &a);
    same_mat("stored t, eval, t", x.t().eval().t(), &a);
    api("MatrixExprWrapper::h");
    same_mat("h", expr(&a).wrap().h(), &h);
    same_mat("h, h", expr(&a).wrap().h().h(), &a);
    api("DMatrix::h");
    same_mat("stored h", x.h(), &h);
    same_mat("stored h, t", x.h().t(), &a.map(|x| x.rconj()));
    api("MatrixExprWrapper::diag");
    same_vec("diag", expr(&a).wrap().diag(), &a.diag());
    api("DMatrix::diag");
    same_vec("stored diag", x.diag(), &a.diag());
    same_vec("stored t, diag", x.t().diag(), &a.diag());
    same_mat("stored diag, diag", x.diag().diag(), &diagonal(&a.diag()));
    same_dmat("stored after use", &x, &a);
}

fn binary<T: Num>(m: usize, n: usize) {
    let (a, b) = (RefM::<T>::any("a", m, n), RefM::<T>::any("b", m, n));
    let (x, y) = (a.stored(), b.stored());
    api("MatrixExprWrapper::zip");
    let z = expr(&a).wrap().zip(&y);
    check("zip: shape", z.num_rows() == m && z.num_cols() == n);
    for i in 0..m {
        for j in 0..n {
            let (p, q) = z.entry(i, j);
            prove("zip", p.eqs(&a.a[i][j]).and(q.eqs(&b.a[i][j])));
        }
    }
    let z = z.eval();
    for i in 0..m {
        for j in 0..n {
            let (p, q) = &z[[i, j]];
            prove("zip, eval", p.eqs(&a.a[i][j]).and(q.eqs(&b.a[i][j])));
        }
    }
    let w = a.zip(&b, T::radd);
    api("MatrixExprWrapper::add");
    same_mat("expr + expr", expr(&a).wrap() + expr(&b), &w);
    same_mat("expr + wrapped", expr(&a).wrap() + expr(&b).wrap(), &w);
    same_mat("expr + &stored", expr(&a).wrap() + &y, &w);
    same_mat("expr + stored", expr(&a).wrap() + y.clone(), &w);
    api("&DMatrix::add");
    same_mat("&stored + expr", &x + expr(&b), &w);
    same_mat("&stored + &stored", &x + &y, &w);
    same_mat("x + x", &x + &x, &a.zip(&a, T::radd));
    let w = a.zip(&b, T::rsub);
    api("MatrixExprWrapper::sub");
    same_mat("expr - expr", expr(&a).wrap() - expr(&b), &w);
    same_mat("expr - wrapped", expr(&a).wrap() - expr(&b).wrap(), &w);
    same_mat("expr - &stored", expr(&a).wrap() - &y, &w);
    same_mat("expr - stored", expr(&a).wrap() - y.clone(), &w);
    api("&DMatrix::sub");
    same_mat("&stored - expr", &x - expr(&b), &w);
    same_mat("&stored - &stored", &x - &y, &w);
    let w = a.zip(&b, T::rmul);
    api("MatrixExprWrapper::mul_elemwise");
    same_mat("mul_elemwise", expr(&a).wrap().mul_elemwise(expr(&b)), &w);
    same_mat("mul_elemwise &stored", expr(&a).wrap().mul_elemwise(&y), &w);
    api("DMatrix::mul_elemwise");
    same_mat("stored mul_elemwise", x.mul_elemwise(expr(&b)), &w);
    same_mat("stored mul_elemwise &stored", x.mul_elemwise(&y), &w);
    same_dmat("left operand unchanged", &x, &a);
    same_dmat("right operand unchanged", &y, &b);
}

fn in_place<T: Num + AddAssign<T> + SubAssign<T>>(m: usize, n: usize) {
    let (a, b) = (RefM::<T>::any("a", m, n), RefM::<T>::any("b", m, n));
    let y = b.stored();
    let sum = a.zip(&b, T::radd);
    let dif = a.zip(&b, T::rsub);
    api("DMatrix::add_assign");
    let mut x = a.stored();
    x += expr(&b);
    same_dmat("x += expr", &x, &sum);
    let mut x = a.stored();
    x += &y;
    same_dmat("x += &y", &x, &sum);
    let mut x = a.stored();
    x += y.clone();
    same_dmat("x += y", &x, &sum);
    api("DMatrix::sub_assign");
    let mut x = a.stored();
    x -= expr(&b);
    same_dmat("x -= expr", &x, &dif);
    let mut x = a.stored();
    x -= y.clone();
    same_dmat("x -= y", &x, &dif);
    let mut x = a.stored();
    x -= &y;
    same_dmat("x -= &y", &x, &dif);
    x += &y;
    same_dmat("x -= &y, += &y", &x, &a);
    same_dmat("y unchanged", &y, &b);
    // the right operand is a transposed expression
    let c = RefM::<T>::any("b", n, m);
    let mut x = a.stored();
    x += c.stored().wrap().t();
    same_dmat("x += c.t()", &x, &a.zip(&c.t(), T::radd));
}

fn quotient<T: Num + Div<Output = T>>(m: usize, n: usize, non0: fn(&T) -> B) {
    let (a, b) = (RefM::<T>::any("a", m, n), RefM::<T>::any("b", m, n));
    for x in b.a.iter().flatten() {
        assume(non0(x));
    }
    let (x, y) = (a.stored(), b.stored());
    let chk = |label: &str, q: DMatrix<T>| {
        check(&format!("{label}: shape"), q.num_rows() == m && q.num_cols() == n);
        for i in 0..m {
            for j in 0..n {
                prove(&format!("{label}[{i},{j}]"), q[[i, j]].rmul(&b.a[i][j]).eqs(&a.a[i][j]));
            }
        }
    };
    api("MatrixExprWrapper::div_elemwise");
    chk("div_elemwise", expr(&a).wrap().div_elemwise(expr(&b)).eval());
    chk("div_elemwise &stored", expr(&a).wrap().div_elemwise(&y).eval());
    api("DMatrix::div_elemwise");
    chk("stored div_elemwise", x.div_elemwise(expr(&b)).eval());
    chk("stored div_elemwise &stored", x.div_elemwise(&y).eval());
}

fn equality(m: usize, n: usize, k: usize, l: usize) {
    let (a, b) = (RefM::<Sym>::any("a", m, n), RefM::<Sym>::any("b", k, l));
    api("DMatrix::eq");
    let e = a.stored() == b.stored();
    let want = if (m, n) == (k, l) { all_eq(&a.a.concat(), &b.a.concat()) } else { B::F };
    prove("== compares shapes and entries", if e { want } else { want.not() });
}

fn program<T: Num + std::ops::AddAssign + std::ops::SubAssign>(m: usize, n: usize, depth: usize) {
    let mut g = Gen::new();
    let kind = choose(6);
    let (e, w) = g.leaf_m::<T>(m, n, kind);
    let mut p = Prog::M(e, w);
    for _ in 0..depth {
        p = g.step(p);
    }
    if depth == 2 {
        finish_any(g, p)
    } else {
        finish(g, p)
    }
}

/// Vector to matrix and back inside one expression
fn mixed(m: usize, n: usize) {
    let a = RefM::<M2>::any("a", m, n);
    let x = a.stored();
    let d = a.diag();
    let w = diagonal(&d);
    same_mat("diag, map, diag, h", x.diag().map(|v| v).diag().h(), &w.map(|x| x.rconj()));
    let y = x.diag().eval();
    check("diag length", y.len() == m.min(n));
    let e = DMatrix::<M2>::eye(d.len()).wrap() - y.diag();
    same_mat("eye - diag", e, &RefM::new(d.len(), d.len(), |i, j| {
        let o = if i == j { M2::rone() } else { M2::rzero() };
        o.rsub(&w.a[i][j])
    }));
}

fn main() {
    symx::main("P14", |t| {
        let mut v = vec![];
        let lim = t.pick(4, 6);
        let mut shapes: Vec<(usize, usize)> = vec![];
        for m in 0..=lim {
            for n in 0..=lim {
                shapes.push((m, n));
            }
        }
        shapes.extend([(1, 9), (9, 1), (5, 7), (7, 5), (2, 17), (17, 2), (8, 8), (0, 20), (20, 0), (16, 16), (1, 65), (65, 1), (33, 3), (3, 32), (9, 8), (17, 17), (1, 129), (129, 1), (33, 33), (64, 8), (257, 1), (1, 1025), (65, 66)]);
        if t == Tier::Thorough {
            shapes.extend([(32, 31), (7, 65), (1030, 1), (3, 257), (257, 3), (129, 130)]);
        }
        for &(m, n) in &shapes {
            v.push(case(format!("sources over R, {m}x{n}"), move || sources::<Sym>(m, n)));
            v.push(case(format!("unary over R, {m}x{n}"), move || unary::<Sym>(m, n)));
            v.push(case(format!("binary over R, {m}x{n}"), move || binary::<Sym>(m, n)));
            v.push(case(format!("in place over R, {m}x{n}"), move || in_place::<Sym>(m, n)));
            v.push(case(format!("quotient over R, {m}x{n}"), move || quotient::<Sym>(m, n, |x| x.non0())));
            if m <= 3 && n <= 3 {
                v.push(case(format!("unary over M2(R), {m}x{n}"), move || unary::<M2>(m, n)));
                v.push(case(format!("unary over C, {m}x{n}"), move || unary::<Complex<Sym>>(m, n)));
                v.push(case(format!("binary over M2(R), {m}x{n}"), move || binary::<M2>(m, n)));
                v.push(case(format!("in place over M2(R), {m}x{n}"), move || in_place::<M2>(m, n)));
                v.push(case(format!("mixed, {m}x{n}"), move || mixed(m, n)));
            }
        }
        v.push(case("array 0x0", array::<Sym, 0, 0>));
        v.push(case("array 0x3", array::<Sym, 0, 3>));
        v.push(case("array 3x0", array::<Sym, 3, 0>));
        v.push(case("array 1x1", array::<Sym, 1, 1>));
        v.push(case("array 2x3", array::<Sym, 2, 3>));
        v.push(case("array 3x2", array::<Sym, 3, 2>));
        v.push(case("array 4x4", array::<Sym, 4, 4>));
        v.push(case("array 1x9", array::<Sym, 1, 9>));
        v.push(case("array 9x2", array::<Sym, 9, 2>));
        for m in 0..=2 {
            for n in 0..=3 {
                for k in 0..=3 {
                    for l in 0..=2 {
                        v.push(case(format!("equality, {m}x{n} and {k}x{l}"), move || equality(m, n, k, l)));
                    }
                }
            }
        }
        for (m, n) in [(3, 4), (4, 4), (1, 17), (8, 8), (9, 8), (33, 2), (2, 65), (16, 17), (33, 34), (1, 260), (257, 2)] {
            v.push(case(format!("equality, {m}x{n}"), move || equality(m, n, m, n)));
        }
        for (m, n) in [(0, 2), (1, 1), (2, 2), (2, 3)] {
            v.push(case(format!("programs of 2 combinators over M2(R), {m}x{n}"), move || program::<M2>(m, n, 2)));
            v.push(case(format!("programs of 2 combinators over C, {m}x{n}"), move || program::<Complex<Sym>>(m, n, 2)));
        }
        v.push(case("programs of 3 combinators over R, 2x1", move || program::<Sym>(2, 1, 3)));
        if t == Tier::Thorough {
            v.push(case("programs of 3 combinators over C, 2x3", move || program::<Complex<Sym>>(2, 3, 3)));
            v.push(case("programs of 3 combinators over M2(R), 3x2", move || program::<M2>(3, 2, 3)));
            v.push(case("programs of 4 combinators over R, 2x1", move || program::<Sym>(2, 1, 4)).limit(200_000));
        }
        v
    })
}
