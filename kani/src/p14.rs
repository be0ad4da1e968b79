//! P14: entries and shapes of matrix expressions for every shape and index (64-bit words).
use crate::{claim, elem::*, harnesses};
use magnesia::algebra::{Conj, One, Zero};
use magnesia::linalg::*;

/// A shape, an index inside it, and two functions of the index.
#[allow(clippy::many_single_char_names)]
fn setup(s: &mut impl crate::Src) -> (usize, usize, usize, usize, u64, u64) {
    let (n, m, r, c, a, b) = (s.usize(), s.usize(), s.usize(), s.usize(), s.u64(), s.u64());
    s.assume(r < n && c < m);
    (n, m, r, c, a, b)
}
fn mat(n: usize, m: usize, a: u64) -> MatrixExprWrapper<impl MatrixExpr<Entry = E>> {
    make_matrix_expr(n, m, move |r, c| at2(a, r, c))
}
fn is(x: &impl MatrixExpr, n: usize, m: usize) -> bool {
    x.num_rows() == n && x.num_cols() == m
}

fn stored<const R: usize, const C: usize>(s: &mut impl crate::Src) {
    let mut x = [[E(0); C]; R];
    for row in x.iter_mut() {
        for e in row.iter_mut() {
            *e = E(s.u64());
        }
    }
    let (b, r, c) = (s.u64(), s.usize(), s.usize());
    s.assume(r < R && c < C);
    let v = x.eval();
    claim!(is(&v, R, C) && v.entry(r, c) == x[r][c], "a stored nested array");
    claim!(v[[r, c]] == x[r][c] && (&v).entry(r, c) == x[r][c] && is(&&v, R, C), "reading a stored matrix");
    let w = &v + mat(R, C, b);
    claim!(is(&w, R, C) && w.entry(r, c) == x[r][c] + at2(b, r, c), "stored matrix + expression");
    let w = &v - mat(R, C, b);
    claim!(is(&w, R, C) && w.entry(r, c) == x[r][c] - at2(b, r, c), "stored matrix - expression");
    let w = v.mul_elemwise(mat(R, C, b));
    claim!(is(&w, R, C) && w.entry(r, c) == x[r][c] * at2(b, r, c), "mul_elemwise of a stored matrix and an expression");
    let w = v.div_elemwise(mat(R, C, b));
    claim!(is(&w, R, C) && w.entry(r, c) == x[r][c] / at2(b, r, c), "div_elemwise of a stored matrix and an expression");
    let w = v.t();
    claim!(is(&w, C, R) && w.entry(c, r) == x[r][c], "t of a stored matrix");
    let w = v.h();
    claim!(is(&w, C, R) && w.entry(c, r) == x[r][c].conj(), "h of a stored matrix");
    let w = v.diag();
    claim!(w.len() == R.min(C) && (r >= C || w.entry(r) == x[r][r]), "diag of a stored matrix");
    let mut v = v.clone();
    v += mat(R, C, b);
    claim!(is(&v, R, C) && v[[r, c]] == x[r][c] + at2(b, r, c), "+= on a stored matrix");
    v -= mat(R, C, b);
    claim!(is(&v, R, C) && v[[r, c]] == x[r][c] + at2(b, r, c) - at2(b, r, c), "-= on a stored matrix");
}

harnesses! {
    holds make 2 |s| {
        let (n, m, r, c, a, _) = setup(s);
        let x = mat(n, m, a);
        claim!(is(&x, n, m), "shape of make_matrix_expr");
        claim!(x.entry(r, c) == at2(a, r, c), "entry of make_matrix_expr");
        let x = x.wrap();
        claim!(is(&x, n, m) && x.entry(r, c) == at2(a, r, c), "a wrapped expression");
    }
    holds map 2 |s| {
        let (n, m, r, c, a, b) = setup(s);
        let x = mat(n, m, a).map(move |x| x * E(b));
        claim!(is(&x, n, m), "shape of map");
        claim!(x.entry(r, c) == at2(a, r, c) * E(b), "entry of map");
    }
    holds zip 2 |s| {
        let (n, m, r, c, a, b) = setup(s);
        let x = mat(n, m, a).zip(mat(n, m, b));
        claim!(is(&x, n, m), "shape of zip");
        claim!(x.entry(r, c) == (at2(a, r, c), at2(b, r, c)), "entry of zip");
    }
    holds add 2 |s| {
        let (n, m, r, c, a, b) = setup(s);
        let x = mat(n, m, a) + mat(n, m, b);
        claim!(is(&x, n, m), "shape of +");
        claim!(x.entry(r, c) == at2(a, r, c) + at2(b, r, c), "entry of +");
    }
    holds sub 2 |s| {
        let (n, m, r, c, a, b) = setup(s);
        let x = mat(n, m, a) - mat(n, m, b);
        claim!(is(&x, n, m), "shape of -");
        claim!(x.entry(r, c) == at2(a, r, c) - at2(b, r, c), "entry of -");
    }
    holds mul_elemwise 2 |s| {
        let (n, m, r, c, a, b) = setup(s);
        let x = mat(n, m, a).mul_elemwise(mat(n, m, b));
        claim!(is(&x, n, m), "shape of mul_elemwise");
        claim!(x.entry(r, c) == at2(a, r, c) * at2(b, r, c), "entry of mul_elemwise");
    }
    holds div_elemwise 2 |s| {
        let (n, m, r, c, a, b) = setup(s);
        let x = mat(n, m, a).div_elemwise(mat(n, m, b));
        claim!(is(&x, n, m), "shape of div_elemwise");
        claim!(x.entry(r, c) == at2(a, r, c) / at2(b, r, c), "entry of div_elemwise");
    }
    holds transposed 2 |s| {
        let (n, m, r, c, a, _) = setup(s);
        let x = mat(n, m, a).t();
        claim!(is(&x, m, n), "shape of t");
        claim!(x.entry(c, r) == at2(a, r, c), "entry of t");
        let x = mat(n, m, a).h();
        claim!(is(&x, m, n), "shape of h");
        claim!(x.entry(c, r) == at2(a, r, c).conj(), "entry of h");
        let x = mat(n, m, a).t().t();
        claim!(is(&x, n, m) && x.entry(r, c) == at2(a, r, c), "t twice");
    }
    holds diag_of_matrix 2 |s| {
        let (n, m, r, c, a, _) = setup(s);
        s.assume(r == c);
        let x = mat(n, m, a).diag();
        claim!(x.len() == if n < m { n } else { m }, "length of the diagonal");
        claim!(x.entry(r) == at2(a, r, r), "entry of the diagonal");
    }
    holds diag_of_vector 2 |s| {
        let (n, m, r, c, a, _) = setup(s);
        s.assume(n == m);
        let x = make_vector_expr(n, move |i| at(a, i)).diag();
        claim!(is(&x, n, n), "shape of a diagonal matrix");
        claim!(x.entry(r, c) == if r == c { at(a, r) } else { E::zero() }, "entry of a diagonal matrix");
    }
    holds constant 2 |s| {
        let (n, m, r, c, a, _) = setup(s);
        let x = DMatrix::<E>::zeros(n, m);
        claim!(is(&x, n, m) && x.entry(r, c) == E::zero(), "zeros");
        let x = DMatrix::<E>::ones(n, m);
        claim!(is(&x, n, m) && x.entry(r, c) == E::one(), "ones");
        let x = DMatrix::same(n, m, E(a));
        claim!(is(&x, n, m) && x.entry(r, c) == E(a), "same");
        s.assume(n == m);
        let x = DMatrix::<E>::eye(n);
        claim!(is(&x, n, n) && x.entry(r, c) == if r == c { E::one() } else { E::zero() }, "eye");
    }
    holds composed 2 |s| {
        let (n, m, r, c, a, b) = setup(s);
        let x = (mat(n, m, a) + mat(m, n, b).h()).t().mul_elemwise(mat(m, n, a) - DMatrix::same(m, n, E(b)));
        claim!(is(&x, m, n), "shape of a composed expression");
        claim!(x.entry(c, r) == (at2(a, r, c) + at2(b, c, r).conj()) * (at2(a, c, r) - E(b)), "entry of a composed expression");
    }
    holds stored_2x3 8 |s| { stored::<2, 3>(s) }
    holds stored_3x1 5 |s| { stored::<3, 1>(s) }
    holds deep_stored_3x2 8 |s| { stored::<3, 2>(s) }
    holds deep_stored_3x3 11 |s| { stored::<3, 3>(s) }
    holds deep_stored_1x5 7 |s| { stored::<1, 5>(s) }
    holds eval_shapes 8 |s| {
        let (a, r, c) = (s.u64(), s.usize(), s.usize());
        s.assume(r < 3 && c < 2);
        let v = mat(3, 2, a).eval();
        claim!(is(&v, 3, 2) && v[[r, c]] == at2(a, r, c), "evaluating an expression");
        let w = (&v).eval();
        claim!(is(&w, 3, 2) && w[[r, c]] == at2(a, r, c), "evaluating a reference");
        let e = mat(0, 3, a).eval();
        claim!(is(&e, 0, 3), "evaluating an expression without rows");
        let e = mat(3, 0, a).eval();
        claim!(is(&e, 3, 0), "evaluating an expression without columns");
    }
}
