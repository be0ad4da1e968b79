//! P16: operands of different lengths or shapes panic, whatever the lengths (64-bit words), and equal
//! ones do not.
use crate::{claim, elem::*, harnesses};
use magnesia::linalg::*;

fn vec(n: usize, a: u64) -> VectorExprWrapper<impl VectorExpr<Entry = E>> {
    make_vector_expr(n, move |i| at(a, i))
}
fn mat(n: usize, m: usize, a: u64) -> MatrixExprWrapper<impl MatrixExpr<Entry = E>> {
    make_matrix_expr(n, m, move |r, c| at2(a, r, c))
}
/// Two different lengths.
fn lengths(s: &mut impl crate::Src) -> (usize, usize) {
    let (n, k) = (s.usize(), s.usize());
    s.assume(n != k);
    (n, k)
}
/// Two different shapes.
fn shapes(s: &mut impl crate::Src) -> ((usize, usize), (usize, usize)) {
    let (x, y) = ((s.usize(), s.usize()), (s.usize(), s.usize()));
    s.assume(x != y);
    (x, y)
}
/// A length other than that of the stored vectors, which is 3.
fn other(s: &mut impl crate::Src) -> usize {
    let n = s.usize();
    s.assume(n != 3);
    n
}
/// A shape other than that of the stored matrices, which is 2x3.
fn other2(s: &mut impl crate::Src) -> (usize, usize) {
    let x = (s.usize(), s.usize());
    s.assume(x != (2, 3));
    x
}
const V: [E; 3] = [E(1), E(2), E(3)];
const M: [[E; 3]; 2] = [[E(1), E(2), E(3)], [E(4), E(5), E(6)]];

/// The dot product of vectors of lengths N and K, by value or by reference.
fn dot<const N: usize, const K: usize>(by_ref: bool) {
    let (u, v) = ([1i32; N].eval(), [2i32; K].eval());
    if by_ref {
        let _ = &u * &v;
    } else {
        let _ = u * v;
    }
}
fn product<const R: usize, const C: usize, const K: usize, const L: usize>() {
    let (u, v) = ([[1i32; C]; R].eval(), [[2i32; L]; K].eval());
    let _ = (&u * &v).eval();
}

harnesses! {
    panics v_zip 2 |s| { let (n, k) = lengths(s); let _ = vec(n, 1).zip(vec(k, 2)); }
    panics v_add 2 |s| { let (n, k) = lengths(s); let _ = vec(n, 1) + vec(k, 2); }
    panics v_sub 2 |s| { let (n, k) = lengths(s); let _ = vec(n, 1) - vec(k, 2); }
    panics v_mul_elemwise 2 |s| { let (n, k) = lengths(s); let _ = vec(n, 1).mul_elemwise(vec(k, 2)); }
    panics v_div_elemwise 2 |s| { let (n, k) = lengths(s); let _ = vec(n, 1).div_elemwise(vec(k, 2)); }
    panics v_nested 2 |s| { let (n, k) = lengths(s); let _ = vec(n, 1) + (vec(n, 2) - vec(k, 3).map(|x| x)); }
    panics v_stored_add 5 |s| { let k = other(s); let _ = &V.eval() + vec(k, 2); }
    panics v_stored_sub 5 |s| { let k = other(s); let _ = &V.eval() - vec(k, 2); }
    panics v_stored_mul_elemwise 5 |s| { let k = other(s); let v = V.eval(); let _ = v.mul_elemwise(vec(k, 2)); }
    panics v_stored_div_elemwise 5 |s| { let k = other(s); let v = V.eval(); let _ = v.div_elemwise(vec(k, 2)); }
    panics v_expr_add_stored 5 |s| { let k = other(s); let _ = vec(k, 2) + V.eval(); }
    panics v_expr_sub_stored 5 |s| { let k = other(s); let _ = vec(k, 2) - V.eval(); }
    panics v_add_assign 5 |s| { let k = other(s); let mut v = V.eval(); v += vec(k, 2); }
    panics v_sub_assign 5 |s| { let k = other(s); let mut v = V.eval(); v -= vec(k, 2); }
    panics v_add_assign_empty 2 |s| { let k = s.usize(); s.assume(k != 0); let mut v = [E(0); 0].eval(); v += vec(k, 2); }
    panics v_sub_assign_empty 2 |s| { let k = s.usize(); s.assume(k != 0); let mut v = [E(0); 0].eval(); v -= vec(k, 2); }
    panics v_dot 6 |s| {
        let by_ref = s.u8() & 1 == 0;
        match s.u8() {
            0 => dot::<0, 1>(by_ref),
            1 => dot::<1, 0>(by_ref),
            2 => dot::<1, 2>(by_ref),
            3 => dot::<2, 1>(by_ref),
            4 => dot::<3, 2>(by_ref),
            5 => dot::<2, 4>(by_ref),
            6 => dot::<0, 4>(by_ref),
            7 => dot::<4, 0>(by_ref),
            _ => s.assume(false),
        }
    }
    holds v_matching 5 |s| {
        let n = s.usize();
        let _ = vec(n, 1).zip(vec(n, 2));
        let _ = vec(n, 1) + vec(n, 2);
        let _ = vec(n, 1) - vec(n, 2);
        let _ = vec(n, 1).mul_elemwise(vec(n, 2));
        let _ = vec(n, 1).div_elemwise(vec(n, 2));
        let mut v = V.eval();
        let _ = &v + vec(3, 1);
        let _ = &v - vec(3, 1);
        v += vec(3, 1);
        v -= vec(3, 1);
        let mut v = [E(0); 0].eval();
        v += vec(0, 1);
        v -= vec(0, 1);
        claim!(v.len() == 0, "an empty vector stays empty");
        dot::<0, 0>(true);
        dot::<3, 3>(true);
        dot::<3, 3>(false);
    }
    panics m_zip 2 |s| { let ((n, m), (k, l)) = shapes(s); let _ = mat(n, m, 1).zip(mat(k, l, 2)); }
    panics m_add 2 |s| { let ((n, m), (k, l)) = shapes(s); let _ = mat(n, m, 1) + mat(k, l, 2); }
    panics m_sub 2 |s| { let ((n, m), (k, l)) = shapes(s); let _ = mat(n, m, 1) - mat(k, l, 2); }
    panics m_mul_elemwise 2 |s| { let ((n, m), (k, l)) = shapes(s); let _ = mat(n, m, 1).mul_elemwise(mat(k, l, 2)); }
    panics m_div_elemwise 2 |s| { let ((n, m), (k, l)) = shapes(s); let _ = mat(n, m, 1).div_elemwise(mat(k, l, 2)); }
    panics m_transposed 2 |s| {
        let (n, m, k, l) = (s.usize(), s.usize(), s.usize(), s.usize());
        s.assume((m, n) != (k, l));
        let _ = mat(n, m, 1).t() + mat(k, l, 2);
    }
    panics m_stored_add 8 |s| { let (k, l) = other2(s); let _ = &M.eval() + mat(k, l, 2); }
    panics m_stored_sub 8 |s| { let (k, l) = other2(s); let _ = &M.eval() - mat(k, l, 2); }
    panics m_stored_mul_elemwise 8 |s| { let (k, l) = other2(s); let v = M.eval(); let _ = v.mul_elemwise(mat(k, l, 2)); }
    panics m_stored_div_elemwise 8 |s| { let (k, l) = other2(s); let v = M.eval(); let _ = v.div_elemwise(mat(k, l, 2)); }
    panics m_expr_add_stored 8 |s| { let (k, l) = other2(s); let _ = mat(k, l, 2) + M.eval(); }
    panics m_expr_sub_stored 8 |s| { let (k, l) = other2(s); let _ = mat(k, l, 2) - M.eval(); }
    panics m_add_assign 8 |s| { let (k, l) = other2(s); let mut v = M.eval(); v += mat(k, l, 2); }
    panics m_sub_assign 8 |s| { let (k, l) = other2(s); let mut v = M.eval(); v -= mat(k, l, 2); }
    panics m_add_assign_empty 5 |s| {
        let (k, l) = (s.usize(), s.usize());
        s.assume((k, l) != (0, 3));
        let mut v = [[E(0); 3]; 0].eval();
        v += mat(k, l, 2);
    }
    panics m_sub_assign_empty 5 |s| {
        let (k, l) = (s.usize(), s.usize());
        s.assume((k, l) != (3, 0));
        let mut v = [[E(0); 0]; 3].eval();
        v -= mat(k, l, 2);
    }
    panics m_product 10 |s| {
        match s.u8() {
            0 => product::<1, 1, 2, 1>(),
            1 => product::<1, 2, 1, 1>(),
            2 => product::<2, 3, 2, 3>(),
            3 => product::<2, 1, 2, 2>(),
            4 => product::<1, 3, 2, 3>(),
            5 => product::<2, 2, 3, 1>(),
            6 => product::<1, 0, 1, 1>(),
            7 => product::<1, 1, 0, 1>(),
            _ => s.assume(false),
        }
    }
    holds m_matching 10 |s| {
        let (n, m) = (s.usize(), s.usize());
        let _ = mat(n, m, 1).zip(mat(n, m, 2));
        let _ = mat(n, m, 1) + mat(n, m, 2);
        let _ = mat(n, m, 1) - mat(n, m, 2);
        let _ = mat(n, m, 1).mul_elemwise(mat(n, m, 2));
        let _ = mat(n, m, 1).div_elemwise(mat(n, m, 2));
        let _ = mat(n, m, 1).t() + mat(m, n, 2);
        let mut v = M.eval();
        let _ = &v + mat(2, 3, 1);
        let _ = &v - mat(2, 3, 1);
        v += mat(2, 3, 1);
        v -= mat(2, 3, 1);
        let mut v = [[E(0); 3]; 0].eval();
        v += mat(0, 3, 1);
        v -= mat(0, 3, 1);
        claim!(v.num_rows() == 0 && v.num_cols() == 3, "an empty matrix keeps its shape");
        product::<2, 3, 3, 1>();
        product::<1, 2, 2, 2>();
    }
}
