//! P17: reads and writes of stored containers at every 64-bit index.
use crate::{claim, elem::*, harnesses};
use magnesia::linalg::*;

fn read(v: &DVector<E>, i: usize, how: u8) -> E {
    match how & 3 {
        0 => v[i],
        1 => VectorExpr::entry(v, i),
        2 => VectorExpr::entry(&v, i),
        _ => v.wrap().entry(i),
    }
}
fn read2(m: &DMatrix<E>, r: usize, c: usize, how: u8) -> E {
    match how & 3 {
        0 => m[[r, c]],
        1 => MatrixExpr::entry(m, r, c),
        2 => MatrixExpr::entry(&m, r, c),
        _ => m.wrap().entry(r, c),
    }
}

fn outside<const N: usize>(s: &mut impl crate::Src) {
    let (i, how) = (s.usize(), s.u8());
    s.assume(i >= N);
    let mut v = [E(7); N].eval();
    if how & 4 == 0 {
        let _ = read(&v, i, how);
    } else {
        v[i] = E(1);
    }
}
fn outside2<const R: usize, const C: usize>(s: &mut impl crate::Src) {
    let (r, c, how) = (s.usize(), s.usize(), s.u8());
    s.assume(r >= R || c >= C);
    let mut m = [[E(7); C]; R].eval();
    if how & 4 == 0 {
        let _ = read2(&m, r, c, how);
    } else {
        m[[r, c]] = E(1);
    }
}
fn inside<const N: usize>(s: &mut impl crate::Src) {
    let mut a = [E(0); N];
    for x in a.iter_mut() {
        *x = E(s.u64());
    }
    let (i, k, new, how) = (s.usize(), s.usize(), E(s.u64()), s.u8());
    s.assume(i < N && k < N);
    let mut v = a.eval();
    claim!(read(&v, k, how) == a[k], "reading a vector at an index inside it");
    v[i] = new;
    claim!(v.len() == N, "a write keeps the length of a vector");
    claim!(read(&v, k, how) == if k == i { new } else { a[k] }, "a write to a vector changes the addressed element and no other");
}
fn inside2<const R: usize, const C: usize>(s: &mut impl crate::Src) {
    let mut a = [[E(0); C]; R];
    for row in a.iter_mut() {
        for x in row.iter_mut() {
            *x = E(s.u64());
        }
    }
    let (i, j, k, l, new, how) = (s.usize(), s.usize(), s.usize(), s.usize(), E(s.u64()), s.u8());
    s.assume(i < R && k < R && j < C && l < C);
    let mut m = a.eval();
    claim!(read2(&m, k, l, how) == a[k][l], "reading a matrix at an index inside it");
    m[[i, j]] = new;
    claim!(m.num_rows() == R && m.num_cols() == C, "a write keeps the shape of a matrix");
    claim!(read2(&m, k, l, how) == if (k, l) == (i, j) { new } else { a[k][l] }, "a write to a matrix changes the addressed element and no other");
}

/// Static vectors: indexing, mutable indexing.
fn sv_outside<const N: usize>(s: &mut impl crate::Src) {
    let (i, how) = (s.usize(), s.u8());
    s.assume(i >= N);
    let mut v = SVector([E(7); N]);
    if how & 1 == 0 {
        let _ = v[i];
    } else {
        v[i] = E(1);
    }
}
fn sv_inside<const N: usize>(s: &mut impl crate::Src) {
    let mut a = [E(0); N];
    for x in a.iter_mut() {
        *x = E(s.u64());
    }
    let (i, k, new) = (s.usize(), s.usize(), E(s.u64()));
    s.assume(i < N && k < N);
    let mut v = SVector(a);
    claim!(v[k] == a[k], "reading a static vector at an index inside it");
    v[i] = new;
    claim!(v[k] == if k == i { new } else { a[k] }, "a write to a static vector changes the addressed element and no other");
}

/// Slices and nested arrays as expressions, wrapped or not.
fn plain_outside<const N: usize>(s: &mut impl crate::Src) {
    let (i, how) = (s.usize(), s.u8());
    s.assume(i >= N);
    let a = [E(7); N];
    let _ = if how & 1 == 0 { VectorExpr::entry(&a.as_slice(), i) } else { a.as_slice().wrap().entry(i) };
}
fn plain2_outside<const R: usize, const C: usize>(s: &mut impl crate::Src) {
    let (r, c, how) = (s.usize(), s.usize(), s.u8());
    s.assume(r >= R || c >= C);
    let a = [[E(7); C]; R];
    let _ = if how & 1 == 0 { MatrixExpr::entry(&a, r, c) } else { a.wrap().entry(r, c) };
}
fn plain_inside<const R: usize, const C: usize>(s: &mut impl crate::Src) {
    let mut a = [[E(0); C]; R];
    for row in a.iter_mut() {
        for x in row.iter_mut() {
            *x = E(s.u64());
        }
    }
    let (k, l) = (s.usize(), s.usize());
    s.assume(k < R && l < C);
    claim!(MatrixExpr::entry(&a, k, l) == a[k][l], "reading an array at an index inside it");
    claim!(a.wrap().entry(k, l) == a[k][l], "reading a wrapped array at an index inside it");
    claim!(VectorExpr::entry(&a[k].as_slice(), l) == a[k][l], "reading a slice at an index inside it");
    claim!(a[k].as_slice().wrap().entry(l) == a[k][l], "reading a wrapped slice at an index inside it");
}

/// Expressions over stored operands.
fn expr_outside<const N: usize>(s: &mut impl crate::Src) {
    let (i, how) = (s.usize(), s.u8());
    s.assume(i >= N);
    let v = [E(7); N].eval();
    let w = [E(5); N].eval();
    let _ = match how % 6 {
        0 => v.wrap().map(|x| x).entry(i),
        1 => (&v + &w).entry(i),
        2 => (&v - &w).entry(i),
        3 => v.mul_elemwise(&w).entry(i),
        4 => v.conj().entry(i),
        _ => v.wrap().zip(&w).entry(i).0,
    };
}
fn expr2_outside<const R: usize, const C: usize>(s: &mut impl crate::Src) {
    let (r, c, how) = (s.usize(), s.usize(), s.u8());
    s.assume(r >= R || c >= C);
    let m = [[E(7); C]; R].eval();
    let w = [[E(5); C]; R].eval();
    let _ = match how % 8 {
        0 => m.wrap().map(|x| x).entry(r, c),
        1 => (&m + &w).entry(r, c),
        2 => (&m - &w).entry(r, c),
        3 => m.mul_elemwise(&w).entry(r, c),
        4 => m.t().entry(c, r),
        5 => m.h().entry(c, r),
        6 => m.wrap().t().entry(c, r),
        _ => m.wrap().zip(&w).entry(r, c).0,
    };
}
fn diag_outside<const R: usize, const C: usize>(s: &mut impl crate::Src) {
    let (i, how) = (s.usize(), s.u8());
    s.assume(i >= R || i >= C);
    let m = [[E(7); C]; R].eval();
    let _ = if how & 1 == 0 { m.diag().entry(i) } else { m.wrap().diag().entry(i) };
}
fn product_outside<const R: usize, const C: usize>(s: &mut impl crate::Src) {
    let (r, c, how) = (s.usize(), s.usize(), s.u8());
    s.assume(r >= R || c >= R);
    let (m, w) = ([[E(7); C]; R].eval(), [[E(5); R]; C].eval());
    let _ = if how & 1 == 0 { (&m * &w).entry(r, c) } else { (&m * &w).wrap().entry(r, c) };
}

harnesses! {
    panics sv0_outside 2 |s| { sv_outside::<0>(s) }
    panics sv3_outside 5 |s| { sv_outside::<3>(s) }
    panics sv4_outside 6 |s| { sv_outside::<4>(s) }
    holds sv1_inside 3 |s| { sv_inside::<1>(s) }
    holds sv4_inside 6 |s| { sv_inside::<4>(s) }
    panics slice0_outside 2 |s| { plain_outside::<0>(s) }
    panics slice4_outside 6 |s| { plain_outside::<4>(s) }
    panics array0x2_outside 4 |s| { plain2_outside::<0, 2>(s) }
    panics array2x3_outside 6 |s| { plain2_outside::<2, 3>(s) }
    panics array4x1_outside 6 |s| { plain2_outside::<4, 1>(s) }
    holds plain2x3_inside 6 |s| { plain_inside::<2, 3>(s) }
    panics expr3_outside 5 |s| { expr_outside::<3>(s) }
    panics expr2x3_outside 8 |s| { expr2_outside::<2, 3>(s) }
    panics expr3x1_outside 6 |s| { expr2_outside::<3, 1>(s) }
    panics diag2x3_outside 8 |s| { diag_outside::<2, 3>(s) }
    panics diag3x1_outside 6 |s| { diag_outside::<3, 1>(s) }
    panics product2x3_outside 8 |s| { product_outside::<2, 3>(s) }
    panics product3x1_outside 6 |s| { product_outside::<3, 1>(s) }
    panics v0_outside 2 |s| { outside::<0>(s) }
    panics v1_outside 3 |s| { outside::<1>(s) }
    panics v2_outside 4 |s| { outside::<2>(s) }
    panics v4_outside 6 |s| { outside::<4>(s) }
    holds v1_inside 3 |s| { inside::<1>(s) }
    holds v2_inside 4 |s| { inside::<2>(s) }
    holds v4_inside 6 |s| { inside::<4>(s) }
    panics m0x0_outside 3 |s| { outside2::<0, 0>(s) }
    panics m0x3_outside 5 |s| { outside2::<0, 3>(s) }
    panics m3x0_outside 5 |s| { outside2::<3, 0>(s) }
    panics m1x1_outside 4 |s| { outside2::<1, 1>(s) }
    panics m1x4_outside 6 |s| { outside2::<1, 4>(s) }
    panics m4x1_outside 6 |s| { outside2::<4, 1>(s) }
    panics m2x3_outside 8 |s| { outside2::<2, 3>(s) }
    panics m3x2_outside 8 |s| { outside2::<3, 2>(s) }
    panics m2x2_outside 6 |s| { outside2::<2, 2>(s) }
    holds m1x1_inside 4 |s| { inside2::<1, 1>(s) }
    holds m1x4_inside 6 |s| { inside2::<1, 4>(s) }
    holds m4x1_inside 6 |s| { inside2::<4, 1>(s) }
    holds m2x3_inside 8 |s| { inside2::<2, 3>(s) }
    holds m3x2_inside 8 |s| { inside2::<3, 2>(s) }
    holds m2x2_inside 6 |s| { inside2::<2, 2>(s) }
    panics deep_v6_outside 8 |s| { outside::<6>(s) }
    holds deep_v6_inside 8 |s| { inside::<6>(s) }
    panics deep_m3x3_outside 11 |s| { outside2::<3, 3>(s) }
    panics deep_m4x2_outside 10 |s| { outside2::<4, 2>(s) }
    panics deep_m2x4_outside 10 |s| { outside2::<2, 4>(s) }
    panics deep_m0x1_outside 4 |s| { outside2::<0, 1>(s) }
    panics deep_m1x0_outside 4 |s| { outside2::<1, 0>(s) }
    panics deep_m4x4_outside 18 |s| { outside2::<4, 4>(s) }
    holds deep_m3x3_inside 11 |s| { inside2::<3, 3>(s) }
    holds deep_m4x2_inside 10 |s| { inside2::<4, 2>(s) }
    holds deep_m2x4_inside 10 |s| { inside2::<2, 4>(s) }
    holds deep_m3x4_inside 14 |s| { inside2::<3, 4>(s) }
}
