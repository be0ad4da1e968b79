//! P13: entries and lengths of vector expressions for every length and every index (64-bit words).
use crate::{claim, elem::*, harnesses};
use magnesia::algebra::{Conj, One, Zero};
use magnesia::linalg::*;

/// A length, an index below it, and two functions of the index.
fn setup(s: &mut impl crate::Src) -> (usize, usize, u64, u64) {
    let (n, i, a, b) = (s.usize(), s.usize(), s.u64(), s.u64());
    s.assume(i < n);
    (n, i, a, b)
}
fn vec(n: usize, a: u64) -> VectorExprWrapper<impl VectorExpr<Entry = E>> {
    make_vector_expr(n, move |i| at(a, i))
}

fn stored<const N: usize>(s: &mut impl crate::Src) {
    let mut x = [E(0); N];
    for e in x.iter_mut() {
        *e = E(s.u64());
    }
    let (b, i) = (s.u64(), s.usize());
    s.assume(i < N);
    let v = x.eval();
    claim!(v.len() == N && !v.is_empty() && v.entry(i) == x[i], "a stored array");
    claim!((&v).entry(i) == x[i] && v[i] == x[i], "reading a stored vector");
    let w = &v + vec(N, b);
    claim!(w.len() == N && w.entry(i) == x[i] + at(b, i), "stored vector + expression");
    let w = &v - vec(N, b);
    claim!(w.len() == N && w.entry(i) == x[i] - at(b, i), "stored vector - expression");
    let w = v.mul_elemwise(vec(N, b));
    claim!(w.len() == N && w.entry(i) == x[i] * at(b, i), "mul_elemwise of a stored vector and an expression");
    let w = v.div_elemwise(vec(N, b));
    claim!(w.len() == N && w.entry(i) == x[i] / at(b, i), "div_elemwise of a stored vector and an expression");
    let w = v.conj();
    claim!(w.len() == N && w.entry(i) == x[i].conj(), "conj of a stored vector");
    let mut v = v.clone();
    v += vec(N, b);
    claim!(v.len() == N && v[i] == x[i] + at(b, i), "+= on a stored vector");
    v -= vec(N, b);
    claim!(v.len() == N && v[i] == x[i] + at(b, i) - at(b, i), "-= on a stored vector");
}

harnesses! {
    holds make 2 |s| {
        let (n, i, a, _) = setup(s);
        let v = vec(n, a);
        claim!(v.len() == n && !v.is_empty(), "length of make_vector_expr");
        claim!(v.entry(i) == at(a, i), "entry of make_vector_expr");
        claim!(v.wrap().entry(i) == at(a, i), "entry of a wrapped expression");
        claim!(vec(0, a).is_empty() && vec(0, a).len() == 0, "an expression of length 0 is empty");
    }
    holds map 2 |s| {
        let (n, i, a, b) = setup(s);
        let v = vec(n, a).map(move |x| x * E(b));
        claim!(v.len() == n && !v.is_empty(), "length of map");
        claim!(v.entry(i) == at(a, i) * E(b), "entry of map");
    }
    holds zip 2 |s| {
        let (n, i, a, b) = setup(s);
        let v = vec(n, a).zip(vec(n, b));
        claim!(v.len() == n && !v.is_empty(), "length of zip");
        claim!(v.entry(i) == (at(a, i), at(b, i)), "entry of zip");
    }
    holds add 2 |s| {
        let (n, i, a, b) = setup(s);
        let v = vec(n, a) + vec(n, b);
        claim!(v.len() == n && !v.is_empty(), "length of +");
        claim!(v.entry(i) == at(a, i) + at(b, i), "entry of +");
    }
    holds sub 2 |s| {
        let (n, i, a, b) = setup(s);
        let v = vec(n, a) - vec(n, b);
        claim!(v.len() == n && !v.is_empty(), "length of -");
        claim!(v.entry(i) == at(a, i) - at(b, i), "entry of -");
    }
    holds mul_elemwise 2 |s| {
        let (n, i, a, b) = setup(s);
        let v = vec(n, a).mul_elemwise(vec(n, b));
        claim!(v.len() == n && !v.is_empty(), "length of mul_elemwise");
        claim!(v.entry(i) == at(a, i) * at(b, i), "entry of mul_elemwise");
    }
    holds div_elemwise 2 |s| {
        let (n, i, a, b) = setup(s);
        let v = vec(n, a).div_elemwise(vec(n, b));
        claim!(v.len() == n && !v.is_empty(), "length of div_elemwise");
        claim!(v.entry(i) == at(a, i) / at(b, i), "entry of div_elemwise");
    }
    holds conj 2 |s| {
        let (n, i, a, _) = setup(s);
        let v = vec(n, a).conj();
        claim!(v.len() == n && !v.is_empty(), "length of conj");
        claim!(v.entry(i) == at(a, i).conj(), "entry of conj");
    }
    holds constant 2 |s| {
        let (n, i, a, _) = setup(s);
        let (z, o, c) = (DVector::<E>::zeros(n), DVector::<E>::ones(n), DVector::same(n, E(a)));
        claim!(z.len() == n && o.len() == n && c.len() == n, "length of zeros, ones and same");
        claim!(z.entry(i) == E::zero(), "entry of zeros");
        claim!(o.entry(i) == E::one(), "entry of ones");
        claim!(c.entry(i) == E(a), "entry of same");
    }
    holds composed 2 |s| {
        let (n, i, a, b) = setup(s);
        let v = (vec(n, a) + vec(n, b).conj()).mul_elemwise(vec(n, a).map(|x| x.conj()) - DVector::same(n, E(b)));
        claim!(v.len() == n && !v.is_empty(), "length of a composed expression");
        claim!(v.entry(i) == (at(a, i) + at(b, i).conj()) * (at(a, i).conj() - E(b)), "entry of a composed expression");
    }
    holds from_matrix 2 |s| {
        let (n, i, a, b) = setup(s);
        let m = s.usize();
        s.assume(i < m);
        let v = make_matrix_expr(n, m, move |r, c| at2(a, r, c)).diag() + vec(n.min(m), b);
        claim!(v.len() == n.min(m), "length of the diagonal of a matrix plus a vector");
        claim!(v.entry(i) == at2(a, i, i) + at(b, i), "entry of the diagonal of a matrix plus a vector");
    }
    holds stored_with_expr 5 |s| { stored::<3>(s) }
    holds deep_stored_5 7 |s| { stored::<5>(s) }
    holds deep_stored_8 10 |s| { stored::<8>(s) }
    holds eval_lengths 6 |s| {
        let (a, i) = (s.u64(), s.usize());
        s.assume(i < 4);
        let v = vec(4, a).eval();
        claim!(v.len() == 4 && v[i] == at(a, i), "evaluating an expression");
        let w = v.clone().wrap().eval();
        claim!(w.len() == 4 && w[i] == at(a, i), "evaluating a wrapped vector");
        let w = (&v).eval();
        claim!(w.len() == 4 && w[i] == at(a, i), "evaluating a reference");
        claim!(vec(0, a).eval().len() == 0, "evaluating an empty expression");
    }
}
