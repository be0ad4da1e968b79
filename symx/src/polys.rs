//! Reference model of polynomials: plain coefficient lists.
use crate::elem::*;
use crate::sym::*;
use magnesia::algebra::Polynomial;

pub fn poly<T: Elem>(c: &[T]) -> Polynomial<T> {
    Polynomial::from_coefficients(c.to_vec())
}

pub fn at<T: Elem>(c: &[T], i: usize) -> T {
    c.get(i).cloned().unwrap_or_else(T::rzero)
}

pub fn padd<T: Elem>(a: &[T], b: &[T]) -> Vec<T> {
    (0..a.len().max(b.len())).map(|i| at(a, i).radd(&at(b, i))).collect()
}
pub fn psub<T: Elem>(a: &[T], b: &[T]) -> Vec<T> {
    (0..a.len().max(b.len())).map(|i| at(a, i).rsub(&at(b, i))).collect()
}
pub fn pneg<T: Elem>(a: &[T]) -> Vec<T> {
    a.iter().map(|x| x.rneg()).collect()
}
pub fn pmul<T: Elem>(a: &[T], b: &[T]) -> Vec<T> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    (0..a.len() + b.len() - 1)
        .map(|k| {
            let mut s = T::rzero();
            for i in (0..a.len()).rev() {
                if k >= i && k - i < b.len() {
                    s = s.radd(&a[i].rmul(&b[k - i]));
                }
            }
            s
        })
        .collect()
}
/// sum a_i x^i, coefficients to the left
pub fn peval<T: Elem>(a: &[T], x: &T) -> T {
    let mut pw = T::rone();
    let mut s = T::rzero();
    for c in a {
        s = s.radd(&c.rmul(&pw));
        pw = pw.rmul(x);
    }
    s
}
/// The two lists denote the same polynomial.
pub fn peqs<T: Elem>(a: &[T], b: &[T]) -> B {
    B::all((0..a.len().max(b.len())).map(|i| at(a, i).eqs(&at(b, i))).collect())
}

/// `p` denotes the polynomial with coefficients `want`: by `==` in both directions, and (if `deep`)
/// by its value at an arbitrary point.
pub fn same<T: Elem>(label: &str, p: &Polynomial<T>, want: &[T], deep: bool) {
    let w = poly(want);
    check(&format!("{label}: =="), p == &w);
    check(&format!("{label}: == (reversed)"), &w == p);
    if deep {
        let x = T::any("x");
        prove(&format!("{label}: eval"), p.eval_ref(&x).eqs(&peval(want, &x)));
    }
}
