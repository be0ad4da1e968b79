//! P12: nested constructions satisfy the ring axioms.
use magnesia::algebra::{Complex, Polynomial, Ring};
use magnesia::linalg::SMatrix;
use std::ops::{Add, Mul, Sub};
use symx::*;

/// Arbitrary elements of a nested ring together with their real components.
trait Gen:
    Ring
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + 'static
{
    fn name() -> String;
    fn gen(n: &str, out: &mut Vec<Sym>) -> Self;
}

impl Gen for Sym {
    fn name() -> String {
        "R".into()
    }
    fn gen(n: &str, out: &mut Vec<Sym>) -> Self {
        let s = any(n);
        out.push(s);
        s
    }
}
impl Gen for M2 {
    fn name() -> String {
        "M2(R)".into()
    }
    fn gen(n: &str, out: &mut Vec<Sym>) -> Self {
        let m = <M2 as Elem>::any(n);
        out.extend(m.0);
        m
    }
}
impl<T: Gen> Gen for Complex<T> {
    fn name() -> String {
        format!("Complex<{}>", T::name())
    }
    fn gen(n: &str, out: &mut Vec<Sym>) -> Self {
        Complex::new(T::gen(&format!("{n}.re"), out), T::gen(&format!("{n}.im"), out))
    }
}
impl<T: Gen, const N: usize> Gen for SMatrix<T, N, N> {
    fn name() -> String {
        format!("SMatrix<{}, {N}, {N}>", T::name())
    }
    fn gen(n: &str, out: &mut Vec<Sym>) -> Self {
        SMatrix::from(std::array::from_fn(|i| std::array::from_fn(|j| T::gen(&format!("{n}.{i}{j}"), out))))
    }
}
impl<T: Gen> Gen for Polynomial<T> {
    fn name() -> String {
        format!("Polynomial<{}>", T::name())
    }
    fn gen(n: &str, out: &mut Vec<Sym>) -> Self {
        Polynomial::from_coefficients((0..2).map(|i| T::gen(&format!("{n}.c{i}"), out)).collect())
    }
}

fn add<R: Ring>(x: &R, y: &R) -> R {
    let mut r = x.clone();
    r += y;
    r
}
fn sub<R: Ring>(x: &R, y: &R) -> R {
    let mut r = x.clone();
    r -= y;
    r
}

fn additive<R: Gen>() {
    let o = &mut vec![];
    let (a, b, c) = (R::gen("a", o), R::gen("b", o), R::gen("c", o));
    let z = R::zero;
    check("(a+b)+c == a+(b+c)", add(&add(&a, &b), &c) == add(&a, &add(&b, &c)));
    check("a+b == b+a", add(&a, &b) == add(&b, &a));
    check("a+0 == a", add(&a, &z()) == a);
    check("0+a == a", add(&z(), &a) == a);
    check("a+(-a) == 0", add(&a, &-a.clone()) == z());
    check("a-a == 0", sub(&a, &a) == z());
    check("a-b == a+(-b)", sub(&a, &b) == add(&a, &-b.clone()));
    check("0-a == -a", sub(&z(), &a) == -a.clone());
    check("-(-a) == a", -(-a.clone()) == a);
    check("-(a+b) == -a-b", -add(&a, &b) == sub(&-a.clone(), &b));
}

fn neutral<R: Gen>() {
    let a = R::gen("a", &mut vec![]);
    let (z, e) = (R::zero, R::one);
    check("a*1 == a", a.mul_refs(&e()) == a);
    check("1*a == a", e().mul_refs(&a) == a);
    check("a*0 == 0", a.mul_refs(&z()) == z());
    check("0*a == 0", z().mul_refs(&a) == z());
    check("0 != 1", z() != e());
    check("(-1)*a == -a", (-e()).mul_refs(&a) == -a.clone());
}

fn left<R: Gen>() {
    let o = &mut vec![];
    let (a, b, c) = (R::gen("a", o), R::gen("b", o), R::gen("c", o));
    check("a(b+c) == ab+ac", a.mul_refs(&add(&b, &c)) == add(&a.mul_refs(&b), &a.mul_refs(&c)));
    check("a(b-c) == ab-ac", a.mul_refs(&sub(&b, &c)) == sub(&a.mul_refs(&b), &a.mul_refs(&c)));
}

fn right<R: Gen>() {
    let o = &mut vec![];
    let (a, b, c) = (R::gen("a", o), R::gen("b", o), R::gen("c", o));
    check("(a+b)c == ac+bc", add(&a, &b).mul_refs(&c) == add(&a.mul_refs(&c), &b.mul_refs(&c)));
    check("(-a)b == -(ab)", (-a.clone()).mul_refs(&b) == -a.mul_refs(&b));
    check("a(-b) == -(ab)", a.mul_refs(&-b.clone()) == -a.mul_refs(&b));
}

fn associative<R: Gen>() {
    let o = &mut vec![];
    let (a, b, c) = (R::gen("a", o), R::gen("b", o), R::gen("c", o));
    check("(ab)c == a(bc)", a.mul_refs(&b).mul_refs(&c) == a.mul_refs(&b.mul_refs(&c)));
}

/// The operators by value are the operations the axioms above speak about.
fn values<R: Gen>() {
    let o = &mut vec![];
    let (a, b) = (R::gen("a", o), R::gen("b", o));
    let (z, e) = (R::zero, R::one);
    check("a + b by value", a.clone() + b.clone() == add(&a, &b));
    check("a - b by value", a.clone() - b.clone() == sub(&a, &b));
    check("a * b by value", a.clone() * b.clone() == a.mul_refs(&b));
    check("a + 0 by value", a.clone() + z() == a);
    check("0 + a by value", z() + a.clone() == a);
    check("0 - a by value", z() - a.clone() == -a.clone());
    check("a - a by value", a.clone() - a.clone() == z());
    check("a * 1 by value", a.clone() * e() == a);
    check("1 * a by value", e() * a.clone() == a);
}

/// The equality the axioms are stated with is equality of all components.
fn equality<R: Gen>() {
    let (mut x, mut y) = (vec![], vec![]);
    let (a, b) = (R::gen("a", &mut x), R::gen("b", &mut y));
    let e = a == b;
    let want = all_eq(&x, &y);
    prove("== is equality of all components", if e { want } else { want.not() });
}

fn ring<R: Gen>(v: &mut Vec<Case>, deep: bool) {
    let n = R::name();
    v.push(case(format!("addition in {n}"), additive::<R>));
    v.push(case(format!("neutral elements in {n}"), neutral::<R>));
    v.push(case(format!("left distributivity in {n}"), left::<R>));
    v.push(case(format!("right distributivity in {n}"), right::<R>));
    v.push(case(format!("operators by value in {n}"), values::<R>));
    if deep {
        v.push(case(format!("associativity in {n}"), associative::<R>));
    }
    v.push(case(format!("equality in {n}"), equality::<R>).limit(100));
}

fn main() {
    symx::main("P12", |t| {
        let th = t == Tier::Thorough;
        let mut v = vec![];
        let v = &mut v;
        ring::<Sym>(v, true);
        ring::<M2>(v, true);
        ring::<Complex<Sym>>(v, true);
        ring::<Polynomial<Sym>>(v, true);
        ring::<SMatrix<Sym, 1, 1>>(v, true);
        ring::<SMatrix<Sym, 2, 2>>(v, true);
        ring::<SMatrix<Sym, 3, 3>>(v, true);
        ring::<SMatrix<Complex<Sym>, 2, 2>>(v, true);
        ring::<SMatrix<Polynomial<Sym>, 2, 2>>(v, true);
        ring::<Polynomial<SMatrix<Sym, 2, 2>>>(v, true);
        ring::<Polynomial<Complex<Sym>>>(v, true);
        ring::<Polynomial<Polynomial<Sym>>>(v, true);
        ring::<Complex<SMatrix<Sym, 2, 2>>>(v, true);
        ring::<Complex<Polynomial<Sym>>>(v, true);
        ring::<Complex<Complex<Sym>>>(v, true);
        ring::<SMatrix<SMatrix<Sym, 2, 2>, 2, 2>>(v, true);
        ring::<Complex<M2>>(v, true);
        ring::<Polynomial<M2>>(v, true);
        ring::<SMatrix<M2, 2, 2>>(v, true);
        ring::<Complex<SMatrix<Sym, 3, 3>>>(v, false);
        ring::<Polynomial<SMatrix<Sym, 3, 3>>>(v, false);
        ring::<SMatrix<SMatrix<Sym, 1, 1>, 3, 3>>(v, false);
        ring::<Complex<Polynomial<M2>>>(v, false);
        ring::<Polynomial<Complex<M2>>>(v, false);
        ring::<SMatrix<Complex<M2>, 2, 2>>(v, false);
        ring::<SMatrix<Sym, 4, 4>>(v, true);
        if !th {
            ring::<SMatrix<SMatrix<Sym, 3, 3>, 2, 2>>(v, false);
        }
        ring::<SMatrix<SMatrix<Sym, 2, 2>, 3, 3>>(v, false);
        ring::<Complex<Polynomial<SMatrix<Sym, 2, 2>>>>(v, true);
        ring::<Polynomial<Complex<SMatrix<Sym, 2, 2>>>>(v, true);
        ring::<SMatrix<Complex<Polynomial<Sym>>, 2, 2>>(v, true);
        ring::<SMatrix<Polynomial<Complex<Sym>>, 2, 2>>(v, true);
        ring::<Complex<SMatrix<Polynomial<Sym>, 2, 2>>>(v, true);
        ring::<Polynomial<Polynomial<Polynomial<Sym>>>>(v, true);
        if th {
            ring::<SMatrix<Sym, 5, 5>>(v, true);
            ring::<SMatrix<SMatrix<Sym, 3, 3>, 2, 2>>(v, true);
            ring::<SMatrix<SMatrix<Sym, 3, 3>, 3, 3>>(v, false);
            ring::<Complex<Complex<Complex<Sym>>>>(v, true);
            ring::<Complex<Complex<M2>>>(v, true);
            ring::<SMatrix<Polynomial<M2>, 2, 2>>(v, false);
            ring::<Polynomial<SMatrix<Complex<Sym>, 2, 2>>>(v, true);
            ring::<SMatrix<SMatrix<SMatrix<Sym, 2, 2>, 2, 2>, 2, 2>>(v, false);
        }
        std::mem::take(v)
    })
}
