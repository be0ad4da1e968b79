//! P03: polynomial equality, and the ring axioms under it.
use magnesia::algebra::{MulRefs, One, Polynomial, Zero};
use symx::*;

fn equality<T: Elem>(m: usize, n: usize) {
    let (a, b) = (anys::<T>("a", m), anys::<T>("b", n));
    let (p, q) = (poly(&a), poly(&b));
    api("Polynomial::eq");
    let e = p == q;
    let same = peqs(&a, &b);
    if e {
        prove("p == q answers true only for equal polynomials", same);
    } else {
        prove("p == q answers false only for different polynomials", same.not());
    }
    check("p != q is the opposite of p == q", (p != q) == !e);
    check("== is symmetric", (q == p) == e);
    check("== is reflexive", p == p.clone());
}

/// Equality with explicit zero padding, which the unconstrained lengths above also contain.
fn padded(m: usize, k: usize) {
    let a = anys::<Sym>("a", m);
    let mut b = a.clone();
    b.extend((0..k).map(|_| int(0)));
    check("padding with zeros does not matter", poly(&a) == poly(&b));
    check("padding with zeros does not matter (reversed)", poly(&b) == poly(&a));
    b.push(any("lead"));
    assume(any("lead").non0());
    check("a non-zero leading coefficient matters", poly(&a) != poly(&b));
    check("a non-zero leading coefficient matters (reversed)", poly(&b) != poly(&a));
}

fn axioms<T: Elem>(l: usize, m: usize, n: usize) {
    let (a, b, c) = (anys::<T>("a", l), anys::<T>("b", m), anys::<T>("c", n));
    let (p, q, r) = (poly(&a), poly(&b), poly(&c));
    let zero = Polynomial::<T>::zero;
    let one = Polynomial::<T>::one;
    let add = |x: &Polynomial<T>, y: &Polynomial<T>| x.clone() + y.clone();
    check("(p+q)+r == p+(q+r)", add(&add(&p, &q), &r) == add(&p, &add(&q, &r)));
    check("p+q == q+p", add(&p, &q) == add(&q, &p));
    check("p+0 == p", add(&p, &zero()) == p);
    check("0+p == p", add(&zero(), &p) == p);
    check("p+(-p) == 0", add(&p, &-p.clone()) == zero());
    check("p-p == 0", p.clone() - p.clone() == zero());
    check("0 == p-p", zero() == p.clone() - p.clone());
    let mut d = p.clone();
    d -= &p;
    check("p -= &p == 0", d == zero());
    let mut d = p.clone();
    d -= p.clone();
    check("p -= p == 0", d == zero());
    check("p-q == p+(-q)", p.clone() - q.clone() == add(&p, &-q.clone()));
    check("-(-p) == p", -(-p.clone()) == p);
    check("p*1 == p", p.mul_refs(&one()) == p);
    check("1*p == p", one().mul_refs(&p) == p);
    check("p*0 == 0", p.mul_refs(&zero()) == zero());
    check("0*p == 0", zero().mul_refs(&p) == zero());
    check("(pq)r == p(qr)", (p.mul_refs(&q)).mul_refs(&r) == p.mul_refs(&q.mul_refs(&r)));
    check("p(q+r) == pq+pr", p.mul_refs(&add(&q, &r)) == add(&p.mul_refs(&q), &p.mul_refs(&r)));
    check("(p+q)r == pr+qr", add(&p, &q).mul_refs(&r) == add(&p.mul_refs(&r), &q.mul_refs(&r)));
}

fn ints() {
    // zero() and one() as polynomials
    check("zero() has no non-zero coefficient", Polynomial::<Sym>::zero() == poly(&[int(0), int(0)]));
    check("one() is the constant 1", Polynomial::<Sym>::one() == poly(&[int(1)]));
    check("zero() != one()", Polynomial::<Sym>::zero() != Polynomial::<Sym>::one());
    let x = any("x");
    let p = poly(&[x]);
    if p == Polynomial::zero() {
        prove("constant zero", x.is0());
    } else {
        prove("constant not zero", x.non0());
    }
}

fn main() {
    symx::main("P03", |t| {
        let mut v = vec![case("constants", ints)];
        let l = t.pick(12, 16);
        for m in 0..=l {
            for n in 0..=l {
                v.push(case(format!("equality over R, lengths {m},{n}"), move || equality::<Sym>(m, n)));
                if m <= 3 && n <= 3 {
                    v.push(case(format!("equality over M2(R), lengths {m},{n}"), move || equality::<M2>(m, n)));
                }
            }
        }
        for (m, n) in [(0, 20), (20, 0), (16, 17), (17, 16), (33, 33), (1, 40), (40, 2), (64, 64), (65, 63), (63, 66), (128, 129), (130, 128), (257, 257), (255, 260), (1030, 1025), (0, 130), (130, 0), (3, 140), (140, 3), (70, 200), (200, 70), (0, 300), (300, 1), (1025, 1), (2, 1025)] {
            v.push(case(format!("equality over R, lengths {m},{n}"), move || equality::<Sym>(m, n)));
        }
        for m in [0, 1, 2, 3, 7, 8, 16, 31, 64, 129, 260, 1025] {
            for k in [1, 2, 3, 9, 16, 33, 70, 140, 1030] {
                v.push(case(format!("padding {m}+{k}"), move || padded(m, k)));
            }
        }
        let l = t.pick(4, 5);
        for a in 0..=l {
            for b in 0..=l {
                for c in 0..=l {
                    v.push(case(format!("ring axioms over R, lengths {a},{b},{c}"), move || axioms::<Sym>(a, b, c)));
                    if a <= 2 && b <= 2 && c <= 2 {
                        v.push(case(format!("ring axioms over M2(R), lengths {a},{b},{c}"), move || axioms::<M2>(a, b, c)));
                    }
                }
            }
        }
        for (a, b, c) in [(5, 3, 4), (1, 8, 2), (6, 6, 1)] {
            v.push(case(format!("ring axioms over R, lengths {a},{b},{c}"), move || axioms::<Sym>(a, b, c)));
        }
        v
    })
}
