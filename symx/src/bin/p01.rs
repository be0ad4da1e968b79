//! P01: polynomial + - * neg in every operator form, all length pairs.
use magnesia::algebra::{MulRefs, Polynomial};
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use symx::*;

fn additive<T: Elem>(m: usize, n: usize, deep: bool) {
    let (a, b) = (anys::<T>("a", m), anys::<T>("b", n));
    let (p, q) = (poly(&a), poly(&b));
    let sum = padd(&a, &b);
    let dif = psub(&a, &b);
    api("Polynomial::add(Polynomial)");
    same("p + q", &(p.clone() + q.clone()), &sum, deep);
    same("Add::add(p, q)", &Add::add(p.clone(), q.clone()), &sum, false);
    api("Polynomial::add_assign(Polynomial)");
    let mut r = p.clone();
    r += q.clone();
    same("p += q", &r, &sum, deep);
    api("Polynomial::add_assign(&Polynomial)");
    let mut r = p.clone();
    AddAssign::<&Polynomial<T>>::add_assign(&mut r, &q);
    same("p += &q", &r, &sum, deep);
    same("q after p += &q", &q, &b, false);
    api("Polynomial::sub(Polynomial)");
    same("p - q", &(p.clone() - q.clone()), &dif, deep);
    same("Sub::sub(p, q)", &Sub::sub(p.clone(), q.clone()), &dif, false);
    api("Polynomial::sub_assign(Polynomial)");
    let mut r = p.clone();
    r -= q.clone();
    same("p -= q", &r, &dif, deep);
    api("Polynomial::sub_assign(&Polynomial)");
    let mut r = p.clone();
    SubAssign::<&Polynomial<T>>::sub_assign(&mut r, &q);
    same("p -= &q", &r, &dif, deep);
    same("q after p -= &q", &q, &b, false);
    // the results are ordinary polynomials: keep computing with them
    let mut r = p.clone();
    r += &q;
    r -= q.clone();
    r += q.clone();
    r -= &p;
    same("p + q - q + q - p", &r, &b, false);
}

fn negation<T: Elem>(n: usize, deep: bool) {
    let a = anys::<T>("a", n);
    api("Polynomial::neg");
    same("-p", &-poly(&a), &pneg(&a), deep);
    same("-(-p)", &Neg::neg(-poly(&a)), &a, deep);
}

fn multiplicative<T: Elem>(m: usize, n: usize, deep: bool) {
    let (a, b) = (anys::<T>("a", m), anys::<T>("b", n));
    let (p, q) = (poly(&a), poly(&b));
    let want = pmul(&a, &b);
    api("Polynomial::mul(Polynomial)");
    same("p * q", &Mul::mul(p.clone(), q.clone()), &want, deep);
    api("&Polynomial::mul(&Polynomial)");
    same("&p * &q", &(&p * &q), &want, deep);
    same("p.mul_refs(q)", &p.mul_refs(&q), &want, false);
    same("p after &p * &q", &p, &a, false);
    same("q after &p * &q", &q, &b, false);
    api("Polynomial::mul_assign(Polynomial)");
    let mut r = p.clone();
    MulAssign::mul_assign(&mut r, q.clone());
    same("p *= q", &r, &want, deep);
    // squares: both factors are the same object
    if m <= 130 {
        let sq = pmul(&a, &a);
        same("&p * &p", &(&p * &p), &sq, false);
    }
}

fn main() {
    symx::main("P01", |t| {
        let mut v = vec![];
        let lim = t.pick(12, 20);
        let mut pairs: Vec<(usize, usize)> = vec![];
        for m in 0..=lim {
            for n in 0..=lim {
                pairs.push((m, n));
            }
        }
        let big = t.pick(
            vec![(0, 17), (1, 16), (16, 1), (15, 17), (17, 15), (31, 34), (3, 33), (33, 2), (32, 32), (65, 64), (64, 66), (0, 130), (129, 5), (127, 128), (129, 129), (257, 3), (256, 255), (5, 257), (511, 513), (1030, 1), (1000, 1025), (2, 4099)],
            vec![(0, 17), (1, 16), (16, 1), (15, 17), (17, 15), (31, 34), (3, 33), (33, 2), (32, 32), (65, 64), (64, 66), (0, 130), (129, 5), (100, 67), (127, 128), (129, 129), (256, 255), (257, 3), (300, 300), (513, 1000)],
        );
        pairs.extend(big);
        pairs.sort_by_key(|(m, n)| m + n);
        for &(m, n) in &pairs {
            v.push(case(format!("add/sub over R, lengths {m},{n}"), move || additive::<Sym>(m, n, m <= 5 && n <= 5)));
            if m <= 5 && n <= 5 {
                v.push(case(format!("add/sub over M2(R), lengths {m},{n}"), move || additive::<M2>(m, n, false)));
            }
        }
        for n in (0..=20).chain([33, 64, 65, 129]) {
            v.push(case(format!("neg over R, length {n}"), move || negation::<Sym>(n, n <= 8)));
        }
        for n in 0..=5 {
            v.push(case(format!("neg over M2(R), length {n}"), move || negation::<M2>(n, false)));
        }
        for &(m, n) in &pairs {
            if m * n <= t.pick(8500, 17_000) && m + n <= 1100 {
                v.push(case(format!("mul over R, lengths {m},{n}"), move || multiplicative::<Sym>(m, n, m <= 4 && n <= 4)));
            }
            if (m <= 4 && n <= 4) || [(15, 17), (1, 16), (16, 1)].contains(&(m, n)) || m * n <= t.pick(50, 150) {
                v.push(case(format!("mul over M2(R), lengths {m},{n}"), move || multiplicative::<M2>(m, n, false)));
            }
        }
        v
    })
}
