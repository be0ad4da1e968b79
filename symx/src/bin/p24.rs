//! P24: undefined entries (NaN) are neither lost nor spread, and are equal to nothing.
use magnesia::algebra::{Complex, Conj, One, Polynomial, Zero};
use magnesia::linalg::{DVector, SMatrix, SVector, VectorExpr};
use symx::*;

fn both(label: &str, e: bool, ne: bool, want: B) {
    prove(&format!("{label}: =="), if e { want.clone() } else { want.not() });
    check(&format!("{label}: != is the opposite"), ne == !e);
}
fn equal(a: &[Nn], b: &[Nn]) -> B {
    B::all(a.iter().zip(b).map(|(x, y)| x.equal(y)).collect())
}
/// A number undefined exactly when one of these is.
fn any_of(l: &[Nn]) -> Nn {
    l.iter().fold(Nn::rzero(), |a, b| a.with(b))
}

// ---- complex numbers ----

type C = Complex<Nn>;

fn alike(label: &str, z: C, re: Nn, im: Nn) {
    prove(&format!("{label}: real part"), z.re.eqs(&re));
    prove(&format!("{label}: imaginary part"), z.im.eqs(&im));
}

fn complex(part: usize) {
    let (a, b, c, d) = (Nn::any("a"), Nn::any("b"), Nn::any("c"), Nn::any("d"));
    let (z, w) = (C::new(a, b), C::new(c, d));
    let (re, im, all) = (a.with(&c), b.with(&d), any_of(&[a, b, c, d]));
    match part {
        0 if choose(2) == 0 => both("z and w", z == w, z != w, a.equal(&c).and(b.equal(&d))),
        0 => {
            both("z and z", z == z, z != z, a.undefined().or(b.undefined()).not());
            both("z and a copy", z == z.clone(), z != z.clone(), a.undefined().or(b.undefined()).not());
        }
        1 => {
            alike("z + w", z + w, re, im);
            alike("z - w", z - w, re, im);
            alike("z - z", z - z, a, b);
            let mut r = z;
            r += w;
            alike("z += w", r, re, im);
            let mut r = z;
            r += &w;
            alike("z += &w", r, re, im);
            let mut r = z;
            r -= w;
            alike("z -= w", r, re, im);
            let mut r = z;
            r -= &w;
            alike("z -= &w", r, re, im);
            alike("-z", -z, a, b);
            alike("conj", Conj::conj(z), a, b);
            alike("zero", C::zero(), Nn::rzero(), Nn::rzero());
            alike("one", C::one(), Nn::rzero(), Nn::rzero());
            prove("sqr_norm", z.sqr_norm().eqs(&a.with(&b)));
        }
        2 => {
            alike("z * w", z * w, all, all);
            alike("&z * &w", &z * &w, all, all);
            alike("z * z", z * z, a.with(&b), a.with(&b));
            alike("&z * &z", &z * &z, a.with(&b), a.with(&b));
            let mut r = z;
            r *= w;
            alike("z *= w", r, all, all);
            alike("z * t", z * c, a.with(&c), b.with(&c));
        }
        3 => {
            assume((c.v * c.v + d.v * d.v).non0());
            alike("z / w", z / w, all, all);
            alike("&z / &w", &z / &w, all, all);
            alike("w / w", w / w, c.with(&d), c.with(&d));
            alike("&w / &w", &w / &w, c.with(&d), c.with(&d));
        }
        _ => {
            assume(c.v.non0());
            alike("z / t", z / c, a.with(&c), b.with(&c));
            alike("z / &t", z / &c, a.with(&c), b.with(&c));
            alike("&z / &t", &z / &c, a.with(&c), b.with(&c));
        }
    }
}

// ---- static vectors and matrices ----

fn sv<const N: usize>() {
    let (a, b, t) = (anys::<Nn>("a", N), anys::<Nn>("b", N), Nn::any("t"));
    let v = |c: &[Nn]| SVector::<Nn, N>(std::array::from_fn(|i| c[i]));
    let (x, y) = (v(&a), v(&b));
    let sum = zipv(&a, &b, Nn::radd);
    prove_all("u + v", &(x + y).0, &sum);
    prove_all("u - v", &(x - y).0, &sum);
    prove_all("u + &v", &(x + &y).0, &sum);
    prove_all("u - &v", &(x - &y).0, &sum);
    prove_all("u - &u", &(x - &x).0, &a);
    prove_all("u - u", &(x - x).0, &a);
    let mut r = x;
    r += y;
    prove_all("u += v", &r.0, &sum);
    let mut r = x;
    r -= &y;
    prove_all("u -= &v", &r.0, &sum);
    let mut r = x;
    r += &y;
    prove_all("u += &v", &r.0, &sum);
    let mut r = x;
    r -= y;
    prove_all("u -= v", &r.0, &sum);
    let mut r = x;
    r *= &t;
    prove_all("u *= &t", &r.0, &zipv(&a, &vec![t; N], Nn::radd));
    let ta: Vec<Nn> = a.iter().map(|p| p.with(&t)).collect();
    prove_all("u * t", &(x * t).0, &ta);
    prove_all("u * &t", &(x * &t).0, &ta);
    let mut r = x;
    r *= t;
    prove_all("u *= t", &r.0, &ta);
    prove("u * v", (x * y).eqs(&any_of(&a).with(&any_of(&b))));
    prove("u * &v", (x * &y).eqs(&any_of(&a).with(&any_of(&b))));
    prove("u * &u", (x * &x).eqs(&any_of(&a)));
    prove_all("zero", &SVector::<Nn, N>::zero().0, &vec![Nn::rzero(); N]);
}

fn sv_equal<const N: usize>() {
    let (a, b) = (anys::<Nn>("a", N), anys::<Nn>("b", N));
    let (x, y) = (SVector::<Nn, N>(std::array::from_fn(|i| a[i])), SVector::<Nn, N>(std::array::from_fn(|i| b[i])));
    match choose(2) {
        0 => both("u and v", x == y, x != y, equal(&a, &b)),
        _ => both("u and u", x == x, x != x, equal(&a, &a)),
    }
}

fn rows<const M: usize, const N: usize>(label: &str, x: &SMatrix<Nn, M, N>, want: &[Nn]) {
    let ones = SVector::<Nn, N>([Nn::rone(); N]);
    prove_all(label, &(x * &ones).0, want);
}

fn sm<const M: usize, const N: usize>() {
    let (a, b) = (anym::<Nn>("a", M, N), anym::<Nn>("b", M, N));
    let m = |c: &Mat<Nn>| SMatrix::<Nn, M, N>::from(std::array::from_fn(|i| std::array::from_fn(|j| c[i][j])));
    let (x, y) = (m(&a), m(&b));
    let ra: Vec<Nn> = a.iter().map(|r| any_of(r)).collect();
    let rb: Vec<Nn> = b.iter().map(|r| any_of(r)).collect();
    let rab = zipv(&ra, &rb, Nn::radd);
    rows("a + b", &(x + y), &rab);
    rows("a - b", &(x - y), &rab);
    rows("a - a", &(x - x), &ra);
    rows("a - &a", &(x - &x), &ra);
    rows("a + &b", &(x + &y), &rab);
    rows("a - &b", &(x - &y), &rab);
    let mut r = x;
    r += y;
    rows("a += b", &r, &rab);
    let mut r = x;
    r -= &y;
    rows("a -= &b", &r, &rab);
    let mut r = x;
    r += &y;
    rows("a += &b", &r, &rab);
    let mut r = x;
    r -= y;
    rows("a -= b", &r, &rab);
    rows("-a", &-x, &ra);
    rows("conj", &Conj::conj(x), &ra);
    rows("zero", &SMatrix::<Nn, M, N>::zero(), &vec![Nn::rzero(); M]);
    rows("one", &SMatrix::<Nn, M, N>::one(), &vec![Nn::rzero(); M]);
    let v = anys::<Nn>("v", N);
    let w = SVector::<Nn, N>(std::array::from_fn(|i| v[i]));
    let all = any_of(&v);
    prove_all("a * v", &(&x * &w).0, &ra.iter().map(|p| p.with(&all)).collect::<Vec<_>>());
}

fn sm_equal<const M: usize, const N: usize>() {
    let (a, b) = (anym::<Nn>("a", M, N), anym::<Nn>("b", M, N));
    let m = |c: &Mat<Nn>| SMatrix::<Nn, M, N>::from(std::array::from_fn(|i| std::array::from_fn(|j| c[i][j])));
    let (x, y) = (m(&a), m(&b));
    match choose(2) {
        0 => both("a and b", x == y, x != y, equal(&a.concat(), &b.concat())),
        _ => both("a and a", x == x, x != x, equal(&a.concat(), &a.concat())),
    }
}

fn sm_mul<const L: usize, const M: usize, const N: usize>() {
    let (a, b) = (anym::<Nn>("a", L, M), anym::<Nn>("b", M, N));
    let x = SMatrix::<Nn, L, M>::from(std::array::from_fn(|i| std::array::from_fn(|j| a[i][j])));
    let y = SMatrix::<Nn, M, N>::from(std::array::from_fn(|i| std::array::from_fn(|j| b[i][j])));
    let right = any_of(&b.concat());
    let want: Vec<Nn> = a.iter().map(|r| any_of(r).with(&right)).collect();
    rows("a * b", &(x * y), &want);
    rows("&a * &b", &(&x * &y), &want);
}

fn sm_square<const N: usize>() {
    let a = anym::<Nn>("a", N, N);
    let x = SMatrix::<Nn, N, N>::from(std::array::from_fn(|i| std::array::from_fn(|j| a[i][j])));
    let all = any_of(&a.concat());
    rows("&a * &a", &(&x * &x), &vec![all; N]);
    let y = x;
    let mut r = x;
    r *= &y;
    rows("a *= &a", &r, &vec![all; N]);
    let mut r = x;
    r *= y;
    rows("a *= a", &r, &vec![all; N]);
}

// ---- dynamic vectors and matrices ----

fn program(m: usize, n: Option<usize>, depth: usize) {
    let mut g = Gen::new();
    let mut p = match n {
        None => {
            let (e, w) = g.leaf_v::<Nn>(m, 0);
            Prog::V(e, w)
        }
        Some(n) => {
            let (e, w) = g.leaf_m::<Nn>(m, n, 0);
            Prog::M(e, w)
        }
    };
    for _ in 0..depth {
        p = g.step(p);
    }
    finish(g, p);
}

fn dv(n: usize) {
    let (a, b) = (anys::<Nn>("a", n), anys::<Nn>("b", n));
    let (u, v): (DVector<Nn>, DVector<Nn>) = (a.as_slice().eval(), b.as_slice().eval());
    let sum = zipv(&a, &b, Nn::radd);
    same_vec("&u + &v", &u + &v, &sum);
    same_vec("&u - &v", &u - &v, &sum);
    same_vec("&u - &u", &u - &u, &a);
    let mut r = u.clone();
    r += &v;
    same_dvec("u += &v", &r, &sum);
    let mut r = u.clone();
    r -= v.clone();
    same_dvec("u -= v", &r, &sum);
    let mut r = u.clone();
    r -= &u;
    same_dvec("u -= &u", &r, &a);
    same_vec("mul_elemwise", u.mul_elemwise(&v), &sum);
    same_vec("conj", u.conj(), &a);
    let all = any_of(&a).with(&any_of(&b));
    prove("&u * &v", (&u * &v).eqs(&all));
    prove("u * v", (u.clone() * v.clone()).eqs(&all));
    prove("&u * &u", (&u * &u).eqs(&any_of(&a)));
    for x in &b {
        assume(x.v.non0());
    }
    same_vec("div_elemwise", u.div_elemwise(&v), &sum);
}

fn dv_equal(n: usize) {
    let (a, b) = (anys::<Nn>("a", n), anys::<Nn>("b", n));
    let (u, v): (DVector<Nn>, DVector<Nn>) = (a.as_slice().eval(), b.as_slice().eval());
    match choose(3) {
        0 => both("u and v", u == v, u != v, equal(&a, &b)),
        1 => both("u and u", u == u, u != u, equal(&a, &a)),
        _ => both("u and a copy", u == u.clone(), u != u.clone(), equal(&a, &a)),
    }
}

fn dm(m: usize, n: usize) {
    let (a, b) = (RefM::<Nn>::any("a", m, n), RefM::<Nn>::any("b", m, n));
    let (x, y) = (a.stored(), b.stored());
    let sum = a.zip(&b, Nn::radd);
    same_mat("&a + &b", &x + &y, &sum);
    same_mat("&a - &b", &x - &y, &sum);
    same_mat("&a - &a", &x - &x, &a);
    let mut r = x.clone();
    r += &y;
    same_dmat("a += &b", &r, &sum);
    let mut r = x.clone();
    r -= y.clone();
    same_dmat("a -= b", &r, &sum);
    same_mat("mul_elemwise", x.mul_elemwise(&y), &sum);
    same_mat("t", x.t(), &a.t());
    same_mat("h", x.h(), &a.t());
    same_vec("diag", x.diag(), &a.diag());
    for e in b.a.iter().flatten() {
        assume(e.v.non0());
    }
    same_mat("div_elemwise", x.div_elemwise(&y), &sum);
}

fn dm_equal(m: usize, n: usize) {
    let (a, b) = (RefM::<Nn>::any("a", m, n), RefM::<Nn>::any("b", m, n));
    let (x, y) = (a.stored(), b.stored());
    match choose(3) {
        0 => both("a and b", x == y, x != y, equal(&a.a.concat(), &b.a.concat())),
        1 => both("a and a", x == x, x != x, equal(&a.a.concat(), &a.a.concat())),
        _ => both("a and a copy", x == x.clone(), x != x.clone(), equal(&a.a.concat(), &a.a.concat())),
    }
}

fn dm_mul(l: usize, m: usize, n: usize) {
    let (a, b) = (RefM::<Nn>::any("a", l, m), RefM::<Nn>::any("b", m, n));
    let (x, y) = (a.stored(), b.stored());
    let bt = b.t();
    let w = RefM::new(l, n, |i, j| any_of(&a.a[i]).with(&any_of(&bt.a[j])));
    same_mat("&a * &b", &x * &y, &w);
    if l == m && m == n {
        let at = a.t();
        same_mat("&a * &a", &x * &x, &RefM::new(l, l, |i, j| any_of(&a.a[i]).with(&any_of(&at.a[j]))));
    }
}

// ---- polynomials ----

/// Undefined at a point exactly when one of these is.
fn somewhere(label: &str, p: &Polynomial<Nn>, want: &[Nn]) {
    let x = Nn::of(any("x"));
    prove(label, p.eval_ref(&x).eqs(&any_of(want)));
    prove(label, p.eval(x).eqs(&any_of(want)));
}

fn polynomials(m: usize, n: usize) {
    let (a, b) = (anys::<Nn>("a", m), anys::<Nn>("b", n));
    let (p, q) = (poly(&a), poly(&b));
    let all = [a.as_slice(), b.as_slice()].concat();
    somewhere("p", &p, &a);
    somewhere("p + q", &(p.clone() + q.clone()), &all);
    somewhere("p - q", &(p.clone() - q.clone()), &all);
    somewhere("p - p", &(p.clone() - p.clone()), &a);
    somewhere("-p", &-p.clone(), &a);
    let mut r = p.clone();
    r += &q;
    somewhere("p += &q", &r, &all);
    let mut r = p.clone();
    r -= &q;
    somewhere("p -= &q", &r, &all);
    if m > 0 && n > 0 {
        somewhere("p * q", &(p.clone() * q.clone()), &all);
        somewhere("&p * &q", &(&p * &q), &all);
        somewhere("&p * &p", &(&p * &p), &a);
        let mut r = p.clone();
        r *= q.clone();
        somewhere("p *= q", &r, &all);
    }
    if m > 1 {
        let x = Nn::any("y");
        prove("p at an undefined point", p.eval_ref(&x).eqs(&any_of(&a).with(&x)));
    }
    somewhere("zero", &Polynomial::<Nn>::zero(), &[]);
    somewhere("one", &Polynomial::<Nn>::one(), &[]);
}

fn poly_equal(m: usize, n: usize) {
    let (a, b) = (anys::<Nn>("a", m), anys::<Nn>("b", n));
    let (p, q) = (poly(&a), poly(&b));
    let k = m.min(n);
    let rest = a[k..].iter().chain(&b[k..]).map(|x| x.equal(&Nn::rzero())).collect();
    let want = equal(&a[..k], &b[..k]).and(B::all(rest));
    match choose(4) {
        0 => both("p and q", p == q, p != q, want.clone()),
        1 => both("q and p", q == p, q != p, want),
        2 => both("p and p", p == p, p != p, equal(&a, &a)),
        _ => both("p and a copy", p == p.clone(), p != p.clone(), equal(&a, &a)),
    }
}

fn main() {
    symx::main("P24", |t| {
        let mut v = vec![];
        for part in 0..5 {
            v.push(case(format!("complex numbers, part {part}"), move || complex(part)));
        }
        macro_rules! svs {
            ($($n:literal)*) => { $(
                v.push(case(format!("static vectors of dimension {}", $n), sv::<$n>));
                if $n <= t.pick(17, 33) {
                    v.push(case(format!("equality of static vectors of dimension {}", $n), sv_equal::<$n>));
                }
            )* };
        }
        svs!(0 1 2 3 4 5 6 7 8 9 16 17 33 65 129);
        macro_rules! sms {
            ($($m:literal $n:literal),*) => { $(
                v.push(case(format!("static matrices {}x{}", $m, $n), sm::<$m, $n>));
                if $m * $n <= t.pick(17, 36) {
                    v.push(case(format!("equality of static matrices {}x{}", $m, $n), sm_equal::<$m, $n>));
                }
            )* };
        }
        sms!(1 1, 1 2, 2 1, 2 2, 2 3, 3 2, 3 3, 1 5, 5 1, 4 4, 5 5, 4 6, 8 8, 9 3, 17 17, 1 65, 33 2);
        macro_rules! prods {
            ($($l:literal $m:literal $n:literal),*) => { $(
                v.push(case(format!("static product {}x{} * {}x{}", $l, $m, $m, $n), sm_mul::<$l, $m, $n>));
            )* };
        }
        v.push(case("square of a static matrix 2x2", sm_square::<2>));
        v.push(case("square of a static matrix 3x3", sm_square::<3>));
        v.push(case("square of a static matrix 5x5", sm_square::<5>));
        prods!(1 1 1, 1 2 1, 2 1 2, 2 2 2, 2 3 4, 4 3 2, 3 3 3, 4 4 4, 5 5 5, 1 8 1, 1 9 2, 8 8 8, 3 17 2);
        for n in (0..=10).chain([15, 16, 17, 32, 33, 64, 65, 129, 257, 1025]) {
            v.push(case(format!("dynamic vectors of length {n}"), move || dv(n)));
            if n <= t.pick(17, 33) {
                v.push(case(format!("equality of dynamic vectors of length {n}"), move || dv_equal(n)));
            }
        }
        let k = t.pick(4, 6);
        let mut shapes: Vec<(usize, usize)> = (0..=k).flat_map(|m| (0..=k).map(move |n| (m, n))).collect();
        shapes.extend([(8, 8), (9, 7), (1, 17), (17, 1), (16, 16), (2, 33), (33, 34), (1, 129), (257, 1)]);
        for (m, n) in shapes {
            v.push(case(format!("dynamic matrices {m}x{n}"), move || dm(m, n)));
            if m * n <= t.pick(17, 36) {
                v.push(case(format!("equality of dynamic matrices {m}x{n}"), move || dm_equal(m, n)));
            }
        }
        for l in 1..=t.pick(4, 6) {
            for m in 1..=t.pick(5, 8) {
                for n in 1..=t.pick(4, 6) {
                    v.push(case(format!("dynamic product {l}x{m} * {m}x{n}"), move || dm_mul(l, m, n)));
                }
            }
        }
        for (l, m, n) in [(2, 9, 2), (8, 8, 8), (3, 16, 2), (1, 33, 1), (2, 17, 3), (9, 9, 9), (1, 65, 1), (16, 16, 16), (17, 18, 19), (2, 129, 1), (1, 257, 1)] {
            v.push(case(format!("dynamic product {l}x{m} * {m}x{n}"), move || dm_mul(l, m, n)));
        }
        for n in [2, 3] {
            v.push(case(format!("compositions of vectors of length {n}"), move || program(n, None, t.pick(2, 3))).limit(100_000));
        }
        for (m, n) in [(2, 2), (2, 3), (3, 2)] {
            v.push(case(format!("compositions of matrices {m}x{n}"), move || program(m, Some(n), t.pick(2, 3))).limit(100_000));
        }
        let k = t.pick(7, 12);
        let mut pairs: Vec<(usize, usize)> = (0..=k).flat_map(|m| (0..=k).map(move |n| (m, n))).collect();
        pairs.extend([(16, 17), (17, 3), (3, 17), (33, 32), (1, 40), (40, 1), (65, 2)]);
        for (m, n) in pairs {
            v.push(case(format!("polynomials of lengths {m},{n}"), move || polynomials(m, n)));
            if m + n <= t.pick(18, 36) {
                v.push(case(format!("equality of polynomials of lengths {m},{n}"), move || poly_equal(m, n)));
            }
        }
        v
    })
}
