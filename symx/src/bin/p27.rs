//! P27: zeros keep the signs that scalar arithmetic gives them.
use magnesia::algebra::{Complex, Conj, One, Zero};
use magnesia::functions::{Cos, Cosh, Exp, Ln, Sin, Sinh, Tan};
use magnesia::linalg::{DVector, MatrixExpr, SMatrix, SVector, VectorExpr};
use symx::*;

type C = Complex<Sz>;

fn is(label: &str, z: C, re: Sz, im: Sz) {
    prove(&format!("{label}: real part"), z.re.same(&re));
    prove(&format!("{label}: imaginary part"), z.im.same(&im));
}
fn both(label: &str, e: bool, ne: bool, want: B) {
    prove(&format!("{label}: =="), if e { want.clone() } else { want.not() });
    check(&format!("{label}: != is the opposite"), ne == !e);
}
fn equal(a: &[Sz], b: &[Sz]) -> B {
    B::all(a.iter().zip(b).map(|(x, y)| x.v.eqs(y.v)).collect())
}

// ---- complex numbers ----

fn complex(part: usize) {
    let (a, b, c, d) = (Sz::any("a"), Sz::any("b"), Sz::any("c"), Sz::any("d"));
    let (z, w) = (C::new(a, b), C::new(c, d));
    match part {
        0 => both("z and w", z == w, z != w, a.v.eqs(c.v).and(b.v.eqs(d.v))),
        1 => {
            is("z + w", z + w, a + c, b + d);
            is("z - w", z - w, a - c, b - d);
            is("z - z", z - z, Sz::rzero(), Sz::rzero());
            let mut r = z;
            r += w;
            is("z += w", r, a + c, b + d);
            let mut r = z;
            r += &w;
            is("z += &w", r, a + c, b + d);
            let mut r = z;
            r -= w;
            is("z -= w", r, a - c, b - d);
            let mut r = z;
            r -= &w;
            is("z -= &w", r, a - c, b - d);
            is("-z", -z, -a, -b);
            is("conj z", Conj::conj(z), a, -b);
            is("conj conj z", Conj::conj(Conj::conj(z)), a, b);
            is("new", z, a, b);
            is("zero", C::zero(), Sz::rzero(), Sz::rzero());
            is("one", C::one(), Sz::rone(), Sz::rzero());
        }
        2 => is("z * t", z * c, a * c, b * c),
        _ => {
            assume(c.v.non0());
            is("z / t", z / c, a / c, b / c);
            is("z / &t", z / &c, a / c, b / c);
            is("&z / &t", &z / &c, a / c, b / c);
        }
    }
}

fn functions(k: usize) {
    let (x, y) = (Sz::any("x"), Sz::any("y"));
    let z = C::new(x, y);
    match k {
        0 => is("exp", z.exp(), x.exp() * y.cos(), x.exp() * y.sin()),
        1 => is("sin", z.sin(), x.sin() * y.cosh(), x.cos() * y.sinh()),
        2 => is("cos", z.cos(), x.cos() * y.cosh(), -(x.sin() * y.sinh())),
        3 => is("sinh", z.sinh(), x.sinh() * y.cos(), x.cosh() * y.sin()),
        4 => is("cosh", z.cosh(), x.cosh() * y.cos(), x.sinh() * y.sin()),
        5 => {
            let (cr, ci) = (x.v.cos() * y.v.cosh(), x.v.sin() * y.v.sinh());
            assume(cr.non0().or(ci.non0()));
            let (t, u) = (z.tan(), C::new(x, -y).tan());
            is("tan of the conjugate", u, t.re, -t.im);
        }
        6 => {
            assume(x.v.non0().or(y.v.non0()));
            prove("ln: imaginary part", z.ln().im.same(&magnesia::functions::Atan2::atan2(y, x)));
        }
        _ => prove("arg", z.arg().same(&magnesia::functions::Atan2::atan2(y, x))),
    }
}

// ---- static vectors and matrices ----

fn sv<const N: usize>() {
    let (a, b, t) = (anys::<Sz>("a", N), anys::<Sz>("b", N), Sz::any("t"));
    let v = |c: &[Sz]| SVector::<Sz, N>(std::array::from_fn(|i| c[i]));
    let (x, y) = (v(&a), v(&b));
    let (sum, diff) = (zipv(&a, &b, Sz::radd), zipv(&a, &b, Sz::rsub));
    prove_all("u + v", &(x + y).0, &sum);
    prove_all("u + &v", &(x + &y).0, &sum);
    prove_all("u - v", &(x - y).0, &diff);
    prove_all("u - &v", &(x - &y).0, &diff);
    let mut r = x;
    r += y;
    prove_all("u += v", &r.0, &sum);
    let mut r = x;
    r += &y;
    prove_all("u += &v", &r.0, &sum);
    let mut r = x;
    r -= y;
    prove_all("u -= v", &r.0, &diff);
    let mut r = x;
    r -= &y;
    prove_all("u -= &v", &r.0, &diff);
    let ta: Vec<Sz> = a.iter().map(|p| *p * t).collect();
    prove_all("u * t", &(x * t).0, &ta);
    prove_all("u * &t", &(x * &t).0, &ta);
    let mut r = x;
    r *= t;
    prove_all("u *= t", &r.0, &ta);
    let mut r = x;
    r *= &t;
    prove_all("u *= &t", &r.0, &ta);
    prove_all("zero", &SVector::<Sz, N>::zero().0, &[Sz::rzero(); N]);
    if N <= 5 {
        both("u and v", x == y, x != y, equal(&a, &b));
    }
}

/// The entries in the order in which they are printed.
fn entries(label: &str, x: impl std::fmt::Debug, want: &[Sz]) {
    let l = printed(&x);
    if l.len() == want.len() {
        prove_all(label, &l, want);
    }
}

fn sm<const M: usize, const N: usize>() {
    let (a, b) = (anym::<Sz>("a", M, N), anym::<Sz>("b", M, N));
    let m = |c: &Mat<Sz>| SMatrix::<Sz, M, N>::from(std::array::from_fn(|i| std::array::from_fn(|j| c[i][j])));
    let (x, y) = (m(&a), m(&b));
    let (a, b) = (a.concat(), b.concat());
    let (sum, diff) = (zipv(&a, &b, Sz::radd), zipv(&a, &b, Sz::rsub));
    entries("a + b", x + y, &sum);
    entries("a + &b", x + &y, &sum);
    entries("a - b", x - y, &diff);
    entries("a - &b", x - &y, &diff);
    let mut r = x;
    r += y;
    entries("a += b", r, &sum);
    let mut r = x;
    r += &y;
    entries("a += &b", r, &sum);
    let mut r = x;
    r -= y;
    entries("a -= b", r, &diff);
    let mut r = x;
    r -= &y;
    entries("a -= &b", r, &diff);
    entries("-a", -x, &a.iter().map(Sz::rneg).collect::<Vec<_>>());
    entries("conj", Conj::conj(x), &a);
    entries("zero", SMatrix::<Sz, M, N>::zero(), &vec![Sz::rzero(); M * N]);
    if M * N <= 6 {
        both("a and b", x == y, x != y, equal(&a, &b));
    }
}

fn sm_conj<const M: usize, const N: usize>() {
    let a = anym::<C>("a", M, N);
    let x = SMatrix::<C, M, N>::from(std::array::from_fn(|i| std::array::from_fn(|j| a[i][j])));
    let flat = |f: fn(&C) -> C| a.concat().iter().map(f).flat_map(|z| [z.re, z.im]).collect::<Vec<_>>();
    entries("conj", Conj::conj(x), &flat(C::rconj));
    entries("-a", -x, &flat(C::rneg));
}

// ---- dynamic vectors and matrices ----

fn program(m: usize, n: Option<usize>, depth: usize) {
    let mut g = Gen::new();
    let mut p = match n {
        None => {
            let (e, w) = g.leaf_v::<Sz>(m, 0);
            Prog::V(e, w)
        }
        Some(n) => {
            let (e, w) = g.leaf_m::<Sz>(m, n, 0);
            Prog::M(e, w)
        }
    };
    for _ in 0..depth {
        p = g.step(p);
    }
    finish(g, p);
}

fn dv<T: Num + std::ops::AddAssign + std::ops::SubAssign>(n: usize) {
    let (a, b) = (anys::<T>("a", n), anys::<T>("b", n));
    let (u, v): (DVector<T>, DVector<T>) = (a.as_slice().eval(), b.as_slice().eval());
    let (sum, diff) = (zipv(&a, &b, T::radd), zipv(&a, &b, T::rsub));
    let conj: Vec<T> = a.iter().map(T::rconj).collect();
    same_vec("stored", &u, &a);
    same_vec("&u + &v", &u + &v, &sum);
    same_vec("&u - &v", &u - &v, &diff);
    same_vec("wrapped u + v", u.clone().wrap() + v.clone(), &sum);
    same_vec("wrapped u - v", u.clone().wrap() - v.clone(), &diff);
    let mut r = u.clone();
    r += &v;
    same_dvec("u += &v", &r, &sum);
    let mut r = u.clone();
    r -= v.clone();
    same_dvec("u -= v", &r, &diff);
    same_vec("conj", u.conj(), &conj);
    same_vec("wrapped conj", u.clone().wrap().conj(), &conj);
    same_mat("diag", u.diag(), &diagonal(&a));
    same_vec("zeros", DVector::<T>::zeros(n), &vec![T::rzero(); n]);
    same_vec("ones", DVector::<T>::ones(n), &vec![T::rone(); n]);
}

fn dv_real(n: usize) {
    let (a, b) = (anys::<Sz>("a", n), anys::<Sz>("b", n));
    let (u, v): (DVector<Sz>, DVector<Sz>) = (a.as_slice().eval(), b.as_slice().eval());
    let prod = zipv(&a, &b, Sz::rmul);
    same_vec("mul_elemwise", u.mul_elemwise(&v), &prod);
    same_vec("wrapped mul_elemwise", u.clone().wrap().mul_elemwise(v.clone()), &prod);
    if n <= 5 {
        both("u and v", u == v, u != v, equal(&a, &b));
    }
    for x in &b {
        assume(x.v.non0());
    }
    let quot = zipv(&a, &b, |x, y| *x / *y);
    same_vec("div_elemwise", u.div_elemwise(&v), &quot);
    same_vec("wrapped div_elemwise", u.clone().wrap().div_elemwise(v.clone()), &quot);
}

fn dm<T: Num + std::ops::AddAssign + std::ops::SubAssign>(m: usize, n: usize) {
    let (a, b) = (RefM::<T>::any("a", m, n), RefM::<T>::any("b", m, n));
    let (x, y) = (a.stored(), b.stored());
    let (sum, diff) = (a.zip(&b, T::radd), a.zip(&b, T::rsub));
    same_mat("stored", &x, &a);
    same_mat("&a + &b", &x + &y, &sum);
    same_mat("&a - &b", &x - &y, &diff);
    same_mat("wrapped a + b", x.clone().wrap() + y.clone(), &sum);
    same_mat("wrapped a - b", x.clone().wrap() - y.clone(), &diff);
    let mut r = x.clone();
    r += &y;
    same_dmat("a += &b", &r, &sum);
    let mut r = x.clone();
    r -= y.clone();
    same_dmat("a -= b", &r, &diff);
    same_mat("t", x.t(), &a.t());
    same_mat("wrapped t", x.clone().wrap().t(), &a.t());
    let h = a.t().map(T::rconj);
    same_mat("h", x.h(), &h);
    same_mat("wrapped h", x.clone().wrap().h(), &h);
    same_vec("diag", x.diag(), &a.diag());
    same_vec("wrapped diag", x.clone().wrap().diag(), &a.diag());
}

fn dm_real(m: usize, n: usize) {
    let (a, b) = (RefM::<Sz>::any("a", m, n), RefM::<Sz>::any("b", m, n));
    let (x, y) = (a.stored(), b.stored());
    let prod = a.zip(&b, Sz::rmul);
    same_mat("mul_elemwise", x.mul_elemwise(&y), &prod);
    same_mat("wrapped mul_elemwise", x.clone().wrap().mul_elemwise(y.clone()), &prod);
    if m * n <= 5 {
        both("a and b", x == y, x != y, equal(&a.a.concat(), &b.a.concat()));
    }
    for e in b.a.iter().flatten() {
        assume(e.v.non0());
    }
    let quot = a.zip(&b, |x, y| *x / *y);
    same_mat("div_elemwise", x.div_elemwise(&y), &quot);
    same_mat("wrapped div_elemwise", x.clone().wrap().div_elemwise(y.clone()), &quot);
}

fn main() {
    symx::main("P27", |t| {
        let mut v = vec![];
        for part in 0..4 {
            v.push(case(format!("complex numbers, part {part}"), move || complex(part)));
        }
        for (k, f) in ["exp", "sin", "cos", "sinh", "cosh", "tan", "ln", "arg"].iter().enumerate() {
            v.push(case(f.to_string(), move || functions(k)));
        }
        macro_rules! svs {
            ($($n:literal)*) => { $(v.push(case(format!("static vectors of dimension {}", $n), sv::<$n>));)* };
        }
        svs!(0 1 2 3 4 5 6 7 8 9 15 16 17 31 32 33 65 129 257);
        macro_rules! sms {
            ($($m:literal $n:literal),*) => { $(
                v.push(case(format!("static matrices {}x{}", $m, $n), sm::<$m, $n>));
                v.push(case(format!("static complex matrices {}x{}", $m, $n), sm_conj::<$m, $n>));
            )* };
        }
        sms!(1 1, 1 2, 2 1, 2 2, 2 3, 3 2, 3 3, 1 5, 5 1, 3 4, 4 3, 4 4, 5 5, 4 6, 8 8, 9 3, 17 17, 1 65, 33 2);
        for n in (0..=t.pick(10, 40)).chain([15, 16, 17, 31, 32, 33, 64, 65, 129, 257, 1025]) {
            v.push(case(format!("dynamic vectors of length {n}"), move || dv::<Sz>(n)));
            v.push(case(format!("dynamic complex vectors of length {n}"), move || dv::<C>(n)));
            v.push(case(format!("elementwise products of length {n}"), move || dv_real(n)));
        }
        let k = t.pick(4, 8);
        let mut shapes: Vec<(usize, usize)> = (0..=k).flat_map(|m| (0..=k).map(move |n| (m, n))).collect();
        shapes.extend([(8, 8), (9, 7), (1, 17), (17, 1), (16, 16), (2, 33), (33, 2), (33, 34), (1, 257), (257, 1)]);
        for (m, n) in shapes {
            v.push(case(format!("dynamic matrices {m}x{n}"), move || dm::<Sz>(m, n)));
            v.push(case(format!("dynamic complex matrices {m}x{n}"), move || dm::<C>(m, n)));
            v.push(case(format!("elementwise products {m}x{n}"), move || dm_real(m, n)));
        }
        for n in [2, 3] {
            v.push(case(format!("compositions of vectors of length {n}"), move || program(n, None, t.pick(2, 3))).limit(100_000));
        }
        for (m, n) in [(2, 2), (2, 3), (3, 2)] {
            v.push(case(format!("compositions of matrices {m}x{n}"), move || program(m, Some(n), t.pick(2, 3))).limit(100_000));
        }
        v
    })
}
