//! P11: static matrices.
use magnesia::algebra::{Complex, Conj, One, Zero};
use magnesia::linalg::{SMatrix, SVector};
use std::ops::*;
use symx::*;

type Mat<T> = Vec<Vec<T>>;

fn mat<T: Elem>(name: &str, m: usize, n: usize) -> Mat<T> {
    (0..m).map(|i| (0..n).map(|j| T::any(&format!("{name}{i}{}{j}", if m.max(n) > 9 { "_" } else { "" }))).collect()).collect()
}

fn sm<T: Elem, const M: usize, const N: usize>(c: &Mat<T>) -> SMatrix<T, M, N> {
    SMatrix::from(std::array::from_fn(|i| std::array::from_fn(|j| c[i][j].clone())))
}

fn entrywise<T: Elem>(a: &Mat<T>, b: &Mat<T>, f: impl Fn(&T, &T) -> T) -> Mat<T> {
    a.iter().zip(b).map(|(r, s)| r.iter().zip(s).map(|(x, y)| f(x, y)).collect()).collect()
}

fn fill<T: Elem>(m: usize, n: usize, f: impl Fn(usize, usize) -> T) -> Mat<T> {
    (0..m).map(|i| (0..n).map(|j| f(i, j)).collect()).collect()
}

/// The entries are read off through `==` and through products with the unit vectors.
fn same<T: Elem, const M: usize, const N: usize>(label: &str, x: &SMatrix<T, M, N>, want: &Mat<T>) {
    let w = sm::<T, M, N>(want);
    check(&format!("{label}: =="), x == &w);
    for j in 0..N {
        let e = SVector::<T, N>(std::array::from_fn(|k| if k == j { T::rone() } else { T::rzero() }));
        let c = x * &e;
        for i in 0..M {
            prove(&format!("{label}[{i},{j}]"), c.0[i].eqs(&want[i][j]));
        }
    }
}

fn additive<T: Elem, const M: usize, const N: usize>() {
    let (a, b) = (mat::<T>("a", M, N), mat::<T>("b", M, N));
    let (x, y) = (|| sm::<T, M, N>(&a), || sm::<T, M, N>(&b));
    let sum = entrywise(&a, &b, T::radd);
    let dif = entrywise(&a, &b, T::rsub);
    api("SMatrix::from");
    same("from", &x(), &a);
    api("SMatrix::add(SMatrix)");
    same("a + b", &Add::<SMatrix<T, M, N>>::add(x(), y()), &sum);
    api("SMatrix::add(&SMatrix)");
    let w = y();
    same("a + &b", &Add::<&SMatrix<T, M, N>>::add(x(), &w), &sum);
    api("SMatrix::add_assign(SMatrix)");
    let mut r = x();
    AddAssign::<SMatrix<T, M, N>>::add_assign(&mut r, y());
    same("a += b", &r, &sum);
    api("SMatrix::add_assign(&SMatrix)");
    let mut r = x();
    AddAssign::<&SMatrix<T, M, N>>::add_assign(&mut r, &w);
    same("a += &b", &r, &sum);
    api("SMatrix::sub(SMatrix)");
    same("a - b", &Sub::<SMatrix<T, M, N>>::sub(x(), y()), &dif);
    api("SMatrix::sub(&SMatrix)");
    same("a - &b", &Sub::<&SMatrix<T, M, N>>::sub(x(), &w), &dif);
    api("SMatrix::sub_assign(SMatrix)");
    let mut r = x();
    SubAssign::<SMatrix<T, M, N>>::sub_assign(&mut r, y());
    same("a -= b", &r, &dif);
    api("SMatrix::sub_assign(&SMatrix)");
    let mut r = x();
    SubAssign::<&SMatrix<T, M, N>>::sub_assign(&mut r, &w);
    same("a -= &b", &r, &dif);
    same("b unchanged", &w, &b);
    let r = x();
    same("a + &a", &(r.clone() + &r), &entrywise(&a, &a, T::radd));
    api("SMatrix::neg");
    same("-a", &-x(), &fill(M, N, |i, j| a[i][j].rneg()));
    api("SMatrix::conj");
    same("conj a", &x().conj(), &fill(M, N, |i, j| a[i][j].rconj()));
    api("SMatrix::zero");
    same("zero()", &SMatrix::<T, M, N>::zero(), &fill(M, N, |_, _| T::rzero()));
    api("SMatrix::one");
    same("one()", &SMatrix::<T, M, N>::one(), &fill(M, N, |i, j| if i == j { T::rone() } else { T::rzero() }));
}

fn equality<T: Elem, const M: usize, const N: usize>() {
    let (a, b) = (mat::<T>("a", M, N), mat::<T>("b", M, N));
    let (x, y) = (sm::<T, M, N>(&a), sm::<T, M, N>(&b));
    api("SMatrix::eq");
    let e = x == y;
    let want = all_eq(&a.concat(), &b.concat());
    prove("== compares all entries", if e { want } else { want.not() });
    check("!= is the opposite of ==", (x != y) == !e);
}

fn product<T: Elem>(a: &Mat<T>, b: &Mat<T>, l: usize, m: usize, n: usize) -> Mat<T> {
    fill(l, n, |i, j| {
        let mut s = T::rzero();
        for k in (0..m).rev() {
            s = s.radd(&a[i][k].rmul(&b[k][j]));
        }
        s
    })
}

fn mul<T: Elem, const L: usize, const M: usize, const N: usize>() {
    let (a, b) = (mat::<T>("a", L, M), mat::<T>("b", M, N));
    let (x, y) = (sm::<T, L, M>(&a), sm::<T, M, N>(&b));
    let want = product(&a, &b, L, M, N);
    api("&SMatrix::mul(&SMatrix)");
    same("&a * &b", &(&x * &y), &want);
    api("SMatrix::mul(SMatrix)");
    same("a * b", &(x.clone() * y.clone()), &want);
    same("a unchanged", &x, &a);
    same("b unchanged", &y, &b);
}

fn mul_assign<T: Elem, const M: usize, const N: usize>() {
    let (a, b) = (mat::<T>("a", M, N), mat::<T>("b", N, N));
    let (x, y) = (sm::<T, M, N>(&a), sm::<T, N, N>(&b));
    let want = product(&a, &b, M, N, N);
    api("SMatrix::mul_assign(&SMatrix)");
    let mut r = x.clone();
    MulAssign::<&SMatrix<T, N, N>>::mul_assign(&mut r, &y);
    same("a *= &b", &r, &want);
    same("b unchanged", &y, &b);
    api("SMatrix::mul_assign(SMatrix)");
    let mut r = x.clone();
    MulAssign::<SMatrix<T, N, N>>::mul_assign(&mut r, y.clone());
    same("a *= b", &r, &want);
    // again, on the result
    r *= &y;
    check("a *= b, *= &b: ==", r == sm::<T, M, N>(&product(&want, &b, M, N, N)));
}

fn square<T: Elem, const N: usize>() {
    let a = mat::<T>("a", N, N);
    let x = sm::<T, N, N>(&a);
    same("&a * &a", &(&x * &x), &product(&a, &a, N, N, N));
    let mut r = x.clone();
    r *= &x;
    same("a *= &a", &r, &product(&a, &a, N, N, N));
    same("a unchanged", &x, &a);
}

fn mul_vec<T: Elem, const M: usize, const N: usize>() {
    let a = mat::<T>("a", M, N);
    let u = anys::<T>("u", N);
    let x = sm::<T, M, N>(&a);
    let v = SVector::<T, N>(std::array::from_fn(|i| u[i].clone()));
    api("&SMatrix::mul(&SVector)");
    let r = &x * &v;
    for i in 0..M {
        let mut s = T::rzero();
        for k in (0..N).rev() {
            s = s.radd(&a[i][k].rmul(&u[k]));
        }
        prove(&format!("(a * u)[{i}]"), r.0[i].eqs(&s));
    }
    prove_all("u unchanged", &v.0, &u);
}

fn shape<const M: usize, const N: usize>(v: &mut Vec<Case>) {
    v.push(case(format!("additive over R, {M}x{N}"), additive::<Sym, M, N>));
    v.push(case(format!("equality over R, {M}x{N}"), equality::<Sym, M, N>));
    v.push(case(format!("matrix times vector over R, {M}x{N}"), mul_vec::<Sym, M, N>));
    v.push(case(format!("*= over R, {M}x{N}"), mul_assign::<Sym, M, N>));
    if M * N <= 66 {
        v.push(case(format!("matrix times vector over M2(R), {M}x{N}"), mul_vec::<M2, M, N>));
    }
    if M <= 3 && N <= 3 || N == 5 {
        v.push(case(format!("additive over M2(R), {M}x{N}"), additive::<M2, M, N>));
        v.push(case(format!("*= over M2(R), {M}x{N}"), mul_assign::<M2, M, N>));
    }
}

fn entries<const M: usize, const N: usize>(v: &mut Vec<Case>) {
    v.push(case(format!("additive over R, {M}x{N} alone"), additive::<Sym, M, N>));
    v.push(case(format!("matrix times vector over R, {M}x{N} alone"), mul_vec::<Sym, M, N>));
}

fn prod<const L: usize, const M: usize, const N: usize>(v: &mut Vec<Case>) {
    v.push(case(format!("product over R, {L}x{M} by {M}x{N}"), mul::<Sym, L, M, N>));
    if L * M * N <= 1100 {
        v.push(case(format!("product over M2(R), {L}x{M} by {M}x{N}"), mul::<M2, L, M, N>));
    }
}

macro_rules! cross {
    ($f:ident, $v:ident; $($m:literal)*; $ns:tt) => { $( cross!(@ $f, $v, $m, $ns); )* };
    (@ $f:ident, $v:ident, $m:literal, ($($n:literal)*)) => { $( $f::<$m, $n>(&mut $v); )* };
}
macro_rules! cube {
    ($f:ident, $v:ident; $($l:literal)*; $ms:tt; $ns:tt) => { $( cube!(@ $f, $v, $l, $ms, $ns); )* };
    (@ $f:ident, $v:ident, $l:literal, ($($m:literal)*), $ns:tt) => { $( cube!(# $f, $v, $l, $m, $ns); )* };
    (# $f:ident, $v:ident, $l:literal, $m:literal, ($($n:literal)*)) => { $( $f::<$l, $m, $n>(&mut $v); )* };
}

fn main() {
    symx::main("P11", |t| {
        let mut v = vec![];
        cross!(shape, v; 0 1 2 3 4; (0 1 2 3 4));
        shape::<5, 5>(&mut v);
        shape::<1, 9>(&mut v);
        shape::<9, 1>(&mut v);
        shape::<6, 7>(&mut v);
        shape::<8, 3>(&mut v);
        shape::<8, 8>(&mut v);
        cube!(prod, v; 0 1 2 3; (0 1 2 3); (0 1 2 3));
        prod::<4, 4, 4>(&mut v);
        prod::<5, 2, 6>(&mut v);
        prod::<1, 9, 1>(&mut v);
        prod::<2, 17, 2>(&mut v);
        prod::<1, 33, 2>(&mut v);
        prod::<2, 8, 9>(&mut v);
        prod::<8, 8, 8>(&mut v);
        v.push(case("additive over C, 2x3", additive::<Complex<Sym>, 2, 3>));
        v.push(case("product over C, 2x2 by 2x2", mul::<Complex<Sym>, 2, 2, 2>));
        v.push(case("square over M2(R), 2x2", square::<M2, 2>));
        v.push(case("square over M2(R), 3x3", square::<M2, 3>));
        v.push(case("square over R, 5x5", square::<Sym, 5>));
        cross!(shape, v; 5 6; (1 2 3 4 6));
        shape::<16, 16>(&mut v);
        shape::<17, 2>(&mut v);
        shape::<2, 33>(&mut v);
        prod::<16, 16, 16>(&mut v);
        prod::<1, 65, 1>(&mut v);
        prod::<3, 32, 3>(&mut v);
        prod::<17, 4, 5>(&mut v);
        prod::<5, 5, 5>(&mut v);
        prod::<6, 6, 6>(&mut v);
        prod::<7, 7, 7>(&mut v);
        prod::<2, 129, 2>(&mut v);
        prod::<17, 33, 9>(&mut v);
        prod::<9, 10, 11>(&mut v);
        prod::<24, 24, 24>(&mut v);
        entries::<33, 31>(&mut v);
        entries::<1, 129>(&mut v);
        entries::<129, 1>(&mut v);
        entries::<65, 3>(&mut v);
        if t == Tier::Thorough {
            shape::<33, 33>(&mut v);
            shape::<1, 129>(&mut v);
            shape::<65, 3>(&mut v);
            prod::<1, 257, 2>(&mut v);
            prod::<33, 33, 33>(&mut v);
        }
        v
    })
}
