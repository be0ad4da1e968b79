//! P10: static vectors.
use magnesia::algebra::{Complex, Zero};
use magnesia::linalg::SVector;
use std::ops::*;
use symx::*;

fn vec_of<T: Elem, const N: usize>(c: &[T]) -> SVector<T, N> {
    SVector(std::array::from_fn(|i| c[i].clone()))
}

fn same<T: Elem, const N: usize>(label: &str, v: &SVector<T, N>, want: &[T]) {
    prove_all(label, &v.0, want);
}

fn zip<T: Elem>(a: &[T], b: &[T], f: impl Fn(&T, &T) -> T) -> Vec<T> {
    a.iter().zip(b).map(|(x, y)| f(x, y)).collect()
}

fn additive<T: Elem, const N: usize>() {
    let (a, b) = (anys::<T>("a", N), anys::<T>("b", N));
    let (u, v) = (|| vec_of::<T, N>(&a), || vec_of::<T, N>(&b));
    let sum = zip(&a, &b, T::radd);
    let dif = zip(&a, &b, T::rsub);
    api("SVector::add(SVector)");
    same("u + v", &Add::<SVector<T, N>>::add(u(), v()), &sum);
    api("SVector::add(&SVector)");
    let w = v();
    same("u + &v", &Add::<&SVector<T, N>>::add(u(), &w), &sum);
    api("SVector::add_assign(SVector)");
    let mut r = u();
    AddAssign::<SVector<T, N>>::add_assign(&mut r, v());
    same("u += v", &r, &sum);
    api("SVector::add_assign(&SVector)");
    let mut r = u();
    AddAssign::<&SVector<T, N>>::add_assign(&mut r, &w);
    same("u += &v", &r, &sum);
    api("SVector::sub(SVector)");
    same("u - v", &Sub::<SVector<T, N>>::sub(u(), v()), &dif);
    api("SVector::sub(&SVector)");
    same("u - &v", &Sub::<&SVector<T, N>>::sub(u(), &w), &dif);
    api("SVector::sub_assign(SVector)");
    let mut r = u();
    SubAssign::<SVector<T, N>>::sub_assign(&mut r, v());
    same("u -= v", &r, &dif);
    api("SVector::sub_assign(&SVector)");
    let mut r = u();
    SubAssign::<&SVector<T, N>>::sub_assign(&mut r, &w);
    same("u -= &v", &r, &dif);
    same("v unchanged", &w, &b);
    let r = u();
    same("u + &u", &(r.clone() + &r), &zip(&a, &a, T::radd));
    same("u - &u", &(r.clone() - &r), &vec![T::rzero(); N]);
    api("SVector::zero");
    same("zero()", &SVector::<T, N>::zero(), &vec![T::rzero(); N]);
    same("u + zero()", &(r.clone() + SVector::<T, N>::zero()), &a);
}

fn multiplicative<T: Elem, const N: usize>() {
    let (a, b) = (anys::<T>("a", N), anys::<T>("b", N));
    let t = T::any("t");
    let (u, v) = (|| vec_of::<T, N>(&a), || vec_of::<T, N>(&b));
    let scaled: Vec<T> = a.iter().map(|x| x.rmul(&t)).collect();
    api("SVector::mul(T)");
    same("u * t", &Mul::<T>::mul(u(), t.clone()), &scaled);
    api("SVector::mul(&T)");
    let s = t.clone();
    same("u * &t", &Mul::<&T>::mul(u(), &s), &scaled);
    api("SVector::mul_assign(T)");
    let mut r = u();
    MulAssign::<T>::mul_assign(&mut r, t.clone());
    same("u *= t", &r, &scaled);
    api("SVector::mul_assign(&T)");
    let mut r = u();
    MulAssign::<&T>::mul_assign(&mut r, &s);
    same("u *= &t", &r, &scaled);
    prove("t unchanged", s.eqs(&t));
    let mut dot = T::rzero();
    for i in (0..N).rev() {
        dot = dot.radd(&a[i].rmul(&b[i]));
    }
    api("SVector::mul(SVector)");
    prove("u * v", Mul::<SVector<T, N>>::mul(u(), v()).eqs(&dot));
    api("SVector::mul(&SVector)");
    let w = v();
    prove("u * &v", Mul::<&SVector<T, N>>::mul(u(), &w).eqs(&dot));
    same("v unchanged", &w, &b);
}

fn access<T: Elem, const N: usize>() {
    let (a, b) = (anys::<T>("a", N), anys::<T>("b", N));
    let u: SVector<T, N> = SVector::from(std::array::from_fn(|i| a[i].clone()));
    api("SVector::from");
    same("from", &u, &a);
    api("SVector::index");
    for i in 0..N {
        prove(&format!("u[{i}]"), u[i].eqs(&a[i]));
    }
    api("SVector::into_iter");
    prove_all("iterator by value", &u.clone().into_iter().collect::<Vec<T>>(), &a);
    api("&SVector::into_iter");
    prove_all("iterator by reference", &(&u).into_iter().cloned().collect::<Vec<T>>(), &a);
    api("&mut SVector::into_iter");
    let mut m = u.clone();
    let mut seen = vec![];
    for (i, x) in (&mut m).into_iter().enumerate() {
        seen.push(x.clone());
        *x = b[i].clone();
    }
    prove_all("mutable iterator reads", &seen, &a);
    same("mutable iterator writes", &m, &b);
    api("SVector::index_mut");
    for i in 0..N {
        let mut m = u.clone();
        m[i] = b[i].clone();
        let mut w = a.clone();
        w[i] = b[i].clone();
        same(&format!("u[{i}] = b{i}"), &m, &w);
    }
    let mut m = u.clone();
    must_panic("u[N]", || u[N].clone());
    must_panic("u[N] = ..", || m[N] = T::rzero());
}

fn equality<T: Elem, const N: usize>() {
    let (a, b) = (anys::<T>("a", N), anys::<T>("b", N));
    let (u, v) = (vec_of::<T, N>(&a), vec_of::<T, N>(&b));
    api("SVector::eq");
    let e = u == v;
    let want = all_eq(&a, &b);
    prove("== compares all components", if e { want } else { want.not() });
    check("!= is the opposite of ==", (u != v) == !e);
}

fn dims<const N: usize>(v: &mut Vec<Case>, m2: bool) {
    v.push(case(format!("additive over R, dimension {N}"), additive::<Sym, N>));
    v.push(case(format!("multiplicative over R, dimension {N}"), multiplicative::<Sym, N>));
    v.push(case(format!("access over R, dimension {N}"), access::<Sym, N>));
    v.push(case(format!("equality over R, dimension {N}"), equality::<Sym, N>));
    if m2 {
        v.push(case(format!("additive over M2(R), dimension {N}"), additive::<M2, N>));
        v.push(case(format!("multiplicative over M2(R), dimension {N}"), multiplicative::<M2, N>));
    }
}

fn complex<const N: usize>(v: &mut Vec<Case>) {
    v.push(case(format!("additive over C, dimension {N}"), additive::<Complex<Sym>, N>));
    v.push(case(format!("multiplicative over C, dimension {N}"), multiplicative::<Complex<Sym>, N>));
}

fn main() {
    symx::main("P10", |t| {
        let mut v = vec![];
        macro_rules! small { ($($n:literal)*) => { $( dims::<$n>(&mut v, true); )* } }
        macro_rules! large { ($($n:literal)*) => { $( dims::<$n>(&mut v, false); )* } }
        small!(0 1 2 3 4 5 6 7 8 9);
        large!(10 11 12 13 14 15 16 17 18 19 20 24 31 32 33 48 63 64 65 100 127 128 129);
        complex::<2>(&mut v);
        complex::<3>(&mut v);
        if t == Tier::Thorough {
            large!(21 22 23 25 40 50 96 255 256 257 500 513);
        }
        v
    })
}
