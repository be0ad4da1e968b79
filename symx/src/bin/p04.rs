//! P04: complex + - * neg, zero, one, == in every operator form.
use magnesia::algebra::{Complex, MulRefs, One, Zero};
use std::ops::*;
use symx::*;

type C<T> = Complex<T>;

fn same<T: Elem>(label: &str, z: &C<T>, re: &T, im: &T) {
    prove(&format!("{label}: real part"), z.re.eqs(re));
    prove(&format!("{label}: imaginary part"), z.im.eqs(im));
}

fn args<T: Elem>() -> (T, T, T, T) {
    (T::any("a"), T::any("b"), T::any("c"), T::any("d"))
}

fn additive<T>()
where
    T: Elem + Add<T, Output = T> + Sub<T, Output = T> + AddAssign<T> + SubAssign<T>,
{
    let (a, b, c, d) = args::<T>();
    let z = || C::new(a.clone(), b.clone());
    let w = || C::new(c.clone(), d.clone());
    api("Complex::new");
    same("new", &z(), &a, &b);
    let (re, im) = (a.radd(&c), b.radd(&d));
    api("Complex::add");
    same("z + w", &(z() + w()), &re, &im);
    api("Complex::add_assign(Complex)");
    let mut r = z();
    AddAssign::<C<T>>::add_assign(&mut r, w());
    same("z += w", &r, &re, &im);
    api("Complex::add_assign(&Complex)");
    let (mut r, s) = (z(), w());
    AddAssign::<&C<T>>::add_assign(&mut r, &s);
    same("z += &w", &r, &re, &im);
    same("w after z += &w", &s, &c, &d);
    let (re, im) = (a.rsub(&c), b.rsub(&d));
    api("Complex::sub");
    same("z - w", &(z() - w()), &re, &im);
    api("Complex::sub_assign(Complex)");
    let mut r = z();
    SubAssign::<C<T>>::sub_assign(&mut r, w());
    same("z -= w", &r, &re, &im);
    api("Complex::sub_assign(&Complex)");
    let (mut r, s) = (z(), w());
    SubAssign::<&C<T>>::sub_assign(&mut r, &s);
    same("z -= &w", &r, &re, &im);
    same("w after z -= &w", &s, &c, &d);
    // the same object on both sides
    let r = z();
    let mut r2 = r.clone();
    r2 += &r;
    same("z += &z", &r2, &a.radd(&a), &b.radd(&b));
    let mut r2 = r.clone();
    r2 -= &r;
    same("z -= &z", &r2, &T::rzero(), &T::rzero());
    api("Complex::neg");
    same("-z", &-z(), &a.rneg(), &b.rneg());
}

fn multiplicative<T: Elem>() {
    let (a, b, c, d) = args::<T>();
    let z = || C::new(a.clone(), b.clone());
    let w = || C::new(c.clone(), d.clone());
    let re = a.rmul(&c).rsub(&b.rmul(&d));
    let im = a.rmul(&d).radd(&b.rmul(&c));
    api("Complex::mul(Complex)");
    same("z * w", &(z() * w()), &re, &im);
    api("&Complex::mul(&Complex)");
    let (p, q) = (z(), w());
    same("&z * &w", &(&p * &q), &re, &im);
    same("z.mul_refs(w)", &p.mul_refs(&q), &re, &im);
    same("z after &z * &w", &p, &a, &b);
    same("w after &z * &w", &q, &c, &d);
    api("Complex::mul_assign");
    let mut r = z();
    r *= w();
    same("z *= w", &r, &re, &im);
    let sre = a.rmul(&a).rsub(&b.rmul(&b));
    let sim = a.rmul(&b).radd(&b.rmul(&a));
    same("&z * &z", &(&p * &p), &sre, &sim);
    same("z * z", &(z() * z()), &sre, &sim);
    let mut r = z();
    r *= z();
    same("z *= z", &r, &sre, &sim);
    // two steps
    let mut r = z();
    r *= w();
    r *= C::new(T::rzero(), T::rone());
    same("z *= w, *= i", &r, &im.rneg(), &re);
}

fn scalar<T: Elem>() {
    let (a, b, c, _) = args::<T>();
    api("Complex::mul(T)");
    let r = Mul::<T>::mul(C::new(a.clone(), b.clone()), c.clone());
    same("z * t", &r, &a.rmul(&c), &b.rmul(&c));
}

fn equality<T: Elem>() {
    let (a, b, c, d) = args::<T>();
    let (z, w) = (C::new(a.clone(), b.clone()), C::new(c.clone(), d.clone()));
    api("Complex::eq");
    let both = a.eqs(&c).and(b.eqs(&d));
    let e = z == w;
    prove("== is equality of both components", if e { both } else { both.not() });
    check("!= is the opposite of ==", (z != w) == !e);
}

fn neutral<T: Elem>() {
    let (a, b, _, _) = args::<T>();
    let z = C::new(a.clone(), b.clone());
    api("Complex::zero");
    same("zero()", &C::<T>::zero(), &T::rzero(), &T::rzero());
    api("Complex::one");
    same("one()", &C::<T>::one(), &T::rone(), &T::rzero());
    same("z * one()", &(&z * &C::<T>::one()), &a, &b);
    same("one() * z", &(&C::<T>::one() * &z), &a, &b);
    same("z * zero()", &(&z * &C::<T>::zero()), &T::rzero(), &T::rzero());
    let mut r = z.clone();
    r += &C::zero();
    same("z += zero()", &r, &a, &b);
    r -= &C::zero();
    same("z -= zero()", &r, &a, &b);
    let i = C::new(T::rzero(), T::rone());
    same("i * i", &(&i * &i), &T::rone().rneg(), &T::rzero());
}

fn all<T>(v: &mut Vec<Case>)
where
    T: Elem + Add<T, Output = T> + Sub<T, Output = T> + AddAssign<T> + SubAssign<T>,
{
    let n = T::NAME;
    v.push(case(format!("additive over {n}"), additive::<T>));
    v.push(case(format!("multiplicative over {n}"), multiplicative::<T>));
    v.push(case(format!("scalar multiple over {n}"), scalar::<T>));
    v.push(case(format!("equality over {n}"), equality::<T>));
    v.push(case(format!("neutral elements over {n}"), neutral::<T>));
}

/// A number type with a different type for sums: the operator traits are generic in it.
#[derive(Clone, Copy)]
struct Mixed(Sym);
impl Add<Mixed> for Sym {
    type Output = Mixed;
    fn add(self, o: Mixed) -> Mixed {
        Mixed(self + o.0)
    }
}
impl Sub<Mixed> for Sym {
    type Output = Mixed;
    fn sub(self, o: Mixed) -> Mixed {
        Mixed(self - o.0)
    }
}
impl AddAssign<Mixed> for Sym {
    fn add_assign(&mut self, o: Mixed) {
        *self = *self + o.0
    }
}
impl SubAssign<Mixed> for Sym {
    fn sub_assign(&mut self, o: Mixed) {
        *self = *self - o.0
    }
}

fn mixed() {
    let (a, b, c, d) = args::<Sym>();
    let z = C::new(a, b);
    let w = || C::new(Mixed(c), Mixed(d));
    let s = z + w();
    same("z + w (mixed types)", &C::new(s.re.0, s.im.0), &(a + c), &(b + d));
    let s = z - w();
    same("z - w (mixed types)", &C::new(s.re.0, s.im.0), &(a - c), &(b - d));
    let mut r = z;
    r += w();
    same("z += w (mixed types)", &r, &(a + c), &(b + d));
    let mut r = z;
    r -= w();
    same("z -= w (mixed types)", &r, &(a - c), &(b - d));
}

fn main() {
    symx::main("P04", |_| {
        let mut v = vec![];
        all::<Sym>(&mut v);
        all::<M2>(&mut v);
        all_c(&mut v);
        v.push(case("mixed component types", mixed));
        v
    })
}

fn all_c(v: &mut Vec<Case>) {
    type T = Complex<Sym>;
    v.push(case("multiplicative over C", multiplicative::<T>));
    v.push(case("scalar multiple over C", scalar::<T>));
    v.push(case("equality over C", equality::<T>));
    v.push(case("neutral elements over C", neutral::<T>));
}
