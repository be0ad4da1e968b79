//! Element types the library is instantiated with, and their own reference arithmetic.
//!
//! The reference arithmetic (`radd`, ...) never goes through library code.
use crate::sym::*;
use magnesia::algebra::{Complex, Conj, Ring};
use std::ops::*;

pub trait Elem: Ring + Conj + 'static {
    const NAME: &'static str;
    fn any(name: &str) -> Self;
    fn eqs(&self, o: &Self) -> B;
    fn radd(&self, o: &Self) -> Self;
    fn rsub(&self, o: &Self) -> Self;
    fn rmul(&self, o: &Self) -> Self;
    fn rneg(&self) -> Self;
    fn rzero() -> Self;
    fn rone() -> Self;
    fn rconj(&self) -> Self;
}

impl Elem for Sym {
    const NAME: &'static str = "R";
    fn any(name: &str) -> Self {
        any(name)
    }
    fn eqs(&self, o: &Self) -> B {
        Sym::eqs(*self, *o)
    }
    fn radd(&self, o: &Self) -> Self {
        *self + *o
    }
    fn rsub(&self, o: &Self) -> Self {
        *self - *o
    }
    fn rmul(&self, o: &Self) -> Self {
        *self * *o
    }
    fn rneg(&self) -> Self {
        -*self
    }
    fn rzero() -> Self {
        int(0)
    }
    fn rone() -> Self {
        int(1)
    }
    fn rconj(&self) -> Self {
        *self
    }
}

/// 2x2 real matrices: a ring whose multiplication does not commute. Conjugation is transposition.
#[derive(Clone, Copy, Debug)]
pub struct M2(pub [Sym; 4]);

impl M2 {
    fn zip(self, o: M2, f: impl Fn(Sym, Sym) -> Sym) -> M2 {
        M2([f(self.0[0], o.0[0]), f(self.0[1], o.0[1]), f(self.0[2], o.0[2]), f(self.0[3], o.0[3])])
    }
    fn prod(self, o: M2) -> M2 {
        let ([a, b, c, d], [e, f, g, h]) = (self.0, o.0);
        M2([a * e + b * g, a * f + b * h, c * e + d * g, c * f + d * h])
    }
}

macro_rules! m2op {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $op:expr) => {
        impl $tr<M2> for M2 {
            type Output = M2;
            fn $f(self, o: M2) -> M2 {
                $op(self, o)
            }
        }
        impl<'a> $tr<&'a M2> for M2 {
            type Output = M2;
            fn $f(self, o: &'a M2) -> M2 {
                $op(self, *o)
            }
        }
        impl<'a> $tr<M2> for &'a M2 {
            type Output = M2;
            fn $f(self, o: M2) -> M2 {
                $op(*self, o)
            }
        }
        impl<'a, 'b> $tr<&'b M2> for &'a M2 {
            type Output = M2;
            fn $f(self, o: &'b M2) -> M2 {
                $op(*self, *o)
            }
        }
        impl $tra<M2> for M2 {
            fn $fa(&mut self, o: M2) {
                *self = $op(*self, o);
            }
        }
        impl<'a> $tra<&'a M2> for M2 {
            fn $fa(&mut self, o: &'a M2) {
                *self = $op(*self, *o);
            }
        }
    };
}
m2op!(Add, add, AddAssign, add_assign, |a: M2, b: M2| a.zip(b, |x, y| x + y));
m2op!(Sub, sub, SubAssign, sub_assign, |a: M2, b: M2| a.zip(b, |x, y| x - y));
m2op!(Mul, mul, MulAssign, mul_assign, |a: M2, b: M2| a.prod(b));

impl Neg for M2 {
    type Output = M2;
    fn neg(self) -> M2 {
        M2(self.0.map(|x| -x))
    }
}
impl PartialEq for M2 {
    fn eq(&self, o: &M2) -> bool {
        branch(self.eqs(o))
    }
}
impl Eq for M2 {}
impl From<i8> for M2 {
    fn from(n: i8) -> M2 {
        let (z, n) = (int(0), int(n as i128));
        M2([n, z, z, n])
    }
}
impl Conj for M2 {
    fn conj(self) -> M2 {
        let [a, b, c, d] = self.0;
        M2([a, c, b, d])
    }
}
impl Ring for M2 {}
impl Default for M2 {
    fn default() -> M2 {
        M2::from(0)
    }
}
impl std::iter::Sum for M2 {
    fn sum<I: Iterator<Item = M2>>(i: I) -> M2 {
        i.fold(M2::from(0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a M2> for M2 {
    fn sum<I: Iterator<Item = &'a M2>>(i: I) -> M2 {
        i.fold(M2::from(0), |a, b| a + b)
    }
}
impl std::iter::Product for M2 {
    fn product<I: Iterator<Item = M2>>(i: I) -> M2 {
        i.fold(M2::from(1), |a, b| a * b)
    }
}
impl<'a> Neg for &'a M2 {
    type Output = M2;
    fn neg(self) -> M2 {
        -*self
    }
}

impl Elem for M2 {
    const NAME: &'static str = "M2(R)";
    fn any(n: &str) -> Self {
        M2([any(&format!("{n}.00")), any(&format!("{n}.01")), any(&format!("{n}.10")), any(&format!("{n}.11"))])
    }
    fn eqs(&self, o: &Self) -> B {
        B::all((0..4).map(|i| self.0[i].eqs(o.0[i])).collect())
    }
    fn radd(&self, o: &Self) -> Self {
        *self + *o
    }
    fn rsub(&self, o: &Self) -> Self {
        *self - *o
    }
    fn rmul(&self, o: &Self) -> Self {
        self.prod(*o)
    }
    fn rneg(&self) -> Self {
        -*self
    }
    fn rzero() -> Self {
        M2::from(0)
    }
    fn rone() -> Self {
        M2::from(1)
    }
    fn rconj(&self) -> Self {
        self.conj()
    }
}

/// The library's complex numbers as elements; the reference arithmetic is spelled out here.
impl<T: Elem> Elem for Complex<T> {
    const NAME: &'static str = "C";
    fn any(n: &str) -> Self {
        Complex { re: T::any(&format!("{n}.re")), im: T::any(&format!("{n}.im")) }
    }
    fn eqs(&self, o: &Self) -> B {
        self.re.eqs(&o.re).and(self.im.eqs(&o.im))
    }
    fn radd(&self, o: &Self) -> Self {
        Complex { re: self.re.radd(&o.re), im: self.im.radd(&o.im) }
    }
    fn rsub(&self, o: &Self) -> Self {
        Complex { re: self.re.rsub(&o.re), im: self.im.rsub(&o.im) }
    }
    fn rmul(&self, o: &Self) -> Self {
        Complex {
            re: self.re.rmul(&o.re).rsub(&self.im.rmul(&o.im)),
            im: self.re.rmul(&o.im).radd(&self.im.rmul(&o.re)),
        }
    }
    fn rneg(&self) -> Self {
        Complex { re: self.re.rneg(), im: self.im.rneg() }
    }
    fn rzero() -> Self {
        Complex { re: T::rzero(), im: T::rzero() }
    }
    fn rone() -> Self {
        Complex { re: T::rone(), im: T::rzero() }
    }
    fn rconj(&self) -> Self {
        Complex { re: self.re.clone(), im: self.im.rneg() }
    }
}

pub fn anys<T: Elem>(name: &str, n: usize) -> Vec<T> {
    (0..n).map(|i| T::any(&format!("{name}{i}"))).collect()
}

/// All entries equal.
pub fn all_eq<T: Elem>(a: &[T], b: &[T]) -> B {
    if a.len() != b.len() {
        return B::F;
    }
    B::all(a.iter().zip(b).map(|(x, y)| x.eqs(y)).collect())
}

pub fn prove_all<T: Elem>(label: &str, a: &[T], b: &[T]) {
    check(&format!("{label}: number of entries"), a.len() == b.len());
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        prove(&format!("{label}[{i}]"), x.eqs(y));
    }
}
