//! Numbers with signed zeros: an exact real value together with the sign it has when it is zero.
//! Rules of IEEE 754 (round to nearest) without rounding.
use crate::elem::Elem;
use crate::operators;
use crate::sym::*;
use magnesia::algebra::{Conj, Field, Ring};
use magnesia::functions as fun;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::ops::*;

thread_local! {
    /// Conditions, each stored once.
    static CONDS: RefCell<(Vec<B>, HashMap<String, u32>)> = RefCell::new((vec![], HashMap::new()));
    static LOG: RefCell<Option<Vec<Sz>>> = RefCell::new(None);
}

fn intern(b: B) -> u32 {
    let key = format!("{b:?}");
    CONDS.with(|t| {
        let (list, at) = &mut *t.borrow_mut();
        *at.entry(key).or_insert_with(|| {
            list.push(b);
            list.len() as u32 - 1
        })
    })
}

#[derive(Clone, Copy)]
pub struct Sz {
    pub v: Sym,
    /// the condition under which this number, if it is zero, is -0
    zero: u32,
}

fn new(v: Sym, minus: B) -> Sz {
    Sz { v, zero: intern(minus) }
}
fn xor(a: B, b: B) -> B {
    a.clone().and(b.clone().not()).or(a.not().and(b))
}

impl Sz {
    /// With the zero +0.
    pub fn of(v: Sym) -> Sz {
        new(v, B::F)
    }
    fn minus_zero(&self) -> B {
        CONDS.with(|t| t.borrow().0[self.zero as usize].clone())
    }
    /// Negative or -0.
    pub fn minus(&self) -> B {
        self.v.lts(int(0)).or(self.v.is0().and(self.minus_zero()))
    }
    /// The same number with the same sign.
    pub fn same(&self, o: &Sz) -> B {
        let signs = if self.zero == o.zero {
            B::T
        } else {
            self.v.non0().or(xor(self.minus_zero(), o.minus_zero()).not())
        };
        self.v.eqs(o.v).and(signs)
    }
}

/// Printing a number records it: this shows the entries of containers without access to them.
impl std::fmt::Debug for Sz {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        LOG.with(|l| {
            if let Some(l) = l.borrow_mut().as_mut() {
                l.push(*self)
            }
        });
        write!(f, "_")
    }
}
/// The numbers a value is made of, in the order in which they are printed.
pub fn printed(x: &impl std::fmt::Debug) -> Vec<Sz> {
    LOG.with(|l| *l.borrow_mut() = Some(vec![]));
    let _ = format!("{x:?}");
    LOG.with(|l| l.borrow_mut().take().unwrap())
}

fn sum(a: Sz, b: Sz) -> Sz {
    new(a.v + b.v, B::all(vec![a.v.is0(), a.minus_zero(), b.minus_zero()]))
}
fn product(v: Sym, a: Sz, b: Sz) -> Sz {
    new(v, xor(a.minus(), b.minus()))
}

operators!(Sz:
    Add add AddAssign add_assign |a: Sz, b: Sz| sum(a, b),
    Sub sub SubAssign sub_assign |a: Sz, b: Sz| new(a.v - b.v, B::all(vec![a.v.is0(), a.minus_zero(), b.minus_zero().not()])),
    Mul mul MulAssign mul_assign |a: Sz, b: Sz| product(a.v * b.v, a, b),
    Div div DivAssign div_assign |a: Sz, b: Sz| product(a.v / b.v, a, b));

impl Neg for Sz {
    type Output = Sz;
    fn neg(self) -> Sz {
        new(-self.v, self.minus_zero().not())
    }
}
impl<'a> Neg for &'a Sz {
    type Output = Sz;
    fn neg(self) -> Sz {
        -*self
    }
}
/// Zeros of either sign are equal.
impl PartialEq for Sz {
    fn eq(&self, o: &Sz) -> bool {
        branch(self.v.eqs(o.v))
    }
}
impl Eq for Sz {}
impl PartialOrd for Sz {
    fn partial_cmp(&self, o: &Sz) -> Option<Ordering> {
        self.v.partial_cmp(&o.v)
    }
    fn lt(&self, o: &Sz) -> bool {
        self.v < o.v
    }
    fn le(&self, o: &Sz) -> bool {
        self.v <= o.v
    }
    fn gt(&self, o: &Sz) -> bool {
        self.v > o.v
    }
    fn ge(&self, o: &Sz) -> bool {
        self.v >= o.v
    }
}
impl From<i8> for Sz {
    fn from(n: i8) -> Sz {
        Sz::of(int(n as i128))
    }
}
impl Conj for Sz {
    fn conj(self) -> Sz {
        self
    }
}
impl Ring for Sz {}
impl Field for Sz {}
impl Default for Sz {
    fn default() -> Sz {
        Sz::from(0)
    }
}
impl std::iter::Sum for Sz {
    fn sum<I: Iterator<Item = Sz>>(i: I) -> Sz {
        i.fold(Sz::from(0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Sz> for Sz {
    fn sum<I: Iterator<Item = &'a Sz>>(i: I) -> Sz {
        i.fold(Sz::from(0), |a, b| a + b)
    }
}
impl std::iter::Product for Sz {
    fn product<I: Iterator<Item = Sz>>(i: I) -> Sz {
        i.fold(Sz::from(1), |a, b| a * b)
    }
}

impl fun::Abs for Sz {
    type Output = Sz;
    fn abs(self) -> Sz {
        Sz::of(abs(self.v))
    }
}
impl<'a> fun::Abs for &'a Sz {
    type Output = Sz;
    fn abs(self) -> Sz {
        Sz::of(abs(self.v))
    }
}
impl fun::Sqrt for Sz {
    fn sqrt(&self) -> Sz {
        new(sqrt(self.v), self.minus_zero())
    }
}
macro_rules! even {
    ($($tr:ident $f:ident),*) => { $(impl fun::$tr for Sz { fn $f(self) -> Sz { Sz::of($f(self.v)) } })* };
}
macro_rules! odd {
    ($($tr:ident $f:ident),*) => { $(impl fun::$tr for Sz { fn $f(self) -> Sz { new($f(self.v), self.minus()) } })* };
}
even!(Exp exp, Cos cos, Cosh cosh, Ln ln);
odd!(Sin sin, Sinh sinh, Tan tan, Asin asin);
impl fun::Atan2 for Sz {
    fn atan2(self, x: Sz) -> Sz {
        if !branch(self.v.is0()) {
            return Sz::of(atan2(self.v, x.v));
        }
        if !branch(x.minus()) {
            return new(int(0), self.minus_zero());
        }
        let pi = atan2(int(0), int(-1));
        Sz::of(if branch(self.minus_zero()) { -pi } else { pi })
    }
}

impl Elem for Sz {
    const NAME: &'static str = "R with signed zeros";
    fn any(n: &str) -> Self {
        new(any(n), any(&format!("{n}.minus")).pos())
    }
    fn eqs(&self, o: &Self) -> B {
        self.same(o)
    }
    fn radd(&self, o: &Self) -> Self {
        *self + *o
    }
    fn rsub(&self, o: &Self) -> Self {
        *self - *o
    }
    fn rmul(&self, o: &Self) -> Self {
        *self * *o
    }
    fn rneg(&self) -> Self {
        -*self
    }
    fn rzero() -> Self {
        Sz::from(0)
    }
    fn rone() -> Self {
        Sz::from(1)
    }
    fn rconj(&self) -> Self {
        *self
    }
}
