//! Numbers that may be undefined (NaN): an exact real value together with the set of inputs whose
//! being undefined makes this number undefined. Undefined numbers are equal to nothing.
use crate::elem::Elem;
use crate::sym::*;
use magnesia::algebra::{Conj, Field, Ring};
use std::cell::RefCell;
use std::collections::HashMap;
use std::ops::*;

/// All forms of the arithmetic operators of a `Copy` number type from functions of two values.
#[macro_export]
macro_rules! operators {
    ($t:ty: $($tr:ident $f:ident $tra:ident $fa:ident $op:expr),*) => { $(
        impl $tr<$t> for $t {
            type Output = $t;
            fn $f(self, o: $t) -> $t {
                $op(self, o)
            }
        }
        impl<'a> $tr<&'a $t> for $t {
            type Output = $t;
            fn $f(self, o: &'a $t) -> $t {
                $op(self, *o)
            }
        }
        impl<'a> $tr<$t> for &'a $t {
            type Output = $t;
            fn $f(self, o: $t) -> $t {
                $op(*self, o)
            }
        }
        impl<'a, 'b> $tr<&'b $t> for &'a $t {
            type Output = $t;
            fn $f(self, o: &'b $t) -> $t {
                $op(*self, *o)
            }
        }
        impl $tra<$t> for $t {
            fn $fa(&mut self, o: $t) {
                *self = $op(*self, o);
            }
        }
        impl<'a> $tra<&'a $t> for $t {
            fn $fa(&mut self, o: &'a $t) {
                *self = $op(*self, *o);
            }
        }
    )* };
}

thread_local! {
    /// Sets of inputs, each stored once.
    static SETS: RefCell<(Vec<Vec<u32>>, HashMap<Vec<u32>, u32>)> = RefCell::new((vec![vec![]], HashMap::from([(vec![], 0)])));
}

fn intern(set: Vec<u32>) -> u32 {
    SETS.with(|t| {
        let (list, at) = &mut *t.borrow_mut();
        if let Some(k) = at.get(&set) {
            return *k;
        }
        list.push(set.clone());
        at.insert(set, list.len() as u32 - 1);
        list.len() as u32 - 1
    })
}

fn members(k: u32) -> Vec<u32> {
    SETS.with(|t| t.borrow().0[k as usize].clone())
}

fn union(a: u32, b: u32) -> u32 {
    if a == b || b == 0 {
        return a;
    }
    if a == 0 {
        return b;
    }
    let mut s = members(a);
    s.extend(members(b));
    s.sort();
    s.dedup();
    intern(s)
}

#[derive(Clone, Copy, Debug)]
pub struct Nn {
    pub v: Sym,
    from: u32,
}

impl Nn {
    pub fn of(v: Sym) -> Nn {
        Nn { v, from: 0 }
    }
    pub fn undefined(&self) -> B {
        B::any(members(self.from).into_iter().map(|x| Sym(x).pos()).collect())
    }
    /// The same number, undefined also when `o` is.
    pub fn with(self, o: &Nn) -> Nn {
        Nn { v: self.v, from: union(self.from, o.from) }
    }
    /// Equal by the elements' own equality.
    pub fn equal(&self, o: &Nn) -> B {
        B::all(vec![self.v.eqs(o.v), self.undefined().not(), o.undefined().not()])
    }
    /// Undefined for exactly the same inputs.
    pub fn alike(&self, o: &Nn) -> B {
        if self.from == o.from {
            return B::T;
        }
        let (a, b) = (self.undefined(), o.undefined());
        a.clone().and(b.clone()).or(a.not().and(b.not()))
    }
}

operators!(Nn:
    Add add AddAssign add_assign |a: Nn, b: Nn| Nn { v: a.v + b.v, from: union(a.from, b.from) },
    Sub sub SubAssign sub_assign |a: Nn, b: Nn| Nn { v: a.v - b.v, from: union(a.from, b.from) },
    Mul mul MulAssign mul_assign |a: Nn, b: Nn| Nn { v: a.v * b.v, from: union(a.from, b.from) },
    Div div DivAssign div_assign |a: Nn, b: Nn| Nn { v: a.v / b.v, from: union(a.from, b.from) });

impl Neg for Nn {
    type Output = Nn;
    fn neg(self) -> Nn {
        Nn { v: -self.v, from: self.from }
    }
}
impl<'a> Neg for &'a Nn {
    type Output = Nn;
    fn neg(self) -> Nn {
        -*self
    }
}
impl PartialEq for Nn {
    fn eq(&self, o: &Nn) -> bool {
        branch(self.equal(o))
    }
}
impl Eq for Nn {}
impl From<i8> for Nn {
    fn from(n: i8) -> Nn {
        Nn::of(int(n as i128))
    }
}
impl Conj for Nn {
    fn conj(self) -> Nn {
        self
    }
}
impl Ring for Nn {}
impl Field for Nn {}
impl Default for Nn {
    fn default() -> Nn {
        Nn::from(0)
    }
}
impl std::iter::Sum for Nn {
    fn sum<I: Iterator<Item = Nn>>(i: I) -> Nn {
        i.fold(Nn::from(0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Nn> for Nn {
    fn sum<I: Iterator<Item = &'a Nn>>(i: I) -> Nn {
        i.fold(Nn::from(0), |a, b| a + b)
    }
}
impl std::iter::Product for Nn {
    fn product<I: Iterator<Item = Nn>>(i: I) -> Nn {
        i.fold(Nn::from(1), |a, b| a * b)
    }
}

impl Elem for Nn {
    const NAME: &'static str = "R with NaN";
    fn any(n: &str) -> Self {
        Nn { v: any(n), from: intern(vec![any(&format!("{n}.nan")).0]) }
    }
    /// Undefined for the same inputs. Values are the business of the other properties.
    fn eqs(&self, o: &Self) -> B {
        self.alike(o)
    }
    fn radd(&self, o: &Self) -> Self {
        *self + *o
    }
    fn rsub(&self, o: &Self) -> Self {
        *self - *o
    }
    fn rmul(&self, o: &Self) -> Self {
        *self * *o
    }
    fn rneg(&self) -> Self {
        -*self
    }
    fn rzero() -> Self {
        Nn::from(0)
    }
    fn rone() -> Self {
        Nn::from(1)
    }
    fn rconj(&self) -> Self {
        *self
    }
}
