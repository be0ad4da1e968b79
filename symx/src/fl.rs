//! Machine floats in the standard model of rounding: an exact real value together with a bound on
//! how far the computed one may be from it, in units of the unit roundoff.
//!
//! The library's generic code runs on these numbers unchanged. Every operation takes its operands'
//! bounds into account and adds half a unit in the last place of the result; no overflow, no
//! underflow. The bounds hold for every unit roundoff up to 2^-24.
use crate::rat::Rat;
use crate::sym::{self, abs, assume, branch, choose, holds, int, mag, replaying, Sym, B};
use magnesia::algebra as alg;
use magnesia::functions as fun;
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy, Debug)]
pub enum Off {
    /// the computed value is the exact one
    Exact,
    /// relative error, in units of u
    Rel(Rat),
    /// absolute error, in units of u
    Abs(Sym),
    /// no bound
    Lost,
}
use Off::*;

#[derive(Clone, Copy, Debug)]
pub struct Fl {
    pub v: Sym,
    pub e: Off,
}

fn r(n: i128, d: i128) -> Rat {
    Rat::new(n, d).unwrap()
}
fn unit() -> Rat {
    r(1, 1 << 24)
}
/// Rounds a bound up to a short fraction.
fn up(x: Rat) -> Rat {
    let f = (x.f64() * 4096.0).floor() as i128;
    let mut y = r(f, 4096);
    while y.cmp(x) != Some(Ordering::Greater) && y.cmp(x) != Some(Ordering::Equal) {
        y = y.add(r(1, 4096)).unwrap();
    }
    y
}
fn num(x: Rat) -> Sym {
    sym::rat(x.n, x.d)
}
fn one() -> Rat {
    Rat::int(1)
}

/// c (1 + u) + 1
fn rounded(c: Rat) -> Rat {
    up(c.add(c.mul(unit()).unwrap()).unwrap().add(one()).unwrap())
}

/// The factors that are tried for a relative bound of a sum.
const FACTORS: [i128; 22] = [4, 5, 6, 8, 10, 12, 14, 16, 20, 24, 28, 32, 40, 48, 64, 80, 96, 128, 192, 256, 1024, 8192];

impl Fl {
    pub fn exact(v: Sym) -> Fl {
        Fl { v, e: Exact }
    }
    fn zero_const(&self) -> bool {
        sym::constant(self.v).is_some_and(|c| c.is_zero())
    }
    /// the constant is a power of two
    fn scale(&self) -> bool {
        let Some(c) = sym::constant(self.v) else { return false };
        let p = |x: i128| x != 0 && x.unsigned_abs().is_power_of_two();
        matches!(self.e, Exact) && p(c.n) && p(c.d)
    }
    /// The bound as a term
    pub fn bound(&self) -> Option<Sym> {
        match self.e {
            Exact => Some(int(0)),
            Rel(c) => Some(num(c) * mag(self.v)),
            Abs(s) => Some(s),
            Lost => None,
        }
    }
    fn rel(&self) -> Option<Rat> {
        match self.e {
            Exact => Some(Rat::ZERO),
            Rel(c) => Some(c),
            _ => None,
        }
    }
    /// Rounding of a result with this error of its own.
    fn done(v: Sym, e: Off) -> Fl {
        if let Some(c) = sym::constant(v) {
            let short = c.n.unsigned_abs() <= 1 << 24 && (c.d as u128).is_power_of_two() && c.d <= 1 << 60;
            if c.is_zero() && matches!(e, Rel(_)) || short && matches!(e, Exact) {
                return Fl::exact(v);
            }
        }
        if replaying() {
            return Fl { v, e: Lost };
        }
        let e = match e {
            Exact => Rel(one()),
            Rel(c) => Rel(rounded(c)),
            Abs(s) => Abs(s * num(one().add(unit()).unwrap()) + mag(v)),
            Lost => Lost,
        };
        Fl { v, e }
    }
    fn sum(self, o: Fl, v: Sym) -> Fl {
        if o.zero_const() && matches!(o.e, Exact) {
            return Fl { v, e: self.e };
        }
        if self.zero_const() && matches!(self.e, Exact) {
            return Fl { v, e: o.e };
        }
        if let (Exact, Exact) = (self.e, o.e) {
            return Fl::done(v, Exact);
        }
        if replaying() {
            return Fl { v, e: Lost };
        }
        let (Some(a), Some(b)) = (self.bound(), o.bound()) else { return Fl { v, e: Lost } };
        let e = a + b;
        if sym::with(|c| c.coarse) {
            return Fl::done(v, Abs(e));
        }
        let s = mag(v);
        // a relative bound, if there is one
        let ok = |k: usize| holds(e.les(num(r(FACTORS[k], 4)) * s));
        if !ok(FACTORS.len() - 1) {
            return Fl::done(v, Abs(e));
        }
        let (mut lo, mut hi) = (0, FACTORS.len() - 1);
        while lo < hi {
            let m = (lo + hi) / 2;
            if ok(m) {
                hi = m;
            } else {
                lo = m + 1;
            }
        }
        Fl::done(v, Rel(r(FACTORS[hi], 4)))
    }
    fn product(self, o: Fl) -> Fl {
        let v = self.v * o.v;
        if o.scale() {
            return self.scaled(v, o.v);
        }
        if self.scale() {
            return o.scaled(v, self.v);
        }
        if let (Exact, Exact) = (self.e, o.e) {
            return Fl::done(v, Exact);
        }
        if replaying() {
            return Fl { v, e: Lost };
        }
        if let (Some(a), Some(b)) = (self.rel(), o.rel()) {
            let ab = a.mul(b).unwrap().mul(unit()).unwrap();
            return Fl::done(v, Rel(up(a.add(b).unwrap().add(ab).unwrap())));
        }
        let (Some(a), Some(b)) = (self.bound(), o.bound()) else { return Fl { v, e: Lost } };
        Fl::done(v, Abs(mag(self.v) * b + mag(o.v) * a + a * b * num(unit())))
    }
    /// times or divided by a power of two
    fn scaled(self, v: Sym, by: Sym) -> Fl {
        match self.e {
            Abs(s) => Fl { v, e: Abs(s * mag(by)) },
            e => Fl { v, e },
        }
    }
    fn quotient(self, o: Fl) -> Fl {
        if branch(o.v.is0()) {
            return Fl { v: int(0), e: Lost };
        }
        let v = self.v / o.v;
        if o.scale() {
            return self.scaled(v, int(1) / o.v);
        }
        if let (Exact, Exact) = (self.e, o.e) {
            return Fl::done(v, Exact);
        }
        if replaying() {
            return Fl { v, e: Lost };
        }
        let Some(b) = o.rel() else { return Fl { v, e: Lost } };
        let left = one().sub(b.mul(unit()).unwrap()).unwrap();
        if left.cmp(r(1, 2)) != Some(Ordering::Greater) {
            return Fl { v, e: Lost };
        }
        match self.rel() {
            Some(a) => Fl::done(v, Rel(up(a.add(b).unwrap().div(left).unwrap()))),
            None => match self.bound() {
                Some(a) => Fl::done(v, Abs((a * mag(int(1) / o.v) + mag(v) * num(b)) * num(up(one().div(left).unwrap())))),
                None => Fl { v, e: Lost },
            },
        }
    }
    fn root(self) -> Fl {
        if branch(self.v.lts(int(0))) {
            return Fl { v: int(0), e: Lost };
        }
        let v = sym::sqrt(self.v);
        if replaying() {
            return Fl { v, e: Lost };
        }
        match self.rel() {
            // |sqrt(1 + d) - 1| <= |d| (1 + |d|) / 2 for |d| <= 1
            Some(c) if c.mul(unit()).unwrap().cmp(one()) == Some(Ordering::Less) => {
                let f = one().add(c.mul(unit()).unwrap()).unwrap();
                Fl::done(v, Rel(up(c.mul(f).unwrap().mul(r(1, 2)).unwrap())))
            }
            _ => Fl { v, e: Lost },
        }
    }
    /// A function of the standard library, assumed to be right up to two units, of an exact argument.
    fn call(self, v: Sym) -> Fl {
        let e = match self.e {
            _ if replaying() => Lost,
            Exact => Rel(Rat::int(2)),
            _ => Lost,
        };
        Fl { v, e }
    }
    /// A comparison of computed values can come out either way when they are close.
    fn compare(self, o: Fl, exact: impl Fn() -> B, off: impl Fn(Sym, bool) -> B) -> bool {
        if let (Exact, Exact) = (self.e, o.e) {
            return branch(exact());
        }
        let yes = choose(2) == 0;
        if replaying() {
            let near = 1e-3 * (sym::number(self.v).unwrap().abs() + sym::number(o.v).unwrap().abs());
            assume(off(Sym::from(near as f32), yes));
        } else if (self.zero_const() || o.zero_const()) && self.rel().is_some() && o.rel().is_some() {
            // a relative error does not change the sign
            assume(if yes { exact() } else { exact().not() });
        } else {
            if let (Some(a), Some(b)) = (self.bound(), o.bound()) {
                assume(off((a + b) * num(unit()), yes));
            }
        }
        yes
    }
    pub fn less(self, o: Fl) -> bool {
        self.compare(o, || self.v.lts(o.v), |t, yes| if yes { self.v.les(o.v + t) } else { o.v.les(self.v + t) })
    }
    pub fn same(self, o: Fl) -> bool {
        self.compare(o, || self.v.eqs(o.v), |t, yes| if yes { self.v.les(o.v + t).and(o.v.les(self.v + t)) } else { B::T })
    }
}

macro_rules! flop {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $op:expr) => {
        impl $tr<Fl> for Fl {
            type Output = Fl;
            fn $f(self, o: Fl) -> Fl {
                $op(self, o)
            }
        }
        impl<'a> $tr<&'a Fl> for Fl {
            type Output = Fl;
            fn $f(self, o: &'a Fl) -> Fl {
                $op(self, *o)
            }
        }
        impl<'a> $tr<Fl> for &'a Fl {
            type Output = Fl;
            fn $f(self, o: Fl) -> Fl {
                $op(*self, o)
            }
        }
        impl<'a, 'b> $tr<&'b Fl> for &'a Fl {
            type Output = Fl;
            fn $f(self, o: &'b Fl) -> Fl {
                $op(*self, *o)
            }
        }
        impl $tra<Fl> for Fl {
            fn $fa(&mut self, o: Fl) {
                *self = $op(*self, o);
            }
        }
        impl<'a> $tra<&'a Fl> for Fl {
            fn $fa(&mut self, o: &'a Fl) {
                *self = $op(*self, *o);
            }
        }
    };
}
flop!(Add, add, AddAssign, add_assign, |a: Fl, b: Fl| a.sum(b, a.v + b.v));
flop!(Sub, sub, SubAssign, sub_assign, |a: Fl, b: Fl| a.sum(-b, a.v - b.v));
flop!(Mul, mul, MulAssign, mul_assign, |a: Fl, b: Fl| a.product(b));
flop!(Div, div, DivAssign, div_assign, |a: Fl, b: Fl| a.quotient(b));

impl Neg for Fl {
    type Output = Fl;
    fn neg(self) -> Fl {
        Fl { v: -self.v, e: self.e }
    }
}
impl Neg for &Fl {
    type Output = Fl;
    fn neg(self) -> Fl {
        -*self
    }
}
impl PartialEq for Fl {
    fn eq(&self, o: &Fl) -> bool {
        self.same(*o)
    }
}
impl Eq for Fl {}
impl PartialOrd for Fl {
    fn partial_cmp(&self, o: &Fl) -> Option<Ordering> {
        Some(if self.less(*o) {
            Ordering::Less
        } else if o.less(*self) {
            Ordering::Greater
        } else {
            Ordering::Equal
        })
    }
    fn lt(&self, o: &Fl) -> bool {
        self.less(*o)
    }
    fn le(&self, o: &Fl) -> bool {
        !o.less(*self)
    }
    fn gt(&self, o: &Fl) -> bool {
        o.less(*self)
    }
    fn ge(&self, o: &Fl) -> bool {
        !self.less(*o)
    }
}
impl From<i8> for Fl {
    fn from(n: i8) -> Fl {
        Fl::exact(int(n as i128))
    }
}
impl From<f32> for Fl {
    fn from(x: f32) -> Fl {
        Fl::exact(Sym::from(x))
    }
}
impl Default for Fl {
    fn default() -> Fl {
        Fl::from(0i8)
    }
}
impl alg::Ring for Fl {}
impl alg::Field for Fl {}
impl alg::Conj for Fl {
    fn conj(self) -> Fl {
        self
    }
}
impl fun::Abs for Fl {
    type Output = Fl;
    fn abs(self) -> Fl {
        Fl { v: abs(self.v), e: self.e }
    }
}
impl fun::Abs for &Fl {
    type Output = Fl;
    fn abs(self) -> Fl {
        Fl { v: abs(self.v), e: self.e }
    }
}
impl fun::Sqrt for Fl {
    fn sqrt(&self) -> Fl {
        self.root()
    }
}
macro_rules! calls {
    ($($tr:ident $f:ident),*) => { $(impl fun::$tr for Fl { fn $f(self) -> Fl { self.call(sym::$f(self.v)) } })* };
}
calls!(Exp exp, Tan tan, Asin asin);

/// These functions as arbitrary numbers: the relations between them play no part in how errors
/// grow, and the solver is better off without them.
macro_rules! loose {
    ($($f:ident)*) => { $(
        pub fn $f(t: Sym) -> Sym {
            if replaying() { sym::$f(t) } else { sym::any(&format!("{}({t:?})", stringify!($f))) }
        }
    )* };
}
loose!(sin cos sinh cosh);
macro_rules! loose_calls {
    ($($tr:ident $f:ident),*) => { $(impl fun::$tr for Fl {
        fn $f(self) -> Fl {
            self.call($f(self.v))
        }
    })* };
}
loose_calls!(Sin sin, Cos cos, Sinh sinh, Cosh cosh);
impl fun::Ln for Fl {
    fn ln(self) -> Fl {
        let v = sym::ln(self.v);
        let e = match self.rel() {
            _ if replaying() => Lost,
            Some(c) => Abs(num(up(rounded(c))) + num(Rat::int(2)) * mag(v)),
            None => Lost,
        };
        Fl { v, e }
    }
}
impl fun::Atan2 for Fl {
    fn atan2(self, x: Fl) -> Fl {
        let v = sym::atan2(self.v, x.v);
        let e = match (self.e, x.e) {
            _ if replaying() => Lost,
            (Exact, Exact) => Rel(Rat::int(2)),
            _ => Lost,
        };
        Fl { v, e }
    }
}
