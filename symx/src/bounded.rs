//! Numbers of a bounded range, like the machine integers: every operation whose exact result lies
//! outside the range fails.
use crate::operators;
use crate::sym::*;
use magnesia::algebra::{Conj, Field, Ring};
use std::ops::*;

/// An exact value, and a bound of its magnitude (a sum of products of magnitudes).
#[derive(Clone, Copy, Debug)]
pub struct Bd {
    pub v: Sym,
    pub m: Sym,
}

/// The range: any that contains 0 and 1.
pub fn low() -> Sym {
    any("low")
}
pub fn high() -> Sym {
    any("high")
}
pub fn inside(v: Sym) -> B {
    low().les(v).and(v.les(high()))
}

/// Starts a case: a range, and room for numbers up to the magnitude `room` on both sides.
pub fn range() {
    assume(low().les(int(0)).and(int(1).les(high())));
}
pub fn room(m: Sym) {
    assume(m.les(high()).and(m.les(-low())));
    ROOM.with(|r| r.set(Some(m)));
}

thread_local! {
    static ROOM: std::cell::Cell<Option<Sym>> = const { std::cell::Cell::new(None) };
}

impl Bd {
    pub fn any(name: &str) -> Bd {
        let v = any(name);
        let m = any(&format!("|{name}|"));
        assume(int(0).les(m).and((-m).les(v)).and(v.les(m)));
        assume(inside(v));
        Bd { v, m }
    }
    /// A number of the range or a failure.
    fn of(op: &str, v: Sym, m: Sym) -> Bd {
        let room = ROOM.with(|r| r.get());
        if let (false, Some(r)) = (replaying(), room) {
            if nonneg(r - m) {
                check(&format!("{op} stays inside the range"), true);
                return Bd { v, m };
            }
            // a counterexample in the smallest range with as much room, all inputs large
            let hint = |k: i128| {
                let mut h = vec![high().eqs(r), low().eqs(-r)];
                for n in inputs() {
                    if n != "low" && n != "high" {
                        h.push(any(&n).eqs(int(if n.starts_with('|') { k.abs() } else { k })));
                    }
                }
                h
            };
            prove_trying(&format!("{op} stays inside the range"), inside(v), &[hint(1000), hint(-1000)]);
            return Bd { v, m };
        }
        prove(&format!("{op} stays inside the range"), inside(v));
        Bd { v, m }
    }
}

/// Drops the room of an earlier case on this thread.
pub fn no_room() {
    ROOM.with(|r| r.set(None));
}

operators!(Bd:
    Add add AddAssign add_assign |a: Bd, b: Bd| Bd::of("a sum", a.v + b.v, a.m + b.m),
    Sub sub SubAssign sub_assign |a: Bd, b: Bd| Bd::of("a difference", a.v - b.v, a.m + b.m),
    Mul mul MulAssign mul_assign |a: Bd, b: Bd| Bd::of("a product", a.v * b.v, a.m * b.m),
    Div div DivAssign div_assign |a: Bd, b: Bd| { let v = a.v / b.v; Bd::of("a quotient", v, mag(v)) });

impl Neg for Bd {
    type Output = Bd;
    fn neg(self) -> Bd {
        Bd::of("a negative", -self.v, self.m)
    }
}
impl<'a> Neg for &'a Bd {
    type Output = Bd;
    fn neg(self) -> Bd {
        -*self
    }
}
impl PartialEq for Bd {
    fn eq(&self, o: &Bd) -> bool {
        branch(self.v.eqs(o.v))
    }
}
impl Eq for Bd {}
impl From<i8> for Bd {
    fn from(n: i8) -> Bd {
        Bd::of("a constant", int(n as i128), int((n as i128).abs()))
    }
}
impl Conj for Bd {
    fn conj(self) -> Bd {
        self
    }
}
impl Ring for Bd {}
impl Field for Bd {}
impl Default for Bd {
    fn default() -> Bd {
        Bd::from(0)
    }
}
impl std::iter::Sum for Bd {
    fn sum<I: Iterator<Item = Bd>>(i: I) -> Bd {
        i.fold(Bd::from(0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Bd> for Bd {
    fn sum<I: Iterator<Item = &'a Bd>>(i: I) -> Bd {
        i.fold(Bd::from(0), |a, b| a + b)
    }
}
impl std::iter::Product for Bd {
    fn product<I: Iterator<Item = Bd>>(i: I) -> Bd {
        i.fold(Bd::from(1), |a, b| a * b)
    }
}
