//! Numbers that count what is done with them: operations, comparisons and copies.
use crate::sym::*;
use magnesia::algebra::{Conj, Field, Ring};
use std::cell::Cell;
use std::ops::*;

thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
    static COPIES: Cell<u64> = const { Cell::new(0) };
}
fn op(v: Sym) -> Ct {
    OPS.with(|c| c.set(c.get() + 1));
    Ct(v)
}
/// Operations and copies since the last call.
pub fn counts() -> (u64, u64) {
    (OPS.with(|c| c.replace(0)), COPIES.with(|c| c.replace(0)))
}

/// Not `Copy`: copies are counted as well.
#[derive(Debug)]
pub struct Ct(pub Sym);

impl Clone for Ct {
    fn clone(&self) -> Ct {
        COPIES.with(|c| c.set(c.get() + 1));
        Ct(self.0)
    }
}

macro_rules! ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident $op:tt),*) => { $(
        impl $tr<Ct> for Ct {
            type Output = Ct;
            fn $f(self, o: Ct) -> Ct {
                op(self.0 $op o.0)
            }
        }
        impl<'a> $tr<&'a Ct> for Ct {
            type Output = Ct;
            fn $f(self, o: &'a Ct) -> Ct {
                op(self.0 $op o.0)
            }
        }
        impl<'a> $tr<Ct> for &'a Ct {
            type Output = Ct;
            fn $f(self, o: Ct) -> Ct {
                op(self.0 $op o.0)
            }
        }
        impl<'a, 'b> $tr<&'b Ct> for &'a Ct {
            type Output = Ct;
            fn $f(self, o: &'b Ct) -> Ct {
                op(self.0 $op o.0)
            }
        }
        impl $tra<Ct> for Ct {
            fn $fa(&mut self, o: Ct) {
                *self = op(self.0 $op o.0);
            }
        }
        impl<'a> $tra<&'a Ct> for Ct {
            fn $fa(&mut self, o: &'a Ct) {
                *self = op(self.0 $op o.0);
            }
        }
    )* };
}
ops!(Add add AddAssign add_assign +, Sub sub SubAssign sub_assign -, Mul mul MulAssign mul_assign *, Div div DivAssign div_assign /);

impl Neg for Ct {
    type Output = Ct;
    fn neg(self) -> Ct {
        op(-self.0)
    }
}
impl<'a> Neg for &'a Ct {
    type Output = Ct;
    fn neg(self) -> Ct {
        op(-self.0)
    }
}
impl PartialEq for Ct {
    fn eq(&self, o: &Ct) -> bool {
        op(self.0);
        branch(self.0.eqs(o.0))
    }
}
impl Eq for Ct {}
impl From<i8> for Ct {
    fn from(n: i8) -> Ct {
        Ct(int(n as i128))
    }
}
impl Conj for Ct {
    fn conj(self) -> Ct {
        op(self.0)
    }
}
impl Ring for Ct {}
impl Field for Ct {}
impl Default for Ct {
    fn default() -> Ct {
        Ct::from(0)
    }
}
impl std::iter::Sum for Ct {
    fn sum<I: Iterator<Item = Ct>>(i: I) -> Ct {
        i.fold(Ct::from(0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Ct> for Ct {
    fn sum<I: Iterator<Item = &'a Ct>>(i: I) -> Ct {
        i.fold(Ct::from(0), |a, b| a + b)
    }
}
impl std::iter::Product for Ct {
    fn product<I: Iterator<Item = Ct>>(i: I) -> Ct {
        i.fold(Ct::from(1), |a, b| a * b)
    }
}
