//! Entries with "free" operations: each operator is a fixed mixing of the bits of its operands, unlike
//! every other operator and neither commutative nor associative. A wrong operator, operand or order shows.
use magnesia::algebra::Conj;
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct E(pub u64);

fn mix(k: u32, c: u64, a: u64, b: u64) -> u64 {
    a.rotate_left(k) ^ b.rotate_left(2 * k + 5) ^ c
}

macro_rules! op {
    ($($op:ident $f:ident $k:literal $c:literal),*) => {
        $(
            impl $op for E {
                type Output = E;
                fn $f(self, b: E) -> E {
                    E(mix($k, $c, self.0, b.0))
                }
            }
        )*
    };
}
op!(Add add 3 0x1111_2222_3333_4444, Sub sub 7 0x5555_6666_7777_8888, Mul mul 11 0x9999_aaaa_bbbb_cccc, Div div 17 0xdddd_eeee_ffff_0000);

impl AddAssign for E {
    fn add_assign(&mut self, b: E) {
        self.0 = mix(3, 0x1111_2222_3333_4444, self.0, b.0);
    }
}
impl SubAssign for E {
    fn sub_assign(&mut self, b: E) {
        self.0 = mix(7, 0x5555_6666_7777_8888, self.0, b.0);
    }
}
impl Conj for E {
    fn conj(self) -> E {
        E(self.0.rotate_left(29) ^ 0x0f0f)
    }
}
impl From<i8> for E {
    fn from(x: i8) -> E {
        E(x as u64 ^ 0x0123_4567_89ab_cdef)
    }
}

/// An injective function of the index, different for every `a`.
pub fn at(a: u64, i: usize) -> E {
    E((i as u64).rotate_left(9) ^ a)
}
/// An injective function of row and column as long as both are below 2^32; otherwise still a function of both.
pub fn at2(a: u64, r: usize, c: usize) -> E {
    E((r as u64).rotate_left(37) ^ (c as u64).rotate_left(5) ^ a)
}

impl<'a> Mul<&'a E> for &'a E {
    type Output = E;
    fn mul(self, b: &'a E) -> E {
        *self * *b
    }
}
impl<'a> Div<&'a E> for &'a E {
    type Output = E;
    fn div(self, b: &'a E) -> E {
        *self / *b
    }
}
