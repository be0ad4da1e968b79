//! P22: primitive scalars, for every value.
use crate::{claim, elem::E, harnesses};
use magnesia::algebra::{Conj, DivRefs, MulRefs, One, Zero};

macro_rules! int {
    ($s:ident $($t:ty, $n:literal);*) => {
        $({
            let a = <$t>::from_le_bytes($s.bytes::<$n>());
            claim!(a.conj() == a, "conj of an integer");
        })*
    };
}
macro_rules! units {
    ($s:ident $($t:ty, $z:expr, $o:expr);*) => {
        $(
            claim!(<$t as Zero>::zero() == $z, "zero of a primitive");
            claim!(<$t as One>::one() == $o, "one of a primitive");
        )*
    };
}
/// Operands of at most 8 bits and, for multiplication, 16 bits: wider products and quotients of two
/// unknowns are beyond the SAT solver.
macro_rules! products {
    ($s:ident $($t:ty, $v:ty, $n:literal);*) => {
        $({
            let a = <$v>::from_le_bytes($s.bytes::<$n>()) as $t;
            let b = <$v>::from_le_bytes($s.bytes::<$n>()) as $t;
            // where the built-in operator does not overflow
            if let Some(p) = a.checked_mul(b) {
                claim!(a.mul_refs(&b) == p, "mul_refs of integers");
            }
        })*
    };
}
macro_rules! quotients {
    ($s:ident $($t:ty, $v:ty, $n:literal);*) => {
        $({
            let a = <$v>::from_le_bytes($s.bytes::<$n>()) as $t;
            let b = <$v>::from_le_bytes($s.bytes::<$n>()) as $t;
            // where the built-in operator does not panic
            if let Some(q) = a.checked_div(b) {
                claim!(a.div_refs(&b) == q, "div_refs of integers");
            }
        })*
    };
}
macro_rules! floats {
    ($s:ident $t:ty, $bits:ident, $ma:literal, $mb:literal, $f:ident, $op:tt, $text:literal) => {
        // the sign, the exponent and the leading bits of the mantissa are arbitrary
        let (a, b) = (<$t>::from_bits($s.$bits() & $ma), <$t>::from_bits($s.$bits() & $mb));
        let (x, y) = (a.$f(&b), a $op b);
        claim!(x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()), $text);
    };
}

harnesses! {
    holds zero_one 2 |s| {
        let _ = s.u8();
        units!(s i8, 0, 1; i16, 0, 1; i32, 0, 1; i64, 0, 1; i128, 0, 1; isize, 0, 1; f32, 0.0, 1.0; f64, 0.0, 1.0);
    }
    holds conj_integers 2 |s| {
        int!(s i8, 1; i16, 2; i32, 4; i64, 8; i128, 16; u8, 1; u16, 2; u32, 4; u64, 8; u128, 16);
    }
    holds conj_floats 2 |s| {
        let (a, b) = (s.f32(), s.f64());
        claim!(a.conj().to_bits() == a.to_bits() || (a.is_nan() && a.conj().is_nan()), "conj of an f32");
        claim!(b.conj().to_bits() == b.to_bits() || (b.is_nan() && b.conj().is_nan()), "conj of an f64");
    }
    holds refs_keep_order 2 |s| {
        let (a, b) = (E(s.u64()), E(s.u64()));
        claim!(a.mul_refs(&b) == a * b, "mul_refs keeps the order of its operands");
        claim!(a.div_refs(&b) == a / b, "div_refs keeps the order of its operands");
    }
    holds mul_refs_8 2 |s| { products!(s i8, i8, 1; u8, u8, 1); }
    holds mul_refs_16 2 |s| { products!(s i16, i16, 2; u16, u16, 2); }
    holds mul_refs_32 2 |s| { products!(s i32, i16, 2; u32, u16, 2); }
    holds mul_refs_64 2 |s| { products!(s i64, i16, 2; u64, u16, 2); }
    holds mul_refs_128 2 |s| { products!(s i128, i8, 1; u128, u8, 1); }
    holds mul_refs_size 2 |s| { products!(s isize, i16, 2; usize, u16, 2); }
    holds div_refs_8 2 |s| { quotients!(s i8, i8, 1; u8, u8, 1); }
    holds div_refs_16 2 |s| { quotients!(s i16, i8, 1; u16, u8, 1); }
    holds div_refs_32 2 |s| { quotients!(s i32, i8, 1; u32, u8, 1); }
    holds div_refs_64 2 |s| { quotients!(s i64, i8, 1; u64, u8, 1); }
    holds div_refs_128 2 |s| { quotients!(s i128, i8, 1; u128, u8, 1); }
    holds div_refs_size 2 |s| { quotients!(s isize, i8, 1; usize, u8, 1); }
    holds mul_refs_f32 2 |s| { floats!(s f32, u32, 0xffff_0000, 0xffff_0000, mul_refs, *, "mul_refs of f32"); }
    holds mul_refs_f64 2 |s| { floats!(s f64, u64, 0xffff_f000_0000_0000, 0xffff_f000_0000_0000, mul_refs, *, "mul_refs of f64"); }
    holds div_refs_f32 2 |s| { floats!(s f32, u32, 0xfff0_0000, 0xffc0_0000, div_refs, /, "div_refs of f32"); }
    holds div_refs_f64 2 |s| { floats!(s f64, u64, 0xfffe_0000_0000_0000, 0xfff8_0000_0000_0000, div_refs, /, "div_refs of f64"); }
    holds deep_mul_refs_32 2 |s| { products!(s i32, i32, 4; u32, u32, 4); }
    holds deep_mul_refs_64 2 |s| { products!(s i64, i32, 4; u64, u32, 4); }
    holds deep_mul_refs_128 2 |s| { products!(s i128, i16, 2; u128, u16, 2); }
    holds deep_mul_refs_f32 2 |s| { floats!(s f32, u32, 0xffff_ffff, 0xffff_ffff, mul_refs, *, "mul_refs of f32"); }
    holds deep_mul_refs_f64 2 |s| { floats!(s f64, u64, 0xffff_ff00_0000_0000, 0xffff_ff00_0000_0000, mul_refs, *, "mul_refs of f64"); }
    holds deep_div_refs_f32 2 |s| { floats!(s f32, u32, 0xffff_0000, 0xfff0_0000, div_refs, /, "div_refs of f32"); }
}
