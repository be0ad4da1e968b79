//! Stand-ins for the standard library's floating point functions, which CBMC cannot compute. Each is
//! an arbitrary but fixed function of the bits of its arguments, different for every function, so
//! a call of the wrong function, with the wrong argument or with its arguments swapped shows.
//!
//! They are used only under Kani; a counterexample is replayed with the real functions.
macro_rules! unary {
    ($($f32:ident $f64:ident $k:literal),*) => {
        $(
            pub fn $f32(x: f32) -> f32 {
                f32::from_bits(x.to_bits().rotate_left($k) ^ (0x0101_0101u32 << ($k % 7)) ^ $k)
            }
            pub fn $f64(x: f64) -> f64 {
                f64::from_bits(x.to_bits().rotate_left(2 * $k) ^ (0x0101_0101_0101_0101u64 << ($k % 7)) ^ $k)
            }
        )*
    };
}
unary!(sqrt32 sqrt64 1, exp32 exp64 2, ln32 ln64 3, sin32 sin64 4, cos32 cos64 5, tan32 tan64 6, asin32 asin64 7,
       sinh32 sinh64 8, cosh32 cosh64 9, acos32 acos64 10, atan32 atan64 11, tanh32 tanh64 12, exp232 exp264 13,
       log232 log264 14, log1032 log1064 15, expm132 expm164 17, ln1p32 ln1p64 18);

pub fn atan232(y: f32, x: f32) -> f32 {
    f32::from_bits(y.to_bits().rotate_left(5) ^ x.to_bits().rotate_left(19) ^ 0x2222_1111)
}
pub fn atan264(y: f64, x: f64) -> f64 {
    f64::from_bits(y.to_bits().rotate_left(11) ^ x.to_bits().rotate_left(37) ^ 0x2222_1111_3333_4444)
}
