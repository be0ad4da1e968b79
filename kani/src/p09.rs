//! P09: the real function traits and the standard library.
use crate::{claim, harnesses};
use magnesia::functions::*;

fn same32(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn same64(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

harnesses! {
    holds abs_f32 2 |s| {
        let x = s.f32();
        claim!(same32(<f32 as Abs>::abs(x), f32::abs(x)), "abs of an f32");
        claim!(same32(<&f32 as Abs>::abs(&x), f32::abs(x)), "abs of a reference to an f32");
    }
    holds abs_f64 2 |s| {
        let x = s.f64();
        claim!(same64(<f64 as Abs>::abs(x), f64::abs(x)), "abs of an f64");
        claim!(same64(<&f64 as Abs>::abs(&x), f64::abs(x)), "abs of a reference to an f64");
    }
    stubbed sqrt_f32 2 |s| {
        let x = s.f32();
        claim!(same32(<f32 as Sqrt>::sqrt(&x), f32::sqrt(x)), "sqrt of an f32");
    }
    stubbed sqrt_f64 2 |s| {
        let x = s.f64();
        claim!(same64(<f64 as Sqrt>::sqrt(&x), f64::sqrt(x)), "sqrt of an f64");
    }
    holds sqrt_negative_f32 2 |s| {
        let x = s.f32();
        s.assume(x < 0.0);
        claim!(<f32 as Sqrt>::sqrt(&x).is_nan(), "sqrt of a negative f32 is NaN");
    }
    holds sqrt_negative_f64 2 |s| {
        let x = s.f64();
        s.assume(x < 0.0);
        claim!(<f64 as Sqrt>::sqrt(&x).is_nan(), "sqrt of a negative f64 is NaN");
    }
    stubbed exp_f32 2 |s| {
        let x = s.f32();
        claim!(same32(<f32 as Exp>::exp(x), f32::exp(x)), "exp of an f32");
    }
    stubbed exp_f64 2 |s| {
        let x = s.f64();
        claim!(same64(<f64 as Exp>::exp(x), f64::exp(x)), "exp of an f64");
    }
    stubbed ln_f32 2 |s| {
        let x = s.f32();
        claim!(same32(<f32 as Ln>::ln(x), f32::ln(x)), "ln of an f32");
    }
    stubbed ln_f64 2 |s| {
        let x = s.f64();
        claim!(same64(<f64 as Ln>::ln(x), f64::ln(x)), "ln of an f64");
    }
    stubbed sin_f32 2 |s| {
        let x = s.f32();
        claim!(same32(<f32 as Sin>::sin(x), f32::sin(x)), "sin of an f32");
    }
    stubbed sin_f64 2 |s| {
        let x = s.f64();
        claim!(same64(<f64 as Sin>::sin(x), f64::sin(x)), "sin of an f64");
    }
    stubbed cos_f32 2 |s| {
        let x = s.f32();
        claim!(same32(<f32 as Cos>::cos(x), f32::cos(x)), "cos of an f32");
    }
    stubbed cos_f64 2 |s| {
        let x = s.f64();
        claim!(same64(<f64 as Cos>::cos(x), f64::cos(x)), "cos of an f64");
    }
    stubbed tan_f32 2 |s| {
        let x = s.f32();
        claim!(same32(<f32 as Tan>::tan(x), f32::tan(x)), "tan of an f32");
    }
    stubbed tan_f64 2 |s| {
        let x = s.f64();
        claim!(same64(<f64 as Tan>::tan(x), f64::tan(x)), "tan of an f64");
    }
    stubbed asin_f32 2 |s| {
        let x = s.f32();
        claim!(same32(<f32 as Asin>::asin(x), f32::asin(x)), "asin of an f32");
    }
    stubbed asin_f64 2 |s| {
        let x = s.f64();
        claim!(same64(<f64 as Asin>::asin(x), f64::asin(x)), "asin of an f64");
    }
    stubbed sinh_f32 2 |s| {
        let x = s.f32();
        claim!(same32(<f32 as Sinh>::sinh(x), f32::sinh(x)), "sinh of an f32");
    }
    stubbed sinh_f64 2 |s| {
        let x = s.f64();
        claim!(same64(<f64 as Sinh>::sinh(x), f64::sinh(x)), "sinh of an f64");
    }
    stubbed cosh_f32 2 |s| {
        let x = s.f32();
        claim!(same32(<f32 as Cosh>::cosh(x), f32::cosh(x)), "cosh of an f32");
    }
    stubbed cosh_f64 2 |s| {
        let x = s.f64();
        claim!(same64(<f64 as Cosh>::cosh(x), f64::cosh(x)), "cosh of an f64");
    }
    stubbed atan2_f32 2 |s| {
        let (y, x) = (s.f32(), s.f32());
        claim!(same32(<f32 as Atan2>::atan2(y, x), f32::atan2(y, x)), "atan2 of f32");
    }
    stubbed atan2_f64 2 |s| {
        let (y, x) = (s.f64(), s.f64());
        claim!(same64(<f64 as Atan2>::atan2(y, x), f64::atan2(y, x)), "atan2 of f64");
    }
}
