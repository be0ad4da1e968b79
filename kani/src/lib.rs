//! Bounded model checking (Kani/CBMC) of magnesia's compiled code, for the properties about machine
//! values: all indices, all lengths, all bit patterns.
//!
//! Every harness is an ordinary function over a source of values. Under Kani the values are symbolic;
//! natively they are read from a recorded counterexample, so the same body replays it.
#![recursion_limit = "8192"]
use std::any::Any;

pub mod elem;
pub mod p09;
pub mod p13;
pub mod p14;
pub mod p16;
pub mod p17;
pub mod p20;
pub mod p22;
pub mod p26;
pub mod stubs;

/// Where a harness gets its values from.
pub trait Src {
    fn bytes<const N: usize>(&mut self) -> [u8; N];
    fn assume(&mut self, ok: bool);
    fn u8(&mut self) -> u8 {
        self.bytes::<1>()[0]
    }
    fn u16(&mut self) -> u16 {
        u16::from_le_bytes(self.bytes())
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.bytes())
    }
    fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.bytes())
    }
    fn u128(&mut self) -> u128 {
        u128::from_le_bytes(self.bytes())
    }
    fn usize(&mut self) -> usize {
        usize::from_le_bytes(self.bytes())
    }
    fn f32(&mut self) -> f32 {
        f32::from_bits(self.u32())
    }
    fn f64(&mut self) -> f64 {
        f64::from_bits(self.u64())
    }
}

#[cfg(kani)]
pub struct Symbolic;

#[cfg(kani)]
impl Src for Symbolic {
    fn bytes<const N: usize>(&mut self) -> [u8; N] {
        kani::any()
    }
    fn assume(&mut self, ok: bool) {
        kani::assume(ok)
    }
}

/// Payload of the panic that ends a native run whose values violate an assumption.
pub struct Rejected;

pub struct Recorded {
    pub values: Vec<u8>,
    pub pos: usize,
}

impl Src for Recorded {
    fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut out = [0; N];
        for b in out.iter_mut() {
            *b = self.values.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
        }
        out
    }
    fn assume(&mut self, ok: bool) {
        if !ok {
            std::panic::panic_any(Rejected);
        }
    }
}

/// What a native run showed.
#[derive(Debug)]
pub enum Outcome {
    Holds,
    Rejected,
    Fails(String),
}

pub struct Harness {
    pub name: &'static str,
    /// the code under test has to panic before the end of the body
    pub must_panic: bool,
    pub body: fn(&mut Recorded),
}

pub const CLAIM: &str = "CLAIM";

/// The claim of a harness. Its text tells it from the panics of the code under test.
#[macro_export]
macro_rules! claim {
    ($ok:expr, $($text:literal),+) => {
        if !$ok {
            panic!(concat!("CLAIM ", $($text),+));
        }
    };
}

/// `holds`: no panic. `panics`: the code under test panics before the body ends. `stubbed`: no panic,
/// with the standard library's float functions replaced.
#[macro_export]
macro_rules! harnesses {
    ($( $kind:ident $name:ident $unwind:literal |$s:ident| $body:block )*) => {
        $(
            pub fn $name($s: &mut impl $crate::Src) $body
        )*
        #[cfg(kani)]
        pub mod proofs {
            $(
                $crate::harnesses!(@proof $kind $name $unwind);
            )*
        }
        #[cfg(not(kani))]
        pub const TABLE: &[$crate::Harness] = &[
            $( $crate::Harness { name: stringify!($name), must_panic: $crate::harnesses!(@ $kind), body: $name } ),*
        ];
    };
    (@ holds) => { false };
    (@ stubbed) => { false };
    (@ panics) => { true };
    (@proof stubbed $name:ident $unwind:literal) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::stub(f32::sqrt, crate::stubs::sqrt32)]
        #[kani::stub(f64::sqrt, crate::stubs::sqrt64)]
        #[kani::stub(f32::exp, crate::stubs::exp32)]
        #[kani::stub(f64::exp, crate::stubs::exp64)]
        #[kani::stub(f32::ln, crate::stubs::ln32)]
        #[kani::stub(f64::ln, crate::stubs::ln64)]
        #[kani::stub(f32::sin, crate::stubs::sin32)]
        #[kani::stub(f64::sin, crate::stubs::sin64)]
        #[kani::stub(f32::cos, crate::stubs::cos32)]
        #[kani::stub(f64::cos, crate::stubs::cos64)]
        #[kani::stub(f32::tan, crate::stubs::tan32)]
        #[kani::stub(f64::tan, crate::stubs::tan64)]
        #[kani::stub(f32::asin, crate::stubs::asin32)]
        #[kani::stub(f64::asin, crate::stubs::asin64)]
        #[kani::stub(f32::sinh, crate::stubs::sinh32)]
        #[kani::stub(f64::sinh, crate::stubs::sinh64)]
        #[kani::stub(f32::cosh, crate::stubs::cosh32)]
        #[kani::stub(f64::cosh, crate::stubs::cosh64)]
        #[kani::stub(f32::acos, crate::stubs::acos32)]
        #[kani::stub(f64::acos, crate::stubs::acos64)]
        #[kani::stub(f32::atan, crate::stubs::atan32)]
        #[kani::stub(f64::atan, crate::stubs::atan64)]
        #[kani::stub(f32::tanh, crate::stubs::tanh32)]
        #[kani::stub(f64::tanh, crate::stubs::tanh64)]
        #[kani::stub(f32::exp2, crate::stubs::exp232)]
        #[kani::stub(f64::exp2, crate::stubs::exp264)]
        #[kani::stub(f32::log2, crate::stubs::log232)]
        #[kani::stub(f64::log2, crate::stubs::log264)]
        #[kani::stub(f32::log10, crate::stubs::log1032)]
        #[kani::stub(f64::log10, crate::stubs::log1064)]
        #[kani::stub(f32::exp_m1, crate::stubs::expm132)]
        #[kani::stub(f64::exp_m1, crate::stubs::expm164)]
        #[kani::stub(f32::ln_1p, crate::stubs::ln1p32)]
        #[kani::stub(f64::ln_1p, crate::stubs::ln1p64)]
        #[kani::stub(f32::atan2, crate::stubs::atan232)]
        #[kani::stub(f64::atan2, crate::stubs::atan264)]
        fn $name() {
            super::$name(&mut $crate::Symbolic);
            kani::cover!(true, "END");
        }
    };
    (@proof $kind:ident $name:ident $unwind:literal) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        fn $name() {
            super::$name(&mut $crate::Symbolic);
            kani::cover!(true, "END");
        }
    };
}

pub fn run(h: &Harness, values: Vec<u8>) -> Outcome {
    let r = std::panic::catch_unwind(|| (h.body)(&mut Recorded { values, pos: 0 }));
    match r {
        Ok(()) if h.must_panic => Outcome::Fails("returned instead of panicking".into()),
        Ok(()) => Outcome::Holds,
        Err(p) => {
            if p.is::<Rejected>() {
                return Outcome::Rejected;
            }
            let m = text(&*p);
            if h.must_panic && !m.starts_with(CLAIM) {
                Outcome::Holds
            } else {
                Outcome::Fails(m)
            }
        }
    }
}

fn text(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or("panic".into())
}

#[cfg(not(kani))]
pub fn table(prop: &str) -> &'static [Harness] {
    match prop {
        "p09" => p09::TABLE,
        "p13" => p13::TABLE,
        "p14" => p14::TABLE,
        "p16" => p16::TABLE,
        "p17" => p17::TABLE,
        "p20" => p20::TABLE,
        "p22" => p22::TABLE,
        "p26" => p26::TABLE,
        _ => &[],
    }
}
