//! P20: parameter checks for every bit pattern of the floating point parameters.
use crate::{claim, harnesses};
use magnesia::optimize::differential_evolution;

/// A generator which always gives 0. No iteration runs, so no index is drawn.
struct Zeros;
impl rand::RngCore for Zeros {
    fn next_u32(&mut self) -> u32 {
        0
    }
    fn next_u64(&mut self) -> u64 {
        0
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        dest.fill(0)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        dest.fill(0);
        Ok(())
    }
}

/// NaN is not valid.
fn valid32(population: usize, cr: f32, w: f32) -> bool {
    population >= 4 && cr >= 0.0 && cr <= 1.0 && w >= 0.0 && w <= 2.0
}
fn valid64(population: usize, cr: f32, w: f64) -> bool {
    population >= 4 && cr >= 0.0 && cr <= 1.0 && w >= 0.0 && w <= 2.0
}

fn with_population(population: usize, s: &mut impl crate::Src) {
    let (cr, w, answer) = (s.f32(), s.f32(), s.u8() & 1 == 0);
    s.assume(!valid32(population, cr, w));
    differential_evolution(&[(0.0f32, 1.0)], population, cr, w, 0, &mut Zeros, |_, _| {
        claim!(false, "candidates are compared although a parameter is invalid");
        answer
    });
}
fn with_population64(population: usize, s: &mut impl crate::Src) {
    let (cr, w, answer) = (s.f32(), s.f64(), s.u8() & 1 == 0);
    s.assume(!valid64(population, cr, w));
    differential_evolution(&[(0.0f64, 1.0)], population, cr, w, 0, &mut Zeros, |_, _| {
        claim!(false, "candidates are compared although a parameter is invalid");
        answer
    });
}
fn accepts(population: usize, s: &mut impl crate::Src) {
    let (cr, w, answer) = (s.f32(), s.f32(), s.u8() & 1 == 0);
    s.assume(valid32(population, cr, w));
    let x = differential_evolution(&[(0.0f32, 1.0)], population, cr, w, 0, &mut Zeros, |_, _| answer);
    claim!(x[0] >= 0.0 && x[0] < 1.0, "the result is one of the initial candidates");
}
fn accepts64(population: usize, s: &mut impl crate::Src) {
    let (cr, w, answer) = (s.f32(), s.f64(), s.u8() & 1 == 0);
    s.assume(valid64(population, cr, w));
    let x = differential_evolution(&[(0.0f64, 1.0)], population, cr, w, 0, &mut Zeros, |_, _| answer);
    claim!(x[0] >= 0.0 && x[0] < 1.0, "the result is one of the initial candidates");
}

harnesses! {
    panics population_0 6 |s| { with_population(0, s) }
    panics population_1 6 |s| { with_population(1, s) }
    panics population_2 6 |s| { with_population(2, s) }
    panics population_3 6 |s| { with_population(3, s) }
    panics population_4_f32 7 |s| { with_population(4, s) }
    panics population_4_f64 7 |s| { with_population64(4, s) }
    holds valid_4_f32 7 |s| { accepts(4, s) }
    holds valid_5_f32 8 |s| { accepts(5, s) }
    holds valid_4_f64 7 |s| { accepts64(4, s) }
    panics deep_population_3_f64 6 |s| { with_population64(3, s) }
    panics deep_population_5_f64 8 |s| { with_population64(5, s) }
    panics deep_population_7_f32 10 |s| { with_population(7, s) }
    holds deep_valid_5_f64 8 |s| { accepts64(5, s) }
    holds deep_valid_8_f32 11 |s| { accepts(8, s) }
    holds deep_valid_9_f32 12 |s| { accepts(9, s) }
}
