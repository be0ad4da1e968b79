//! P20: parameter validation of the optimiser.
use magnesia::optimize::differential_evolution;
use std::cell::Cell;
use symx::*;

/// Runs the optimiser with a comparator that may answer anything. Returns whether it panicked and
/// how often it compared.
fn attempt<const N: usize>(p: usize, cr: f32, w: Sym, iters: usize, source: Source, extra: usize) -> (Option<String>, usize) {
    let b = bounds::<N>();
    let mut env = Env::new(source, p.max(1), N, cr, extra);
    let since = env.since.clone();
    let calls = Cell::new(0);
    forget_draws();
    api("differential_evolution");
    let mut k: u64 = 0x1234567;
    let r = panics(|| {
        differential_evolution(&b, p, cr, w, iters, &mut env, |_, _| {
            since.set(0);
            calls.set(calls.get() + 1);
            if calls.get() > iters + p + ENDLESS {
                fail("the optimiser compares without end");
            }
            match source {
                Source::All => choose(2) == 1,
                Source::Seed(_) => {
                    k = k.wrapping_mul(6364136223846793005).wrapping_add(99);
                    k >> 60 & 1 == 1
                }
            }
        })
    });
    (r.err(), calls.get())
}

/// For every real weight: a panic exactly outside [0,2], and before the first comparison.
fn weights(p: usize, cr: f32, iters: usize) {
    let w = any("weight");
    let (err, calls) = attempt::<2>(p, cr, w, iters, Source::Seed(3), 0);
    let valid = int(0).les(w).and(w.les(int(2)));
    match err {
        Some(m) => {
            check("no comparison before the panic", calls == 0);
            prove(&format!("only weights outside [0,2] are rejected ({m})"), valid.not());
        }
        None => prove("weights outside [0,2] are rejected", valid),
    }
}

fn rejected(p: usize, cr: f32) {
    let w = any("weight");
    assume(int(0).les(w).and(w.les(int(2))));
    let (err, calls) = attempt::<1>(p, cr, w, 0, Source::Seed(1), 0);
    check(&format!("population {p} and crossover probability {cr} are rejected"), err.is_some());
    check("no comparison before the panic", calls == 0);
}

fn accepted<const N: usize>(p: usize, cr: f32, w: Option<i128>, iters: usize, source: Source, extra: usize) {
    let w = match w {
        Some(w) => int(w),
        None => {
            let w = any("weight");
            assume(int(0).les(w).and(w.les(int(2))));
            w
        }
    };
    let (err, _) = attempt::<N>(p, cr, w, iters, source, extra);
    if let Some(m) = err {
        fail(&format!("valid parameters panic: {m}"));
    }
    check("valid parameters are accepted", true);
}

fn main() {
    symx::main("P20", |t| {
        let mut v = vec![];
        for p in [4, 5, 6, 9] {
            for iters in [0, 1, 2 * p] {
                v.push(case(format!("any weight, population {p}, {iters} iterations"), move || weights(p, 0.5, iters)));
            }
        }
        for p in 0..4 {
            v.push(case(format!("population {p}"), move || rejected(p, 0.5)));
        }
        let bad = [f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -1.0, -1e-45, 1.0 + f32::EPSILON, 2.0, -0.001, 100.0, f32::MAX, f32::MIN];
        for (k, cr) in bad.into_iter().enumerate() {
            v.push(case(format!("crossover probability {cr} ({k})"), move || rejected(4, cr)));
        }
        let good = [0.0, -0.0, 1.0, 1e-45, 0.5, 1.0 - f32::EPSILON / 2.0, 1.0 / 3.0];
        for (k, cr) in good.into_iter().enumerate() {
            for w in [Some(0), None, Some(2)] {
                let name = w.map_or("any weight".to_string(), |w| format!("weight {w}"));
                v.push(case(format!("1 iteration, all random sequences and answers, crossover {cr} ({k}), {name}"), move || {
                    accepted::<1>(4, cr, w, 1, Source::All, 0)
                }));
            }
        }
        for p in 4..=t.pick(10, 13) {
            v.push(case(format!("no iterations, all answers, population {p}"), move || accepted::<1>(p, 0.5, None, 0, Source::All, 0)));
        }
        v.push(case("1 iteration, all random sequences with a redraw, all answers", || accepted::<1>(4, 0.5, None, 1, Source::All, 1)).limit(50_000));
        v.push(case("1 iteration, 2 coordinates, all random sequences and answers", || accepted::<2>(4, 0.5, None, 1, Source::All, 0)).limit(50_000));
        if t == Tier::Thorough {
            v.push(case("1 iteration, population 5, 2 coordinates, all random sequences and answers", || accepted::<2>(5, 0.5, None, 1, Source::All, 0)).limit(300_000));
            v.push(case("2 iterations, all random sequences and answers", || accepted::<1>(4, 0.5, None, 2, Source::All, 0)).limit(300_000));
        }
        for p in [64, 100, 127, 128, 255, 256, 257, 512, 1000, 4096, 5000, 20000, 65535, 65536, 65537] {
            v.push(case(format!("5 iterations, population {p}"), move || accepted::<1>(p, 0.5, Some(1), 5, Source::Seed(5), 0)));
        }
        macro_rules! coordinates {
            ($($n:literal)*) => { $( v.push(case(format!("20 iterations, population 6, {} coordinates", $n), || accepted::<$n>(6, 0.5, None, 20, Source::Seed(6), 0))); )* };
        }
        coordinates!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 31 32 33 63 64 65 100 128 129 255 256 257);
        v.push(case("5000 iterations, population 6", || accepted::<2>(6, 0.5, Some(1), 5000, Source::Seed(7), 0)));
        for p in 4..=t.pick(12, 40) {
            for cr in [0.0f32, 0.4, 1.0] {
                for seed in 0..t.pick(3, 10) {
                    let iters = 3 * p + seed as usize;
                    v.push(case(format!("{iters} iterations, population {p}, crossover {cr}, random sequence {seed}"), move || {
                        accepted::<3>(p, cr, None, iters, Source::Seed(seed + 11), 0)
                    }));
                }
            }
        }
        v
    })
}
