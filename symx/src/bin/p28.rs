//! P28: what the optimiser does depends on nothing but what it is given.
use magnesia::optimize::differential_evolution;
use rand::{Error, RngCore};
use std::cell::Cell;
use std::rc::Rc;
use symx::*;

/// Numbers drawn from `env` are written down; a second run is given the same ones.
struct Tape {
    env: Env,
    said: Vec<(u64, bool)>,
    at: Option<usize>,
}

impl Tape {
    fn draw(&mut self, long: bool) -> u64 {
        match &mut self.at {
            None => {
                let x = if long { self.env.next_u64() } else { self.env.next_u32() as u64 };
                self.said.push((x, long));
                x
            }
            Some(k) => {
                *k += 1;
                match self.said.get(*k - 1) {
                    Some((x, l)) if *l == long => *x,
                    _ => fail("the second run draws other random numbers than the first"),
                }
            }
        }
    }
}

impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        self.draw(false) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.draw(true)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u32() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

#[derive(Clone, Copy)]
struct Setup {
    p: usize,
    iters: usize,
    cr: f32,
    source: Source,
    /// the comparator prefers this many in eight trials
    accept: u64,
    /// what else is optimised between the two runs
    between: usize,
}

type Log<const N: usize> = Vec<(Cand<N>, Cand<N>)>;

fn go<const N: usize>(b: &[(Sym, Sym); N], w: Sym, s: Setup, tape: &mut Tape, since: &Rc<Cell<usize>>, answers: &mut Vec<bool>, replay: bool) -> (Cand<N>, Log<N>) {
    forget_draws();
    let mut log: Log<N> = vec![];
    let mut k = 0x9e37_79b9_7f4a_7c15u64;
    api("differential_evolution");
    let got = differential_evolution(b, s.p, s.cr, w, s.iters, tape, |x, y| {
        since.set(0);
        log.push((*x, *y));
        if log.len() > 2 * (s.iters + s.p) + 1000 {
            fail("the optimiser compares without end");
        }
        if replay {
            return match answers.get(log.len() - 1) {
                Some(a) => *a,
                None => fail("the second run compares more often than the first"),
            };
        }
        let a = match s.source {
            Source::All => choose(2) == 1,
            Source::Seed(_) => {
                k = k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                k >> 61 < s.accept
            }
        };
        answers.push(a);
        a
    });
    (got, log)
}

/// Another run with other arguments.
fn other<const N: usize>(p: usize, iters: usize, seed: u64) {
    let b: [(f32, f32); N] = [(-3.0, 2.0); N];
    let mut env = Env::new(Source::Seed(seed), p, N, 0.5, 0);
    let since = env.since.clone();
    let mut k = seed;
    differential_evolution(&b, p, 0.5, 0.7, iters, &mut env, |x, y| {
        since.set(0);
        k = k.wrapping_mul(6364136223846793005).wrapping_add(99);
        x[0] < y[0] || k >> 62 == 0
    });
}

fn twice<const N: usize>(s: Setup) {
    let b = bounds::<N>();
    let w = any("weight");
    assume(int(0).les(w).and(w.les(int(2))));
    let env = Env::new(s.source, s.p, N, s.cr, 0);
    let since = env.since.clone();
    let mut tape = Tape { env, said: vec![], at: None };
    let mut answers = vec![];
    let (got, log) = go(&b, w, s, &mut tape, &since, &mut answers, false);
    for k in 0..=s.between {
        match k {
            1 => other::<2>(5, 7, 3),
            2 => (0..9).for_each(|i| other::<1>(4 + i, 11 * i, i as u64)),
            3 => (0..300).for_each(|i| other::<3>(4, 1, i)),
            _ => (),
        }
        tape.at = Some(0);
        let (again, log2) = go(&b, w, s, &mut tape, &since, &mut answers, true);
        let l = format!("run {}", k + 2);
        check(&format!("{l} draws as many random numbers"), tape.at == Some(tape.said.len()));
        check(&format!("{l} compares as often"), log.len() == log2.len());
        for (t, (x, y)) in log.iter().enumerate() {
            let (u, v) = &log2[t];
            prove(&format!("{l}, comparison {t}, first candidate"), same_cand(x, u));
            prove(&format!("{l}, comparison {t}, second candidate"), same_cand(y, v));
        }
        prove(&format!("{l}: result"), same_cand(&got, &again));
    }
}

fn main() {
    symx::main("P28", |t| {
        let mut v = vec![];
        let base = Setup { p: 4, iters: 0, cr: 0.5, source: Source::All, accept: 3, between: 0 };
        for p in 4..=t.pick(8, 11) {
            v.push(case(format!("no iterations, all answers, population {p}"), move || twice::<2>(Setup { p, ..base })));
        }
        for cr in [0.0, 0.5, 1.0] {
            let s = Setup { iters: 1, cr, ..base };
            v.push(case(format!("1 iteration, all random sequences and answers, 1 coordinate, crossover {cr}"), move || twice::<1>(s)).limit(50_000));
            v.push(case(format!("1 iteration, all random sequences and answers, 2 coordinates, crossover {cr}"), move || twice::<2>(s)).limit(50_000));
        }
        if t == Tier::Thorough {
            v.push(case("1 iteration, all random sequences and answers, population 5", move || twice::<1>(Setup { iters: 1, p: 5, ..base })).limit(100_000));
            v.push(case("2 iterations, all random sequences and answers", move || twice::<1>(Setup { iters: 2, ..base })).limit(100_000));
        }
        for p in (4..=t.pick(12, 24)).chain([16, 17, 32, 33, 64, 100, 129, 256]) {
            for seed in 0..t.pick(3, 8) {
                let cr = [0.0f32, 0.3, 0.7, 1.0][(p + seed as usize) % 4];
                let s = Setup { p, iters: 2 * p + 5, cr, source: Source::Seed(seed + 1), accept: 1 + 3 * (seed % 3), between: if p <= 12 { 3 } else { 1 } };
                v.push(case(format!("{} iterations, population {p}, 2 coordinates, crossover {cr}, random sequence {seed}", s.iters), move || twice::<2>(s)));
            }
        }
        macro_rules! coordinates {
            ($($n:literal)*) => { $(
                let s = Setup { p: 6, iters: 20, source: Source::Seed(40), between: 1, ..base };
                v.push(case(format!("20 iterations, population 6, {} coordinates", $n), move || twice::<$n>(s)));
            )* };
        }
        coordinates!(1 3 4 5 7 8 9 15 16 17 32 33 64 65);
        for accept in [0, 1, 4, 8] {
            let s = Setup { p: 7, iters: t.pick(400, 2000), accept, source: Source::Seed(77), ..base };
            v.push(case(format!("{} iterations, population 7, {accept} of 8 trials better", s.iters), move || twice::<1>(s)));
        }
        v
    })
}
