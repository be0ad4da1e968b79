//! P19: how candidates are drawn, built, compared and replaced.
use magnesia::optimize::differential_evolution;
use std::collections::HashMap;
use symx::*;

#[derive(Clone, Copy)]
struct Setup {
    p: usize,
    iters: usize,
    cr: f32,
    w: Option<(i128, i128)>,
    source: Source,
    extra: usize,
    /// the comparator may answer anything in the final selection, too
    knockout: bool,
    /// with a fixed sequence, the comparator prefers this many in six trials
    accept: u64,
}

/// The trial x for the target y is made from these three candidates.
fn made<const N: usize>(o: &[Cand<N>; 3], x: &Cand<N>, y: &Cand<N>, w: Sym, cr: f32) -> B {
    let m: Cand<N> = std::array::from_fn(|n| o[0][n] + (o[1][n] - o[2][n]) * w);
    let is_m: Vec<B> = (0..N).map(|n| x[n].eqs(m[n])).collect();
    let is_y: Vec<B> = (0..N).map(|n| x[n].eqs(y[n])).collect();
    if cr == 1.0 {
        B::all(is_m)
    } else if cr == 0.0 {
        B::any(
            (0..N)
                .map(|r| {
                    B::all((0..N).map(|n| if n == r { is_m[n].clone() } else { is_y[n].clone() }).collect())
                })
                .collect(),
        )
    } else {
        B::any(is_m.clone()).and(B::all((0..N).map(|n| is_m[n].clone().or(is_y[n].clone())).collect()))
    }
}

/// Some three candidates give this trial as the same polynomials (found by fingerprints).
fn built<const N: usize>(others: &[Cand<N>], x: &Cand<N>, y: &Cand<N>, w: Sym, cr: f32) -> bool {
    let n = match (0..N).find(|&n| !same_term(x[n], y[n])) {
        Some(n) => n,
        // the same candidate again, for example with weight 0
        None => return false,
    };
    let fw = fingerprint(w);
    let f: Vec<u64> = others.iter().map(|c| fingerprint(c[n])).collect();
    let fx = fingerprint(x[n]);
    let mut at: HashMap<u64, Vec<usize>> = HashMap::new();
    for (a, k) in f.iter().enumerate() {
        at.entry(*k).or_default().push(a);
    }
    for b in 0..f.len() {
        for c in 0..f.len() {
            for &a in at.get(&print_sub(fx, print_mul(print_sub(f[b], f[c]), fw))).into_iter().flatten() {
                if a == b || b == c || a == c {
                    continue;
                }
                let m: Cand<N> = std::array::from_fn(|n| others[a][n] + (others[b][n] - others[c][n]) * w);
                let is_m = |n: usize| same_term(x[n], m[n]);
                let is_y = |n: usize| same_term(x[n], y[n]);
                let ok = if cr == 1.0 {
                    (0..N).all(is_m)
                } else if cr == 0.0 {
                    (0..N).any(|r| (0..N).all(|n| if n == r { is_m(n) } else { is_y(n) }))
                } else {
                    (0..N).any(is_m) && (0..N).all(|n| is_m(n) || is_y(n))
                };
                if ok {
                    return true;
                }
            }
        }
    }
    false
}

fn run<const N: usize>(s: Setup) {
    let b = bounds::<N>();
    let w = match s.w {
        Some((n, d)) => rat(n, d),
        None => {
            let w = any("weight");
            assume(int(0).les(w).and(w.les(int(2))));
            w
        }
    };
    let p = s.p;
    let mut env = Env::new(s.source, p, N, s.cr, s.extra);
    let init = initial::<N>(&b, p, s.cr, w, &mut env);
    // initial population: every coordinate from its own bounds, by a draw of its own
    check("the comparator sees as many initial candidates as the population has", init.len() == p);
    let mut used: Vec<Sym> = vec![];
    let drawn = draws();
    for c in &init {
        for n in 0..N {
            prove(&format!("initial coordinate {n} lies in its bounds"), b[n].0.les(c[n]).and(c[n].lts(b[n].1)));
            match drawn.iter().find(|d| same_term(d.0, c[n])) {
                None => fail(&format!("initial coordinate {n} is not a random draw")),
                Some(d) => prove(&format!("initial coordinate {n} is drawn from its own bounds"), d.1.eqs(b[n].0).and(d.2.eqs(b[n].1))),
            }
            check("initial coordinates are drawn separately", !used.iter().any(|u| same_term(*u, c[n])));
            used.push(c[n]);
        }
    }

    let mut env = Env::new(s.source, p, N, s.cr, s.extra);
    let since = env.since.clone();
    forget_draws();
    // current population: None where the member is an initial candidate not met yet
    let mut pop: Vec<Option<Cand<N>>> = vec![None; p];
    let mut rest = init.clone();
    let mut calls = 0;
    let mut answers = match s.source {
        Source::Seed(k) => k.wrapping_mul(0x2545F4914F6CDD1D) | 1,
        Source::All => 0,
    };
    api("differential_evolution");
    let got = differential_evolution(&b, p, s.cr, w, s.iters, &mut env, |x, y| {
        since.set(0);
        let t = calls;
        calls += 1;
        check("no more comparisons than iterations and final selection need", t < s.iters + p - 1);
        if t >= s.iters {
            return s.knockout && choose(2) == 1;
        }
        let i = t % p;
        // the target
        match &pop[i] {
            Some(c) => prove(&format!("iteration {t} compares with the current candidate {i}"), same_cand(c, y)),
            None => match rest.iter().position(|c| is_cand(c, y)) {
                Some(k) => {
                    rest.remove(k);
                }
                None => fail(&format!("iteration {t} does not compare with the initial candidate {i}")),
            },
        }
        // the trial
        let others: Vec<Cand<N>> =
            pop.iter().enumerate().filter(|(k, _)| *k != i).filter_map(|(_, c)| *c).chain(rest.iter().copied()).collect();
        let label = format!("iteration {t}: the trial is built from three other candidates");
        if p > 6 && built(&others, x, y, w, s.cr) {
            check(&label, true);
        } else {
            let mut ways = vec![];
            for a in 0..others.len() {
                for b in 0..others.len() {
                    for c in 0..others.len() {
                        if a != b && b != c && a != c {
                            ways.push(made(&[others[a], others[b], others[c]], x, y, w, s.cr));
                        }
                    }
                }
            }
            prove(&label, B::any(ways));
        }
        let better = match s.source {
            Source::All => choose(2) == 1,
            Source::Seed(_) => {
                answers ^= answers << 13;
                answers ^= answers >> 7;
                answers ^= answers << 17;
                answers % 6 < s.accept
            }
        };
        pop[i] = Some(if better { *x } else { *y });
        better
    });
    check(&format!("{calls} comparisons instead of {}", s.iters + p - 1), calls == s.iters + p - 1);
    let fin: Vec<Cand<N>> = pop.iter().filter_map(|c| *c).chain(rest).collect();
    prove("the result is a member of the final population", {
        if fin.iter().any(|c| is_cand(c, &got)) {
            B::T
        } else {
            B::any(fin.iter().map(|c| same_cand(c, &got)).collect())
        }
    });
}

fn main() {
    symx::main("P19", |t| {
        let mut v = vec![];
        let base =
            Setup { p: 4, iters: 0, cr: 0.5, w: Some((1, 2)), source: Source::All, extra: 0, knockout: false, accept: 4 };
        for p in 4..=t.pick(9, 12) {
            let s = Setup { p, knockout: true, ..base };
            v.push(case(format!("no iterations, 2 coordinates, population {p}"), move || run::<2>(s)));
        }
        let s = Setup { p: 5, knockout: true, ..base };
        v.push(case("no iterations, 5 coordinates, population 5", move || run::<5>(s)));
        v.push(case("no iterations, 1 coordinate, population 5", move || run::<1>(s)));
        for cr in [0.0, 0.5, 1.0] {
            let s = Setup { iters: 1, cr, w: None, ..base };
            v.push(case(format!("1 iteration, all random sequences, population 4, 2 coordinates, crossover {cr}"), move || run::<2>(s)).limit(100_000));
            v.push(case(format!("1 iteration, all random sequences, population 4, 3 coordinates, crossover {cr}"), move || run::<3>(s)).limit(100_000));
            let s = Setup { p: 5, ..s };
            v.push(case(format!("1 iteration, all random sequences, population 5, 1 coordinate, crossover {cr}"), move || run::<1>(s)).limit(100_000));
        }
        let s = Setup { iters: 1, extra: 1, w: None, ..base };
        v.push(case("1 iteration, all random sequences with a redraw, population 4", move || run::<2>(s)).limit(100_000));
        let s = Setup { iters: 2, ..base };
        v.push(case("2 iterations, all random sequences, population 4, 1 coordinate", move || run::<1>(s)).limit(t.pick(20_000, 300_000)));
        if t == Tier::Thorough {
            let s = Setup { iters: 1, p: 6, w: None, ..base };
            v.push(case("1 iteration, all random sequences, population 6, 2 coordinates", move || run::<2>(s)).limit(200_000));
        }
        for p in 4..=t.pick(8, 11) {
            for cr in [0.0f32, 0.3, 0.9, 1.0] {
                for seed in 0..t.pick(2, 10) {
                    let s = Setup { p, iters: 2 * p + 3, cr, source: Source::Seed(seed + 1), ..base };
                    v.push(case(format!("{} iterations, population {p}, 3 coordinates, crossover {cr}, random sequence {seed}", 2 * p + 3), move || run::<3>(s)));
                }
            }
        }
        for p in t.pick(vec![16, 17, 31, 33, 64, 65, 130, 300], vec![13, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 130, 257, 300, 600]) {
            v.push(case(format!("no iterations, 2 coordinates, population {p}"), move || run::<2>(Setup { p, ..base })));
        }
        for p in t.pick(vec![9, 10, 16, 17, 33, 65, 101, 130], vec![12, 15, 16, 17, 20, 31, 32, 33, 64, 65, 100]) {
            for seed in 0..t.pick(2, 4) {
                let s = Setup { p, iters: 2 * p + 3, source: Source::Seed(seed + 300), ..base };
                v.push(case(format!("{} iterations, population {p}, 2 coordinates, random sequence {seed}", s.iters), move || run::<2>(s)));
            }
        }
        for seed in 0..t.pick(2, 6) {
            for cr in [0.0f32, 0.2, 0.8, 1.0] {
                let s = Setup { p: 5, iters: 13, cr, source: Source::Seed(seed + 400), ..base };
                v.push(case(format!("13 iterations, population 5, 9 coordinates, crossover {cr}, random sequence {seed}"), move || run::<9>(s)));
                v.push(case(format!("13 iterations, population 5, 17 coordinates, crossover {cr}, random sequence {seed}"), move || run::<17>(s)));
                v.push(case(format!("13 iterations, population 5, 33 coordinates, crossover {cr}, random sequence {seed}"), move || run::<33>(s)));
            }
            let s = Setup { p: 7, iters: 70, accept: 3, source: Source::Seed(seed + 600), ..base };
            v.push(case(format!("70 iterations, population 7, 2 coordinates, random sequence {seed}"), move || run::<2>(s)));
            for p in 4..=t.pick(10, 18) {
                let s = Setup { p, iters: 9 * p + 5, cr: [0.0, 0.4, 1.0][p % 3], accept: 2, source: Source::Seed(seed + 700), ..base };
                v.push(case(format!("{} iterations, population {p}, 2 coordinates, random sequence {seed}", s.iters), move || run::<2>(s)));
            }
            for p in [16, 32] {
                let s = Setup { p, iters: 5 * p + 1, accept: 2, source: Source::Seed(seed + 800), ..base };
                v.push(case(format!("{} iterations, population {p}, 1 coordinate, random sequence {seed}", s.iters), move || run::<1>(s)));
            }
            let s = Setup { p: 8, iters: t.pick(600, 2000), accept: 1, source: Source::Seed(seed + 900), ..base };
            v.push(case(format!("{} iterations, population 8, random sequence {seed}", s.iters), move || run::<1>(s)));
            let s = Setup { p: 9, iters: t.pick(1200, 3000), accept: 1, source: Source::Seed(seed + 500), ..base };
            v.push(case(format!("{} iterations, population 9, random sequence {seed}", s.iters), move || run::<1>(s)));
        }
        for seed in 0..t.pick(2, 8) {
            let s = Setup { p: 5, iters: 12, w: None, source: Source::Seed(seed + 100), ..base };
            v.push(case(format!("12 iterations, any weight, population 5, random sequence {seed}"), move || run::<2>(s)));
            let s = Setup { p: 5, iters: 40, source: Source::Seed(seed + 200), ..base };
            v.push(case(format!("40 iterations, population 5, random sequence {seed}"), move || run::<2>(s)));
        }
        v
    })
}
