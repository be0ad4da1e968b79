//! P18: the optimiser returns the best candidate it ever compared.
use magnesia::optimize::differential_evolution;
use symx::*;

#[derive(Clone, Copy)]
struct Setup {
    p: usize,
    iters: usize,
    cr: f32,
    w: Option<(i128, i128)>,
    /// the comparator prefers the left candidate on ties
    ties: bool,
    source: Source,
    extra: usize,
    order: Order,
}

/// Which cost orders of the candidates are explored.
#[derive(Clone, Copy, PartialEq)]
enum Order {
    /// all
    Any,
    /// every candidate in turn is the best, the order of the others is one given by a seed
    BestAt(u64),
    /// one given by a seed, with that many different costs
    Fixed(u64, u64),
    /// no trial is better than any initial candidate; every initial one in turn is the best
    Stuck,
    /// every candidate is better than all before it
    Descent,
}

fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9e3779b97f4a7c15) ^ b.wrapping_add(1).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 31)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 29)
}

fn run<const N: usize>(s: Setup) {
    let b = bounds::<N>();
    let w = match s.w {
        Some((n, d)) => rat(n, d),
        None => {
            let w = any("weight");
            assume(int(0).les(w).and(w.les(int(2))));
            w
        }
    };
    let mut env = Env::new(s.source, s.p, N, s.cr, s.extra);
    let init = initial::<N>(&b, s.p, s.cr, w, &mut env);
    let mut env = Env::new(s.source, s.p, N, s.cr, s.extra);
    let since = env.since.clone();
    let mut costs = Costs::<N>::new();
    forget_draws();
    let best = match s.order {
        Order::BestAt(_) => choose(s.p + s.iters),
        Order::Stuck => choose(s.p),
        _ => 0,
    };
    if s.order == Order::Stuck {
        for c in &init {
            costs.number(c);
        }
    }
    let cost = move |costs: &mut Costs<N>, c: &Cand<N>| -> Sym {
        match s.order {
            Order::Any => costs.of(c),
            Order::BestAt(seed) => {
                let k = costs.number(c);
                int(if k == best { 0 } else { 1 + (mix(seed, k as u64) >> 40) as i128 })
            }
            Order::Stuck => {
                let k = costs.number(c);
                int(if k == best { 0 } else { 1 + k as i128 })
            }
            Order::Descent => int(-(costs.number(c) as i128)),
            Order::Fixed(seed, m) => int((mix(seed, costs.number(c) as u64) % m) as i128),
        }
    };
    api("differential_evolution");
    let mut calls = 0;
    let got = differential_evolution(&b, s.p, s.cr, w, s.iters, &mut env, |x, y| {
        since.set(0);
        calls += 1;
        if calls > s.iters + 4 * s.p + 20_000 {
            fail("the optimiser compares without end");
        }
        let (cx, cy) = (cost(&mut costs, x), cost(&mut costs, y));
        branch(if s.ties { cx.les(cy) } else { cx.lts(cy) })
    });
    let compared = costs.list().to_vec();
    let known = |c: &Cand<N>| costs.known(c);
    let (found, missed): (Vec<Cand<N>>, Vec<Cand<N>>) = init.iter().partition(|c| known(c));
    let result_known = known(&got) || init.iter().any(|c| is_cand(c, &got));
    prove(
        "the result is one of the candidates",
        if result_known {
            B::T
        } else {
            B::any(compared.iter().chain(&init).map(|c| same_cand(c, &got)).collect())
        },
    );
    let best = cost(&mut costs, &got);
    // one claim for all candidates: the path condition decides most of them together
    let le: Vec<B> = compared.iter().map(|c| best.les(cost(&mut costs, c))).collect();
    prove("not worse than any compared candidate", B::all(le));
    let le: Vec<B> = missed.iter().map(|c| best.les(cost(&mut costs, c))).collect();
    prove("not worse than any initial candidate", B::all(le));
    // a candidate that is never compared may be the best one
    check("the initial candidates were all compared", found.len() == s.p && missed.is_empty());
}

fn main() {
    symx::main("P18", |t| {
        let mut v = vec![];
        let base = Setup { p: 4, iters: 0, cr: 0.5, w: Some((1, 2)), ties: false, source: Source::All, extra: 0, order: Order::Any };
        for p in 4..=t.pick(11, 13) {
            for ties in [false, true] {
                let s = Setup { p, ties, ..base };
                v.push(case(format!("no iterations, population {p}, ties {ties}"), move || run::<1>(s)));
                if p <= 6 {
                    v.push(case(format!("no iterations, 3 coordinates, population {p}, ties {ties}"), move || run::<3>(s)));
                }
            }
        }
        for p in [4, 5] {
            for ties in [false, true] {
                let s = Setup { p, ties, iters: 1, ..base };
                v.push(case(format!("1 iteration, all random sequences, population {p}, ties {ties}"), move || run::<1>(s)).limit(100_000));
            }
        }
        let s = Setup { iters: 1, ..base };
        v.push(case("1 iteration, all random sequences, population 4, 2 coordinates", move || run::<2>(s)).limit(100_000));
        let s = Setup { iters: 1, extra: 1, ..base };
        v.push(case("1 iteration, all random sequences with a redraw, population 4", move || run::<1>(s)).limit(100_000));
        let s = Setup { iters: 1, w: Some((0, 1)), cr: 1.0, ..base };
        v.push(case("1 iteration, all random sequences, weight 0, population 4", move || run::<1>(s)).limit(100_000));
        if t == Tier::Thorough {
            let s = Setup { iters: 2, ..base };
            v.push(case("2 iterations, all random sequences, population 4", move || run::<1>(s)).limit(300_000));
            let s = Setup { iters: 1, p: 6, ..base };
            v.push(case("1 iteration, all random sequences, population 6", move || run::<1>(s)).limit(300_000));
        }
        let seeds = t.pick(2, 6);
        for p in 4..=t.pick(6, 9) {
            for iters in 1..=t.pick(5, 8) {
                if p + iters > t.pick(10, 12) {
                    continue;
                }
                for seed in 0..seeds {
                    let s = Setup { p, iters, ties: seed % 2 == 1, source: Source::Seed(1 + seed), ..base };
                    v.push(case(format!("{iters} iterations, population {p}, random sequence {seed}"), move || run::<2>(s)));
                }
            }
        }
        for p in t.pick(vec![12, 13, 15, 16, 17, 19, 20, 21, 31, 32, 33, 64, 65, 101, 129, 257], vec![12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 25, 27, 31, 32, 33, 40, 50, 63, 64, 65, 100, 101, 127, 128, 129, 200, 257, 513]) {
            for seed in 0..2 {
                let s = Setup { p, ties: seed == 1, order: Order::BestAt(seed), ..base };
                v.push(case(format!("no iterations, population {p}, the best one anywhere, order {seed} of the others"), move || run::<1>(s)));
            }
        }
        for p in t.pick(vec![4, 5, 7, 10, 20, 31, 67], vec![4, 5, 6, 7, 8, 9, 10, 15, 20, 31, 50, 67, 100]) {
            for iters in [1, p - 1, p, p + 1, 2 * p + 3] {
                for seed in 0..t.pick(2, 5) {
                    let base = Setup { p, iters, ties: seed % 2 == 1, source: Source::Seed(50 + seed), ..base };
                    let s = Setup { order: Order::BestAt(seed), ..base };
                    v.push(case(format!("{iters} iterations, population {p}, the best one anywhere, random sequence {seed}"), move || run::<2>(s)));
                    for m in [3, 1 << 40] {
                        let s = Setup { order: Order::Fixed(seed, m), ..base };
                        v.push(case(format!("{iters} iterations, population {p}, cost order {seed} of {m}, random sequence {seed}"), move || run::<2>(s)));
                    }
                }
            }
        }
        for p in t.pick(vec![4, 5, 6, 7, 16], vec![4, 5, 6, 7, 8, 9, 10, 16, 32]) {
            for (name, order) in [("no trial is better", Order::Stuck), ("every candidate is better than those before", Order::Descent)] {
                // the numbers grow with every trial that is made of others
                let iters = if order == Order::Stuck { t.pick(60, 130) * p } else { 2 * p + 9 };
                let s = Setup { p, iters, w: Some((1, 1)), order, source: Source::Seed(70), ..base };
                v.push(case(format!("{} iterations, population {p}, {name}", s.iters), move || run::<2>(s)));
            }
        }
        for seed in 0..t.pick(2, 6) {
            for p in [300, 512, 1000, 1024, 1500, 5000, 20000, 65537] {
                let s = Setup { p, iters: 10, order: Order::Fixed(seed, 1 << 40), source: Source::Seed(90 + seed), ..base };
                v.push(case(format!("10 iterations, population {p}, cost order {seed}"), move || run::<1>(s)));
            }
            let s = Setup { p: 10, iters: t.pick(1200, 6000), order: Order::Fixed(seed, 1 << 40), source: Source::Seed(90 + seed), ..base };
            v.push(case(format!("{} iterations, population 10, cost order {seed}", s.iters), move || run::<2>(s)));
        }
        let s = Setup { p: 4, iters: 3, w: None, source: Source::Seed(7), ..base };
        v.push(case("3 iterations, any weight, population 4", move || run::<2>(s)));
        v
    })
}
