//! Environment of the differential evolution optimiser: random numbers, comparator, candidates.
use crate::sym::*;
use magnesia::optimize::differential_evolution;
use rand::distributions::uniform::{SampleBorrow, SampleUniform, UniformSampler};
use rand::{Error, Rng, RngCore};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

thread_local! {
    static DRAWN: RefCell<Vec<(Sym, Sym, Sym)>> = const { RefCell::new(Vec::new()) };
}

/// Starts a run of the optimiser: forgets the coordinates drawn by the previous one. The draws of
/// the next run get the same names, so two runs start from the same initial population.
pub fn forget_draws() {
    DRAWN.with(|d| d.borrow_mut().clear());
}

/// (value, low, high) of every coordinate drawn since then.
pub fn draws() -> Vec<(Sym, Sym, Sym)> {
    DRAWN.with(|d| d.borrow().clone())
}

/// `rng.gen_range(low..high)` for symbolic numbers: any number of that range.
pub struct SymSampler(Sym, Sym);

impl UniformSampler for SymSampler {
    type X = Sym;
    fn new<B1: SampleBorrow<Sym>, B2: SampleBorrow<Sym>>(low: B1, high: B2) -> Self {
        SymSampler(*low.borrow(), *high.borrow())
    }
    fn new_inclusive<B1: SampleBorrow<Sym>, B2: SampleBorrow<Sym>>(low: B1, high: B2) -> Self {
        SymSampler(*low.borrow(), *high.borrow())
    }
    fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> Sym {
        let k = DRAWN.with(|d| d.borrow().len());
        let x = any(&format!("draw{k}"));
        keep_apart(x);
        assume(self.0.les(x).and(x.lts(self.1)));
        DRAWN.with(|d| d.borrow_mut().push((x, self.0, self.1)));
        x
    }
}

impl SampleUniform for Sym {
    type Sampler = SymSampler;
}

/// Where the random numbers come from: all possibilities, or one sequence given by a seed.
#[derive(Clone, Copy)]
pub enum Source {
    All,
    Seed(u64),
}

/// The generator. Integers below P and below N reach every value; floats are 0 or the largest
/// float below 1 or (if given) the value `mid`.
pub struct Env {
    source: Source,
    state: u64,
    points: Vec<u64>,
    floats: Vec<u32>,
    /// integer draws since the comparator was called last
    pub since: Rc<Cell<usize>>,
    /// give up on runs which redraw more often
    pub limit: usize,
    /// float draws since the last integer draw, and when to give up
    floated: usize,
    float_limit: usize,
}

pub const FLOAT_MAX: u32 = u32::MAX;

/// A run that draws this many random numbers of a given sequence without comparing, or compares this
/// often, does not end.
pub const ENDLESS: usize = 3_000_000;

impl Env {
    pub fn new(source: Source, p: usize, n: usize, cr: f32, extra: usize) -> Env {
        let mut points = vec![];
        for r in [p, n] {
            for k in 0..r as u128 {
                points.push((((k << 64) + r as u128 - 1) / r as u128) as u64);
            }
        }
        points.sort();
        points.dedup();
        let mut floats = vec![0, FLOAT_MAX];
        // the draw that equals the crossover probability
        let exact = (cr * 16777216.0) as u32;
        if exact > 0 && exact < 1 << 24 {
            floats.push(exact << 8);
        }
        let state = if let Source::Seed(s) = source { s.wrapping_mul(0x9e3779b97f4a7c15) ^ 77 } else { 0 };
        Env { source, state, points, floats, since: Rc::new(Cell::new(0)), limit: 4 + extra, floated: 0, float_limit: 2 * n + 16 }
    }
    fn count(&mut self) {
        let k = self.since.get() + 1;
        self.since.set(k);
        if k > ENDLESS {
            fail("the optimiser draws random numbers without end");
        }
    }
    fn random(&mut self) -> u64 {
        // splitmix64
        self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

impl RngCore for Env {
    fn next_u32(&mut self) -> u32 {
        match self.source {
            Source::All => {
                self.floated += 1;
                if self.floated > self.float_limit {
                    abandon();
                }
                self.floats[choose(self.floats.len())]
            }
            Source::Seed(_) => {
                self.count();
                (self.random() >> 32) as u32
            }
        }
    }
    fn next_u64(&mut self) -> u64 {
        match self.source {
            Source::All => {
                let k = self.since.get() + 1;
                self.since.set(k);
                self.floated = 0;
                if k > self.limit {
                    abandon();
                }
                self.points[choose(self.points.len())]
            }
            Source::Seed(_) => {
                self.count();
                self.random()
            }
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = (self.next_u32() >> 24) as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

pub type Cand<const N: usize> = [Sym; N];

/// The same candidate, whatever the values of the variables.
pub fn is_cand<const N: usize>(a: &Cand<N>, b: &Cand<N>) -> bool {
    (0..N).all(|n| same_term(a[n], b[n]))
}

/// Candidates in the order they came, found again by fingerprint.
pub struct Seen<const N: usize> {
    pub list: Vec<Cand<N>>,
    at: HashMap<[u64; N], Vec<usize>>,
}

impl<const N: usize> Seen<N> {
    pub fn new() -> Self {
        Seen { list: vec![], at: HashMap::new() }
    }
    pub fn find(&self, c: &Cand<N>) -> Option<usize> {
        self.at.get(&c.map(fingerprint))?.iter().copied().find(|k| is_cand(&self.list[*k], c))
    }
    /// The number of the candidate, and whether it is new.
    pub fn add(&mut self, c: &Cand<N>) -> (usize, bool) {
        match self.find(c) {
            Some(k) => (k, false),
            None => {
                let k = self.list.len();
                self.list.push(*c);
                self.at.entry(c.map(fingerprint)).or_default().push(k);
                (k, true)
            }
        }
    }
}

impl<const N: usize> Default for Seen<N> {
    fn default() -> Self {
        Self::new()
    }
}

pub fn same_cand<const N: usize>(a: &Cand<N>, b: &Cand<N>) -> B {
    B::all((0..N).map(|n| a[n].eqs(b[n])).collect())
}

/// Symbolic bounds of every coordinate.
pub fn bounds<const N: usize>() -> [(Sym, Sym); N] {
    std::array::from_fn(|n| {
        let (l, h) = (any(&format!("low{n}")), any(&format!("high{n}")));
        assume(l.lts(h));
        (l, h)
    })
}

/// The members of the initial population in some order: those the optimiser compares when it does
/// no iterations.
pub fn initial<const N: usize>(b: &[(Sym, Sym); N], p: usize, cr: f32, w: Sym, env: &mut Env) -> Vec<Cand<N>> {
    forget_draws();
    let mut seen = Seen::new();
    let mut calls = 0;
    let r = differential_evolution(b, p, cr, w, 0, env, |x, y| {
        calls += 1;
        if calls > 4 * p + 20_000 {
            fail("the optimiser compares without end");
        }
        seen.add(x);
        seen.add(y);
        false
    });
    seen.add(&r);
    seen.list
}

/// All candidates met so far, with a symbolic cost for each: equal candidates have equal costs, and
/// different ones may have any.
#[derive(Default)]
pub struct Costs<const N: usize> {
    seen: Seen<N>,
}

impl<const N: usize> Costs<N> {
    pub fn new() -> Self {
        Costs { seen: Seen::new() }
    }
    pub fn list(&self) -> &[Cand<N>] {
        &self.seen.list
    }
    pub fn known(&self, c: &Cand<N>) -> bool {
        self.seen.find(c).is_some()
    }
    /// The number of a candidate; candidates are told apart by how they are computed.
    pub fn number(&mut self, c: &Cand<N>) -> usize {
        self.seen.add(c).0
    }
    pub fn of(&mut self, c: &Cand<N>) -> Sym {
        let (k, new) = self.seen.add(c);
        if new {
            // candidates that are different terms are different points
            for s in &self.seen.list[..k] {
                assume(same_cand(s, c).not());
            }
        }
        any(&format!("cost{k}"))
    }
}
