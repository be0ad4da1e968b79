//! Terms, the per-path context, and the `Sym` scalar.
use crate::rat::{Rat, Val};
use crate::solver::{Answer, Solver};
use magnesia::algebra as alg;
use magnesia::functions as fun;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::ops::*;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(Rat),
    /// input variable (index into `inputs`)
    Var(u32),
    /// auxiliary variable defined by `defs[k]`
    Aux(u32),
    Add(Id, Id),
    Sub(Id, Id),
    Mul(Id, Id),
    Neg(Id),
}

/// Real functions. Each application is an auxiliary variable constrained by the axioms in `axioms`.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Fun {
    Div,
    Sqrt,
    /// e^u for a sign-normalised u, and e^-u
    ExpP,
    ExpN,
    Sin,
    Cos,
    Tan,
    Asin,
    Ln,
    Atan2,
    /// |u|
    Mag,
    /// uninterpreted cost function of the optimiser
    Cost,
}

#[derive(Clone, Debug)]
pub struct Def {
    pub f: Fun,
    pub args: Vec<Id>,
}

#[derive(Clone, Debug)]
pub enum B {
    T,
    F,
    Eq(Id, Id),
    Le(Id, Id),
    Lt(Id, Id),
    Not(Rc<B>),
    And(Vec<B>),
    Or(Vec<B>),
}

impl B {
    pub fn not(self) -> B {
        match self {
            B::T => B::F,
            B::F => B::T,
            B::Not(b) => (*b).clone(),
            b => B::Not(Rc::new(b)),
        }
    }
    pub fn and(self, o: B) -> B {
        B::all(vec![self, o])
    }
    pub fn or(self, o: B) -> B {
        B::any(vec![self, o])
    }
    pub fn all(v: Vec<B>) -> B {
        let mut r = vec![];
        for b in v {
            match b {
                B::T => {}
                B::F => return B::F,
                B::And(w) => r.extend(w),
                b => r.push(b),
            }
        }
        match r.len() {
            0 => B::T,
            1 => r.pop().unwrap(),
            _ => B::And(r),
        }
    }
    pub fn any(v: Vec<B>) -> B {
        let mut r = vec![];
        for b in v {
            match b {
                B::F => {}
                B::T => return B::T,
                b => r.push(b),
            }
        }
        match r.len() {
            0 => B::F,
            1 => r.pop().unwrap(),
            _ => B::Or(r),
        }
    }
    pub fn of(b: bool) -> B {
        if b {
            B::T
        } else {
            B::F
        }
    }
    /// Branches on this condition.
    pub fn is_true(self) -> bool {
        branch(self)
    }
    fn ids(&self, out: &mut Vec<Id>) {
        match self {
            B::T | B::F => {}
            B::Eq(a, b) | B::Le(a, b) | B::Lt(a, b) => {
                out.push(*a);
                out.push(*b);
            }
            B::Not(b) => b.ids(out),
            B::And(v) | B::Or(v) => v.iter().for_each(|b| b.ids(out)),
        }
    }
    fn smt(&self, s: &mut String) {
        match self {
            B::T => s.push_str("true"),
            B::F => s.push_str("false"),
            B::Eq(a, b) => write!(s, "(= n{a} n{b})").unwrap(),
            B::Le(a, b) => write!(s, "(<= n{a} n{b})").unwrap(),
            B::Lt(a, b) => write!(s, "(< n{a} n{b})").unwrap(),
            B::Not(b) => {
                s.push_str("(not ");
                b.smt(s);
                s.push(')');
            }
            B::And(v) | B::Or(v) => {
                s.push_str(if matches!(self, B::And(_)) { "(and" } else { "(or" });
                for b in v {
                    s.push(' ');
                    b.smt(s);
                }
                s.push(')');
            }
        }
    }
}

/// Payloads that unwind out of the code under test without being a panic of that code.
pub enum Unwind {
    /// this path leaves the explored bounds (an `assume` that is false, a draw limit)
    Abandon,
    /// a violation was found and confirmed or refuted; stop this path
    Stop,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub label: String,
    pub kind: &'static str,
    /// input name -> value
    pub inputs: Vec<(String, Val)>,
    pub choices: Vec<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct PathStats {
    pub obligations: u64,
    pub discharged: u64,
    pub syntactic: u64,
    pub undecided: u64,
    pub expected_panics: u64,
}

#[derive(Clone, Copy, Debug)]
pub enum Step {
    /// outcome taken, whether the other outcome is feasible too
    Branch(bool, bool),
    /// index taken, number of alternatives
    Choose(usize, usize),
}

pub struct Cx {
    pub replay: Option<HashMap<String, Val>>,
    pub nodes: Vec<Node>,
    index: HashMap<Node, Id>,
    pub vals: Vec<Val>,
    pub inputs: Vec<String>,
    input_ix: HashMap<String, u32>,
    pub defs: Vec<Def>,
    def_ix: HashMap<(Fun, Vec<Key>), u32>,
    pub pc: Vec<B>,
    /// the variables of each conjunct of `pc` (filled when needed)
    pc_vars: Vec<Vec<u32>>,
    pub prefix: Vec<Step>,
    pub trace: Vec<Step>,
    pub replay_choices: Vec<usize>,
    choice_pos: usize,
    pub stats: PathStats,
    pub failures: Vec<Failure>,
    pub solver: Solver,
    pub unknown_branches: u64,
    pub apis: BTreeSet<String>,
    polys: HashMap<Id, Rc<Poly>>,
    prints: Vec<u64>,
    pub approx_used: bool,
    pub seed: u64,
    /// terms which concrete witnesses should keep apart
    pub distinct: Vec<Id>,
    pub max_steps: usize,
    pub truncated: bool,
    /// state for real functions that equal arguments give equal values, beyond equal normal forms
    /// what the first `noted` parts of the path condition say about two terms
    known: HashMap<(Id, Id), [bool; 3]>,
    noted: usize,
    pub congruence: bool,
    /// see `coarse()`
    pub coarse: bool,
}

/// Polynomial normal form, used only to recognise equal arguments of real functions.
type Mono = Vec<(Id, u32)>;
type Poly = BTreeMap<Mono, Rat>;
type Key = Vec<(Mono, Rat)>;

thread_local! {
    static CX: RefCell<Option<Box<Cx>>> = const { RefCell::new(None) };
}

pub fn install(cx: Cx) {
    CX.with(|c| *c.borrow_mut() = Some(Box::new(cx)));
}
pub fn uninstall() -> Cx {
    CX.with(|c| *c.borrow_mut().take().expect("no context"))
}
pub fn with<R>(f: impl FnOnce(&mut Cx) -> R) -> R {
    CX.with(|c| f(c.borrow_mut().as_mut().expect("no context")))
}

impl Cx {
    pub fn new(solver: Solver, prefix: Vec<Step>, seed: u64) -> Cx {
        Cx {
            replay: None,
            nodes: vec![],
            index: HashMap::new(),
            vals: vec![],
            inputs: vec![],
            input_ix: HashMap::new(),
            defs: vec![],
            def_ix: HashMap::new(),
            pc: vec![],
            pc_vars: vec![],
            prefix,
            trace: vec![],
            replay_choices: vec![],
            choice_pos: 0,
            stats: Default::default(),
            failures: vec![],
            solver,
            unknown_branches: 0,
            apis: BTreeSet::new(),
            polys: HashMap::new(),
            prints: vec![],
            approx_used: false,
            seed,
            distinct: vec![],
            max_steps: 400_000,
            truncated: false,
            known: HashMap::new(),
            noted: 0,
            congruence: false,
            coarse: false,
        }
    }

    fn mk(&mut self, n: Node) -> Id {
        if let Some(&i) = self.index.get(&n) {
            return i;
        }
        let i = self.nodes.len() as Id;
        if self.replay.is_some() {
            let v = self.value_of(n);
            if let Val::A(_) = v {
                self.approx_used = true;
            }
            self.vals.push(v);
        }
        self.nodes.push(n);
        self.index.insert(n, i);
        i
    }

    fn value_of(&self, n: Node) -> Val {
        let v = |i: Id| self.vals[i as usize];
        match n {
            Node::Const(r) => Val::X(r),
            Node::Var(k) => {
                let (given, name) = (self.replay.as_ref().unwrap(), &self.inputs[k as usize]);
                match (given.get(name), given.get("*")) {
                    (Some(x), _) => *x,
                    (None, Some(x)) => made_up(name, x.f64() as u64),
                    (None, None) => Val::X(Rat::ZERO),
                }
            }
            Node::Aux(k) => self.value_of_def(&self.defs[k as usize]),
            Node::Add(a, b) => Val::lift2(v(a), v(b), Rat::add, |x, y| x + y),
            Node::Sub(a, b) => Val::lift2(v(a), v(b), Rat::sub, |x, y| x - y),
            Node::Mul(a, b) => Val::lift2(v(a), v(b), Rat::mul, |x, y| x * y),
            Node::Neg(a) => match v(a) {
                Val::X(r) => Val::X(r.neg()),
                Val::A(x) => Val::A(-x),
            },
        }
    }

    fn value_of_def(&self, d: &Def) -> Val {
        let v = |k: usize| self.vals[d.args[k] as usize];
        match d.f {
            Fun::Div => Val::lift2(v(0), v(1), Rat::div, |x, y| x / y),
            Fun::Sqrt => match v(0).exact().and_then(|r| r.sqrt()) {
                Some(r) => Val::X(r),
                None => Val::A(v(0).f64().sqrt()),
            },
            Fun::ExpP => Val::A(v(0).f64().exp()),
            Fun::ExpN => Val::A((-v(0).f64()).exp()),
            Fun::Sin => Val::A(v(0).f64().sin()),
            Fun::Cos => Val::A(v(0).f64().cos()),
            Fun::Tan => Val::A(v(0).f64().tan()),
            Fun::Asin => Val::A(v(0).f64().asin()),
            Fun::Ln => Val::A(v(0).f64().ln()),
            Fun::Atan2 => Val::A(v(0).f64().atan2(v(1).f64())),
            Fun::Mag => match v(0) {
                Val::X(r) if r.n < 0 => Val::X(r.neg()),
                Val::X(r) => Val::X(r),
                Val::A(x) => Val::A(x.abs()),
            },
            // replay picks the model's value through the input table (see cost())
            Fun::Cost => Val::X(Rat::ZERO),
        }
    }

    fn mag(&mut self, t: Id) -> Id {
        match self.nodes[t as usize] {
            Node::Const(r) => self.konst(if r.n < 0 { r.neg() } else { r }),
            Node::Neg(a) if self.coarse => self.mag(a),
            Node::Mul(a, b) if self.coarse => {
                let (a, b) = (self.mag(a), self.mag(b));
                self.mul(a, b)
            }
            Node::Add(a, b) | Node::Sub(a, b) if self.coarse => {
                let (a, b) = (self.mag(a), self.mag(b));
                self.add(a, b)
            }
            Node::Aux(k) if self.coarse && matches!(self.defs[k as usize].f, Fun::Mag | Fun::Sqrt | Fun::ExpP | Fun::ExpN) => t,
            _ => {
                let key = vec![self.key(t)];
                self.aux(Fun::Mag, vec![t], key)
            }
        }
    }

    pub fn konst(&mut self, r: Rat) -> Id {
        self.mk(Node::Const(r))
    }

    fn c(&self, i: Id) -> Option<Rat> {
        match self.nodes[i as usize] {
            Node::Const(r) => Some(r),
            _ => None,
        }
    }

    fn add(&mut self, a: Id, b: Id) -> Id {
        match (self.c(a), self.c(b)) {
            (Some(x), Some(y)) => {
                if let Some(r) = x.add(y) {
                    return self.konst(r);
                }
            }
            (Some(x), None) if x.is_zero() => return b,
            (None, Some(y)) if y.is_zero() => return a,
            _ => {}
        }
        self.mk(Node::Add(a, b))
    }
    fn sub(&mut self, a: Id, b: Id) -> Id {
        match (self.c(a), self.c(b)) {
            (Some(x), Some(y)) => {
                if let Some(r) = x.sub(y) {
                    return self.konst(r);
                }
            }
            (None, Some(y)) if y.is_zero() => return a,
            _ => {}
        }
        self.mk(Node::Sub(a, b))
    }
    fn mul(&mut self, a: Id, b: Id) -> Id {
        match (self.c(a), self.c(b)) {
            (Some(x), Some(y)) => {
                if let Some(r) = x.mul(y) {
                    return self.konst(r);
                }
            }
            (Some(x), None) | (None, Some(x)) if x.is_zero() => return self.konst(Rat::ZERO),
            (Some(x), None) if x == Rat::ONE => return b,
            (None, Some(x)) if x == Rat::ONE => return a,
            _ => {}
        }
        self.mk(Node::Mul(a, b))
    }
    fn neg(&mut self, a: Id) -> Id {
        if let Some(x) = self.c(a) {
            return self.konst(x.neg());
        }
        self.mk(Node::Neg(a))
    }

    fn aux(&mut self, f: Fun, args: Vec<Id>, key: Vec<Key>) -> Id {
        let k = match self.def_ix.get(&(f, key.clone())) {
            Some(&k) => k,
            None => {
                let k = self.defs.len() as u32;
                self.defs.push(Def { f, args });
                self.def_ix.insert((f, key), k);
                k
            }
        };
        self.mk(Node::Aux(k))
    }

    fn poly(&mut self, i: Id) -> Rc<Poly> {
        if let Some(p) = self.polys.get(&i) {
            return p.clone();
        }
        let addm = |p: &mut Poly, m: Mono, c: Rat| {
            let e = p.entry(m.clone()).or_insert(Rat::ZERO);
            *e = e.add(c).expect("symx: rational overflow in normal form");
            if e.is_zero() {
                p.remove(&m);
            }
        };
        let mut r = Poly::new();
        match self.nodes[i as usize] {
            Node::Const(c) => {
                if !c.is_zero() {
                    r.insert(vec![], c);
                }
            }
            Node::Var(_) | Node::Aux(_) => {
                r.insert(vec![(i, 1)], Rat::ONE);
            }
            Node::Neg(a) => {
                for (m, c) in self.poly(a).iter() {
                    r.insert(m.clone(), c.neg());
                }
            }
            Node::Add(a, b) | Node::Sub(a, b) => {
                let s = matches!(self.nodes[i as usize], Node::Sub(..));
                r = (*self.poly(a)).clone();
                for (m, c) in self.poly(b).iter() {
                    addm(&mut r, m.clone(), if s { c.neg() } else { *c });
                }
            }
            Node::Mul(a, b) => {
                let (p, q) = (self.poly(a), self.poly(b));
                for (m, c) in p.iter() {
                    for (n, d) in q.iter() {
                        let mut e: BTreeMap<Id, u32> = m.iter().cloned().collect();
                        for (v, k) in n {
                            *e.entry(*v).or_insert(0) += k;
                        }
                        // sqrt(t)^2 is t only as far as the solver is concerned; keep as is
                        addm(&mut r, e.into_iter().collect(), c.mul(*d).expect("symx: rational overflow"));
                    }
                }
            }
        }
        let r = Rc::new(r);
        self.polys.insert(i, r.clone());
        r
    }

    fn key(&mut self, i: Id) -> Key {
        self.poly(i).iter().map(|(m, c)| (m.clone(), *c)).collect()
    }

    /// Splits an argument u into k * v with an integer k and a normalised v (leading coefficient 1
    /// when the coefficients are an integer multiple of that, else u itself up to sign).
    fn split(&mut self, u: Id) -> (i32, Id) {
        let p = self.poly(u);
        let Some((_, lead)) = p.iter().next() else { return (0, u) };
        let lead = *lead;
        let k = if lead.d == 1 && lead.n.abs() <= 4 { lead.n as i32 } else if lead.n < 0 { -1 } else { 1 };
        if k == 1 {
            return (1, u);
        }
        let mut acc = self.konst(Rat::ZERO);
        for (m, c) in p.iter() {
            let Some(c2) = c.div(Rat::int(k as i128)) else { unreachable!() };
            let mut t = self.konst(c2);
            for (v, e) in m {
                for _ in 0..*e {
                    t = self.mul(t, *v);
                }
            }
            acc = self.add(acc, t);
        }
        (k, acc)
    }

    // ---- queries -------------------------------------------------------------------------

    /// Builds the query text for the conjunction of the path condition and `extra`.
    /// Variables a formula talks about: inputs as 2k, function values as 2k+1.
    fn vars_of(&self, b: &B) -> Vec<u32> {
        let mut stack = vec![];
        b.ids(&mut stack);
        let mut seen: HashSet<Id> = HashSet::new();
        let mut out = vec![];
        while let Some(i) = stack.pop() {
            if !seen.insert(i) {
                continue;
            }
            match self.nodes[i as usize] {
                Node::Const(_) => {}
                Node::Var(k) => out.push(2 * k),
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) => stack.extend([a, b]),
                Node::Neg(a) => stack.push(a),
                Node::Aux(k) => {
                    out.push(2 * k + 1);
                    stack.extend(&self.defs[k as usize].args);
                }
            }
        }
        out
    }

    /// The conjuncts of the path condition that share variables with `extra`, transitively. The
    /// others are satisfiable on their own, so leaving them out does not change the answer (and an
    /// unsatisfiable answer never depends on it).
    fn related(&mut self, extra: &[B]) -> Vec<usize> {
        for k in self.pc_vars.len()..self.pc.len() {
            let v = self.vars_of(&self.pc[k]);
            self.pc_vars.push(v);
        }
        let mut have: HashSet<u32> = extra.iter().flat_map(|b| self.vars_of(b)).collect();
        let mut used = vec![false; self.pc.len()];
        loop {
            let mut more = false;
            for k in 0..self.pc.len() {
                if !used[k] && (self.pc_vars[k].is_empty() || self.pc_vars[k].iter().any(|v| have.contains(v))) {
                    used[k] = true;
                    have.extend(&self.pc_vars[k]);
                    more = true;
                }
            }
            if !more {
                break;
            }
        }
        (0..self.pc.len()).filter(|&k| used[k]).collect()
    }

    fn query(&self, extra: &[B]) -> (String, Vec<u32>) {
        let all: Vec<usize> = (0..self.pc.len()).collect();
        self.query_of(&all, extra)
    }

    fn query_of(&self, pc: &[usize], extra: &[B]) -> (String, Vec<u32>) {
        let mut roots = vec![];
        pc.iter().for_each(|&k| self.pc[k].ids(&mut roots));
        extra.iter().for_each(|b| b.ids(&mut roots));
        let mut need: BTreeSet<Id> = BTreeSet::new();
        let mut defs: BTreeSet<u32> = BTreeSet::new();
        let mut stack = roots;
        let mut axioms: Vec<String> = vec![];
        let mut paired: BTreeSet<(u32, u32)> = BTreeSet::new();
        loop {
            while let Some(i) = stack.pop() {
                if !need.insert(i) {
                    continue;
                }
                match self.nodes[i as usize] {
                    Node::Const(_) | Node::Var(_) => {}
                    Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) => stack.extend([a, b]),
                    Node::Neg(a) => stack.push(a),
                    Node::Aux(k) => {
                        if defs.insert(k) {
                            self.axioms(k, i, &mut axioms, &mut stack, &mut defs);
                        }
                    }
                }
            }
            if !self.congruence {
                break;
            }
            let known: Vec<u32> = defs.iter().cloned().collect();
            for (p, &a) in known.iter().enumerate() {
                for &b in &known[p + 1..] {
                    let (d, e) = (&self.defs[a as usize], &self.defs[b as usize]);
                    let f = matches!(d.f, Fun::ExpP | Fun::ExpN | Fun::Sin | Fun::Cos | Fun::Ln | Fun::Asin | Fun::Atan2);
                    if f && d.f == e.f && paired.insert((a, b)) {
                        let eq: Vec<String> = d.args.iter().zip(&e.args).map(|(x, y)| format!("(= n{x} n{y})")).collect();
                        axioms.push(format!("(=> (and {}) (= a{a} a{b}))", eq.join(" ")));
                        stack.extend(d.args.iter().chain(&e.args));
                    }
                }
            }
            if stack.is_empty() {
                break;
            }
        }
        let mut s = String::new();
        let mut vars = vec![];
        for &k in &defs {
            writeln!(s, "(declare-const a{k} Real)").unwrap();
        }
        for &i in &need {
            if let Node::Var(k) = self.nodes[i as usize] {
                writeln!(s, "(declare-const v{k} Real)").unwrap();
                vars.push(k);
            }
        }
        for &i in &need {
            match self.nodes[i as usize] {
                Node::Const(r) => writeln!(s, "(define-fun n{i} () Real {})", r.smt()),
                Node::Var(k) => writeln!(s, "(define-fun n{i} () Real v{k})"),
                Node::Aux(k) => writeln!(s, "(define-fun n{i} () Real a{k})"),
                Node::Add(a, b) => writeln!(s, "(define-fun n{i} () Real (+ n{a} n{b}))"),
                Node::Sub(a, b) => writeln!(s, "(define-fun n{i} () Real (- n{a} n{b}))"),
                Node::Mul(a, b) => writeln!(s, "(define-fun n{i} () Real (* n{a} n{b}))"),
                Node::Neg(a) => writeln!(s, "(define-fun n{i} () Real (- n{a}))"),
            }
            .unwrap();
        }
        for a in axioms {
            writeln!(s, "(assert {a})").unwrap();
        }
        for b in pc.iter().map(|&k| &self.pc[k]).chain(extra) {
            s.push_str("(assert ");
            b.smt(&mut s);
            s.push_str(")\n");
        }
        (s, vars)
    }

    /// Defining axioms of auxiliary variable `k` (node id `_i`).
    fn axioms(&self, k: u32, _i: Id, out: &mut Vec<String>, stack: &mut Vec<Id>, defs: &mut BTreeSet<u32>) {
        let d = &self.defs[k as usize];
        let a = |j: usize| format!("n{}", d.args[j]);
        let partner = |f: Fun| -> Option<u32> {
            self.defs.iter().position(|e| e.f == f && e.args == d.args).map(|p| p as u32)
        };
        match d.f {
            Fun::Div => {
                stack.extend(&d.args);
                out.push(format!("(= (* a{k} {}) {})", a(1), a(0)));
            }
            Fun::Sqrt => {
                stack.extend(&d.args);
                out.push(format!("(>= a{k} 0.0)"));
                out.push(format!("(= (* a{k} a{k}) {})", a(0)));
            }
            Fun::ExpP | Fun::ExpN => {
                let o = if d.f == Fun::ExpP { Fun::ExpN } else { Fun::ExpP };
                out.push(format!("(> a{k} 0.0)"));
                if let Some(p) = partner(o) {
                    if defs.insert(p) {
                        out.push(format!("(> a{p} 0.0)"));
                    }
                    out.push(format!("(= (* a{k} a{p}) 1.0)"));
                }
            }
            Fun::Sin | Fun::Cos => {
                let o = if d.f == Fun::Sin { Fun::Cos } else { Fun::Sin };
                if let Some(p) = partner(o) {
                    defs.insert(p);
                    out.push(format!("(= (+ (* a{k} a{k}) (* a{p} a{p})) 1.0)"));
                } else {
                    out.push(format!("(<= (* a{k} a{k}) 1.0)"));
                }
            }
            Fun::Tan => {
                if let (Some(s), Some(c)) = (partner(Fun::Sin), partner(Fun::Cos)) {
                    defs.insert(s);
                    defs.insert(c);
                    out.push(format!("(= (+ (* a{s} a{s}) (* a{c} a{c})) 1.0)"));
                    out.push(format!("(= (* a{k} a{c}) a{s})"));
                }
            }
            Fun::Mag => {
                stack.extend(&d.args);
                out.push(format!("(>= a{k} 0.0)"));
                out.push(format!("(or (= a{k} {}) (= a{k} (- {})))", a(0), a(0)));
            }
            Fun::Asin | Fun::Ln | Fun::Atan2 | Fun::Cost => {}
        }
    }

    fn feasible(&mut self, b: B) -> Answer {
        let near = self.related(std::slice::from_ref(&b));
        let (q, _) = self.query_of(&near, std::slice::from_ref(&b));
        self.solver.check(&q, &[]).answer
    }

    /// A model of the path condition and `extra`, as values of all inputs.
    pub fn model(&mut self, extra: &[B]) -> (Answer, Vec<(String, Val)>) {
        let (mut q, vars) = self.query(extra);
        let apart: Vec<String> = self
            .distinct
            .iter()
            .filter_map(|i| if let Node::Var(k) = self.nodes[*i as usize] { Some(k) } else { None })
            .filter(|k| vars.contains(k))
            .map(|k| format!("v{k}"))
            .collect();
        if apart.len() > 1 {
            let d = format!("{q}(assert (distinct {}))\n", apart.join(" "));
            if self.solver.check(&d, &[]).answer == Answer::Sat {
                q = d;
            }
        }
        let names: Vec<String> = vars.iter().map(|k| format!("v{k}")).collect();
        // Prefer small integers: they replay exactly. Fall back to an arbitrary model.
        let mut small = q.clone();
        let r = (names.len() as i32).clamp(5, 40);
        for n in &names {
            let opts: Vec<String> = (-r..=r).map(|c: i32| if c < 0 { format!("(= {n} (- {}.0))", -c) } else { format!("(= {n} {c}.0)") }).collect();
            writeln!(small, "(assert (or {}))", opts.join(" ")).unwrap();
        }
        let t = self.solver.timeout_ms;
        self.solver.timeout_ms = 1500.min(t);
        let unk = self.solver.unknown;
        let mut r = self.solver.check(if names.len() > 40 { &q } else { &small }, &names);
        self.solver.unknown = unk;
        self.solver.timeout_ms = t;
        if r.answer != Answer::Sat || r.values.len() != names.len() {
            r = self.solver.check(&q, &names);
        }
        if r.answer == Answer::Sat && r.values.len() != names.len() {
            return (Answer::Unknown, vec![]);
        }
        let mut vals = vec![];
        if r.answer == Answer::Sat {
            let got: HashMap<u32, Option<Val>> = vars.iter().cloned().zip(r.values).collect();
            for (k, n) in self.inputs.iter().enumerate() {
                let v = match got.get(&(k as u32)) {
                    Some(Some(v)) => *v,
                    Some(None) => return (Answer::Unknown, vec![]),
                    // unconstrained on this path: any value will do; vary it with the seed
                    None => Val::X(Rat::int(((self.seed as i128 * 7 + k as i128 * 5) % 11) - 5)),
                };
                vals.push((n.clone(), v));
            }
        }
        (r.answer, vals)
    }

    fn eval(&self, b: &B) -> bool {
        let v = |i: &Id| self.vals[*i as usize];
        let cmp = |a: &Id, b: &Id| -> Ordering {
            match (v(a), v(b)) {
                (Val::X(x), Val::X(y)) => match x.cmp(y) {
                    Some(o) => o,
                    None => x.f64().partial_cmp(&y.f64()).unwrap(),
                },
                (x, y) => x.f64().partial_cmp(&y.f64()).unwrap_or(Ordering::Greater),
            }
        };
        match b {
            B::T => true,
            B::F => false,
            B::Eq(a, b) => cmp(a, b) == Ordering::Equal,
            B::Le(a, b) => cmp(a, b) != Ordering::Greater,
            B::Lt(a, b) => cmp(a, b) == Ordering::Less,
            B::Not(b) => !self.eval(b),
            B::And(v) => v.iter().all(|b| self.eval(b)),
            B::Or(v) => v.iter().any(|b| self.eval(b)),
        }
    }

    /// As `eval`, but a claim counts as false only beyond rounding when approximate values occur.
    fn eval_tol(&self, b: &B, positive: bool) -> bool {
        let v = |i: &Id| self.vals[*i as usize];
        let diff = |a: &Id, b: &Id| -> (bool, f64, f64) {
            let (x, y) = (v(a), v(b));
            let exact = x.exact().is_some() && y.exact().is_some();
            let (p, q) = (x.f64(), y.f64());
            if !p.is_finite() || !q.is_finite() {
                return (false, f64::INFINITY, 0.0);
            }
            (exact, p - q, 1e-7 * (1.0 + p.abs().max(q.abs())))
        };
        let slack = |t: f64| if positive { t } else { -t };
        match b {
            B::Eq(a, c) => {
                let (e, d, t) = diff(a, c);
                if e {
                    self.eval(b)
                } else {
                    d.abs() <= t
                }
            }
            B::Le(a, c) | B::Lt(a, c) => {
                let (e, d, t) = diff(a, c);
                if e {
                    self.eval(b)
                } else {
                    d <= slack(t)
                }
            }
            B::Not(b) => !self.eval_tol(b, !positive),
            B::And(v) => v.iter().all(|b| self.eval_tol(b, positive)),
            B::Or(v) => v.iter().any(|b| self.eval_tol(b, positive)),
            b => self.eval(b),
        }
    }

    /// Decides a branch of the code under test. Returns Err to unwind.
    fn branch(&mut self, b: B) -> Result<bool, Unwind> {
        let b = self.simp(b);
        if self.replay.is_some() {
            let r = self.eval(&b);
            match b {
                B::T | B::F => {}
                _ => self.trace.push(Step::Branch(r, false)),
            }
            return Ok(r);
        }
        match b {
            B::T => return Ok(true),
            B::F => return Ok(false),
            _ => {}
        }
        if self.trace.len() >= self.max_steps {
            self.truncated = true;
            return Err(Unwind::Abandon);
        }
        let pos = self.trace.len();
        let taken = if pos < self.prefix.len() {
            let Step::Branch(r, free) = self.prefix[pos] else { panic!("symx: nondeterministic path") };
            self.trace.push(Step::Branch(r, free));
            r
        } else {
            // the path condition is satisfiable, so one infeasible side settles the other
            let stated = self.stated(&b);
            let f = match stated {
                Some(true) => Answer::Unsat,
                Some(false) => Answer::Sat,
                None => self.feasible(b.clone().not()),
            };
            if f == Answer::Unsat {
                self.trace.push(Step::Branch(true, false));
                true
            } else {
                let t = if stated == Some(false) { Answer::Unsat } else { self.feasible(b.clone()) };
                if t == Answer::Unsat {
                    self.trace.push(Step::Branch(false, false));
                    false
                } else {
                    if t == Answer::Unknown || f == Answer::Unknown {
                        self.unknown_branches += 1;
                    }
                    self.trace.push(Step::Branch(true, true));
                    true
                }
            }
        };
        // a forced outcome follows from the path condition already
        if let Some(Step::Branch(_, true)) = self.trace.last() {
            self.pc.push(if taken { b } else { b.not() });
        }
        Ok(taken)
    }

    /// Whether the path condition contains a comparison of the same two terms that decides this one.
    fn stated(&mut self, b: &B) -> Option<bool> {
        let (x, y) = match b {
            B::Lt(x, y) | B::Le(x, y) | B::Eq(x, y) => (*x, *y),
            _ => return None,
        };
        // for two terms: whether x < y, x = y, x > y are possible
        fn note(p: &B, known: &mut HashMap<(Id, Id), [bool; 3]>) {
            let mut keep = |a: Id, c: Id, k: [bool; 3]| {
                for (at, k) in [((a, c), k), ((c, a), [k[2], k[1], k[0]])] {
                    let can = known.entry(at).or_insert([true; 3]);
                    for i in 0..3 {
                        can[i] &= k[i];
                    }
                }
            };
            match p {
                B::Lt(a, c) => keep(*a, *c, [true, false, false]),
                B::Le(a, c) => keep(*a, *c, [true, true, false]),
                B::Eq(a, c) => keep(*a, *c, [false, true, false]),
                B::Not(n) => match &**n {
                    B::Lt(a, c) => keep(*a, *c, [false, true, true]),
                    B::Le(a, c) => keep(*a, *c, [false, false, true]),
                    B::Eq(a, c) => keep(*a, *c, [true, false, true]),
                    _ => {}
                },
                B::And(v) => v.iter().for_each(|p| note(p, known)),
                _ => {}
            }
        }
        for k in self.noted..self.pc.len() {
            note(&self.pc[k], &mut self.known);
        }
        self.noted = self.pc.len();
        let can = *self.known.get(&(x, y))?;
        let holds = match b {
            B::Lt(..) => [true, false, false],
            B::Le(..) => [true, true, false],
            _ => [false, true, false],
        };
        if can == [false; 3] {
            return None;
        }
        if (0..3).all(|i| !can[i] || holds[i]) {
            Some(true)
        } else if (0..3).all(|i| !can[i] || !holds[i]) {
            Some(false)
        } else {
            None
        }
    }

    fn simp(&self, b: B) -> B {
        match b {
            B::Eq(a, c) if a == c => B::T,
            B::Le(a, c) if a == c => B::T,
            B::Lt(a, c) if a == c => B::F,
            B::Eq(a, c) | B::Le(a, c) | B::Lt(a, c) => match (self.c(a), self.c(c)) {
                (Some(x), Some(y)) => match x.cmp(y) {
                    Some(o) => B::of(match b {
                        B::Eq(..) => o == Ordering::Equal,
                        B::Le(..) => o != Ordering::Greater,
                        _ => o == Ordering::Less,
                    }),
                    None => b,
                },
                _ => b,
            },
            B::Not(x) => self.simp((*x).clone()).not(),
            B::And(v) => B::all(v.into_iter().map(|b| self.simp(b)).collect()),
            B::Or(v) => B::any(v.into_iter().map(|b| self.simp(b)).collect()),
            b => b,
        }
    }
}

// ---- harness interface ---------------------------------------------------------------------

fn unwind(u: Unwind) -> ! {
    std::panic::resume_unwind(Box::new(u))
}

/// A fresh symbolic input.
pub fn any(name: &str) -> Sym {
    with(|c| {
        let k = match c.input_ix.get(name) {
            Some(&k) => k,
            None => {
                let k = c.inputs.len() as u32;
                c.inputs.push(name.to_string());
                c.input_ix.insert(name.to_string(), k);
                k
            }
        };
        Sym(c.mk(Node::Var(k)))
    })
}

/// Witnesses of this path should give this input a value different from the others so marked.
pub fn keep_apart(s: Sym) {
    with(|c| {
        if c.distinct.len() < 64 {
            c.distinct.push(s.0);
        }
    });
}

pub fn rat(n: i128, d: i128) -> Sym {
    with(|c| Sym(c.konst(Rat::new(n, d).unwrap())))
}

pub fn int(n: i128) -> Sym {
    rat(n, 1)
}

pub fn branch(b: B) -> bool {
    match with(|c| c.branch(b)) {
        Ok(b) => b,
        Err(u) => unwind(u),
    }
}

/// Restricts the inputs. Must come before the code it constrains.
pub fn assume(b: B) {
    let dead = with(|c| {
        let b = c.simp(b);
        if c.replay.is_some() {
            return !c.eval_tol(&b, true);
        }
        match b {
            B::T => false,
            B::F => true,
            b => {
                c.pc.push(b);
                false
            }
        }
    });
    if dead {
        unwind(Unwind::Abandon);
    }
}

pub fn abandon() -> ! {
    unwind(Unwind::Abandon)
}

/// An environment choice among n alternatives; all are explored.
pub fn choose(n: usize) -> usize {
    let r = with(|c| {
        if c.replay.is_some() {
            let r = c.replay_choices.get(c.choice_pos).copied().unwrap_or(0);
            c.choice_pos += 1;
            c.trace.push(Step::Choose(r, n));
            return Ok(r.min(n - 1));
        }
        if c.trace.len() >= c.max_steps {
            c.truncated = true;
            return Err(Unwind::Abandon);
        }
        let pos = c.trace.len();
        let r = if pos < c.prefix.len() {
            let Step::Choose(r, m) = c.prefix[pos] else { panic!("symx: nondeterministic path") };
            assert_eq!(m, n, "symx: nondeterministic path");
            r
        } else {
            0
        };
        c.trace.push(Step::Choose(r, n));
        Ok(r)
    });
    match r {
        Ok(r) => r,
        Err(u) => unwind(u),
    }
}

/// Whether two terms have the same polynomial normal form.
pub fn same_term(a: Sym, b: Sym) -> bool {
    a.0 == b.0 || with(|c| c.poly(a.0) == c.poly(b.0))
}

pub fn api(name: &str) {
    with(|c| {
        if !c.apis.contains(name) {
            c.apis.insert(name.to_string());
        }
    });
}

/// A value for an input that is not given.
fn made_up(name: &str, seed: u64) -> Val {
    if seed == 0 {
        return Val::X(Rat::ZERO);
    }
    let h = name.bytes().fold(seed.wrapping_mul(0x9e3779b97f4a7c15), |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3).rotate_left(23));
    Val::X(Rat::new((h >> 20) as i128 % 41 - 20, [1, 1, 2, 3][(h >> 8) as usize % 4]).unwrap())
}

/// Whether a solver is working right now (in any worker).
pub fn in_solver_recently() -> bool {
    crate::solver::BUSY.load(std::sync::atomic::Ordering::Relaxed) > 0
}

/// The names of all inputs so far.
pub fn inputs() -> Vec<String> {
    with(|c| c.inputs.clone())
}

pub fn replaying() -> bool {
    with(|c| c.replay.is_some())
}

/// The claim: must hold on this path for all values of the inputs.
pub fn prove(label: &str, b: B) {
    prove_trying(label, b, &[])
}

/// As `prove`, looking for a counterexample among the values that satisfy one of these `hints` first.
pub fn prove_trying(label: &str, b: B, hints: &[Vec<B>]) {
    let stop = with(|c| {
        c.stats.obligations += 1;
        if c.replay.is_some() {
            if !c.eval_tol(&b, true) {
                fail_here(c, label, "claim");
                return true;
            }
            c.stats.discharged += 1;
            return false;
        }
        let b = c.simp(b);
        if let B::T = b {
            c.stats.discharged += 1;
            c.stats.syntactic += 1;
            return false;
        }
        let neg = b.not();
        for h in hints {
            let all: Vec<B> = h.iter().cloned().chain([neg.clone()]).collect();
            let (a, inputs) = c.model(&all);
            if a == Answer::Sat {
                let choices = choices_of(&c.trace);
                c.failures.push(Failure { label: label.into(), kind: "claim", inputs, choices });
                return true;
            }
        }
        let near = c.related(std::slice::from_ref(&neg));
        let (q, _) = c.query_of(&near, std::slice::from_ref(&neg));
        let t = c.solver.timeout_ms;
        if !hints.is_empty() {
            // without a counterexample among the hints, do not search for long
            c.solver.timeout_ms = t.min(5000);
        }
        let answer = c.solver.check(&q, &[]).answer;
        c.solver.timeout_ms = t;
        match answer {
            Answer::Unsat => {
                c.stats.discharged += 1;
                false
            }
            Answer::Unknown => {
                c.stats.undecided += 1;
                false
            }
            Answer::Sat => {
                let (a, inputs) = c.model(&[neg]);
                if a == Answer::Sat {
                    let choices = choices_of(&c.trace);
                    c.failures.push(Failure { label: label.into(), kind: "claim", inputs, choices });
                    true
                } else {
                    if a == Answer::Unsat {
                        c.stats.discharged += 1;
                    } else {
                        c.stats.undecided += 1;
                    }
                    false
                }
            }
        }
    });
    if stop {
        unwind(Unwind::Stop);
    }
}

/// Whether the solver shows this for all inputs of the path; not an obligation.
pub fn holds(b: B) -> bool {
    with(|c| {
        if c.replay.is_some() {
            return c.eval_tol(&b, true);
        }
        match c.simp(b) {
            B::T => true,
            B::F => false,
            b => c.feasible(b.not()) == Answer::Unsat,
        }
    })
}

pub fn choices_of(t: &[Step]) -> Vec<usize> {
    t.iter().filter_map(|s| if let Step::Choose(r, _) = s { Some(*r) } else { None }).collect()
}

fn fail_here(c: &mut Cx, label: &str, kind: &'static str) {
    let inputs = match &c.replay {
        Some(r) => c.inputs.iter().map(|n| (n.clone(), *r.get(n).unwrap_or(&Val::X(Rat::ZERO)))).collect(),
        None => c.model(&[]).1,
    };
    let choices = choices_of(&c.trace);
    c.failures.push(Failure { label: label.into(), kind, inputs, choices });
}

/// The whole path is a failure (e.g. the code returned where it must panic).
pub fn fail(label: &str) -> ! {
    with(|c| {
        c.stats.obligations += 1;
        fail_here(c, label, "path");
    });
    unwind(Unwind::Stop)
}

/// Records the claim that a concrete fact holds on this path.
pub fn check(label: &str, ok: bool) {
    if !ok {
        fail(label);
    }
    with(|c| {
        c.stats.obligations += 1;
        c.stats.discharged += 1;
        c.stats.syntactic += 1;
    });
}

/// Runs `f` and reports whether the code under test panicked in it.
pub fn panics<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => match p.downcast::<Unwind>() {
            Ok(u) => std::panic::resume_unwind(u),
            Err(p) => Err(message(&*p)),
        },
    }
}

pub fn must_panic<R>(label: &str, f: impl FnOnce() -> R) {
    match panics(f) {
        Ok(_) => fail(&format!("{label}: returned instead of panicking")),
        Err(_) => with(|c| {
            c.stats.obligations += 1;
            c.stats.discharged += 1;
            c.stats.expected_panics += 1;
        }),
    }
}

pub fn message(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

// ---- the scalar ------------------------------------------------------------------------------

/// A real number known only as an SMT term.
#[derive(Clone, Copy)]
pub struct Sym(pub Id);

impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{}", self.0)
    }
}

impl Sym {
    pub fn eqs(self, o: Sym) -> B {
        with(|c| c.simp(B::Eq(self.0, o.0)))
    }
    pub fn lts(self, o: Sym) -> B {
        with(|c| c.simp(B::Lt(self.0, o.0)))
    }
    pub fn les(self, o: Sym) -> B {
        with(|c| c.simp(B::Le(self.0, o.0)))
    }
    pub fn is0(self) -> B {
        self.eqs(int(0))
    }
    pub fn non0(self) -> B {
        self.is0().not()
    }
    pub fn pos(self) -> B {
        int(0).lts(self)
    }
    pub fn ge0(self) -> B {
        int(0).les(self)
    }
}

macro_rules! binop {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $op:expr) => {
        impl $tr<Sym> for Sym {
            type Output = Sym;
            fn $f(self, o: Sym) -> Sym {
                $op(self, o)
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $f(self, o: &'a Sym) -> Sym {
                $op(self, *o)
            }
        }
        impl<'a> $tr<Sym> for &'a Sym {
            type Output = Sym;
            fn $f(self, o: Sym) -> Sym {
                $op(*self, o)
            }
        }
        impl<'a, 'b> $tr<&'b Sym> for &'a Sym {
            type Output = Sym;
            fn $f(self, o: &'b Sym) -> Sym {
                $op(*self, *o)
            }
        }
        impl $tra<Sym> for Sym {
            fn $fa(&mut self, o: Sym) {
                *self = $op(*self, o);
            }
        }
        impl<'a> $tra<&'a Sym> for Sym {
            fn $fa(&mut self, o: &'a Sym) {
                *self = $op(*self, *o);
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, |a: Sym, b: Sym| with(|c| Sym(c.add(a.0, b.0))));
binop!(Sub, sub, SubAssign, sub_assign, |a: Sym, b: Sym| with(|c| Sym(c.sub(a.0, b.0))));
binop!(Mul, mul, MulAssign, mul_assign, |a: Sym, b: Sym| with(|c| Sym(c.mul(a.0, b.0))));
binop!(Div, div, DivAssign, div_assign, divide);

/// In the reals, dividing by zero has no value; code that may do so is at fault.
fn divide(a: Sym, b: Sym) -> Sym {
    if branch(b.is0()) {
        panic!("FAULT: division by zero");
    }
    with(|c| {
        if let Some(r) = c.c(b.0) {
            let inv = c.konst(Rat::ONE.div(r).unwrap());
            return Sym(c.mul(a.0, inv));
        }
        let key = vec![c.key(a.0), c.key(b.0)];
        Sym(c.aux(Fun::Div, vec![a.0, b.0], key))
    })
}

impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        with(|c| Sym(c.neg(self.0)))
    }
}
impl<'a> Neg for &'a Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        -*self
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        branch(B::Eq(self.0, o.0))
    }
}
impl Eq for Sym {}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        Some(if branch(B::Lt(self.0, o.0)) {
            Ordering::Less
        } else if branch(B::Eq(self.0, o.0)) {
            Ordering::Equal
        } else {
            Ordering::Greater
        })
    }
    fn lt(&self, o: &Sym) -> bool {
        branch(B::Lt(self.0, o.0))
    }
    fn le(&self, o: &Sym) -> bool {
        branch(B::Le(self.0, o.0))
    }
    fn gt(&self, o: &Sym) -> bool {
        branch(B::Lt(o.0, self.0))
    }
    fn ge(&self, o: &Sym) -> bool {
        branch(B::Le(o.0, self.0))
    }
}
impl From<i8> for Sym {
    fn from(n: i8) -> Sym {
        int(n as i128)
    }
}
impl From<f32> for Sym {
    fn from(x: f32) -> Sym {
        Sym::from(x as f64)
    }
}
impl From<f64> for Sym {
    fn from(x: f64) -> Sym {
        with(|c| Sym(c.konst(Rat::from_f64(x).expect("finite constant"))))
    }
}
macro_rules! from_int {
    ($($t:ty)*) => { $(impl From<$t> for Sym { fn from(n: $t) -> Sym { int(n as i128) } })* };
}
from_int!(i16 i32 i64 u8 u16 u32);

// not needed by the library as it is, but by code that may come to ask for more of its numbers
impl Ord for Sym {
    fn cmp(&self, o: &Sym) -> Ordering {
        self.partial_cmp(o).unwrap()
    }
}
impl Default for Sym {
    fn default() -> Sym {
        int(0)
    }
}
impl std::fmt::Display for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(int(0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(i: I) -> Sym {
        i.fold(int(0), |a, b| a + b)
    }
}
impl std::iter::Product for Sym {
    fn product<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(int(1), |a, b| a * b)
    }
}
impl<'a> std::iter::Product<&'a Sym> for Sym {
    fn product<I: Iterator<Item = &'a Sym>>(i: I) -> Sym {
        i.fold(int(1), |a, b| a * b)
    }
}

impl alg::Ring for Sym {}
impl alg::Field for Sym {}
impl alg::Conj for Sym {
    fn conj(self) -> Sym {
        self
    }
}

// ---- real functions ----------------------------------------------------------------------

pub fn sqrt(t: Sym) -> Sym {
    if branch(t.lts(int(0))) {
        panic!("FAULT: square root of a negative number");
    }
    with(|c| {
        if let Some(r) = c.c(t.0).and_then(|r| r.sqrt()) {
            return Sym(c.konst(r));
        }
        let key = vec![c.key(t.0)];
        Sym(c.aux(Fun::Sqrt, vec![t.0], key))
    })
}

fn zero_arg(c: &mut Cx, t: Sym) -> bool {
    c.poly(t.0).is_empty()
}

fn pow(c: &mut Cx, b: Id, k: u32) -> Id {
    let mut r = c.konst(Rat::ONE);
    for _ in 0..k {
        r = c.mul(r, b);
    }
    r
}

/// (e^t, e^-t)
fn exp_pair(c: &mut Cx, t: Sym) -> (Id, Id) {
    if zero_arg(c, t) {
        let one = c.konst(Rat::ONE);
        return (one, one);
    }
    let (k, v) = c.split(t.0);
    let key = vec![c.key(v)];
    let p = c.aux(Fun::ExpP, vec![v], key.clone());
    let n = c.aux(Fun::ExpN, vec![v], key);
    let (p, n) = (pow(c, p, k.unsigned_abs()), pow(c, n, k.unsigned_abs()));
    if k < 0 {
        (n, p)
    } else {
        (p, n)
    }
}

/// (sin t, cos t)
fn sincos(c: &mut Cx, t: Sym) -> (Id, Id) {
    if zero_arg(c, t) {
        return (c.konst(Rat::ZERO), c.konst(Rat::ONE));
    }
    let (k, v) = c.split(t.0);
    let key = vec![c.key(v)];
    let s1 = c.aux(Fun::Sin, vec![v], key.clone());
    let c1 = c.aux(Fun::Cos, vec![v], key);
    let (mut s, mut co) = (s1, c1);
    for _ in 1..k.unsigned_abs() {
        let (a, b) = (c.mul(s, c1), c.mul(co, s1));
        let (d, e) = (c.mul(co, c1), c.mul(s, s1));
        s = c.add(a, b);
        co = c.sub(d, e);
    }
    if k < 0 {
        s = c.neg(s);
    }
    (s, co)
}

pub fn exp(t: Sym) -> Sym {
    with(|c| Sym(exp_pair(c, t).0))
}
pub fn sinh(t: Sym) -> Sym {
    let (p, n) = with(|c| exp_pair(c, t));
    (Sym(p) - Sym(n)) * rat(1, 2)
}
pub fn cosh(t: Sym) -> Sym {
    let (p, n) = with(|c| exp_pair(c, t));
    (Sym(p) + Sym(n)) * rat(1, 2)
}
pub fn sin(t: Sym) -> Sym {
    with(|c| Sym(sincos(c, t).0))
}
pub fn cos(t: Sym) -> Sym {
    with(|c| Sym(sincos(c, t).1))
}
pub fn tan(t: Sym) -> Sym {
    let (s, c) = with(|c| sincos(c, t));
    Sym(s) / Sym(c)
}
pub fn ln(t: Sym) -> Sym {
    if branch(t.les(int(0))) {
        panic!("FAULT: logarithm of a number that is not positive");
    }
    let root = with(|c| match c.nodes[t.0 as usize] {
        Node::Aux(k) if c.defs[k as usize].f == Fun::Sqrt => Some(Sym(c.defs[k as usize].args[0])),
        _ => None,
    });
    if let Some(r) = root {
        return ln(r) * rat(1, 2);
    }
    with(|c| {
        let key = vec![c.key(t.0)];
        Sym(c.aux(Fun::Ln, vec![t.0], key))
    })
}
pub fn asin(t: Sym) -> Sym {
    with(|c| {
        let key = vec![c.key(t.0)];
        Sym(c.aux(Fun::Asin, vec![t.0], key))
    })
}
pub fn atan2(y: Sym, x: Sym) -> Sym {
    with(|c| {
        let key = vec![c.key(y.0), c.key(x.0)];
        Sym(c.aux(Fun::Atan2, vec![y.0, x.0], key))
    })
}
pub fn abs(t: Sym) -> Sym {
    if branch(t.ge0()) {
        t
    } else {
        -t
    }
}

/// |t| without a case distinction on the path; an upper bound of it after `coarse`.
pub fn mag(t: Sym) -> Sym {
    with(|c| Sym(c.mag(t.0)))
}

/// Whether the normal form is a sum of products of inputs named "|...|" and of squares, with no
/// minus sign. (The caller assumes of these inputs that they are not negative.)
pub fn nonneg(t: Sym) -> bool {
    with(|c| {
        let p = c.poly(t.0);
        p.iter().all(|(m, k)| {
            k.n >= 0 && m.iter().all(|(v, e)| e % 2 == 0 || matches!(c.nodes[*v as usize], Node::Var(k) if c.inputs[k as usize].starts_with('|')))
        })
    })
}

impl fun::Abs for Sym {
    type Output = Sym;
    fn abs(self) -> Sym {
        abs(self)
    }
}
impl<'a> fun::Abs for &'a Sym {
    type Output = Sym;
    fn abs(self) -> Sym {
        abs(*self)
    }
}
impl fun::Sqrt for Sym {
    fn sqrt(&self) -> Sym {
        sqrt(*self)
    }
}
macro_rules! unary {
    ($($tr:ident $f:ident),*) => { $(impl fun::$tr for Sym { fn $f(self) -> Sym { $f(self) } })* };
}
unary!(Exp exp, Sinh sinh, Cosh cosh, Sin sin, Cos cos, Tan tan, Ln ln, Asin asin);
impl fun::Atan2 for Sym {
    fn atan2(self, x: Sym) -> Sym {
        atan2(self, x)
    }
}

// ---- readable values in replay ----------------------------------------------------------

pub fn show(s: Sym) -> String {
    with(|c| if c.replay.is_some() { c.vals[s.0 as usize].text() } else { format!("#{}", s.0) })
}

/// The value of a term that is a constant.
pub fn constant(s: Sym) -> Option<Rat> {
    with(|c| c.c(s.0))
}

/// The value of a term in a concrete run.
pub fn number(s: Sym) -> Option<f64> {
    with(|c| if c.replay.is_some() { Some(c.vals[s.0 as usize].f64()) } else { None })
}

/// For long sums of products: `mag` takes magnitudes of sums and products from their parts, and
/// sums get absolute error bounds only.
pub fn coarse() {
    with(|c| c.coarse = true)
}

/// Queries state congruence of the real functions from here on.
pub fn congruent() {
    with(|c| c.congruence = true)
}

const P61: u128 = (1 << 61) - 1;

/// A hash of a term that is the same for terms with the same polynomial normal form: its value in
/// a finite field at a fixed point.
pub fn fingerprint(s: Sym) -> u64 {
    with(|c| {
        for k in c.prints.len()..c.nodes.len() {
            let p = &c.prints;
            let g = |i: Id| p[i as usize] as u128;
            let mix = |k: u64| {
                let mut z = k.wrapping_add(0x1234_5678).wrapping_mul(0x9e37_79b9_7f4a_7c15);
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                (z ^ (z >> 27)) as u128
            };
            let v = match c.nodes[k] {
                Node::Const(r) => {
                    let m = |x: i128| x.rem_euclid(P61 as i128) as u128;
                    let (mut inv, mut b, mut e) = (1u128, m(r.d), P61 - 2);
                    while e > 0 {
                        if e & 1 == 1 {
                            inv = inv * b % P61;
                        }
                        b = b * b % P61;
                        e >>= 1;
                    }
                    m(r.n) * inv
                }
                Node::Var(k) => mix(2 * k as u64),
                Node::Aux(k) => mix(2 * k as u64 + 1),
                Node::Add(a, b) => g(a) + g(b),
                Node::Sub(a, b) => g(a) + P61 - g(b),
                Node::Mul(a, b) => g(a) * g(b),
                Node::Neg(a) => P61 - g(a),
            };
            c.prints.push((v % P61) as u64);
        }
        c.prints[s.0 as usize]
    })
}

/// a + b, a - b and a * b of fingerprints.
pub fn print_add(a: u64, b: u64) -> u64 {
    ((a as u128 + b as u128) % P61) as u64
}
pub fn print_sub(a: u64, b: u64) -> u64 {
    ((a as u128 + P61 - b as u128) % P61) as u64
}
pub fn print_mul(a: u64, b: u64) -> u64 {
    (a as u128 * b as u128 % P61) as u64
}
