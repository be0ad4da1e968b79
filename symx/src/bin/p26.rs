//! P26: expressions compute nothing that is not asked for, and nothing twice (larger sizes, compositions).
use magnesia::linalg::{make_matrix_expr, make_vector_expr, DMatrix, DVector, MatrixExpr, VectorExpr};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use symx::*;

/// How often each entry of an operand was computed.
#[derive(Clone, Default)]
struct Log(Rc<RefCell<BTreeMap<(usize, usize), u32>>>);
impl Log {
    fn ask(&self, i: usize, j: usize) {
        *self.0.borrow_mut().entry((i, j)).or_default() += 1;
    }
    fn take(&self) -> BTreeMap<(usize, usize), u32> {
        std::mem::take(&mut self.0.borrow_mut())
    }
    fn untouched(&self, label: &str) {
        check(&format!("{label}: nothing computed"), self.0.borrow().is_empty());
    }
    /// these entries once each, and no others
    fn once(&self, label: &str, want: impl IntoIterator<Item = (usize, usize)>) {
        let want: BTreeMap<_, _> = want.into_iter().map(|k| (k, 1)).collect();
        check(&format!("{label}: every entry computed once"), self.take() == want);
    }
}

struct V(usize, &'static str, Log);
impl VectorExpr for V {
    type Entry = Sym;
    fn entry(&self, i: usize) -> Sym {
        self.2.ask(i, 0);
        any(&format!("{}{i}", self.1))
    }
    fn len(&self) -> usize {
        self.0
    }
}
struct M(usize, usize, &'static str, Log);
impl MatrixExpr for M {
    type Entry = Sym;
    fn entry(&self, i: usize, j: usize) -> Sym {
        self.3.ask(i, j);
        any(&format!("{}{i}_{j}", self.2))
    }
    fn num_rows(&self) -> usize {
        self.0
    }
    fn num_cols(&self) -> usize {
        self.1
    }
}

fn all(m: usize, n: usize) -> impl Iterator<Item = (usize, usize)> {
    (0..m).flat_map(move |i| (0..n).map(move |j| (i, j)))
}

fn eval_v<E: VectorExpr>(label: &str, n: usize, l: &[&Log], e: E) {
    l.iter().for_each(|l| l.untouched(&format!("building {label}")));
    check(&format!("{label}: length"), e.len() == n && e.is_empty() == (n == 0));
    l.iter().for_each(|l| l.untouched(&format!("length of {label}")));
    for i in [0, n / 2, n.wrapping_sub(1)] {
        if i < n {
            e.entry(i);
            l.iter().for_each(|l| l.once(&format!("{label}: one entry"), [(i, 0)]));
        }
    }
    e.eval();
    l.iter().for_each(|l| l.once(&format!("eval of {label}"), all(n, 1)));
}
/// The logs come with a function from the place of an entry to the place of the operand's.
type Place = fn(usize, usize) -> (usize, usize);
fn here(i: usize, j: usize) -> (usize, usize) {
    (i, j)
}
fn there(i: usize, j: usize) -> (usize, usize) {
    (j, i)
}
fn eval_m<E: MatrixExpr>(label: &str, m: usize, n: usize, l: &[(&Log, Place)], e: E) {
    l.iter().for_each(|(l, _)| l.untouched(&format!("building {label}")));
    check(&format!("{label}: shape"), (e.num_rows(), e.num_cols()) == (m, n));
    l.iter().for_each(|(l, _)| l.untouched(&format!("shape of {label}")));
    for (i, j) in [(0, 0), (m / 2, n / 2), (m.wrapping_sub(1), 0), (0, n.wrapping_sub(1)), (m.wrapping_sub(1), n.wrapping_sub(1))] {
        if i < m && j < n {
            e.entry(i, j);
            l.iter().for_each(|(l, p)| l.once(&format!("{label}: one entry"), [p(i, j)]));
        }
    }
    e.eval();
    l.iter().for_each(|(l, p)| l.once(&format!("eval of {label}"), all(m, n).map(|(i, j)| p(i, j))));
}

fn vectors(n: usize) {
    let (l, k, f) = (Log::default(), Log::default(), Log::default());
    let a = || V(n, "a", l.clone());
    let b = || V(n, "b", k.clone());
    for i in 0..n {
        assume(any(&format!("b{i}")).non0());
    }
    eval_v("an expression", n, &[&l], a());
    eval_v("a wrapped expression", n, &[&l], a().wrap());
    eval_v("a reference's map", n, &[&l], a().wrap().map(|x| x + x));
    eval_v("make_vector_expr", n, &[&l], make_vector_expr(n, |i| l.ask(i, 0)));
    eval_v("map", n, &[&l], a().wrap().map(|x| x * x));
    let v = a().eval();
    l.take();
    eval_v("the function of map", n, &[&f], make_vector_expr(n, |i| i).map(|i| f.ask(i, 0)));
    eval_v("zip", n, &[&l, &k], a().wrap().zip(b()));
    eval_v("+", n, &[&l, &k], a().wrap() + b());
    eval_v("-", n, &[&l, &k], a().wrap() - b());
    eval_v("mul_elemwise", n, &[&l, &k], a().wrap().mul_elemwise(b()));
    eval_v("div_elemwise", n, &[&l, &k], a().wrap().div_elemwise(b()));
    eval_v("conj", n, &[&l], a().wrap().conj());
    eval_v("stored + expression", n, &[&k], &v + b());
    eval_v("stored - expression", n, &[&k], &v - b());
    eval_v("stored mul_elemwise", n, &[&k], v.mul_elemwise(b()));
    eval_v("stored div_elemwise", n, &[&k], v.div_elemwise(b()));
    eval_v("diag, diag", n, &[&l], a().wrap().diag().diag());
    let mut t = v.clone();
    t += b();
    k.once("+=", all(n, 1));
    t -= b();
    k.once("-=", all(n, 1));
    t += b().wrap().conj() - a();
    k.once("+= difference", all(n, 1));
    l.once("+= difference", all(n, 1));
    if n <= 20 {
        let d = a().wrap().diag();
        l.untouched("building a diagonal matrix");
        for (i, j) in all(n, n) {
            d.entry(i, j);
            l.once("an entry of a diagonal matrix", (i == j).then_some((i, 0)));
        }
        d.eval();
        l.once("eval of a diagonal matrix", all(n, 1));
    }
}

fn matrices(m: usize, n: usize) {
    let (l, k, f) = (Log::default(), Log::default(), Log::default());
    let a = || M(m, n, "a", l.clone());
    let b = || M(m, n, "b", k.clone());
    let c = || M(n, m, "b", k.clone());
    for (i, j) in all(m, n) {
        assume(any(&format!("b{i}_{j}")).non0());
    }
    let (one, two): (&[(&Log, Place)], &[(&Log, Place)]) = (&[(&l, here)], &[(&l, here), (&k, here)]);
    eval_m("an expression", m, n, one, a());
    eval_m("a wrapped expression", m, n, one, a().wrap());
    eval_m("make_matrix_expr", m, n, one, make_matrix_expr(m, n, |i, j| l.ask(i, j)));
    eval_m("map", m, n, one, a().wrap().map(|x| x * x));
    let x = a().eval();
    l.take();
    eval_m("the function of map", m, n, &[(&f, here)], make_matrix_expr(m, n, |i, j| (i, j)).map(|(i, j)| f.ask(i, j)));
    eval_m("zip", m, n, two, a().wrap().zip(b()));
    eval_m("+", m, n, two, a().wrap() + b());
    eval_m("-", m, n, two, a().wrap() - b());
    eval_m("mul_elemwise", m, n, two, a().wrap().mul_elemwise(b()));
    eval_m("div_elemwise", m, n, two, a().wrap().div_elemwise(b()));
    eval_m("t", n, m, &[(&l, there)], a().wrap().t());
    eval_m("h", n, m, &[(&l, there)], a().wrap().h());
    eval_m("t, t", m, n, one, a().wrap().t().t());
    eval_m("+ transpose", m, n, &[(&l, here), (&k, there)], a().wrap() + c().wrap().t());
    eval_m("stored + expression", m, n, &[(&k, here)], &x + b());
    eval_m("stored - expression", m, n, &[(&k, here)], &x - b());
    eval_m("stored mul_elemwise", m, n, &[(&k, here)], x.mul_elemwise(b()));
    eval_m("stored div_elemwise", m, n, &[(&k, here)], x.div_elemwise(b()));
    let mut t: DMatrix<Sym> = x.clone();
    t += b();
    k.once("+=", all(m, n));
    t -= b();
    k.once("-=", all(m, n));
    t += c().wrap().h() - a();
    k.once("+= difference", all(n, m));
    l.once("+= difference", all(m, n));
    let d = a().wrap().diag();
    l.untouched("taking a diagonal");
    for i in 0..m.min(n) {
        d.entry(i);
        l.once("an entry of a diagonal", [(i, i)]);
    }
    d.eval();
    l.once("eval of a diagonal", (0..m.min(n)).map(|i| (i, i)));
}

/// Every composition of `depth` combinators on vectors.
fn compose_v(n: usize, depth: usize) {
    let mut logs: Vec<Log> = vec![];
    let leaf = |logs: &mut Vec<Log>| {
        let l = Log::default();
        logs.push(l.clone());
        V(n, "a", l)
    };
    for i in 0..n {
        assume(any(&format!("a{i}")).non0());
    }
    let mut e = BoxV::new(leaf(&mut logs));
    let mut label = String::from("x");
    for _ in 0..depth {
        let (name, f): (&str, BoxV<Sym>) = match choose(11) {
            0 => ("map", BoxV::new(e.wrap().map(|x| x + x))),
            1 => ("conj", BoxV::new(e.wrap().conj())),
            2 => ("diag diag", BoxV::new(e.wrap().diag().diag())),
            3 => ("zip", BoxV::new(e.wrap().zip(leaf(&mut logs)).map(|(x, y)| x - y))),
            4 => ("+", BoxV::new(e.wrap() + leaf(&mut logs))),
            5 => ("-", BoxV::new(e.wrap() - leaf(&mut logs))),
            6 => ("right -", BoxV::new(leaf(&mut logs).wrap() - e)),
            7 => ("mul", BoxV::new(e.wrap().mul_elemwise(leaf(&mut logs)))),
            8 => ("div", BoxV::new(e.wrap().div_elemwise(leaf(&mut logs)))),
            9 => ("+ constant", BoxV::new(DVector::<Sym>::ones(n) + e)),
            _ => ("wrap", BoxV::new(e.wrap())),
        };
        e = f;
        label = format!("{label} {name}");
    }
    let l: Vec<&Log> = logs.iter().collect();
    eval_v(&label, n, &l, e.wrap());
}

fn compose_m(m: usize, n: usize, depth: usize) {
    let mut logs: Vec<(Log, Place)> = vec![];
    for (i, j) in all(m, n) {
        assume(any(&format!("a{i}_{j}")).non0().and(any(&format!("a{j}_{i}")).non0()));
    }
    let leaf = |logs: &mut Vec<(Log, Place)>, m: usize, n: usize| {
        let l = Log::default();
        logs.push((l.clone(), here));
        M(m, n, "a", l)
    };
    let turn = |logs: &mut Vec<(Log, Place)>| logs.iter_mut().for_each(|(_, p)| *p = if p(0, 1) == (0, 1) { there } else { here });
    let (mut r, mut c) = (m, n);
    let mut e = BoxM::new(leaf(&mut logs, m, n));
    let mut label = String::from("x");
    for _ in 0..depth {
        let (name, f): (&str, BoxM<Sym>) = match choose(11) {
            0 => ("map", BoxM::new(e.wrap().map(|x| x + x))),
            1 => {
                turn(&mut logs);
                (r, c) = (c, r);
                ("t", BoxM::new(e.wrap().t()))
            }
            2 => {
                turn(&mut logs);
                (r, c) = (c, r);
                ("h", BoxM::new(e.wrap().h()))
            }
            3 => ("zip", BoxM::new(e.wrap().zip(leaf(&mut logs, r, c)).map(|(x, y)| x - y))),
            4 => ("+", BoxM::new(e.wrap() + leaf(&mut logs, r, c))),
            5 => ("-", BoxM::new(e.wrap() - leaf(&mut logs, r, c))),
            6 => ("right -", BoxM::new(leaf(&mut logs, r, c).wrap() - e)),
            7 => ("mul", BoxM::new(e.wrap().mul_elemwise(leaf(&mut logs, r, c)))),
            8 => ("div", BoxM::new(e.wrap().div_elemwise(leaf(&mut logs, r, c)))),
            9 => ("+ constant", BoxM::new(DMatrix::<Sym>::ones(r, c) + e)),
            _ => ("wrap", BoxM::new(e.wrap())),
        };
        e = f;
        label = format!("{label} {name}");
    }
    let l: Vec<(&Log, Place)> = logs.iter().map(|(l, p)| (l, *p)).collect();
    eval_m(&label, r, c, &l, e.wrap());
}

fn main() {
    symx::main("P26", |t| {
        let mut v = vec![];
        for n in (0..=t.pick(20, 70)).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 257]) {
            v.push(case(format!("vectors of length {n}"), move || vectors(n)));
        }
        let k = t.pick(7, 12);
        let mut shapes: Vec<(usize, usize)> = (0..=k).flat_map(|m| (0..=k).map(move |n| (m, n))).collect();
        shapes.extend([(1, 16), (17, 1), (8, 9), (16, 16), (17, 15), (2, 33), (65, 2), (1, 130), (130, 1)]);
        for (m, n) in shapes {
            v.push(case(format!("matrices {m}x{n}"), move || matrices(m, n)));
        }
        for n in [1, 2, 5] {
            v.push(case(format!("compositions of vectors of length {n}"), move || compose_v(n, t.pick(3, 4))).limit(200_000));
        }
        for (m, n) in [(1, 1), (2, 3), (5, 2)] {
            v.push(case(format!("compositions of matrices {m}x{n}"), move || compose_m(m, n, t.pick(3, 4))).limit(200_000));
        }
        v
    })
}
