//! Reference model of dynamic vectors and matrices, and boxed expressions to build compositions of
//! the library's combinators at run time.
use crate::elem::*;
use crate::sym::*;
use magnesia::linalg::{make_matrix_expr, make_vector_expr, DMatrix, DVector, MatrixExpr, VectorExpr};
use std::ops::{Add, AddAssign, Mul, Sub, SubAssign};

pub trait Num: Elem + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> {}
impl<T: Elem + Add<Output = T> + Sub<Output = T> + Mul<Output = T>> Num for T {}

pub type Mat<T> = Vec<Vec<T>>;

pub fn fill<T>(m: usize, n: usize, f: impl Fn(usize, usize) -> T) -> Mat<T> {
    (0..m).map(|i| (0..n).map(|j| f(i, j)).collect()).collect()
}

pub fn anym<T: Elem>(name: &str, m: usize, n: usize) -> Mat<T> {
    fill(m, n, |i, j| T::any(&format!("{name}{i}_{j}")))
}

/// A shape: rows and columns, kept apart from the entries so that empty matrices have both.
#[derive(Clone)]
pub struct RefM<T> {
    pub m: usize,
    pub n: usize,
    pub a: Mat<T>,
}

impl<T: Elem> RefM<T> {
    pub fn any(name: &str, m: usize, n: usize) -> Self {
        RefM { m, n, a: anym(name, m, n) }
    }
    pub fn new(m: usize, n: usize, f: impl Fn(usize, usize) -> T) -> Self {
        RefM { m, n, a: fill(m, n, f) }
    }
    pub fn map(&self, f: impl Fn(&T) -> T) -> Self {
        RefM::new(self.m, self.n, |i, j| f(&self.a[i][j]))
    }
    pub fn zip(&self, o: &Self, f: impl Fn(&T, &T) -> T) -> Self {
        RefM::new(self.m, self.n, |i, j| f(&self.a[i][j], &o.a[i][j]))
    }
    pub fn t(&self) -> Self {
        RefM::new(self.n, self.m, |i, j| self.a[j][i].clone())
    }
    pub fn diag(&self) -> Vec<T> {
        (0..self.m.min(self.n)).map(|i| self.a[i][i].clone()).collect()
    }
    pub fn stored(&self) -> DMatrix<T> {
        let a = self.a.clone();
        make_matrix_expr(self.m, self.n, move |i, j| a[i][j].clone()).eval()
    }
}

pub fn diagonal<T: Elem>(v: &[T]) -> RefM<T> {
    RefM::new(v.len(), v.len(), |i, j| if i == j { v[i].clone() } else { T::rzero() })
}

pub fn zipv<T: Elem>(a: &[T], b: &[T], f: impl Fn(&T, &T) -> T) -> Vec<T> {
    a.iter().zip(b).map(|(x, y)| f(x, y)).collect()
}

/// The expression has these entries, before and after evaluation.
pub fn same_vec<T: Elem, E: VectorExpr<Entry = T>>(label: &str, e: E, want: &[T]) {
    check(&format!("{label}: len"), e.len() == want.len());
    check(&format!("{label}: is_empty"), e.is_empty() == want.is_empty());
    for (i, w) in want.iter().enumerate() {
        prove(&format!("{label}: entry {i}"), e.entry(i).eqs(w));
    }
    same_dvec(&format!("{label}: eval"), &e.eval(), want);
}

pub fn same_dvec<T: Elem>(label: &str, v: &DVector<T>, want: &[T]) {
    check(&format!("{label}: len"), v.len() == want.len());
    check(&format!("{label}: is_empty"), v.is_empty() == want.is_empty());
    for (i, w) in want.iter().enumerate() {
        prove(&format!("{label}: [{i}]"), v[i].eqs(w));
        prove(&format!("{label}: stored entry {i}"), v.entry(i).eqs(w));
        prove(&format!("{label}: stored entry {i} by reference"), VectorExpr::entry(&v, i).eqs(w));
    }
}

pub fn same_mat<T: Elem, E: MatrixExpr<Entry = T>>(label: &str, e: E, want: &RefM<T>) {
    check(&format!("{label}: num_rows"), e.num_rows() == want.m);
    check(&format!("{label}: num_cols"), e.num_cols() == want.n);
    for i in 0..want.m {
        for j in 0..want.n {
            prove(&format!("{label}: entry {i},{j}"), e.entry(i, j).eqs(&want.a[i][j]));
        }
    }
    same_dmat(&format!("{label}: eval"), &e.eval(), want);
}

pub fn same_dmat<T: Elem>(label: &str, x: &DMatrix<T>, want: &RefM<T>) {
    check(&format!("{label}: num_rows"), x.num_rows() == want.m && (&x).num_rows() == want.m);
    check(&format!("{label}: num_cols"), x.num_cols() == want.n && (&x).num_cols() == want.n);
    for i in 0..want.m {
        for j in 0..want.n {
            let w = &want.a[i][j];
            prove(&format!("{label}: [{i},{j}]"), x[[i, j]].eqs(w));
            prove(&format!("{label}: stored entry {i},{j}"), x.entry(i, j).eqs(w));
            prove(&format!("{label}: stored entry {i},{j} by reference"), MatrixExpr::entry(&x, i, j).eqs(w));
        }
    }
}

// ---- boxed expressions ------------------------------------------------------------------------

trait DynV<T> {
    fn dyn_entry(&self, i: usize) -> T;
    fn dyn_len(&self) -> usize;
    fn dyn_is_empty(&self) -> bool;
    fn dyn_eval(self: Box<Self>) -> DVector<T>;
}
impl<T, E: VectorExpr<Entry = T>> DynV<T> for E {
    fn dyn_entry(&self, i: usize) -> T {
        VectorExpr::entry(self, i)
    }
    fn dyn_len(&self) -> usize {
        VectorExpr::len(self)
    }
    fn dyn_is_empty(&self) -> bool {
        VectorExpr::is_empty(self)
    }
    fn dyn_eval(self: Box<Self>) -> DVector<T> {
        VectorExpr::eval(*self)
    }
}
/// Some vector expression of the library; all calls go to it.
pub struct BoxV<T>(Box<dyn DynV<T>>);
impl<T> BoxV<T> {
    pub fn new(e: impl VectorExpr<Entry = T> + 'static) -> Self {
        BoxV(Box::new(e))
    }
}
impl<T> VectorExpr for BoxV<T> {
    type Entry = T;
    fn entry(&self, i: usize) -> T {
        self.0.dyn_entry(i)
    }
    fn len(&self) -> usize {
        self.0.dyn_len()
    }
    fn is_empty(&self) -> bool {
        self.0.dyn_is_empty()
    }
    fn eval(self) -> DVector<T> {
        self.0.dyn_eval()
    }
}

trait DynM<T> {
    fn dyn_entry(&self, i: usize, j: usize) -> T;
    fn dyn_num_rows(&self) -> usize;
    fn dyn_num_cols(&self) -> usize;
    fn dyn_eval(self: Box<Self>) -> DMatrix<T>;
}
impl<T, E: MatrixExpr<Entry = T>> DynM<T> for E {
    fn dyn_entry(&self, i: usize, j: usize) -> T {
        MatrixExpr::entry(self, i, j)
    }
    fn dyn_num_rows(&self) -> usize {
        MatrixExpr::num_rows(self)
    }
    fn dyn_num_cols(&self) -> usize {
        MatrixExpr::num_cols(self)
    }
    fn dyn_eval(self: Box<Self>) -> DMatrix<T> {
        MatrixExpr::eval(*self)
    }
}
/// Some matrix expression of the library; all calls go to it.
pub struct BoxM<T>(Box<dyn DynM<T>>);
impl<T> BoxM<T> {
    pub fn new(e: impl MatrixExpr<Entry = T> + 'static) -> Self {
        BoxM(Box::new(e))
    }
}
impl<T> MatrixExpr for BoxM<T> {
    type Entry = T;
    fn entry(&self, i: usize, j: usize) -> T {
        self.0.dyn_entry(i, j)
    }
    fn num_rows(&self) -> usize {
        self.0.dyn_num_rows()
    }
    fn num_cols(&self) -> usize {
        self.0.dyn_num_cols()
    }
    fn eval(self) -> DMatrix<T> {
        self.0.dyn_eval()
    }
}

/// An expression together with what it must evaluate to.
pub enum Prog<T> {
    V(BoxV<T>, Vec<T>),
    M(BoxM<T>, RefM<T>),
}

pub struct Gen {
    fresh: usize,
    pub trace: Vec<&'static str>,
}

impl Gen {
    pub fn new() -> Gen {
        Gen { fresh: 0, trace: vec![] }
    }
    fn name(&mut self) -> String {
        self.fresh += 1;
        format!("e{}_", self.fresh)
    }

    pub fn leaf_v<T: Num>(&mut self, n: usize, kind: usize) -> (BoxV<T>, Vec<T>) {
        let name = self.name();
        let a = anys::<T>(&name, n);
        let b = a.clone();
        let c = T::any(&format!("{name}c"));
        match kind {
            0 => {
                self.trace.push("stored vector");
                let s: &[T] = &a;
                (BoxV::new(s.eval()), a)
            }
            1 => {
                self.trace.push("make_vector_expr");
                (BoxV::new(make_vector_expr(n, move |i| b[i].clone())), a)
            }
            2 => {
                self.trace.push("same");
                (BoxV::new(DVector::same(n, c.clone())), vec![c; n])
            }
            3 => {
                self.trace.push("ones");
                (BoxV::new(DVector::<T>::ones(n)), vec![T::rone(); n])
            }
            _ => {
                self.trace.push("zeros");
                (BoxV::new(DVector::<T>::zeros(n)), vec![T::rzero(); n])
            }
        }
    }

    pub fn leaf_m<T: Num>(&mut self, m: usize, n: usize, kind: usize) -> (BoxM<T>, RefM<T>) {
        let name = self.name();
        let r = RefM::<T>::any(&name, m, n);
        let b = r.a.clone();
        let c = T::any(&format!("{name}c"));
        match kind {
            0 => {
                self.trace.push("stored matrix");
                (BoxM::new(r.stored()), r)
            }
            1 => {
                self.trace.push("make_matrix_expr");
                (BoxM::new(make_matrix_expr(m, n, move |i, j| b[i][j].clone())), r)
            }
            2 => {
                self.trace.push("same");
                (BoxM::new(DMatrix::same(m, n, c.clone())), RefM::new(m, n, |_, _| c.clone()))
            }
            3 => {
                self.trace.push("ones");
                (BoxM::new(DMatrix::<T>::ones(m, n)), RefM::new(m, n, |_, _| T::rone()))
            }
            4 if m == n => {
                self.trace.push("eye");
                (BoxM::new(DMatrix::<T>::eye(m)), RefM::new(m, n, |i, j| if i == j { T::rone() } else { T::rzero() }))
            }
            _ => {
                self.trace.push("zeros");
                (BoxM::new(DMatrix::<T>::zeros(m, n)), RefM::new(m, n, |_, _| T::rzero()))
            }
        }
    }

    /// Applies one combinator, chosen by the explorer.
    pub fn step<T: Num>(&mut self, p: Prog<T>) -> Prog<T> {
        let k = T::any(&format!("k{}", self.fresh));
        match p {
            Prog::V(e, a) => {
                let n = a.len();
                let op = choose(11);
                let kind = op % 2;
                match op {
                    0 => {
                        self.trace.push("map");
                        let w = a.iter().map(|x| x.rmul(&k)).collect();
                        Prog::V(BoxV::new(e.wrap().map(move |x| x * k.clone())), w)
                    }
                    1 => {
                        self.trace.push("conj");
                        let w = a.iter().map(|x| x.rconj()).collect();
                        Prog::V(BoxV::new(e.wrap().conj()), w)
                    }
                    2 => {
                        self.trace.push("diag");
                        Prog::M(BoxM::new(e.wrap().diag()), diagonal(&a))
                    }
                    3 => {
                        self.trace.push("eval");
                        Prog::V(BoxV::new(e.eval()), a)
                    }
                    4 => {
                        self.trace.push("zip");
                        let (f, b) = self.leaf_v::<T>(n, kind);
                        let w = zipv(&a, &b, |x, y| x.rsub(&y.rmul(&k)));
                        Prog::V(BoxV::new(e.wrap().zip(f).map(move |(x, y)| x - y * k.clone())), w)
                    }
                    5 | 6 => {
                        self.trace.push("+");
                        let (f, b) = self.leaf_v::<T>(n, kind);
                        let w = zipv(&a, &b, T::radd);
                        Prog::V(if op == 5 { BoxV::new(e.wrap() + f) } else { BoxV::new(f.wrap() + e) }, w)
                    }
                    7 | 8 => {
                        self.trace.push("-");
                        let (f, b) = self.leaf_v::<T>(n, kind);
                        if op == 7 {
                            Prog::V(BoxV::new(e.wrap() - f), zipv(&a, &b, T::rsub))
                        } else {
                            Prog::V(BoxV::new(f.wrap() - e), zipv(&b, &a, T::rsub))
                        }
                    }
                    _ => {
                        self.trace.push("mul_elemwise");
                        let (f, b) = self.leaf_v::<T>(n, kind);
                        if op == 9 {
                            Prog::V(BoxV::new(e.wrap().mul_elemwise(f)), zipv(&a, &b, T::rmul))
                        } else {
                            Prog::V(BoxV::new(f.wrap().mul_elemwise(e)), zipv(&b, &a, T::rmul))
                        }
                    }
                }
            }
            Prog::M(e, r) => {
                let (m, n) = (r.m, r.n);
                let op = choose(12);
                let kind = op % 2;
                match op {
                    0 => {
                        self.trace.push("map");
                        let w = r.map(|x| x.rmul(&k));
                        Prog::M(BoxM::new(e.wrap().map(move |x| x * k.clone())), w)
                    }
                    1 => {
                        self.trace.push("t");
                        Prog::M(BoxM::new(e.wrap().t()), r.t())
                    }
                    2 => {
                        self.trace.push("h");
                        Prog::M(BoxM::new(e.wrap().h()), r.t().map(|x| x.rconj()))
                    }
                    3 => {
                        self.trace.push("diag");
                        let w = r.diag();
                        Prog::V(BoxV::new(e.wrap().diag()), w)
                    }
                    4 => {
                        self.trace.push("eval");
                        Prog::M(BoxM::new(e.eval()), r)
                    }
                    5 => {
                        self.trace.push("zip");
                        let (f, b) = self.leaf_m::<T>(m, n, kind);
                        let w = r.zip(&b, |x, y| x.rsub(&y.rmul(&k)));
                        Prog::M(BoxM::new(e.wrap().zip(f).map(move |(x, y)| x - y * k.clone())), w)
                    }
                    6 | 7 => {
                        self.trace.push("+");
                        let (f, b) = self.leaf_m::<T>(m, n, kind);
                        let w = r.zip(&b, T::radd);
                        Prog::M(if op == 6 { BoxM::new(e.wrap() + f) } else { BoxM::new(f.wrap() + e) }, w)
                    }
                    8 | 9 => {
                        self.trace.push("-");
                        let (f, b) = self.leaf_m::<T>(m, n, kind);
                        if op == 8 {
                            Prog::M(BoxM::new(e.wrap() - f), r.zip(&b, T::rsub))
                        } else {
                            Prog::M(BoxM::new(f.wrap() - e), b.zip(&r, T::rsub))
                        }
                    }
                    _ => {
                        self.trace.push("mul_elemwise");
                        let (f, b) = self.leaf_m::<T>(m, n, kind);
                        if op == 10 {
                            Prog::M(BoxM::new(e.wrap().mul_elemwise(f)), r.zip(&b, T::rmul))
                        } else {
                            Prog::M(BoxM::new(f.wrap().mul_elemwise(e)), b.zip(&r, T::rmul))
                        }
                    }
                }
            }
        }
    }
}

impl Default for Gen {
    fn default() -> Self {
        Gen::new()
    }
}

pub fn finish<T: Num>(g: Gen, p: Prog<T>) {
    let label = g.trace.join(", ");
    match p {
        Prog::V(e, w) => same_vec(&label, e, &w),
        Prog::M(e, w) => same_mat(&label, e, &w),
    }
}

/// Like `finish`, or adds the expression to a stored vector or matrix, or subtracts it, in place.
pub fn finish_any<T: Num + AddAssign + SubAssign>(mut g: Gen, p: Prog<T>) {
    let (k, at) = (choose(3), format!("t{}", g.fresh));
    if k == 0 {
        return finish(g, p);
    }
    g.trace.push(if k == 1 { "added in place" } else { "subtracted in place" });
    let label = g.trace.join(", ");
    let op = if k == 1 { T::radd } else { T::rsub };
    match p {
        Prog::V(e, w) => {
            let a = anys::<T>(&at, w.len());
            let mut r = a.as_slice().eval();
            if k == 1 {
                r += e;
            } else {
                r -= e;
            }
            same_dvec(&label, &r, &zipv(&a, &w, op));
        }
        Prog::M(e, w) => {
            let a = RefM::<T>::any(&at, w.m, w.n);
            let mut r = a.stored();
            if k == 1 {
                r += e;
            } else {
                r -= e;
            }
            same_dmat(&label, &r, &a.zip(&w, op));
        }
    }
}
