//! P26: expressions compute nothing that is not asked for, and nothing twice.
use crate::{claim, elem::*, harnesses};
use magnesia::linalg::*;
use std::cell::Cell;

/// What was asked of an operand.
#[derive(Default)]
struct Log {
    /// entries
    total: Cell<u32>,
    /// the last one
    last: Cell<(usize, usize)>,
    /// how often this one
    watch: Cell<(usize, usize)>,
    hits: Cell<u32>,
    /// entries outside the shape
    outside: Cell<u32>,
}
impl Log {
    fn watching(r: usize, c: usize) -> Log {
        let l = Log::default();
        l.watch.set((r, c));
        l
    }
    fn ask(&self, at: (usize, usize), inside: bool) {
        self.total.set(self.total.get() + 1);
        self.last.set(at);
        if at == self.watch.get() {
            self.hits.set(self.hits.get() + 1);
        }
        if !inside {
            self.outside.set(self.outside.get() + 1);
        }
    }
    fn untouched(&self) -> bool {
        self.total.get() == 0
    }
    fn only(&self, r: usize, c: usize) -> bool {
        self.total.get() == 1 && self.last.get() == (r, c)
    }
    /// all `n` entries, each once
    fn each_once(&self, n: u32) -> bool {
        self.total.get() == n && self.hits.get() == 1 && self.outside.get() == 0
    }
}

struct V<'a>(usize, u64, &'a Log);
impl<'a> VectorExpr for V<'a> {
    type Entry = E;
    fn entry(&self, i: usize) -> E {
        self.2.ask((i, 0), i < self.0);
        at(self.1, i)
    }
    fn len(&self) -> usize {
        self.0
    }
}
struct M<'a>(usize, usize, u64, &'a Log);
impl<'a> MatrixExpr for M<'a> {
    type Entry = E;
    fn entry(&self, r: usize, c: usize) -> E {
        self.3.ask((r, c), r < self.0 && c < self.1);
        at2(self.2, r, c)
    }
    fn num_rows(&self) -> usize {
        self.0
    }
    fn num_cols(&self) -> usize {
        self.1
    }
}

/// A lazy vector over operands `$l`: nothing is asked before an entry is, then one entry of each.
macro_rules! lazy_v {
    ($e:expr, $i:expr, $($l:ident)*, $text:literal) => {{
        let e = $e;
        let (len, empty) = (e.len(), e.is_empty());
        claim!($($l.untouched())&&* && !empty && len > $i, "building ", $text, " computes nothing");
        let _ = e.entry($i);
        claim!($($l.only($i, 0))&&*, "an entry of ", $text, " computes one entry of each operand");
    }};
}
macro_rules! lazy_m {
    ($e:expr, $r:expr, $c:expr, $($l:ident $lr:expr, $lc:expr);*, $text:literal) => {{
        let e = $e;
        let (m, n) = (e.num_rows(), e.num_cols());
        claim!($($l.untouched())&&* && m > $r && n > $c, "building ", $text, " computes nothing");
        let _ = e.entry($r, $c);
        claim!($($l.only($lr, $lc))&&*, "an entry of ", $text, " computes one entry of each operand");
    }};
}

fn eval_v<const N: usize>(s: &mut impl crate::Src) {
    let (a, j) = (s.u64(), s.usize());
    s.assume(j < N);
    let l = Log::watching(j, 0);
    let v = V(N, a, &l).eval();
    claim!(l.each_once(N as u32), "eval computes every entry once");
    let l = Log::watching(j, 0);
    let _ = V(N, a, &l).wrap().eval();
    claim!(l.each_once(N as u32), "eval of a wrapped expression computes every entry once");
    let l = Log::watching(j, 0);
    let _ = make_vector_expr(N, |i| l.ask((i, 0), i < N)).eval();
    claim!(l.each_once(N as u32), "eval calls the function of make_vector_expr once per entry");
    let (l, k) = (Log::watching(j, 0), Log::watching(j, 0));
    let _ = (V(N, a, &l).wrap() + V(N, a, &k)).eval();
    claim!(l.each_once(N as u32) && k.each_once(N as u32), "eval of a sum computes every entry of both operands once");
    let (l, k) = (Log::watching(j, 0), Log::watching(j, 0));
    let mut v = v;
    v += V(N, a, &l);
    v -= V(N, a, &k);
    claim!(l.each_once(N as u32) && k.each_once(N as u32), "+= and -= compute every entry of their operand once");
}
fn eval_m<const R: usize, const C: usize>(s: &mut impl crate::Src) {
    let (a, r, c) = (s.u64(), s.usize(), s.usize());
    s.assume(r < R && c < C);
    let n = (R * C) as u32;
    let l = Log::watching(r, c);
    let x = M(R, C, a, &l).eval();
    claim!(l.each_once(n), "eval computes every entry once");
    let l = Log::watching(r, c);
    let _ = M(R, C, a, &l).wrap().t().eval();
    claim!(l.each_once(n), "eval of a transpose computes every entry once");
    let l = Log::watching(r, c);
    let _ = make_matrix_expr(R, C, |i, j| l.ask((i, j), i < R && j < C)).eval();
    claim!(l.each_once(n), "eval calls the function of make_matrix_expr once per entry");
    let (l, k) = (Log::watching(r, c), Log::watching(r, c));
    let _ = (M(R, C, a, &l).wrap() + M(R, C, a, &k)).eval();
    claim!(l.each_once(n) && k.each_once(n), "eval of a sum computes every entry of both operands once");
    let (l, k) = (Log::watching(r, c), Log::watching(r, c));
    let mut x = x;
    x += M(R, C, a, &l);
    x -= M(R, C, a, &k);
    claim!(l.each_once(n) && k.each_once(n), "+= and -= compute every entry of their operand once");
}

fn index(s: &mut impl crate::Src) -> (usize, usize, u64) {
    let (n, i, a) = (s.usize(), s.usize(), s.u64());
    s.assume(i < n);
    (n, i, a)
}
fn index2(s: &mut impl crate::Src) -> (usize, usize, usize, usize, u64) {
    let (m, n, r, c, a) = (s.usize(), s.usize(), s.usize(), s.usize(), s.u64());
    s.assume(r < m && c < n);
    (m, n, r, c, a)
}

harnesses! {
    holds vectors_of_one 2 |s| {
        let (n, i, a) = index(s);
        let l = Log::default();
        lazy_v!(V(n, a, &l).wrap(), i, l, "a wrapped expression");
        let l = Log::default();
        lazy_v!(make_vector_expr(n, |i| l.ask((i, 0), i < n)), i, l, "make_vector_expr");
        let (l, f) = (Log::default(), Log::default());
        let e = V(n, a, &l).wrap().map(|x| f.ask((x.0 as usize, 0), true));
        claim!(e.len() == n && l.untouched() && f.untouched(), "building a map computes nothing");
        e.entry(i);
        claim!(l.only(i, 0) && f.only(at(a, i).0 as usize, 0), "an entry of a map calls the function once");
        let l = Log::default();
        lazy_v!(V(n, a, &l).wrap().conj(), i, l, "a conjugate");
    }
    holds vectors_of_two 2 |s| {
        let (n, i, a) = index(s);
        let b = s.u64();
        let (l, k) = (Log::default(), Log::default());
        lazy_v!(V(n, a, &l).wrap().zip(V(n, b, &k)), i, l k, "a zip");
        let (l, k) = (Log::default(), Log::default());
        lazy_v!(V(n, a, &l).wrap() + V(n, b, &k), i, l k, "a sum");
        let (l, k) = (Log::default(), Log::default());
        lazy_v!(V(n, a, &l).wrap() - V(n, b, &k), i, l k, "a difference");
        let (l, k) = (Log::default(), Log::default());
        lazy_v!(V(n, a, &l).wrap().mul_elemwise(V(n, b, &k)), i, l k, "an element-wise product");
        let (l, k) = (Log::default(), Log::default());
        lazy_v!(V(n, a, &l).wrap().div_elemwise(V(n, b, &k)), i, l k, "an element-wise quotient");
        let (l, k, m) = (Log::default(), Log::default(), Log::default());
        lazy_v!((V(n, a, &l).wrap() + V(n, b, &k).wrap().conj()).mul_elemwise(V(n, b, &m).wrap().map(|x| x + x)), i, l k m, "a composition");
    }
    holds stored_vector 6 |s| {
        let (i, a) = (s.usize(), s.u64());
        s.assume(i < 3);
        let v = VectorExpr::eval(&[E(a), E(a ^ 1), E(a ^ 2)][..]);
        let l = Log::default();
        lazy_v!(&v + V(3, a, &l), i, l, "stored vector + expression");
        let l = Log::default();
        lazy_v!(&v - V(3, a, &l), i, l, "stored vector - expression");
        let l = Log::default();
        lazy_v!(v.mul_elemwise(V(3, a, &l)), i, l, "mul_elemwise of a stored vector");
        let l = Log::default();
        lazy_v!(v.div_elemwise(V(3, a, &l)), i, l, "div_elemwise of a stored vector");
    }
    holds diagonals 2 |s| {
        let (m, n, r, c, a) = index2(s);
        let l = Log::default();
        let e = V(n, a, &l).wrap().diag();
        claim!(e.num_rows() == n && e.num_cols() == n && l.untouched(), "building a diagonal matrix computes nothing");
        if r < n {
            let _ = e.entry(r, c);
            claim!(if r == c { l.only(c, 0) } else { l.untouched() }, "an entry of a diagonal matrix computes that entry of the vector, on the diagonal only");
        }
        let l = Log::default();
        let d = M(m, n, a, &l).wrap().diag();
        claim!(d.len() == m.min(n) && l.untouched(), "taking a diagonal computes nothing");
        if r < n {
            let _ = d.entry(r);
            claim!(l.only(r, r), "an entry of a diagonal computes that entry of the matrix");
        }
    }
    holds matrices_of_one 2 |s| {
        let (m, n, r, c, a) = index2(s);
        let l = Log::default();
        lazy_m!(M(m, n, a, &l).wrap(), r, c, l r, c, "a wrapped expression");
        let l = Log::default();
        lazy_m!(make_matrix_expr(m, n, |i, j| l.ask((i, j), i < m && j < n)), r, c, l r, c, "make_matrix_expr");
        let (l, f) = (Log::default(), Log::default());
        let e = M(m, n, a, &l).wrap().map(|x| f.ask((x.0 as usize, 0), true));
        claim!(e.num_rows() == m && e.num_cols() == n && l.untouched() && f.untouched(), "building a map computes nothing");
        e.entry(r, c);
        claim!(l.only(r, c) && f.only(at2(a, r, c).0 as usize, 0), "an entry of a map calls the function once");
        let l = Log::default();
        lazy_m!(M(m, n, a, &l).wrap().t(), c, r, l r, c, "a transpose");
        let l = Log::default();
        lazy_m!(M(m, n, a, &l).wrap().h(), c, r, l r, c, "a conjugate transpose");
    }
    holds matrices_of_two 2 |s| {
        let (m, n, r, c, a) = index2(s);
        let b = s.u64();
        let (l, k) = (Log::default(), Log::default());
        lazy_m!(M(m, n, a, &l).wrap().zip(M(m, n, b, &k)), r, c, l r, c; k r, c, "a zip");
        let (l, k) = (Log::default(), Log::default());
        lazy_m!(M(m, n, a, &l).wrap() + M(m, n, b, &k), r, c, l r, c; k r, c, "a sum");
        let (l, k) = (Log::default(), Log::default());
        lazy_m!(M(m, n, a, &l).wrap() - M(m, n, b, &k), r, c, l r, c; k r, c, "a difference");
        let (l, k) = (Log::default(), Log::default());
        lazy_m!(M(m, n, a, &l).wrap().mul_elemwise(M(m, n, b, &k)), r, c, l r, c; k r, c, "an element-wise product");
        let (l, k) = (Log::default(), Log::default());
        lazy_m!(M(m, n, a, &l).wrap().div_elemwise(M(m, n, b, &k)), r, c, l r, c; k r, c, "an element-wise quotient");
        let (l, k, j) = (Log::default(), Log::default(), Log::default());
        lazy_m!((M(m, n, a, &l).wrap() + M(n, m, b, &k).wrap().t()).mul_elemwise(M(n, m, b, &j).wrap().h()), r, c, l r, c; k c, r; j c, r, "a composition");
    }
    holds stored_matrix 8 |s| {
        let (r, c, a) = (s.usize(), s.usize(), s.u64());
        s.assume(r < 2 && c < 3);
        let x = [[E(a), E(a ^ 1), E(a ^ 2)], [E(a ^ 3), E(a ^ 4), E(a ^ 5)]].eval();
        let l = Log::default();
        lazy_m!(&x + M(2, 3, a, &l), r, c, l r, c, "stored matrix + expression");
        let l = Log::default();
        lazy_m!(&x - M(2, 3, a, &l), r, c, l r, c, "stored matrix - expression");
        let l = Log::default();
        lazy_m!(x.mul_elemwise(M(2, 3, a, &l)), r, c, l r, c, "mul_elemwise of a stored matrix");
        let l = Log::default();
        lazy_m!(x.div_elemwise(M(2, 3, a, &l)), r, c, l r, c, "div_elemwise of a stored matrix");
    }
    holds eval_vector_1 3 |s| { eval_v::<1>(s) }
    holds eval_vector_4 6 |s| { eval_v::<4>(s) }
    holds deep_eval_vector_9 11 |s| { eval_v::<9>(s) }
    holds eval_matrix_2_3 8 |s| { eval_m::<2, 3>(s) }
    holds eval_matrix_3_1 5 |s| { eval_m::<3, 1>(s) }
    holds deep_eval_matrix_3_4 14 |s| { eval_m::<3, 4>(s) }
}
