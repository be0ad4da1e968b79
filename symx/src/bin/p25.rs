//! P25: no overflow that the result does not demand.
use magnesia::algebra::{Complex, Conj, Polynomial};
use magnesia::linalg::{make_matrix_expr, make_vector_expr, DMatrix, DVector, MatrixExpr, SMatrix, SVector, VectorExpr};
use symx::bounded::*;
use symx::*;

type Rows = Vec<Vec<Bd>>;

fn start() {
    no_room();
    range();
}
fn list(name: &str, n: usize) -> Vec<Bd> {
    (0..n).map(|i| Bd::any(&format!("{name}{i}"))).collect()
}
fn table(name: &str, m: usize, n: usize) -> Rows {
    (0..m).map(|i| (0..n).map(|j| Bd::any(&format!("{name}{i}_{j}"))).collect()).collect()
}
/// The results fit: only inputs with that property are of interest.
fn fit(l: impl IntoIterator<Item = Sym>) {
    for v in l {
        assume(inside(v));
    }
}
fn pairs<'a>(a: &'a [Bd], b: &'a [Bd], f: impl Fn(Sym, Sym) -> Sym + 'a) -> impl Iterator<Item = Sym> + 'a {
    a.iter().zip(b).map(move |(x, y)| f(x.v, y.v))
}
/// Room for this much, four times over.
fn room_for(m: Sym) {
    room(int(4) * m);
}
fn sum(l: impl IntoIterator<Item = Sym>) -> Sym {
    l.into_iter().fold(int(0), |a, b| a + b)
}
/// sum_k |a_k| |b_k| + |a_k| + |b_k|
fn dot_size(a: &[Bd], b: &[Bd]) -> Sym {
    sum(a.iter().zip(b).map(|(x, y)| x.m * y.m + x.m + y.m))
}

fn complex(op: usize) {
    start();
    let l = list("c", 4);
    let (a, b, c, d) = (l[0], l[1], l[2], l[3]);
    let (z, w) = (Complex::new(a, b), Complex::new(c, d));
    match op {
        0 => {
            fit([a.v + c.v, b.v + d.v]);
            let _ = z + w;
            let mut r = z;
            r += w;
            let mut r = z;
            r += &w;
        }
        1 => {
            fit([a.v - c.v, b.v - d.v]);
            let _ = z - w;
            let mut r = z;
            r -= w;
            let mut r = z;
            r -= &w;
        }
        2 => {
            fit([-a.v, -b.v]);
            let _ = -z;
        }
        3 => {
            fit([-b.v]);
            let _ = Conj::conj(z);
        }
        4 => {
            fit([a.v * c.v, b.v * c.v]);
            let _ = z * c;
        }
        5 => {
            assume(c.v.non0());
            fit([a.v / c.v, b.v / c.v]);
            let _ = z / c;
            let _ = z / &c;
            let _ = &z / &c;
        }
        6 => {
            let all = [a, b, c, d];
            room_for((a.m + b.m) * (c.m + d.m) + sum(all.map(|x| x.m)));
            let _ = z * w;
            let _ = &z * &w;
            let mut r = z;
            r *= w;
        }
        _ => {
            room_for((a.m + b.m) * (a.m + b.m) + a.m + b.m);
            let _ = z.sqr_norm();
            let _ = z * z;
        }
    }
    no_room();
}

fn sv<const N: usize>(op: usize) {
    start();
    let (a, b) = (list("a", N), list("b", N));
    let (x, y) = (SVector::<Bd, N>(std::array::from_fn(|i| a[i])), SVector::<Bd, N>(std::array::from_fn(|i| b[i])));
    match op {
        0 => {
            fit(pairs(&a, &b, |p, q| p + q));
            let _ = x + y;
            let _ = x + &y;
            let mut r = x;
            r += y;
            let mut r = x;
            r += &y;
        }
        1 => {
            fit(pairs(&a, &b, |p, q| p - q));
            let _ = x - y;
            let _ = x - &y;
            let mut r = x;
            r -= y;
            let mut r = x;
            r -= &y;
        }
        2 => {
            let t = Bd::any("t");
            fit(a.iter().map(|p| p.v * t.v));
            let _ = x * t;
            let _ = x * &t;
            let mut r = x;
            r *= t;
            let mut r = x;
            r *= &t;
        }
        _ => {
            room_for(dot_size(&a, &b));
            let _ = x * y;
            let _ = x * &y;
        }
    }
    no_room();
}

fn sm<const M: usize, const N: usize>(op: usize) {
    start();
    let (a, b) = (table("a", M, N), table("b", M, N));
    let (ac, bc) = (a.concat(), b.concat());
    let m = |c: &Rows| SMatrix::<Bd, M, N>::from(std::array::from_fn(|i| std::array::from_fn(|j| c[i][j])));
    let (x, y) = (m(&a), m(&b));
    match op {
        0 => {
            fit(pairs(&ac, &bc, |p, q| p + q));
            let _ = x + y;
            let mut r = x;
            r += y;
            let mut r = x;
            r += &y;
        }
        1 => {
            fit(pairs(&ac, &bc, |p, q| p - q));
            let _ = x - y;
            let mut r = x;
            r -= y;
            let mut r = x;
            r -= &y;
        }
        2 => {
            fit(ac.iter().map(|p| -p.v));
            let _ = -x;
        }
        3 => {
            let _ = Conj::conj(x);
        }
        _ => {
            let v = list("v", N);
            room_for(sum(a.iter().map(|r| dot_size(r, &v))));
            let w = SVector::<Bd, N>(std::array::from_fn(|i| v[i]));
            let _ = &x * &w;
        }
    }
    no_room();
}

fn sm_mul<const L: usize, const M: usize, const N: usize>() {
    start();
    let (a, b) = (table("a", L, M), table("b", M, N));
    let x = SMatrix::<Bd, L, M>::from(std::array::from_fn(|i| std::array::from_fn(|j| a[i][j])));
    let y = SMatrix::<Bd, M, N>::from(std::array::from_fn(|i| std::array::from_fn(|j| b[i][j])));
    room_for(product_size(&a, &b, N));
    let _ = x * y;
    let _ = &x * &y;
    no_room();
}
fn product_size(a: &Rows, b: &Rows, n: usize) -> Sym {
    sum((0..n).flat_map(|j| {
        let col: Vec<Bd> = b.iter().map(|r| r[j]).collect();
        a.iter().map(move |r| dot_size(r, &col)).collect::<Vec<_>>()
    }))
}

fn lazy_v(a: &[Bd]) -> impl VectorExpr<Entry = Bd> {
    let a = a.to_vec();
    make_vector_expr(a.len(), move |i| a[i])
}
fn dv(n: usize, op: usize) {
    start();
    let (a, b) = (list("a", n), list("b", n));
    let (u, v): (DVector<Bd>, DVector<Bd>) = (a.as_slice().eval(), b.as_slice().eval());
    match op {
        0 => {
            fit(pairs(&a, &b, |p, q| p + q));
            (&u + &v).eval();
            (lazy_v(&a).wrap() + lazy_v(&b)).eval();
            let mut r = u.clone();
            r += &v;
            let mut r = u.clone();
            r += lazy_v(&b);
        }
        1 => {
            fit(pairs(&a, &b, |p, q| p - q));
            (&u - &v).eval();
            (lazy_v(&a).wrap() - lazy_v(&b)).eval();
            let mut r = u.clone();
            r -= &v;
            let mut r = u.clone();
            r -= lazy_v(&b);
        }
        2 => {
            fit(pairs(&a, &b, |p, q| p * q));
            u.mul_elemwise(&v).eval();
            lazy_v(&a).wrap().mul_elemwise(lazy_v(&b)).eval();
        }
        3 => {
            for x in &b {
                assume(x.v.non0());
            }
            fit(pairs(&a, &b, |p, q| p / q));
            u.div_elemwise(&v).eval();
            lazy_v(&a).wrap().div_elemwise(lazy_v(&b)).eval();
        }
        4 => {
            u.conj().eval();
            u.diag().eval();
            DVector::<Bd>::zeros(n).eval();
            DVector::<Bd>::ones(n).eval();
            DVector::same(n, Bd::any("t")).eval();
        }
        _ => {
            room_for(dot_size(&a, &b));
            let _ = &u * &v;
            let _ = u * v;
        }
    }
    no_room();
}

fn lazy_m(a: &Rows, n: usize) -> impl MatrixExpr<Entry = Bd> {
    let a = a.clone();
    make_matrix_expr(a.len(), n, move |i, j| a[i][j])
}
fn dm(m: usize, n: usize, op: usize) {
    start();
    let (a, b) = (table("a", m, n), table("b", m, n));
    let (ac, bc) = (a.concat(), b.concat());
    let (x, y): (DMatrix<Bd>, DMatrix<Bd>) = (lazy_m(&a, n).eval(), lazy_m(&b, n).eval());
    match op {
        0 => {
            fit(pairs(&ac, &bc, |p, q| p + q));
            (&x + &y).eval();
            (lazy_m(&a, n).wrap() + lazy_m(&b, n)).eval();
            let mut r = x.clone();
            r += &y;
            let mut r = x.clone();
            r += lazy_m(&b, n);
        }
        1 => {
            fit(pairs(&ac, &bc, |p, q| p - q));
            (&x - &y).eval();
            (lazy_m(&a, n).wrap() - lazy_m(&b, n)).eval();
            let mut r = x.clone();
            r -= &y;
            let mut r = x.clone();
            r -= lazy_m(&b, n);
        }
        2 => {
            fit(pairs(&ac, &bc, |p, q| p * q));
            x.mul_elemwise(&y).eval();
            lazy_m(&a, n).wrap().mul_elemwise(lazy_m(&b, n)).eval();
        }
        3 => {
            for x in &bc {
                assume(x.v.non0());
            }
            fit(pairs(&ac, &bc, |p, q| p / q));
            x.div_elemwise(&y).eval();
            lazy_m(&a, n).wrap().div_elemwise(lazy_m(&b, n)).eval();
        }
        _ => {
            x.t().eval();
            x.h().eval();
            x.diag().eval();
            lazy_m(&a, n).wrap().t().eval();
            lazy_m(&a, n).wrap().h().eval();
            lazy_m(&a, n).wrap().diag().eval();
            DMatrix::<Bd>::zeros(m, n).eval();
            DMatrix::<Bd>::ones(m, n).eval();
            DMatrix::<Bd>::eye(m).eval();
            DMatrix::same(m, n, Bd::any("t")).eval();
        }
    }
    no_room();
}

fn dm_mul(l: usize, m: usize, n: usize) {
    start();
    let (a, b) = (table("a", l, m), table("b", m, n));
    let (x, y) = (lazy_m(&a, m).eval(), lazy_m(&b, n).eval());
    room_for(product_size(&a, &b, n));
    (&x * &y).eval();
    no_room();
}

fn poly_of(a: &[Bd]) -> Polynomial<Bd> {
    Polynomial::from_coefficients(a.to_vec())
}
fn polynomials(m: usize, n: usize, op: usize) {
    start();
    let (a, b) = (list("a", m), list("b", n));
    let (p, q) = (poly_of(&a), poly_of(&b));
    let at = |c: &[Bd], i: usize| c.get(i).map_or(int(0), |x| x.v);
    match op {
        0 => {
            fit((0..m.max(n)).map(|i| at(&a, i) + at(&b, i)));
            let _ = p.clone() + q.clone();
            let mut r = p.clone();
            r += &q;
            let mut r = p.clone();
            r += q.clone();
        }
        1 => {
            fit((0..m.max(n)).map(|i| at(&a, i) - at(&b, i)));
            let _ = p.clone() - q.clone();
            let mut r = p.clone();
            r -= &q;
            let mut r = p.clone();
            r -= q.clone();
        }
        2 => {
            fit(a.iter().map(|x| -x.v));
            let _ = -p.clone();
        }
        3 => {
            let s = |c: &[Bd]| sum(c.iter().map(|x| x.m));
            room_for(s(&a) * s(&b) + s(&a) + s(&b));
            let _ = p.clone() * q.clone();
            let _ = &p * &q;
            let mut r = p.clone();
            r *= q.clone();
        }
        _ => {
            // |x| + |x|^2 + ... + |x|^(m+1) on top, for schemes that go by powers
            let x = Bd::any("x");
            let mut pow = int(1);
            let mut s = int(1);
            for c in &a {
                s = s + c.m * (int(1) + x.m) * pow;
                pow = pow * (int(1) + x.m);
                s = s + pow;
            }
            s = s + pow * (int(1) + x.m);
            room_for(s);
            p.eval_ref(&x);
            p.eval(x);
        }
    }
    no_room();
}

fn main() {
    symx::main("P25", |t| {
        let mut v = vec![];
        for op in 0..8 {
            v.push(case(format!("complex numbers, operation {op}"), move || complex(op)));
        }
        macro_rules! svs {
            ($($n:literal)*) => { $( for op in 0..4 {
                v.push(case(format!("static vectors of dimension {}, operation {op}", $n), move || sv::<$n>(op)));
            } )* };
        }
        svs!(0 1 2 3 4 5 7 8 9 16 17 33 65);
        macro_rules! sms {
            ($($m:literal $n:literal),*) => { $( for op in 0..5 {
                v.push(case(format!("static matrices {}x{}, operation {op}", $m, $n), move || sm::<$m, $n>(op)));
            } )* };
        }
        sms!(1 1, 1 2, 2 1, 2 2, 2 3, 3 2, 3 3, 1 5, 5 1, 4 4, 4 6, 8 8, 9 3, 1 33);
        macro_rules! prods {
            ($($l:literal $m:literal $n:literal),*) => { $(
                v.push(case(format!("static product {}x{} * {}x{}", $l, $m, $m, $n), sm_mul::<$l, $m, $n>));
            )* };
        }
        prods!(1 1 1, 1 2 1, 2 1 2, 2 2 2, 2 3 4, 4 3 2, 3 3 3, 4 4 4, 1 8 1, 1 9 2);
        for n in (0..=t.pick(9, 17)).chain([16, 17, 33, 65, 129, 257]) {
            for op in (0..6).filter(|op| n < 33 || *op != 4) {
                v.push(case(format!("dynamic vectors of length {n}, operation {op}"), move || dv(n, op)));
            }
        }
        let k = t.pick(3, 5);
        let mut shapes: Vec<(usize, usize)> = (0..=k).flat_map(|m| (0..=k).map(move |n| (m, n))).collect();
        shapes.extend([(1, 8), (9, 1), (4, 6), (8, 8), (2, 17), (16, 16), (33, 3), (1, 129)]);
        for (m, n) in shapes {
            for op in 0..5 {
                v.push(case(format!("dynamic matrices {m}x{n}, operation {op}"), move || dm(m, n, op)));
            }
        }
        for l in 1..=t.pick(3, 4) {
            for m in 1..=t.pick(4, 6) {
                for n in 1..=t.pick(3, 4) {
                    v.push(case(format!("dynamic product {l}x{m} * {m}x{n}"), move || dm_mul(l, m, n)));
                }
            }
        }
        for (l, m, n) in [(1, 9, 1), (2, 8, 2), (1, 17, 1), (5, 5, 5), (2, 33, 1), (8, 8, 8)] {
            v.push(case(format!("dynamic product {l}x{m} * {m}x{n}"), move || dm_mul(l, m, n)));
        }
        let k = t.pick(6, 10);
        let mut pairs: Vec<(usize, usize)> = (0..=k).flat_map(|m| (0..=k).map(move |n| (m, n))).collect();
        pairs.extend([(16, 17), (17, 3), (3, 17), (33, 32), (0, 40), (40, 0)]);
        for (m, n) in pairs {
            for op in 0..2 {
                v.push(case(format!("polynomials of lengths {m},{n}, operation {op}"), move || polynomials(m, n, op)));
            }
            if m * n <= 64 {
                v.push(case(format!("polynomials of lengths {m},{n}, product"), move || polynomials(m, n, 3)));
            }
        }
        for m in 0..=t.pick(8, 20) {
            v.push(case(format!("negative of a polynomial of length {m}"), move || polynomials(m, 0, 2)));
        }
        for m in 0..=t.pick(6, 8) {
            v.push(case(format!("evaluation of a polynomial of length {m}"), move || polynomials(m, 0, 4)));
        }
        v
    })
}
