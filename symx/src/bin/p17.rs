//! P17: element access hits exactly the addressed element or panics (shapes beyond those of the
//! Kani harnesses; every inside index of each shape, entries symbolic).
use magnesia::linalg::{DMatrix, DVector, MatrixExpr, SVector, VectorExpr};
use symx::*;

fn read(v: &DVector<Sym>, i: usize, how: usize) -> Sym {
    match how {
        0 => v[i],
        1 => VectorExpr::entry(v, i),
        2 => VectorExpr::entry(&v, i),
        _ => v.wrap().entry(i),
    }
}

fn read2(m: &DMatrix<Sym>, r: usize, c: usize, how: usize) -> Sym {
    match how {
        0 => m[[r, c]],
        1 => MatrixExpr::entry(m, r, c),
        2 => MatrixExpr::entry(&m, r, c),
        _ => m.wrap().entry(r, c),
    }
}

/// Indices at or beyond `n`: next to it, at powers of two, at multiples of `n`, at the ends of the
/// machine word, and those whose product with `k` wraps around to something small.
fn beyond(n: usize, k: usize) -> Vec<usize> {
    let mut l = vec![n, n + 1, n + 2, n + 7, 2 * n, 2 * n + 1, n * k, n * k + 1, n * n, (n * k).wrapping_sub(1)];
    l.extend([7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 65535, 65536]);
    for s in [31, 32, 33, 62, 63] {
        let p = 1usize << s;
        l.extend([p - 1, p, p + 1, p + n - n.min(1)]);
    }
    for d in [1, k.max(1), n.max(1)] {
        let q = usize::MAX / d;
        l.extend([q - 1, q, q.saturating_add(1), usize::MAX - d, usize::MAX - d + 1, 0usize.wrapping_sub(d)]);
        if d.is_power_of_two() && d > 1 {
            let t = (usize::MAX / d).wrapping_add(1);
            l.extend([t, t + 1, t + n.saturating_sub(1), t.wrapping_mul(2)]);
        }
    }
    l.push(usize::MAX);
    l.retain(|i| *i >= n);
    l.sort();
    l.dedup();
    l
}

fn positions(total: usize, most: usize) -> Vec<usize> {
    if total <= most {
        return (0..total).collect();
    }
    let mut l: Vec<usize> = (0..most).map(|k| k * (total - 1) / (most - 1)).collect();
    for p in [7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256] {
        l.extend([p, p + 1].iter().filter(|i| **i < total));
    }
    l.sort();
    l.dedup();
    l
}

fn vector(n: usize, most: usize) {
    let mut now = anys::<Sym>("a", n);
    let mut v: DVector<Sym> = now.as_slice().eval();
    for (i, w) in now.iter().enumerate() {
        for how in 0..4 {
            prove(&format!("reading index {i} in way {how}"), read(&v, i, how).eqs(*w));
        }
    }
    for i in positions(n, most) {
        now[i] = Sym::any(&format!("w{i}"));
        v[i] = now[i];
        check("a write keeps the length", v.len() == n && (&v).len() == n);
        for (k, w) in now.iter().enumerate() {
            for how in 0..4 {
                prove(&format!("reading index {k} in way {how} after a write to index {i}"), read(&v, k, how).eqs(*w));
            }
        }
    }
    for i in beyond(n, 2) {
        for how in 0..4 {
            must_panic(&format!("reading index {i} in way {how}, length {n}"), || read(&v, i, how));
        }
        must_panic(&format!("writing index {i}, length {n}"), || v[i] = Sym::rone());
        check("a rejected write keeps the length", v.len() == n);
    }
    for (k, w) in now.iter().enumerate() {
        prove(&format!("reading index {k} after the rejected accesses"), v[k].eqs(*w));
    }
}

fn matrix(r: usize, c: usize, most: usize) {
    let a = RefM::<Sym>::any("a", r, c);
    let mut now = a.a.clone();
    let mut m = a.stored();
    let all = |label: &str, m: &DMatrix<Sym>, now: &Mat<Sym>| {
        check("shape", m.num_rows() == r && m.num_cols() == c && (&m).num_rows() == r && (&m).num_cols() == c);
        for k in 0..r {
            for l in 0..c {
                for how in 0..4 {
                    prove(&format!("reading [{k}, {l}] in way {how}{label}"), read2(m, k, l, how).eqs(now[k][l]));
                }
            }
        }
    };
    all("", &m, &now);
    for p in positions(r * c, most) {
        let (i, j) = (p / c, p % c);
        now[i][j] = Sym::any(&format!("w{i}_{j}"));
        m[[i, j]] = now[i][j];
        all(&format!(" after a write to [{i}, {j}]"), &m, &now);
    }
    let (rows, cols) = (beyond(r, c), beyond(c, r));
    let mut out = vec![];
    let inside = |n: usize| {
        let mut l = vec![0, 1, n / 2, n.wrapping_sub(2), n.wrapping_sub(1)];
        l.retain(|i| *i < n);
        l.dedup();
        l
    };
    for &i in &rows {
        out.extend(inside(c).into_iter().map(|j| (i, j)));
    }
    for &j in &cols {
        out.extend(inside(r).into_iter().map(|i| (i, j)));
    }
    // both indices outside, among them pairs whose flat position would wrap around into the data
    for &i in rows.iter().step_by(3) {
        out.extend(cols.iter().step_by(3).map(|&j| (i, j)));
        if c > 0 {
            let flat = i.wrapping_mul(c);
            for p in [0, 1, r * c / 2, (r * c).wrapping_sub(1)] {
                let j = p.wrapping_sub(flat);
                if p < r * c {
                    out.push((i, j));
                }
            }
        }
    }
    for (i, j) in out {
        for how in 0..4 {
            must_panic(&format!("reading [{i}, {j}] in way {how}, shape {r}x{c}"), || read2(&m, i, j, how));
        }
        must_panic(&format!("writing [{i}, {j}], shape {r}x{c}"), || m[[i, j]] = Sym::rone());
    }
    all(" after the rejected accesses", &m, &now);
}

fn static_vector<const N: usize>(most: usize) {
    let mut now = anys::<Sym>("a", N);
    let mut v = SVector::<Sym, N>(std::array::from_fn(|i| now[i]));
    let all = |v: &SVector<Sym, N>, now: &[Sym], label: &str| {
        for (k, w) in now.iter().enumerate() {
            prove(&format!("reading index {k}{label}"), v[k].eqs(*w));
        }
    };
    all(&v, &now, "");
    for i in positions(N, most) {
        now[i] = Sym::any(&format!("w{i}"));
        v[i] = now[i];
        all(&v, &now, &format!(" after a write to index {i}"));
    }
    for i in beyond(N, 2) {
        must_panic(&format!("reading index {i}, dimension {N}"), || v[i]);
        must_panic(&format!("writing index {i}, dimension {N}"), || v[i] = Sym::rone());
    }
    all(&v, &now, " after the rejected accesses");
}

/// Slices and expressions over stored vectors.
fn lazy_vector(n: usize) {
    let (a, b) = (anys::<Sym>("a", n), anys::<Sym>("b", n));
    let (u, v): (DVector<Sym>, DVector<Sym>) = (a.as_slice().eval(), b.as_slice().eval());
    for i in 0..n {
        prove(&format!("slice, index {i}"), VectorExpr::entry(&a.as_slice(), i).eqs(a[i]));
        prove(&format!("wrapped slice, index {i}"), a.as_slice().wrap().entry(i).eqs(a[i]));
    }
    for i in beyond(n, 2) {
        must_panic(&format!("slice, index {i}, length {n}"), || VectorExpr::entry(&a.as_slice(), i));
        must_panic(&format!("wrapped slice, index {i}, length {n}"), || a.as_slice().wrap().entry(i));
        must_panic(&format!("map, index {i}, length {n}"), || (&u).wrap().map(|x| x + x).entry(i));
        must_panic(&format!("zip, index {i}, length {n}"), || (&u).wrap().zip(&v).entry(i));
        must_panic(&format!("+, index {i}, length {n}"), || (&u + &v).entry(i));
        must_panic(&format!("-, index {i}, length {n}"), || (&u - &v).entry(i));
        must_panic(&format!("mul_elemwise, index {i}, length {n}"), || u.mul_elemwise(&v).entry(i));
        must_panic(&format!("conj, index {i}, length {n}"), || u.conj().entry(i));
        must_panic(&format!("diag, index {i}, length {n}"), || u.diag().entry(i, i));
    }
}

/// Expressions over stored matrices.
fn lazy_matrix(r: usize, c: usize) {
    let (a, b) = (RefM::<Sym>::any("a", r, c), RefM::<Sym>::any("b", r, c));
    let (x, y) = (a.stored(), b.stored());
    let yt = b.t().stored();
    let mut out: Vec<(usize, usize)> = vec![];
    for i in beyond(r, c) {
        out.extend([0, c / 2, c.wrapping_sub(1)].iter().filter(|j| **j < c.max(1)).map(|j| (i, *j)));
    }
    for j in beyond(c, r) {
        out.extend([0, r / 2, r.wrapping_sub(1)].iter().filter(|i| **i < r.max(1)).map(|i| (*i, j)));
        out.push((j.max(r), j));
    }
    for (i, j) in out {
        let l = |s: &str| format!("{s}, [{i}, {j}], shape {r}x{c}");
        must_panic(&l("map"), || (&x).wrap().map(|e| e + e).entry(i, j));
        must_panic(&l("zip"), || (&x).wrap().zip(&y).entry(i, j));
        must_panic(&l("+"), || (&x + &y).entry(i, j));
        must_panic(&l("-"), || (&x - &y).entry(i, j));
        must_panic(&l("mul_elemwise"), || x.mul_elemwise(&y).entry(i, j));
        must_panic(&l("t"), || x.t().entry(j, i));
        must_panic(&l("h"), || x.h().entry(j, i));
        must_panic(&l("expression t"), || (&x).wrap().t().entry(j, i));
        must_panic(&l("expression h"), || (&x).wrap().h().entry(j, i));
    }
    for i in beyond(r.min(c), 2) {
        must_panic(&format!("diag, {i}, shape {r}x{c}"), || x.diag().entry(i));
        must_panic(&format!("expression diag, {i}, shape {r}x{c}"), || (&x).wrap().diag().entry(i));
    }
    if c > 0 {
        for i in beyond(r, c) {
            for j in [0, r.wrapping_sub(1), i] {
                must_panic(&format!("product, [{i}, {j}], shape {r}x{c}x{r}"), || (&x * &yt).entry(i, j));
                must_panic(&format!("product, [{j}, {i}], shape {r}x{c}x{r}"), || (&x * &yt).entry(j, i));
            }
        }
    }
}

fn array<const R: usize, const C: usize>() {
    let a = RefM::<Sym>::any("a", R, C);
    let m: [[Sym; C]; R] = std::array::from_fn(|i| std::array::from_fn(|j| a.a[i][j]));
    for i in 0..R {
        for j in 0..C {
            prove(&format!("array, [{i}, {j}]"), MatrixExpr::entry(&m, i, j).eqs(a.a[i][j]));
            prove(&format!("wrapped array, [{i}, {j}]"), m.wrap().entry(i, j).eqs(a.a[i][j]));
        }
    }
    let mut out: Vec<(usize, usize)> = vec![];
    for i in beyond(R, C) {
        out.extend((0..C.max(1)).map(|j| (i, j)));
    }
    for j in beyond(C, R) {
        out.extend((0..R.max(1)).map(|i| (i, j)));
    }
    for (i, j) in out {
        must_panic(&format!("array, [{i}, {j}], shape {R}x{C}"), || MatrixExpr::entry(&m, i, j));
        must_panic(&format!("wrapped array, [{i}, {j}], shape {R}x{C}"), || m.wrap().entry(i, j));
    }
}

fn main() {
    symx::main("P17", |tier| {
        let mut l = vec![];
        macro_rules! statics {
            ($($n:literal)*) => { $( l.push(case(format!("static vector of dimension {}", $n), move || static_vector::<$n>(tier.pick(40, 130)))); )* };
        }
        statics!(0 1 2 3 4 5 6 7 8 9 15 16 17 31 32 33 63 64 65 127 128 129);
        macro_rules! arrays {
            ($($r:literal $c:literal),*) => { $( l.push(case(format!("array of shape {}x{}", $r, $c), array::<$r, $c>)); )* };
        }
        arrays!(0 0, 0 2, 2 0, 1 1, 1 4, 4 1, 2 2, 2 3, 3 2, 3 3, 5 4, 8 8, 17 2, 2 17);
        for n in [0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 65] {
            l.push(case(format!("expressions over vectors of length {n}"), move || lazy_vector(n)));
        }
        for (r, c) in [(0, 0), (0, 3), (3, 0), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (5, 2), (2, 5), (8, 8), (9, 7), (17, 2), (2, 17), (1, 33), (33, 1)] {
            l.push(case(format!("expressions over matrices of shape {r}x{c}"), move || lazy_matrix(r, c)));
        }
        let most = tier.pick(12, 40);
        let mut ns = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65];
        ns.extend(tier.pick(vec![100, 127, 128, 129, 255, 256, 257], (10..=140).chain([255, 256, 257, 511, 512, 513, 1000, 1024, 1025]).collect()));
        ns.sort();
        ns.dedup();
        for n in ns {
            l.push(case(format!("vector of length {n}"), move || vector(n, if n <= 40 { n } else { most })));
        }
        let mut shapes = vec![];
        let k = tier.pick(9, 20);
        for r in 0..=k {
            for c in 0..=k {
                shapes.push((r, c));
            }
        }
        shapes.extend([(8, 8), (9, 7), (16, 16), (33, 2), (2, 33), (1, 65), (65, 1), (17, 3), (3, 17), (0, 64), (64, 0), (16, 1), (1, 16), (32, 32), (1, 129), (129, 1), (2, 128), (128, 2)]);
        shapes.extend(tier.pick(vec![], vec![(33, 31), (31, 33), (129, 2), (2, 129), (1, 257), (257, 1), (1, 513), (513, 1), (64, 4), (4, 64), (255, 4), (4, 255), (128, 9), (9, 128), (40, 40), (64, 17)]));
        shapes.sort();
        shapes.dedup();
        for (r, c) in shapes {
            l.push(case(format!("matrix of shape {r}x{c}"), move || matrix(r, c, if r * c <= 100 { 100 } else { most })));
        }
        l
    })
}
