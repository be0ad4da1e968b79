//! P23: rounding errors of the complex functions stay small.
use magnesia::algebra::Complex;
use magnesia::functions::{Abs, Cos, Cosh, Exp, Ln, Sin, Sinh, Sqrt, Tan};
use symx::*;

type F = Complex<Fl>;
type R = Complex<f32>;
type D = (f64, f64);

fn z(n: &str) -> F {
    Complex::new(Fl::exact(any(&format!("{n}.re"))), Fl::exact(any(&format!("{n}.im"))))
}

/// The relative error is at most `k` units.
fn rel(label: &str, x: Fl, k: i128) {
    match x.bound() {
        Some(b) => prove(label, b.les(int(k) * mag(x.v))),
        None => fail(label),
    }
}

/// The error is at most `k` units of `size`.
fn within(label: &str, x: Fl, k: i128, size: Sym) {
    match x.bound() {
        Some(b) => prove(label, b.les(int(k) * size)),
        None => fail(label),
    }
}

const U: f64 = 1.0 / 16777216.0;

/// In a concrete run: the real code on f32, at the values of the counterexample and at others that
/// differ from them by powers of two, against the same formula in f64.
fn real<const N: usize>(label: &str, at: [F; N], f: impl Fn([R; N]) -> Vec<(f32, f64, f64)>) -> bool {
    if !replaying() {
        return false;
    }
    let x: Vec<D> = at.iter().map(|z| (number(z.re.v).unwrap(), number(z.im.v).unwrap())).collect();
    let steps: Vec<f64> = (-13..=13).map(|k| f64::powi(2.0, k)).collect();
    // other mantissas, in case rounding happens to be kind
    let mut inputs: Vec<Vec<D>> = vec![x.clone()];
    for m in [1.0, 1.1, 1.37, 1.73] {
        for &s in &steps {
            for &t in &steps {
                inputs.push(x.iter().map(|z| (z.0 * s * m, z.1 * t / m)).collect());
                inputs.push(x.iter().map(|z| if z.0 * z.1 == 0.0 { (s * m, -t / m) } else { (z.0 * s, z.0 * t * m) }).collect());
            }
        }
        for &s in &steps {
            for &t in &steps {
                inputs.push(x.iter().enumerate().map(|(i, z)| if i == 0 { (z.0 * m, z.1 / m) } else { (z.0 * s, z.1 * t * m) }).collect());
            }
        }
    }
    for i in inputs {
        if i.iter().any(|z| [z.0, z.1].iter().any(|c| *c != 0.0 && !(1e-7..1e7).contains(&c.abs()))) {
            continue;
        }
        let z: [R; N] = std::array::from_fn(|k| Complex::new(i[k].0 as f32, i[k].1 as f32));
        for (got, exact, bound) in f(z) {
            if !exact.is_finite() || exact.abs() > 1e30 || exact != 0.0 && exact.abs() < 1e-30 {
                continue;
            }
            check(label, (got as f64 - exact).abs() <= bound * U);
        }
    }
    true
}

fn d(z: R) -> D {
    (z.re as f64, z.im as f64)
}

fn both(got: R, exact: D, bound: (f64, f64)) -> Vec<(f32, f64, f64)> {
    vec![(got.re, exact.0, bound.0), (got.im, exact.1, bound.1)]
}

/// Componentwise relative error
fn comp(got: R, exact: D, k: f64) -> Vec<(f32, f64, f64)> {
    both(got, exact, (k * exact.0.abs(), k * exact.1.abs()))
}

fn root_of((a, b): D) -> D {
    let m = (a.hypot(b) + a.abs()) * 0.5;
    let (p, q) = (m.sqrt(), if m == 0.0 { 0.0 } else { b.abs() / (2.0 * m.sqrt()) });
    let (re, im) = if a >= 0.0 { (p, q) } else { (q, p) };
    (re, if b < 0.0 { -im } else { im })
}

const ROOT: i128 = 16;

fn root() {
    let z = z("z");
    api("Complex::sqrt");
    let s = Sqrt::sqrt(&z);
    let l = "sqrt: relative error of both parts at most 16 units";
    if real(l, [z], |[z]| comp(Sqrt::sqrt(&z), root_of(d(z)), ROOT as f64)) {
        return;
    }
    rel(l, s.re, ROOT);
    rel(l, s.im, ROOT);
}

fn absolute(by_ref: bool) {
    let z = z("z");
    api("Complex::abs");
    let a = if by_ref { (&z).abs() } else { z.abs() };
    let l = "abs: relative error at most 8 units";
    let exact = |z: R| d(z).0.hypot(d(z).1);
    if real(l, [z], |[z]| vec![(if by_ref { (&z).abs() } else { z.abs() }, exact(z), 8.0 * exact(z))]) {
        return;
    }
    rel(l, a, 8);
}

fn squared() {
    let z = z("z");
    api("Complex::sqr_norm");
    let a = z.sqr_norm();
    let l = "squared norm: relative error at most 8 units";
    let exact = |z: R| d(z).0 * d(z).0 + d(z).1 * d(z).1;
    if real(l, [z], |[z]| vec![(z.sqr_norm(), exact(z), 8.0 * exact(z))]) {
        return;
    }
    rel(l, a, 8);
}

/// exp, sin, cos, sinh, cosh: products of two real functions
fn entire(k: usize) {
    let z = z("z");
    fn fl<C: Exp + Sin + Cos + Sinh + Cosh>(k: usize, z: C) -> C {
        match k {
            0 => z.exp(),
            1 => z.sin(),
            2 => z.cos(),
            3 => z.sinh(),
            _ => z.cosh(),
        }
    }
    let exact = |(x, y): D| match k {
        0 => (x.exp() * y.cos(), x.exp() * y.sin()),
        1 => (x.sin() * y.cosh(), x.cos() * y.sinh()),
        2 => (x.cos() * y.cosh(), -(x.sin() * y.sinh())),
        3 => (x.sinh() * y.cos(), x.cosh() * y.sin()),
        _ => (x.cosh() * y.cos(), x.sinh() * y.sin()),
    };
    let name = ["exp", "sin", "cos", "sinh", "cosh"][k];
    api(&format!("Complex::{name}"));
    let w = fl(k, z);
    let l = format!("{name}: relative error of both parts at most 16 units");
    if real(&l, [z], |[z]| if z.re.abs() < 8.0 && z.im.abs() < 8.0 { comp(fl(k, z), exact(d(z)), 16.0) } else { vec![] }) {
        return;
    }
    rel(&l, w.re, 16);
    rel(&l, w.im, 16);
}

/// (|a| + |b|) (|c| + |d|)
fn size(z: F, w: F) -> Sym {
    (mag(z.re.v) + mag(z.im.v)) * (mag(w.re.v) + mag(w.im.v))
}
fn dsize(z: R, w: R) -> f64 {
    let (z, w) = (d(z), d(w));
    (z.0.abs() + z.1.abs()) * (w.0.abs() + w.1.abs())
}

fn product(form: usize) {
    let (z, w) = (z("z"), z("w"));
    fn mul<T: magnesia::algebra::Ring + Copy>(form: usize, z: Complex<T>, w: Complex<T>) -> Complex<T> {
        match form {
            0 => z * w,
            1 => &z * &w,
            _ => {
                let mut p = z;
                p *= w;
                p
            }
        }
    }
    api("Complex::mul");
    let p = mul(form, z, w);
    let l = "product: error of both parts at most 8 units of (|a|+|b|)(|c|+|d|)";
    let exact = |z: D, w: D| (z.0 * w.0 - z.1 * w.1, z.0 * w.1 + z.1 * w.0);
    if real(l, [z, w], |[z, w]| both(mul(form, z, w), exact(d(z), d(w)), (8.0 * dsize(z, w), 8.0 * dsize(z, w)))) {
        return;
    }
    let s = size(z, w);
    within(l, p.re, 8, s);
    within(l, p.im, 8, s);
}

fn quotient(form: usize) {
    let (z, w) = (z("z"), z("w"));
    assume(w.re.v.non0().or(w.im.v.non0()));
    fn div<T: magnesia::algebra::Field + Copy>(form: usize, z: Complex<T>, w: Complex<T>) -> Complex<T> {
        if form == 0 {
            z / w
        } else {
            &z / &w
        }
    }
    api("Complex::div");
    let p = div(form, z, w);
    // before the replay leaves: it takes decisions
    let s = size(z, w) / (w.re.v * w.re.v + w.im.v * w.im.v);
    let l = "quotient: error of both parts at most 16 units of (|a|+|b|)(|c|+|d|)/(c^2+d^2)";
    let n = |w: D| w.0 * w.0 + w.1 * w.1;
    let exact = |z: D, w: D| ((z.0 * w.0 + z.1 * w.1) / n(w), (z.1 * w.0 - z.0 * w.1) / n(w));
    if real(l, [z, w], |[z, w]| {
        if n(d(w)) == 0.0 {
            return vec![];
        }
        let s = 16.0 * dsize(z, w) / n(d(w));
        both(div(form, z, w), exact(d(z), d(w)), (s, s))
    }) {
        return;
    }
    within(l, p.re, 16, s);
    within(l, p.im, 16, s);
}

fn logarithm() {
    let z = z("z");
    assume(z.re.v.non0().or(z.im.v.non0()));
    api("Complex::ln");
    let w = z.ln();
    let l = "ln: error of the real part at most 16 units of 1 + |ln|z||, of the imaginary part 8 units of itself";
    let exact = |(x, y): D| (x.hypot(y).ln(), y.atan2(x));
    if real(l, [z], |[z]| {
        let e = exact(d(z));
        if d(z) == (0.0, 0.0) { vec![] } else { both(z.ln(), e, (16.0 * (1.0 + e.0.abs()), 8.0 * e.1.abs())) }
    }) {
        return;
    }
    within(l, w.re, 16, int(1) + mag(w.re.v));
    rel(l, w.im, 8);
}

fn tangent() {
    let z = z("z");
    api("Complex::tan");
    let (x, y) = (z.re.v, z.im.v);
    use fl::{cos, cosh, sin, sinh};
    let (sr, si) = (sin(x) * cosh(y), cos(x) * sinh(y));
    let (cr, ci) = (cos(x) * cosh(y), -(sin(x) * sinh(y)));
    assume(cr.non0().or(ci.non0()));
    let w = z.tan();
    let n = cr * cr + ci * ci;
    let s = (mag(sr) + mag(si)) * (mag(cr) + mag(ci)) / n;
    let l = "tan: error of both parts at most 32 units of (|a|+|b|)(|c|+|d|)/(c^2+d^2) for sin = a+bi, cos = c+di";
    let parts = |(x, y): D| ((x.sin() * y.cosh(), x.cos() * y.sinh()), (x.cos() * y.cosh(), -(x.sin() * y.sinh())));
    if real(l, [z], |[z]| {
        if z.re.abs() > 8.0 || z.im.abs() > 8.0 {
            return vec![];
        }
        let (s, c) = parts(d(z));
        let n = c.0 * c.0 + c.1 * c.1;
        let size = 32.0 * (s.0.abs() + s.1.abs()) * (c.0.abs() + c.1.abs()) / n;
        both(z.tan(), ((s.0 * c.0 + s.1 * c.1) / n, (s.1 * c.0 - s.0 * c.1) / n), (size, size))
    }) {
        return;
    }
    within(l, w.re, 32, s);
    within(l, w.im, 32, s);
}

/// In a concrete run: the real code on f32 at the numbers of the counterexample and others near them.
fn real_list(label: &str, at: &[Sym], f: impl Fn(&[f32]) -> Vec<(f32, f64, f64)>) -> bool {
    if !replaying() {
        return false;
    }
    let x: Vec<f64> = at.iter().map(|s| number(*s).unwrap()).collect();
    let mut seed = 1u64;
    let mut next = || {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (seed >> 40) as f64 / 16777216.0 - 0.5
    };
    for k in 0..4000 {
        // exactly there, nearby, with other magnitudes
        let (near, far) = (f64::powi(2.0, -(k % 13)), if k % 3 == 2 { 24.0 } else { 0.0 });
        let y: Vec<f32> = x
            .iter()
            .map(|v| match k {
                0 => *v,
                _ => (if *v == 0.0 && k % 2 == 0 { 1.0 } else { *v }) * (1.0 + near * next()) * f64::powf(2.0, far * next()),
            } as f32)
            .collect();
        if y.iter().any(|c| *c != 0.0 && !(1e-7..1e7).contains(&c.abs())) {
            continue;
        }
        for (got, exact, bound) in f(&y) {
            if bound.is_finite() && bound < 1e30 && bound > 1e-30 {
                check(label, (got as f64 - exact).abs() <= bound * U);
            }
        }
    }
    true
}

fn fls(v: &[Sym]) -> Vec<Fl> {
    v.iter().map(|s| Fl::exact(*s)).collect()
}
fn inputs(n: &str, k: usize) -> Vec<Sym> {
    (0..k).map(|i| any(&format!("{n}{i}"))).collect()
}
fn sum(v: impl Iterator<Item = Sym>) -> Sym {
    v.fold(int(0), |a, b| a + b)
}

/// Horner's scheme or anything as accurate
fn evaluation(n: usize, by_ref: bool) {
    coarse();
    let a = inputs("a", n);
    let x = any("x");
    if n > 0 {
        assume(a[n - 1].non0());
    }
    fn eval<T: magnesia::algebra::Ring + Clone>(by_ref: bool, a: &[T], x: &T) -> T {
        let p = magnesia::algebra::Polynomial::from_coefficients(a.to_vec());
        if by_ref { p.eval_ref(x) } else { p.eval(x.clone()) }
    }
    api(if by_ref { "Polynomial::eval_ref" } else { "Polynomial::eval" });
    let y = eval(by_ref, &fls(&a), &Fl::exact(x));
    let k = 2 * n as i128 + 4;
    let l = format!("evaluation: error at most {k} units of the sum of |a_i||x|^i");
    let mut all = a.clone();
    all.push(x);
    if real_list(&l, &all, |v| {
        let (c, x) = (&v[..n], v[n] as f64);
        let exact = c.iter().rev().fold(0.0, |s, a| s * x + *a as f64);
        let size = c.iter().rev().fold(0.0, |s, a| s * x.abs() + a.abs() as f64);
        vec![(eval(by_ref, c, &v[n]), exact, k as f64 * size)]
    }) {
        return;
    }
    let m = mag(x);
    let mut size = int(0);
    for c in a.iter().rev() {
        size = size * m + mag(*c);
    }
    within(&l, y, k, size);
}

#[derive(Clone, Copy, Debug)]
enum Dot {
    Vectors,
    VectorsRef,
    Dynamic,
    DynamicVector,
    Static,
    StaticVector,
}

/// Sums of `N` products
fn dot<const N: usize>(form: Dot) {
    coarse();
    let (a, b) = (inputs("a", N), inputs("b", N));
    fn run<T, const N: usize>(form: Dot, a: &[T], b: &[T]) -> T
    where
        T: magnesia::algebra::Ring + magnesia::algebra::Conj + Copy + Default + std::ops::Mul<Output = T> + std::ops::Add<Output = T> + std::ops::AddAssign,
    {
        use magnesia::linalg::*;
        let a: [T; N] = std::array::from_fn(|i| a[i]);
        let b: [T; N] = std::array::from_fn(|i| b[i]);
        let col: [[T; 1]; N] = std::array::from_fn(|i| [b[i]]);
        match form {
            Dot::Vectors => SVector::from(a) * SVector::from(b),
            Dot::VectorsRef => SVector::from(a) * &SVector::from(b),
            Dot::Dynamic => (&[a].eval() * &col.eval()).entry(0, 0),
            Dot::Static => (&(&SMatrix::from([a]) * &SMatrix::from(col)) * &SVector::from([T::one()]))[0],
            Dot::DynamicVector => &a.eval() * &b.eval(),
            Dot::StaticVector => (&SMatrix::from([a]) * &SVector::from(b))[0],
        }
    }
    api(&format!("{form:?} product"));
    let y = run::<Fl, N>(form, &fls(&a), &fls(&b));
    let k = N as i128 + 4;
    let l = format!("sum of {N} products: error at most {k} units of the product of the sums of magnitudes");
    let all = [a.clone(), b.clone()].concat();
    if real_list(&l, &all, |v| {
        let (p, q) = v.split_at(N);
        let exact = p.iter().zip(q).map(|(a, b)| *a as f64 * *b as f64).sum();
        let size = p.iter().map(|a| a.abs() as f64).sum::<f64>() * q.iter().map(|a| a.abs() as f64).sum::<f64>();
        vec![(run::<f32, N>(form, p, q), exact, k as f64 * size)]
    }) {
        return;
    }
    within(&l, y, k, sum(a.iter().map(|s| mag(*s))) * sum(b.iter().map(|s| mag(*s))));
}

/// Operations that act component by component, with what they do to each component: the operator
/// and whether its right operand is the scalar `t`. All operands have 4 components.
fn componentwise<T>(a: &[T], b: &[T], t: T) -> Vec<(&'static str, char, bool, Vec<T>)>
where
    T: magnesia::algebra::Field + Copy + Default + std::ops::Add<Output = T> + std::ops::Sub<Output = T>,
    T: std::ops::Mul<Output = T> + std::ops::Div<Output = T> + std::ops::AddAssign + std::ops::SubAssign + std::ops::MulAssign,
    for<'a> T: std::ops::Mul<&'a T, Output = T> + std::ops::MulAssign<&'a T> + std::ops::Div<&'a T, Output = T>,
    for<'a, 'b> &'a T: std::ops::Mul<&'b T, Output = T> + std::ops::Div<&'b T, Output = T>,
{
    use magnesia::linalg::*;
    let mut l: Vec<(&'static str, char, bool, Vec<T>)> = vec![];
    macro_rules! by {
        ($n:literal $op:literal $scalar:literal $read:expr, $e:expr) => {
            l.push(($n, $op, $scalar, $read($e)))
        };
    }
    macro_rules! assigned {
        ($x:expr, $op:tt, $y:expr) => {{
            let mut r = $x;
            r $op $y;
            r
        }};
    }
    let (z1, z2, w1, w2) = (Complex::new(a[0], a[1]), Complex::new(a[2], a[3]), Complex::new(b[0], b[1]), Complex::new(b[2], b[3]));
    let c = |(p, q): (Complex<T>, Complex<T>)| vec![p.re, p.im, q.re, q.im];
    by!("complex +" '+' false c, (z1 + w1, z2 + w2));
    by!("complex += " '+' false c, (assigned!(z1, +=, w1), assigned!(z2, +=, &w2)));
    by!("complex -" '-' false c, (z1 - w1, z2 - w2));
    by!("complex -=" '-' false c, (assigned!(z1, -=, w1), assigned!(z2, -=, &w2)));
    by!("complex * t" '*' true c, (z1 * t, z2 * t));
    by!("complex / t" '/' true c, (z1 / t, z2 / &t));
    by!("&complex / &t" '/' true c, (&z1 / &t, &z2 / &t));
    let arr = |x: &[T]| -> [T; 4] { std::array::from_fn(|i| x[i]) };
    let (u, v) = (SVector::from(arr(a)), SVector::from(arr(b)));
    let r = |x: SVector<T, 4>| x.0.to_vec();
    by!("static vectors +" '+' false r, u + v);
    by!("static vectors + &" '+' false r, u + &v);
    by!("static vectors +=" '+' false r, assigned!(u, +=, v));
    by!("static vectors -" '-' false r, u - v);
    by!("static vectors - &" '-' false r, u - &v);
    by!("static vectors -= &" '-' false r, assigned!(u, -=, &v));
    by!("static vector * t" '*' true r, u * t);
    by!("static vector * &t" '*' true r, u * &t);
    by!("static vector *= t" '*' true r, assigned!(u, *=, t));
    let m = |x: &[T]| SMatrix::from([[x[0], x[1]], [x[2], x[3]]]);
    let (x, y) = (m(a), m(b));
    let r = |x: SMatrix<T, 2, 2>| {
        let (p, q) = (&x * &SVector::from([T::one(), T::zero()]), &x * &SVector::from([T::zero(), T::one()]));
        vec![p[0], q[0], p[1], q[1]]
    };
    by!("static matrices +" '+' false r, x + y);
    by!("static matrices + &" '+' false r, x + &y);
    by!("static matrices += &" '+' false r, assigned!(x, +=, &y));
    by!("static matrices -" '-' false r, x - y);
    by!("static matrices - &" '-' false r, x - &y);
    by!("static matrices -=" '-' false r, assigned!(x, -=, y));
    let (u, v): (DVector<T>, DVector<T>) = (arr(a).as_slice().eval(), arr(b).as_slice().eval());
    fn dv<T: Copy>(e: impl VectorExpr<Entry = T>) -> Vec<T> {
        (0..e.len()).map(|i| e.entry(i)).collect()
    }
    by!("vectors +" '+' false dv, &u + &v);
    by!("wrapped vectors +" '+' false dv, u.clone().wrap() + v.clone());
    by!("vectors +=" '+' false dv, assigned!(u.clone(), +=, &v));
    by!("vectors -" '-' false dv, &u - &v);
    by!("wrapped vectors -" '-' false dv, u.clone().wrap() - v.clone());
    by!("vectors -=" '-' false dv, assigned!(u.clone(), -=, &v));
    by!("vectors mul_elemwise" '*' false dv, u.mul_elemwise(&v));
    by!("wrapped vectors mul_elemwise" '*' false dv, u.clone().wrap().mul_elemwise(v.clone()));
    by!("vectors div_elemwise" '/' false dv, u.div_elemwise(&v));
    by!("wrapped vectors div_elemwise" '/' false dv, u.clone().wrap().div_elemwise(v.clone()));
    let (x, y): (DMatrix<T>, DMatrix<T>) = ([[a[0], a[1]], [a[2], a[3]]].eval(), [[b[0], b[1]], [b[2], b[3]]].eval());
    fn dm<T: Copy>(e: impl MatrixExpr<Entry = T>) -> Vec<T> {
        (0..4).map(|i| e.entry(i / 2, i % 2)).collect()
    }
    by!("matrices +" '+' false dm, &x + &y);
    by!("wrapped matrices +" '+' false dm, x.clone().wrap() + y.clone());
    by!("matrices +=" '+' false dm, assigned!(x.clone(), +=, &y));
    by!("matrices -" '-' false dm, &x - &y);
    by!("wrapped matrices -" '-' false dm, x.clone().wrap() - y.clone());
    by!("matrices -=" '-' false dm, assigned!(x.clone(), -=, &y));
    by!("matrices mul_elemwise" '*' false dm, x.mul_elemwise(&y));
    by!("wrapped matrices mul_elemwise" '*' false dm, x.clone().wrap().mul_elemwise(y.clone()));
    by!("matrices div_elemwise" '/' false dm, x.div_elemwise(&y));
    by!("wrapped matrices div_elemwise" '/' false dm, x.clone().wrap().div_elemwise(y.clone()));
    l
}

/// One rounding per component
fn once() {
    let (a, b, t) = (inputs("a", 4), inputs("b", 4), any("t"));
    b.iter().for_each(|s| assume(s.non0()));
    assume(t.non0());
    let all = componentwise(&fls(&a), &fls(&b), Fl::exact(t));
    let label = |n: &str| format!("{n}: every component is off by at most its own rounding");
    if replaying() {
        let at = [a, b, vec![t]].concat();
        for (k, (n, ..)) in all.iter().enumerate() {
            real_list(&label(n), &at, |v| {
                let (_, op, scalar, got) = componentwise(&v[..4], &v[4..8], v[8]).swap_remove(k);
                let one = |i: usize| {
                    let (x, y) = (v[i] as f64, v[if scalar { 8 } else { 4 + i }] as f64);
                    match op {
                        '+' => x + y,
                        '-' => x - y,
                        '*' => x * y,
                        _ => x / y,
                    }
                };
                got.iter().enumerate().map(|(i, g)| (*g, one(i), 1.0001 * one(i).abs())).collect()
            });
        }
        return;
    }
    for (n, _, _, got) in all {
        got.into_iter().for_each(|x| rel(&label(n), x, 1));
    }
}

fn main() {
    symx::main("P23", |tier| {
        let mut v = vec![case("sqrt", root), case("sqr_norm", squared), case("ln", logarithm), case("tan", tangent), case("component-wise operations", once)];
        for r in [false, true] {
            v.push(case(format!("abs, by reference {r}"), move || absolute(r)));
        }
        for k in 0..5 {
            v.push(case(["exp", "sin", "cos", "sinh", "cosh"][k], move || entire(k)));
        }
        for f in 0..3 {
            v.push(case(format!("product, form {f}"), move || product(f)));
        }
        for f in 0..2 {
            v.push(case(format!("quotient, form {f}"), move || quotient(f)));
        }
        let top = if tier == Tier::Quick { 4 } else { 6 };
        for n in 0..=top {
            for r in [false, true] {
                v.push(case(format!("evaluation of {n} coefficients, by reference {r}"), move || evaluation(n, r)));
            }
        }
        for form in [Dot::Vectors, Dot::VectorsRef, Dot::Dynamic, Dot::DynamicVector, Dot::Static, Dot::StaticVector] {
            v.push(case(format!("{form:?}, 1"), move || dot::<1>(form)));
            v.push(case(format!("{form:?}, 2"), move || dot::<2>(form)));
            v.push(case(format!("{form:?}, 3"), move || dot::<3>(form)));
            if tier != Tier::Quick {
                v.push(case(format!("{form:?}, 4"), move || dot::<4>(form)));
                v.push(case(format!("{form:?}, 6"), move || dot::<6>(form)));
            }
        }
        v
    })
}
