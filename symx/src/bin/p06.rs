//! P06: conj, sqr_norm, abs.
use magnesia::algebra::{Complex, Conj};
use magnesia::functions::Abs;
use symx::*;

type C<T> = Complex<T>;

fn conj<T: Elem>(commutes: bool) {
    let (a, b, c, d) = (T::any("a"), T::any("b"), T::any("c"), T::any("d"));
    let z = || C::new(a.clone(), b.clone());
    let w = || C::new(c.clone(), d.clone());
    api("Complex::conj");
    let k = z().conj();
    prove("conj: real part", k.re.eqs(&a));
    prove("conj: imaginary part", k.im.eqs(&b.rneg()));
    let kk = z().conj().conj();
    prove("conj is an involution", kk.re.eqs(&a).and(kk.im.eqs(&b)));
    let mut s = z();
    s += &w();
    let s = s.conj();
    prove("conj(z + w)", s.re.eqs(&a.radd(&c)).and(s.im.eqs(&b.radd(&d).rneg())));
    let p = (&z() * &w()).conj();
    let q = &z().conj() * &w().conj();
    prove("conj(z w) = conj z conj w", p.re.eqs(&q.re).and(p.im.eqs(&q.im)));
    api("Complex::sqr_norm");
    let n = a.rmul(&a).radd(&b.rmul(&b));
    prove("sqr_norm", z().sqr_norm().eqs(&n));
    if commutes {
        let m = &z() * &z().conj();
        prove("z conj z: real part", m.re.eqs(&n));
        prove("z conj z: imaginary part", m.im.eqs(&T::rzero()));
    }
}

fn abs() {
    let (a, b) = (any("a"), any("b"));
    let z = C::new(a, b);
    let n = a * a + b * b;
    api("Complex::abs");
    let r = Abs::abs(z);
    prove("abs >= 0", r.ge0());
    prove("abs^2 = sqr_norm", (r * r).eqs(n));
    api("&Complex::abs");
    let s = Abs::abs(&z);
    prove("abs by reference >= 0", s.ge0());
    prove("abs by reference squared", (s * s).eqs(n));
    prove("abs by value = abs by reference", r.eqs(s));
    prove("abs = 0 only at 0", r.is0().not().or(a.is0().and(b.is0())));
    let k = Abs::abs(z.conj());
    prove("abs conj = abs", k.eqs(r));
    let m = Abs::abs(-z);
    prove("abs(-z) = abs z", m.eqs(r));
}

fn multiplicative() {
    let (a, b, c, d) = (any("a"), any("b"), any("c"), any("d"));
    let (z, w) = (C::new(a, b), C::new(c, d));
    prove("sqr_norm(z w)", (z * w).sqr_norm().eqs(z.sqr_norm() * w.sqr_norm()));
    let (x, y, p) = (Abs::abs(z), Abs::abs(w), Abs::abs(z * w));
    prove("abs(z w)^2 = (abs z abs w)^2", (p * p).eqs((x * y) * (x * y)));
}

/// On an axis abs is the absolute value of the real number
fn axis(k: usize) {
    let x = any("x");
    let z = if k == 0 { C::new(x, int(0)) } else { C::new(int(0), x) };
    let r = Abs::abs(z);
    let s = Abs::abs(&z);
    prove("abs on an axis", r.eqs(x).or(r.eqs(-x)).and(r.ge0()));
    prove("abs by reference on an axis", s.eqs(x).or(s.eqs(-x)).and(s.ge0()));
}

fn main() {
    symx::main("P06", |_| {
        vec![
            case("conj and norm over R", || conj::<Sym>(true)),
            case("conj and norm over M2(R)", || conj::<M2>(false)),
            case("conj and norm over C", || conj::<Complex<Sym>>(true)),
            case("abs", abs),
            case("abs is multiplicative", multiplicative),
            case("abs on the real axis", || axis(0)),
            case("abs on the imaginary axis", || axis(1)),
        ]
    })
}
