//! P05: complex division.
use magnesia::algebra::{Complex, DivRefs};
use std::ops::*;
use symx::*;

type C = Complex<Sym>;

fn args() -> (Sym, Sym, Sym, Sym) {
    (any("a"), any("b"), any("c"), any("d"))
}

/// q * w = z, spelled out
fn quotient(label: &str, q: &C, z: (Sym, Sym), w: (Sym, Sym)) {
    prove(&format!("{label}: real part"), (q.re * w.0 - q.im * w.1).eqs(z.0));
    prove(&format!("{label}: imaginary part"), (q.re * w.1 + q.im * w.0).eqs(z.1));
}

fn complex() {
    let (a, b, c, d) = args();
    assume(c.non0().or(d.non0()));
    let (z, w) = (C::new(a, b), C::new(c, d));
    api("Complex::div(Complex)");
    quotient("z / w", &(z / w), (a, b), (c, d));
}

fn complex_ref() {
    let (a, b, c, d) = args();
    assume(c.non0().or(d.non0()));
    let (z, w) = (C::new(a, b), C::new(c, d));
    api("&Complex::div(&Complex)");
    quotient("&z / &w", &(&z / &w), (a, b), (c, d));
    quotient("z.div_refs(w)", &z.div_refs(&w), (a, b), (c, d));
    prove("z unchanged", z.re.eqs(a).and(z.im.eqs(b)));
    prove("w unchanged", w.re.eqs(c).and(w.im.eqs(d)));
}

/// As above on the parts of the plane where an implementation is likely to branch.
fn special(part: usize) {
    let (a, b, c, d) = args();
    match part {
        0 => {
            assume(d.is0());
            assume(c.non0());
        }
        1 => {
            assume(c.is0());
            assume(d.non0());
        }
        2 => {
            assume(c.non0());
            assume(c.eqs(d));
        }
        _ => {
            assume(c.non0());
            assume(c.eqs(-d));
        }
    }
    let (z, w) = (C::new(a, b), C::new(c, d));
    quotient("z / w", &(z / w), (a, b), (c, d));
    quotient("&z / &w", &(&z / &w), (a, b), (c, d));
}

fn round_trip() {
    let (a, b, c, d) = args();
    assume(c.non0().or(d.non0()));
    let (z, w) = (C::new(a, b), C::new(c, d));
    let q = (z * w) / w;
    prove("(z * w) / w: real part", q.re.eqs(a));
    prove("(z * w) / w: imaginary part", q.im.eqs(b));
    let u = w / w;
    prove("w / w: real part", u.re.eqs(int(1)));
    prove("w / w: imaginary part", u.im.is0());
}

fn scalar() {
    let (a, b, t, _) = args();
    assume(t.non0());
    let z = C::new(a, b);
    let chk = |label: &str, q: C| {
        prove(&format!("{label}: real part"), (q.re * t).eqs(a));
        prove(&format!("{label}: imaginary part"), (q.im * t).eqs(b));
    };
    api("Complex::div(T)");
    chk("z / t", Div::<Sym>::div(z, t));
    api("Complex::div(&T)");
    chk("z / &t", Div::<&Sym>::div(z, &t));
    api("&Complex::div(&T)");
    chk("&z / &t", Div::<&Sym>::div(&z, &t));
    prove("z unchanged", z.re.eqs(a).and(z.im.eqs(b)));
}

fn main() {
    symx::main("P05", |_| {
        let mut v = vec![
            case("complex by complex", complex),
            case("complex by complex, by reference", complex_ref),
            case("round trip", round_trip),
            case("complex by scalar", scalar),
        ];
        for p in 0..4 {
            v.push(case(format!("complex by complex, special divisors {p}"), move || special(p)));
        }
        v
    })
}
