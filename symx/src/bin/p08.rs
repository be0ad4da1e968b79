//! P08: complex exp, trigonometric and hyperbolic functions, ln, arg.
use magnesia::algebra::Complex;
use magnesia::functions::{Atan2, Cos, Cosh, Exp, Ln, Sin, Sinh, Tan};
use symx::*;

type C = Complex<Sym>;

fn same(label: &str, z: C, re: Sym, im: Sym) {
    prove(&format!("{label}: real part"), z.re.eqs(re));
    prove(&format!("{label}: imaginary part"), z.im.eqs(im));
}

fn z() -> (Sym, Sym, C) {
    let (x, y) = (any("x"), any("y"));
    (x, y, C::new(x, y))
}

fn entire() {
    let (x, y, z) = z();
    api("Complex::exp");
    same("exp", z.exp(), exp(x) * cos(y), exp(x) * sin(y));
    api("Complex::sin");
    same("sin", z.sin(), sin(x) * cosh(y), cos(x) * sinh(y));
    api("Complex::cos");
    same("cos", z.cos(), cos(x) * cosh(y), -(sin(x) * sinh(y)));
    api("Complex::sinh");
    same("sinh", z.sinh(), sinh(x) * cos(y), cosh(x) * sin(y));
    api("Complex::cosh");
    same("cosh", z.cosh(), cosh(x) * cos(y), sinh(x) * sin(y));
}

/// Identities between the library's results
fn identities() {
    let (_, _, z) = z();
    let (s, c) = (z.sin(), z.cos());
    let o = s * s + c * c;
    same("sin^2 + cos^2", o, int(1), int(0));
    let (s, c) = (z.sinh(), z.cosh());
    let o = c * c - s * s;
    same("cosh^2 - sinh^2", o, int(1), int(0));
    let e = z.exp();
    same("cosh + sinh = exp", c + s, e.re, e.im);
    let f = (-z).exp();
    same("cosh - sinh = exp(-z)", c - s, f.re, f.im);
    same("exp z exp(-z) = 1", e * f, int(1), int(0));
    // sin(iz) = i sinh z
    let i = C::new(int(0), int(1));
    let l = (i * z).sin();
    let r = i * z.sinh();
    same("sin(iz) = i sinh z", l, r.re, r.im);
    let l = (i * z).cos();
    same("cos(iz) = cosh z", l, c.re, c.im);
}

fn tangent() {
    let (x, y, z) = z();
    let (sr, si) = (sin(x) * cosh(y), cos(x) * sinh(y));
    let (cr, ci) = (cos(x) * cosh(y), -(sin(x) * sinh(y)));
    assume(cr.non0().or(ci.non0()));
    api("Complex::tan");
    let t = z.tan();
    same("tan z cos z = sin z", C::new(t.re * cr - t.im * ci, t.re * ci + t.im * cr), sr, si);
}

fn tangent_axis(k: usize) {
    let x = any("x");
    let zz = int(0);
    if k == 0 {
        assume(cos(x).non0());
        let t = C::new(x, zz).tan();
        same("tan on the real axis", C::new(t.re * cos(x), t.im), sin(x), int(0));
    } else {
        let t = C::new(zz, x).tan();
        same("tan on the imaginary axis", C::new(t.re, t.im * cosh(x)), int(0), sinh(x));
    }
}

fn logarithm() {
    let (x, y, z) = z();
    assume(x.non0().or(y.non0()));
    api("Complex::ln");
    let l = z.ln();
    prove("ln: real part", (l.re + l.re).eqs(ln(x * x + y * y)));
    prove("ln: imaginary part", l.im.eqs(y.atan2(x)));
}

fn argument() {
    let (x, y, z) = z();
    api("Complex::arg");
    prove("arg", z.arg().eqs(y.atan2(x)));
}

fn main() {
    symx::main("P08", |_| {
        vec![
            case("exp, sin, cos, sinh, cosh", entire),
            case("identities", identities),
            case("tan", tangent),
            case("tan on the real axis", || tangent_axis(0)),
            case("tan on the imaginary axis", || tangent_axis(1)),
            case("ln", logarithm),
            case("arg", argument),
        ]
    })
}
