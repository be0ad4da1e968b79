//! P07: principal square root.
use magnesia::algebra::Complex;
use magnesia::functions::Sqrt;
use symx::*;

fn root(z: Complex<Sym>) {
    api("Complex::sqrt");
    let (a, b) = (z.re, z.im);
    let s = z.sqrt();
    prove("Re s >= 0", s.re.ge0());
    prove("Re(s*s) = Re z", (s.re * s.re - s.im * s.im).eqs(a));
    prove("Im(s*s) = Im z", (s.re * s.im + s.re * s.im).eqs(b));
    prove("Im s >= 0 when Im z >= 0", b.ge0().not().or(s.im.ge0()));
    prove("Im s <= 0 when Im z < 0", b.ge0().or(s.im.les(int(0))));
    prove("z unchanged", z.re.eqs(a).and(z.im.eqs(b)));
}

fn everywhere() {
    root(Complex::new(any("a"), any("b")));
}

fn region(k: usize) {
    let (a, b) = (any("a"), any("b"));
    match k {
        0 => assume(b.is0().and(a.pos())),
        1 => assume(b.is0().and((-a).pos())),
        2 => assume(a.is0().and(b.pos())),
        3 => assume(a.is0().and((-b).pos())),
        4 => assume(a.is0().and(b.is0())),
        // the diagonals and the boundary between the branches of the implementation
        5 => assume(a.eqs(b)),
        6 => assume(a.eqs(-b)),
        7 => assume(a.eqs(b * int(2))),
        8 => assume(a.eqs(b * int(-2))),
        9 => assume(a.pos().and(b.pos())),
        10 => assume(a.pos().and((-b).pos())),
        11 => assume((-a).pos().and(b.pos())),
        _ => assume((-a).pos().and((-b).pos())),
    }
    let z = Complex::new(a, b);
    let s = z.sqrt();
    match k {
        0 => prove("positive reals have positive roots", s.im.is0().and(s.re.pos()).and((s.re * s.re).eqs(a))),
        1 => prove("negative reals map to the positive imaginary axis", s.re.is0().and(s.im.pos()).and((s.im * s.im).eqs(-a))),
        4 => prove("sqrt 0 = 0", s.re.is0().and(s.im.is0())),
        _ => {}
    }
    root(z);
}

/// literal axes: the components are constants
fn literal(k: usize) {
    let (x, z) = (any("x"), int(0));
    root(if k == 0 { Complex::new(x, z) } else { Complex::new(z, x) });
}

fn main() {
    symx::main("P07", |_| {
        let mut v = vec![case("everywhere", everywhere)];
        for k in 0..13 {
            v.push(case(format!("region {k}"), move || region(k)));
        }
        for k in 0..2 {
            v.push(case(format!("literal axis {k}"), move || literal(k)));
        }
        v
    })
}
