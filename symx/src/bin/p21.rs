//! P21: the Ackley test function, from its LLVM code.
use magnesia::optimize::test_functions::ackley;
use std::sync::OnceLock;
use symx::llvm::{Consts, Module};
use symx::*;

const F: &str = "ir_ackley";

fn module() -> &'static Module {
    static M: OnceLock<Module> = OnceLock::new();
    M.get_or_init(|| symx::llvm::modules())
}

struct World {
    pi: Sym,
    e: Sym,
    consts: Consts,
}

fn world() -> World {
    congruent();
    let pi = any("pi");
    // as much about pi as is needed to tell it from other constants
    assume(rat(31_415_926, 10_000_000).lts(pi).and(pi.lts(rat(31_415_927, 10_000_000))));
    let e = exp(int(1));
    assume(rat(27_182_818, 10_000_000).lts(e).and(e.lts(rat(27_182_819, 10_000_000))));
    let r2 = sqrt(int(2));
    let named = vec![
        (std::f64::consts::PI, pi),
        (std::f64::consts::E, e),
        (std::f64::consts::SQRT_2, r2),
        (std::f64::consts::PI * std::f64::consts::SQRT_2, pi * r2),
    ];
    World { pi, e, consts: Consts::new(named) }
}

fn close(x: f64, y: f64) -> bool {
    let (x, y) = (x as f32, y as f32);
    let (a, b) = (x as f64, y as f64);
    let tau = 2.0 * std::f64::consts::PI;
    let r = 20.0 + std::f64::consts::E - 20.0 * (-0.2 * ((a * a + b * b) / 2.0).sqrt()).exp()
        - (((tau * a).cos() + (tau * b).cos()) / 2.0).exp();
    let got = ackley(x, y) as f64;
    // measured for f32: 4.4e-7 (1 + |x| + |y|); rounding of the argument of the cosine grows with it
    (got - r).abs() <= 8e-6 + 4e-6 * (a.abs() + b.abs())
}

/// In a concrete run the compiled function must agree with the formula, at the values of the
/// counterexample and near them.
fn real(label: &str, pts: &[(Sym, Sym)]) -> bool {
    if !replaying() {
        return false;
    }
    for &(x, y) in pts {
        let (x, y) = (number(x).unwrap(), number(y).unwrap());
        check(label, close(x, y));
        for i in -16..=16 {
            for j in -16..=16 {
                check(label, close(i as f64 * 0.3, j as f64 * 0.3) && close(x + i as f64 / 7.0, y + j as f64 / 7.0));
            }
        }
    }
    true
}

fn run(w: &World, x: Sym, y: Sym) -> Sym {
    api("ackley");
    let r = module().call(&w.consts, F, &[x, y]);
    if let (Some(x), Some(y), Some(r)) = (number(x), number(y), number(r)) {
        // the encoding computes what the compiled code computes (pi is only near pi in these runs)
        let d = (ackley(x as f32, y as f32) as f64 - r).abs();
        if x.abs() < 100.0 && y.abs() < 100.0 && d > 1e-2 {
            panic!("symx: the encoding gives {r} at {x}, {y}, the compiled code {}", ackley(x as f32, y as f32));
        }
    }
    r
}

/// The terms that the formula is made of
struct Parts {
    u: Sym,
    damp: Sym,
    wave: Sym,
    w: Sym,
}

fn parts(w: &World, x: Sym, y: Sym) -> Parts {
    let u = (x * x + y * y) * rat(1, 2);
    let damp = exp(-(rat(1, 5) * sqrt(u)));
    let wv = (cos(int(2) * w.pi * x) + cos(int(2) * w.pi * y)) * rat(1, 2);
    Parts { u, damp, wave: exp(wv), w: wv }
}

fn formula() {
    let w = world();
    let (x, y) = (any("x"), any("y"));
    let r = run(&w, x, y);
    let l = "20 + e - 20 exp(-0.2 sqrt((x^2+y^2)/2)) - exp((cos 2 pi x + cos 2 pi y)/2)";
    if real(l, &[(x, y)]) {
        return;
    }
    let p = parts(&w, x, y);
    prove(l, r.eqs(int(20) + w.e - int(20) * p.damp - p.wave));
}

fn symmetric() {
    let w = world();
    let (x, y) = (any("x"), any("y"));
    let r = run(&w, x, y);
    let pts = [(y, x), (-x, y), (x, -y), (-x, -y)];
    let rs: Vec<Sym> = pts.iter().map(|&(a, b)| run(&w, a, b)).collect();
    let l = "symmetric and even";
    if real(l, &[(x, y), pts[0], pts[1], pts[2], pts[3]]) {
        return;
    }
    for s in rs {
        prove(l, r.eqs(s));
    }
}

fn minimum() {
    let w = world();
    let (x, y) = (any("x"), any("y"));
    let r = run(&w, x, y);
    let l = "positive except at the origin";
    if real(l, &[(x, y)]) {
        return;
    }
    let p = parts(&w, x, y);
    // exp is increasing and exp(0) = 1: exp(-t) < 1 for t > 0, and exp(w) <= e for w <= 1
    let t = sqrt(p.u);
    assume(t.les(int(0)).or(p.damp.lts(int(1))));
    assume(t.pos().or(p.damp.eqs(int(1))));
    assume(int(1).lts(p.w).or(p.wave.les(w.e)));
    prove("non-negative", r.ge0());
    prove(l, r.pos().or(x.is0().and(y.is0())));
}

fn origin() {
    let w = world();
    let z = int(0);
    let r = run(&w, z, z);
    let l = "zero at the origin";
    if real(l, &[(z, z)]) {
        return;
    }
    prove(l, r.is0());
}

fn main() {
    symx::main("P21", |_| {
        vec![
            case("formula", formula),
            case("symmetry", symmetric),
            case("minimum", minimum),
            case("origin", origin),
        ]
    })
}
