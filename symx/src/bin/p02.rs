//! P02: evaluation is sum a_i x^i; evaluation is a homomorphism.
use magnesia::algebra::{One, Polynomial, Zero};
use symx::*;

fn eval<T: Elem>(n: usize) {
    let a = anys::<T>("a", n);
    let x = T::any("x");
    let p = poly(&a);
    let want = peval(&a, &x);
    api("Polynomial::eval_ref");
    prove("eval_ref", p.eval_ref(&x).eqs(&want));
    api("Polynomial::eval");
    prove("eval", p.eval(x.clone()).eqs(&want));
    // evaluating does not change the polynomial or the point
    prove("second eval_ref", p.eval_ref(&x).eqs(&want));
    prove("p(0)", p.eval(T::rzero()).eqs(&at(&a, 0)));
    let mut s = T::rzero();
    for c in &a {
        s = s.radd(c);
    }
    prove("p(1)", p.eval(T::rone()).eqs(&s));
}

fn concrete_point(n: usize) {
    // special points: the library must not treat them differently
    let a = anys::<Sym>("a", n);
    for x in [-1i128, 0, 1, -2, 2, 3] {
        // the powers must be floats when counterexamples are replayed
        if n > 600 && x.abs() > 1 {
            break;
        }
        prove(&format!("p({x})"), poly(&a).eval(int(x)).eqs(peval(&a, &int(x))));
    }
}

/// Points whose powers do not commute with the coefficients.
fn matrix_point(n: usize) {
    let a = anys::<M2>("a", n);
    for x in [[1, 1, 0, 1], [0, -1, 1, 1], [1, 0, -1, 1], [0, 1, 0, 0]] {
        let x = M2(x.map(int));
        prove(&format!("p({x:?})"), poly(&a).eval(x).eqs(&peval(&a, &x)));
    }
}

fn homomorphism<T: Elem>(m: usize, n: usize, commutes: bool) {
    let (a, b) = (anys::<T>("a", m), anys::<T>("b", n));
    let x = T::any("x");
    let (p, q) = (poly(&a), poly(&b));
    let (px, qx) = (p.eval_ref(&x), q.eval_ref(&x));
    prove("(p+q)(x)", (p.clone() + q.clone()).eval_ref(&x).eqs(&px.radd(&qx)));
    prove("(p-q)(x)", (p.clone() - q.clone()).eval_ref(&x).eqs(&px.rsub(&qx)));
    prove("(-p)(x)", (-p.clone()).eval_ref(&x).eqs(&px.rneg()));
    if commutes {
        prove("(pq)(x)", (&p * &q).eval_ref(&x).eqs(&px.rmul(&qx)));
    }
    let mut r = p.clone();
    r += &q;
    prove("(p+=q)(x)", r.eval_ref(&x).eqs(&px.radd(&qx)));
    let mut r = p.clone();
    r -= &q;
    prove("(p-=q)(x)", r.eval_ref(&x).eqs(&px.rsub(&qx)));
}

fn constants<T: Elem>() {
    let x = T::any("x");
    api("Polynomial::zero");
    prove("zero()(x)", Polynomial::<T>::zero().eval_ref(&x).eqs(&T::rzero()));
    api("Polynomial::one");
    prove("one()(x)", Polynomial::<T>::one().eval_ref(&x).eqs(&T::rone()));
    prove("eval of zero()", Polynomial::<T>::zero().eval(x.clone()).eqs(&T::rzero()));
    prove("eval of one()", Polynomial::<T>::one().eval(x.clone()).eqs(&T::rone()));
}

fn main() {
    symx::main("P02", |t| {
        let mut v = vec![
            case("zero and one over R", constants::<Sym>),
            case("zero and one over M2(R)", constants::<M2>),
        ];
        let ns: Vec<usize> = t.pick((0..=70).chain([100, 127, 128, 129, 255, 256, 257, 513, 1025]).collect(), (0..=140).chain([200, 255, 256, 257, 513, 1000, 1025, 4099]).collect());
        for n in ns {
            v.push(case(format!("eval over R, length {n}"), move || eval::<Sym>(n)));
            v.push(case(format!("eval at fixed points, length {n}"), move || concrete_point(n)));
        }
        for n in 0..=5 {
            v.push(case(format!("eval over M2(R), length {n}"), move || eval::<M2>(n)));
        }
        for n in (6..=20).chain(t.pick(vec![33, 64, 65], vec![33, 64, 65, 129])) {
            v.push(case(format!("eval over M2(R) at fixed points, length {n}"), move || matrix_point(n)));
        }
        let l = t.pick(7, 9);
        for m in 0..=l {
            for n in 0..=l {
                v.push(case(format!("homomorphism over R, lengths {m},{n}"), move || homomorphism::<Sym>(m, n, true)));
                if m <= 3 && n <= 3 {
                    v.push(case(format!("homomorphism over M2(R), lengths {m},{n}"), move || homomorphism::<M2>(m, n, false)));
                }
            }
        }
        v
    })
}
