//! P13: dynamic vectors and vector expressions.
use magnesia::algebra::Complex;
use magnesia::linalg::{make_vector_expr, DVector, VectorExpr};
use std::ops::{AddAssign, Div, SubAssign};
use symx::*;

fn stored<T: Elem>(a: &[T]) -> DVector<T> {
    a.eval()
}

fn sources<T: Num>(n: usize) {
    let a = anys::<T>("a", n);
    let c = T::any("c");
    api("VectorExpr for &[T]");
    let s: &[T] = &a;
    same_vec("slice", s, &a);
    api("VectorExprWrapper");
    same_vec("slice, wrapped", s.wrap(), &a);
    same_vec("slice, wrapped twice", s.wrap().wrap(), &a);
    api("DVector::eval");
    same_vec("stored", stored(&a), &a);
    same_vec("stored, evaluated twice", stored(&a).eval(), &a);
    let v = stored(&a);
    api("VectorExpr for &DVector");
    same_vec("reference", &v, &a);
    same_vec("reference, wrapped", (&v).wrap(), &a);
    same_vec("wrapped stored", stored(&a).wrap(), &a);
    same_dvec("stored after use by reference", &v, &a);
    api("make_vector_expr");
    let b = a.clone();
    same_vec("make_vector_expr", make_vector_expr(n, |i| b[i].clone()), &a);
    api("DVector::zeros");
    same_vec("zeros", DVector::<T>::zeros(n), &vec![T::rzero(); n]);
    api("DVector::ones");
    same_vec("ones", DVector::<T>::ones(n), &vec![T::rone(); n]);
    api("DVector::same");
    same_vec("same", DVector::same(n, c.clone()), &vec![c.clone(); n]);
    api("DVector::clone");
    same_dvec("clone", &v.clone(), &a);
}

fn unary<T: Num>(n: usize) {
    let a = anys::<T>("a", n);
    let (k, c) = (T::any("k"), T::any("c"));
    let s: &[T] = &a;
    let f = |x: T| x * k.clone() + c.clone();
    let w: Vec<T> = a.iter().map(|x| x.rmul(&k).radd(&c)).collect();
    api("VectorExprWrapper::map");
    same_vec("map", s.wrap().map(f), &w);
    same_vec("map over stored", stored(&a).wrap().map(f), &w);
    let w2: Vec<T> = w.iter().map(|x| x.rmul(&k).radd(&c)).collect();
    same_vec("map, map", s.wrap().map(f).map(f), &w2);
    // to another type
    let e = s.wrap().map(|x| (x.clone(), x * k.clone()));
    check("map to pairs: len", e.len() == n);
    for i in 0..n {
        let (x, y) = e.entry(i);
        prove("map to pairs", x.eqs(&a[i]).and(y.eqs(&a[i].rmul(&k))));
    }
    let w: Vec<T> = a.iter().map(|x| x.rconj()).collect();
    api("VectorExprWrapper::conj");
    same_vec("conj", s.wrap().conj(), &w);
    api("DVector::conj");
    let v = stored(&a);
    same_vec("stored conj", v.conj(), &w);
    same_vec("conj, conj", v.conj().conj(), &a);
    same_dvec("stored after conj", &v, &a);
    api("VectorExprWrapper::diag");
    same_mat("diag", s.wrap().diag(), &diagonal(&a));
    api("DVector::diag");
    same_mat("stored diag", v.diag(), &diagonal(&a));
    same_vec("diag, diag", v.diag().diag(), &a);
}

fn binary<T: Num>(n: usize) {
    let (a, b) = (anys::<T>("a", n), anys::<T>("b", n));
    let (s, t): (&[T], &[T]) = (&a, &b);
    let (u, v) = (stored(&a), stored(&b));
    api("VectorExprWrapper::zip");
    let z = s.wrap().zip(t);
    check("zip: len", z.len() == n);
    for i in 0..n {
        let (x, y) = z.entry(i);
        prove("zip", x.eqs(&a[i]).and(y.eqs(&b[i])));
    }
    let z = u.clone().wrap().zip(&v).eval();
    check("zip, eval: len", z.len() == n);
    for i in 0..n {
        prove("zip, eval", z[i].0.eqs(&a[i]).and(z[i].1.eqs(&b[i])));
    }
    let w = zipv(&a, &b, T::radd);
    api("VectorExprWrapper::add");
    same_vec("expr + expr", s.wrap() + t, &w);
    same_vec("expr + wrapped expr", s.wrap() + t.wrap(), &w);
    same_vec("expr + &stored", s.wrap() + &v, &w);
    same_vec("expr + stored", s.wrap() + v.clone(), &w);
    api("&DVector::add");
    same_vec("&stored + expr", &u + t, &w);
    same_vec("&stored + &stored", &u + &v, &w);
    same_vec("&stored + wrapped", &u + t.wrap(), &w);
    same_vec("u + u", &u + &u, &zipv(&a, &a, T::radd));
    let w = zipv(&a, &b, T::rsub);
    api("VectorExprWrapper::sub");
    same_vec("expr - expr", s.wrap() - t, &w);
    same_vec("expr - wrapped expr", s.wrap() - t.wrap(), &w);
    same_vec("expr - &stored", s.wrap() - &v, &w);
    same_vec("expr - stored", s.wrap() - v.clone(), &w);
    api("&DVector::sub");
    same_vec("&stored - expr", &u - t, &w);
    same_vec("&stored - &stored", &u - &v, &w);
    same_vec("&stored - wrapped", &u - t.wrap(), &w);
    let w = zipv(&a, &b, T::rmul);
    api("VectorExprWrapper::mul_elemwise");
    same_vec("mul_elemwise", s.wrap().mul_elemwise(t), &w);
    api("DVector::mul_elemwise");
    same_vec("stored mul_elemwise", u.mul_elemwise(t), &w);
    same_vec("stored mul_elemwise &stored", u.mul_elemwise(&v), &w);
    same_dvec("left operand unchanged", &u, &a);
    same_dvec("right operand unchanged", &v, &b);
}

fn in_place<T: Num + AddAssign<T> + SubAssign<T>>(n: usize) {
    let (a, b) = (anys::<T>("a", n), anys::<T>("b", n));
    let t: &[T] = &b;
    let v = stored(&b);
    let sum = zipv(&a, &b, T::radd);
    let dif = zipv(&a, &b, T::rsub);
    api("DVector::add_assign");
    let mut u = stored(&a);
    u += t;
    same_dvec("u += slice", &u, &sum);
    let mut u = stored(&a);
    u += &v;
    same_dvec("u += &v", &u, &sum);
    let mut u = stored(&a);
    u += v.clone();
    same_dvec("u += v", &u, &sum);
    let mut u = stored(&a);
    u += t.wrap().map(|x| x);
    same_dvec("u += expr", &u, &sum);
    api("DVector::sub_assign");
    let mut u = stored(&a);
    u -= t;
    same_dvec("u -= slice", &u, &dif);
    let mut u = stored(&a);
    u -= &v;
    same_dvec("u -= &v", &u, &dif);
    let mut u = stored(&a);
    u -= v.clone();
    same_dvec("u -= v", &u, &dif);
    let mut u = stored(&a);
    u -= t.wrap().map(|x| x);
    same_dvec("u -= expr", &u, &dif);
    u += &v;
    same_dvec("u -= expr, += &v", &u, &a);
    same_dvec("v unchanged", &v, &b);
}

fn quotient<T: Num + Div<Output = T>>(n: usize, non0: fn(&T) -> B) {
    let (a, b) = (anys::<T>("a", n), anys::<T>("b", n));
    for x in &b {
        assume(non0(x));
    }
    let (s, t): (&[T], &[T]) = (&a, &b);
    let (u, v) = (stored(&a), stored(&b));
    let chk = |label: &str, q: DVector<T>| {
        check(&format!("{label}: len"), q.len() == n);
        for i in 0..n {
            prove(&format!("{label}[{i}]"), q[i].rmul(&b[i]).eqs(&a[i]));
        }
    };
    api("VectorExprWrapper::div_elemwise");
    chk("div_elemwise", s.wrap().div_elemwise(t).eval());
    chk("div_elemwise &stored", s.wrap().div_elemwise(&v).eval());
    api("DVector::div_elemwise");
    chk("stored div_elemwise", u.div_elemwise(t).eval());
    chk("stored div_elemwise &stored", u.div_elemwise(&v).eval());
    let e = s.wrap().div_elemwise(t);
    check("div_elemwise: len", e.len() == n);
    for i in 0..n {
        prove(&format!("div_elemwise entry {i}"), e.entry(i).rmul(&b[i]).eqs(&a[i]));
    }
}

fn equality(n: usize, m: usize) {
    let (a, b) = (anys::<Sym>("a", n), anys::<Sym>("b", m));
    api("DVector::eq");
    let e = stored(&a) == stored(&b);
    let want = all_eq(&a, &b);
    prove("== compares lengths and entries", if e { want } else { want.not() });
}

fn program<T: Num + std::ops::AddAssign + std::ops::SubAssign>(n: usize, depth: usize) {
    let mut g = Gen::new();
    let kind = choose(5);
    let (e, w) = g.leaf_v::<T>(n, kind);
    let mut p = Prog::V(e, w);
    for _ in 0..depth {
        p = g.step(p);
    }
    if depth == 2 {
        finish_any(g, p)
    } else {
        finish(g, p)
    }
}

fn main() {
    symx::main("P13", |t| {
        let mut v = vec![];
        let mut ns: Vec<usize> = (0..=6).chain([7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 256, 257, 513, 1025, 4099]).collect();
        if t == Tier::Thorough {
            ns.extend([11, 13, 14, 18, 20, 24, 48, 255, 511, 512, 1000, 1024, 2049]);
        }
        for &n in &ns {
            v.push(case(format!("sources over R, length {n}"), move || sources::<Sym>(n)));
            v.push(case(format!("unary over R, length {n}"), move || unary::<Sym>(n)));
            v.push(case(format!("binary over R, length {n}"), move || binary::<Sym>(n)));
            v.push(case(format!("in place over R, length {n}"), move || in_place::<Sym>(n)));
            v.push(case(format!("quotient over R, length {n}"), move || quotient::<Sym>(n, |x| x.non0())));
            if n <= 4 {
                v.push(case(format!("sources over M2(R), length {n}"), move || sources::<M2>(n)));
                v.push(case(format!("unary over M2(R), length {n}"), move || unary::<M2>(n)));
                v.push(case(format!("binary over M2(R), length {n}"), move || binary::<M2>(n)));
                v.push(case(format!("in place over M2(R), length {n}"), move || in_place::<M2>(n)));
                v.push(case(format!("unary over C, length {n}"), move || unary::<Complex<Sym>>(n)));
                v.push(case(format!("binary over C, length {n}"), move || binary::<Complex<Sym>>(n)));
                v.push(case(format!("quotient over C, length {n}"), move || {
                    quotient::<Complex<Sym>>(n, |x| x.re.non0().or(x.im.non0()))
                }));
            }
        }
        for n in 0..=5 {
            for m in 0..=5 {
                v.push(case(format!("equality, lengths {n},{m}"), move || equality(n, m)));
            }
        }
        for n in [8, 9, 16, 17, 32, 33, 64, 65, 129, 257, 1025] {
            v.push(case(format!("equality, lengths {n},{n}"), move || equality(n, n)));
        }
        for n in [0, 1, 3] {
            v.push(case(format!("programs of 2 combinators over M2(R), length {n}"), move || program::<M2>(n, 2)));
            v.push(case(format!("programs of 2 combinators over C, length {n}"), move || program::<Complex<Sym>>(n, 2)));
        }
        v.push(case("programs of 3 combinators over R, length 2", move || program::<Sym>(2, 3)));
        if t == Tier::Thorough {
            v.push(case("programs of 3 combinators over C, length 2", move || program::<Complex<Sym>>(2, 3)));
            v.push(case("programs of 3 combinators over M2(R), length 2", move || program::<M2>(2, 3)));
            v.push(case("programs of 4 combinators over R, length 2", move || program::<Sym>(2, 4)).limit(100_000));
        }
        v
    })
}
