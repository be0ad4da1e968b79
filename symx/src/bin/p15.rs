//! P15: dynamic matrix product and dot product.
use magnesia::algebra::Complex;
use magnesia::linalg::{DMatrix, DVector, MatrixExpr, VectorExpr};
use std::ops::{AddAssign, SubAssign};
use symx::*;

/// The definition, with the terms added from the last to the first.
fn product<T: Elem>(a: &RefM<T>, b: &RefM<T>) -> RefM<T> {
    RefM::new(a.m, b.n, |i, j| (0..a.n).rev().fold(T::rzero(), |s, k| s.radd(&a.a[i][k].rmul(&b.a[k][j]))))
}

fn mul<T: Num + AddAssign>(l: usize, m: usize, n: usize) {
    let (a, b) = (RefM::<T>::any("a", l, m), RefM::<T>::any("b", m, n));
    let (x, y) = (a.stored(), b.stored());
    let w = product(&a, &b);
    api("&DMatrix * &DMatrix");
    same_mat("a * b", &x * &y, &w);
    same_dmat("a * b, stored", &(&x * &y).eval(), &w);
    same_mat("a * b, wrapped", (&x * &y).wrap(), &w);
    same_dmat("left operand unchanged", &x, &a);
    same_dmat("right operand unchanged", &y, &b);
}

fn square<T: Num + AddAssign>(n: usize) {
    let a = RefM::<T>::any("a", n, n);
    let x = a.stored();
    same_mat("a * a", &x * &x, &product(&a, &a));
    let p = (&x * &x).eval();
    same_mat("(a * a) * a", &p * &x, &product(&product(&a, &a), &a));
    let e = DMatrix::<T>::eye(n).eval();
    same_mat("a * eye", &x * &e, &a);
    same_mat("eye * a", &e * &x, &a);
}

/// The product inside larger expressions.
fn nested<T: Num + AddAssign + SubAssign>(l: usize, m: usize, n: usize) {
    let (a, b, c) = (RefM::<T>::any("a", l, m), RefM::<T>::any("b", m, n), RefM::<T>::any("c", l, n));
    let (x, y, z) = (a.stored(), b.stored(), c.stored());
    let w = product(&a, &b);
    same_mat("(a * b).t()", (&x * &y).wrap().t(), &w.t());
    same_mat("(a * b).h()", (&x * &y).wrap().h(), &w.t().map(|v| v.rconj()));
    same_vec("(a * b).diag()", (&x * &y).wrap().diag(), &w.diag());
    same_mat("a * b + c", (&x * &y).wrap() + &z, &w.zip(&c, T::radd));
    same_mat("c - a * b", &z - (&x * &y), &c.zip(&w, T::rsub));
    same_mat("a * b .* c", (&x * &y).wrap().mul_elemwise(&z), &w.zip(&c, T::rmul));
    let mut t = z.clone();
    t += &x * &y;
    same_dmat("c += a * b", &t, &c.zip(&w, T::radd));
    let mut t = z.clone();
    t -= &x * &y;
    same_dmat("c -= a * b", &t, &c.zip(&w, T::rsub));
    let (xt, ch) = (x.t().eval(), z.h().eval());
    same_mat("c.h() * a", &ch * &x, &product(&c.t().map(|v| v.rconj()), &a));
    same_mat("a.t() * c", &xt * &z, &product(&a.t(), &c));
}

fn laws<T: Num + AddAssign>(k: usize, l: usize, m: usize, n: usize) {
    let (x, y, z) =
        (RefM::<T>::any("a", k, l).stored(), RefM::<T>::any("b", l, m).stored(), RefM::<T>::any("c", m, n).stored());
    let y2 = RefM::<T>::any("d", l, m).stored();
    let p = (&(&x * &y).eval() * &z).eval();
    let q = (&x * &(&y * &z).eval()).eval();
    let s = (&x * &(&y + &y2).eval()).eval();
    let s2 = ((&x * &y).wrap() + (&x * &y2)).eval();
    for i in 0..k {
        for j in 0..n {
            prove("(a * b) * c = a * (b * c)", p[[i, j]].eqs(&q[[i, j]]));
        }
        for j in 0..m {
            prove("a * (b + d) = a * b + a * d", s[[i, j]].eqs(&s2[[i, j]]));
        }
    }
}

fn empty_inner() {
    let l = 1 + choose(3);
    let n = 1 + choose(3);
    let (a, b) = (RefM::<Sym>::any("a", l, 0), RefM::<Sym>::any("b", 0, n));
    let (x, y) = (a.stored(), b.stored());
    let p = &x * &y;
    check("inner dimension 0: shape", p.num_rows() == l && p.num_cols() == n);
    match panics(|| p.eval()) {
        Ok(p) => same_dmat("inner dimension 0", &p, &product(&a, &b)),
        Err(_) => fail(&format!("product of a {l}x0 and a 0x{n} matrix panics instead of giving the zero matrix")),
    }
}

fn term<T: Elem>(u: &T, v: &T) -> T {
    u.rconj().rmul(v)
}

fn dot<T: Num>(n: usize) {
    let (a, b) = (anys::<T>("a", n), anys::<T>("b", n));
    let (u, v) = (a.as_slice().eval(), b.as_slice().eval());
    let want = (0..n).rev().fold(T::rzero(), |s, i| s.radd(&term(&a[i], &b[i])));
    api("&DVector * &DVector");
    prove("&u * &v", (&u * &v).eqs(&want));
    same_dvec("left operand unchanged", &u, &a);
    same_dvec("right operand unchanged", &v, &b);
    let own = (0..n).rev().fold(T::rzero(), |s, i| s.radd(&term(&a[i], &a[i])));
    prove("&u * &u", (&u * &u).eqs(&own));
    api("DVector * DVector");
    let z: DVector<T> = DVector::<T>::zeros(n).eval();
    prove("&u * 0", (&u * &z).eqs(&T::rzero()));
    prove("0 * &u", (&z * &u).eqs(&T::rzero()));
    prove("u * v", (u * v).eqs(&want));
}

fn hermitian(n: usize) {
    type C = Complex<Sym>;
    let (a, b) = (anys::<C>("a", n), anys::<C>("b", n));
    let (u, v) = (a.as_slice().eval(), b.as_slice().eval());
    let p: C = &u * &v;
    let q: C = &v * &u;
    prove("<u,v> is the conjugate of <v,u>", p.re.eqs(q.re).and(p.im.eqs(int(0) - q.im)));
    let s: C = &u * &u;
    let sq = a.iter().rev().fold(int(0), |s, z| s + z.re * z.re + z.im * z.im);
    prove("<u,u> is the sum of squared norms", s.re.eqs(sq).and(s.im.is0()));
    prove("<u,u> is not negative", s.re.ge0());
    let w: C = &(&u + &v).eval() * &v;
    let t: C = &v * &v;
    prove("<u+v,v> = <u,v> + <v,v>", w.re.eqs(p.re + t.re).and(w.im.eqs(p.im + t.im)));
    // sesquilinear: scalars of the left operand come out conjugated
    let k = <C as Elem>::any("k");
    let ku = a.iter().map(|x| x.rmul(&k)).collect::<Vec<C>>().as_slice().eval();
    let r: C = &ku * &v;
    let want = k.rconj().rmul(&p);
    prove("<k u,v> = conj(k) <u,v>", r.re.eqs(want.re).and(r.im.eqs(want.im)));
}

fn main() {
    symx::main("P15", |t| {
        let mut v = vec![];
        let lim = t.pick(6, 8);
        let mut shapes: Vec<(usize, usize, usize)> = vec![];
        for l in 0..=lim {
            for n in 0..=lim {
                for m in 0..=lim {
                    if m > 0 || l == 0 || n == 0 {
                        shapes.push((l, m, n));
                    }
                }
            }
        }
        for m in [7, 8, 9, 15, 16, 17, 31, 32, 33] {
            shapes.extend([(1, m, 1), (2, m, 1), (1, m, 2), (2, m, 3)]);
        }
        shapes.extend([(9, 2, 1), (1, 2, 9), (17, 1, 2), (2, 1, 17), (8, 8, 8), (9, 5, 7), (33, 2, 2), (2, 2, 33)]);
        for m in [63, 64, 65, 128, 129, 257] {
            shapes.extend([(1, m, 1), (2, m, 2)]);
        }
        shapes.extend([(65, 2, 2), (2, 2, 65), (16, 16, 16), (17, 17, 17), (12, 33, 10), (33, 33, 33), (1, 513, 1), (2, 1025, 1), (129, 3, 2), (3, 2, 129)]);
        if t == Tier::Thorough {
            for m in [48, 100, 256, 511, 512, 513] {
                shapes.extend([(1, m, 1), (2, m, 2)]);
            }
            shapes.extend([(24, 24, 24), (257, 3, 4), (3, 4, 257)]);
        }
        for &(l, m, n) in &shapes {
            v.push(case(format!("product over R, {l}x{m}x{n}"), move || mul::<Sym>(l, m, n)));
            if l <= 3 && m <= 3 && n <= 3 {
                v.push(case(format!("product over M2(R), {l}x{m}x{n}"), move || mul::<M2>(l, m, n)));
                v.push(case(format!("product over C, {l}x{m}x{n}"), move || mul::<Complex<Sym>>(l, m, n)));
                if l * m * n == 0 {
                    continue;
                }
                v.push(case(format!("nested over M2(R), {l}x{m}x{n}"), move || nested::<M2>(l, m, n)));
                v.push(case(format!("nested over C, {l}x{m}x{n}"), move || nested::<Complex<Sym>>(l, m, n)));
            }
        }
        let mut large = vec![(4, 4, 4), (5, 5, 5), (4, 5, 6), (6, 4, 5), (1, 5, 4), (4, 6, 1), (2, 9, 2), (1, 16, 2), (1, 17, 1), (1, 33, 1), (9, 2, 1), (1, 2, 9), (17, 1, 2), (8, 8, 8)];
        if t == Tier::Thorough {
            large.extend([(1, 64, 1), (2, 65, 1), (9, 9, 9), (12, 7, 5), (33, 2, 2), (2, 2, 33)]);
        }
        for (l, m, n) in large {
            v.push(case(format!("product over M2(R), {l}x{m}x{n}"), move || mul::<M2>(l, m, n)));
            v.push(case(format!("product over C, {l}x{m}x{n}"), move || mul::<Complex<Sym>>(l, m, n)));
            if l * m * n <= 130 {
                v.push(case(format!("nested over M2(R), {l}x{m}x{n}"), move || nested::<M2>(l, m, n)));
            }
        }
        for n in 0..=t.pick(4, 5) {
            v.push(case(format!("square over R, {n}"), move || square::<Sym>(n)));
            v.push(case(format!("square over M2(R), {n}"), move || square::<M2>(n)));
        }
        for (k, l, m, n) in [(1, 1, 1, 1), (1, 2, 3, 4), (2, 3, 1, 2), (2, 2, 2, 2), (3, 2, 3, 2)] {
            v.push(case(format!("laws over R, {k}x{l}x{m}x{n}"), move || laws::<Sym>(k, l, m, n)));
            v.push(case(format!("laws over M2(R), {k}x{l}x{m}x{n}"), move || laws::<M2>(k, l, m, n)));
        }
        v.push(case("product with inner dimension 0", empty_inner));
        let mut ns: Vec<usize> = (0..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 257, 513, 1025]).collect();
        if t == Tier::Thorough {
            ns.extend([24, 40, 48, 96, 100, 255, 512, 1000, 1024, 4099]);
        }
        for &n in &ns {
            v.push(case(format!("dot product over R, length {n}"), move || dot::<Sym>(n)));
            if n <= 17 {
                v.push(case(format!("dot product over M2(R), length {n}"), move || dot::<M2>(n)));
                v.push(case(format!("dot product over C, length {n}"), move || dot::<Complex<Sym>>(n)));
            }
            if n <= 5 {
                v.push(case(format!("dot product over Complex<M2(R)>, length {n}"), move || dot::<Complex<M2>>(n)));
            }
            if n <= 9 {
                v.push(case(format!("Hermitian form, length {n}"), move || hermitian(n)));
            }
        }
        v
    })
}
