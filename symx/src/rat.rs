//! Exact rationals over i128 (with overflow detection) and the replay value type.
use std::cmp::Ordering;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}

fn gcd(mut a: i128, mut b: i128) -> i128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a.abs()
}

impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn new(n: i128, d: i128) -> Option<Rat> {
        if d == 0 {
            return None;
        }
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        let n = (n / g).checked_mul(s)?;
        // the negation of a number must exist as well
        n.checked_neg()?;
        Some(Rat { n, d: (d / g).checked_mul(s)? })
    }
    pub fn add(self, o: Rat) -> Option<Rat> {
        let g = gcd(self.d, o.d);
        let n = self.n.checked_mul(o.d / g)?.checked_add(o.n.checked_mul(self.d / g)?)?;
        Rat::new(n, (self.d / g).checked_mul(o.d)?)
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn sub(self, o: Rat) -> Option<Rat> {
        self.add(o.neg())
    }
    pub fn mul(self, o: Rat) -> Option<Rat> {
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        Rat::new((self.n / g1).checked_mul(o.n / g2)?, (self.d / g2).checked_mul(o.d / g1)?)
    }
    pub fn div(self, o: Rat) -> Option<Rat> {
        if o.n == 0 {
            return None;
        }
        self.mul(Rat::new(o.d, o.n)?)
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
    pub fn f64(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    pub fn cmp(self, o: Rat) -> Option<Ordering> {
        Some(self.sub(o)?.n.cmp(&0))
    }
    pub fn sqrt(self) -> Option<Rat> {
        fn isqrt(n: i128) -> Option<i128> {
            if n < 0 {
                return None;
            }
            let mut r = (n as f64).sqrt() as i128;
            while r.checked_mul(r).map_or(true, |q| q > n) {
                r -= 1;
            }
            while (r + 1).checked_mul(r + 1).map_or(false, |q| q <= n) {
                r += 1;
            }
            if r * r == n {
                Some(r)
            } else {
                None
            }
        }
        Rat::new(isqrt(self.n)?, isqrt(self.d)?)
    }
    /// The exact value of a finite f64, if it fits.
    pub fn from_f64(x: f64) -> Option<Rat> {
        if !x.is_finite() {
            return None;
        }
        let mut d: i128 = 1;
        let mut y = x;
        while y != y.trunc() {
            y *= 2.0;
            d = d.checked_mul(2)?;
        }
        if y.abs() >= 1e37 {
            return None;
        }
        Rat::new(y as i128, d)
    }
    pub fn smt(self) -> String {
        let m = |n: i128| if n < 0 { format!("(- {}.0)", -n) } else { format!("{}.0", n) };
        if self.d == 1 {
            m(self.n)
        } else if self.n < 0 {
            format!("(- (/ {}.0 {}.0))", -self.n, self.d)
        } else {
            format!("(/ {}.0 {}.0)", self.n, self.d)
        }
    }
    pub fn text(self) -> String {
        if self.d == 1 {
            format!("{}", self.n)
        } else {
            format!("{}/{}", self.n, self.d)
        }
    }
    pub fn parse(s: &str) -> Option<Rat> {
        let mut it = s.split('/');
        let n = it.next()?.trim().parse().ok()?;
        let d = match it.next() {
            Some(d) => d.trim().parse().ok()?,
            None => 1,
        };
        Rat::new(n, d)
    }
}

/// A concrete value during replay: exact while possible.
#[derive(Clone, Copy, Debug)]
pub enum Val {
    X(Rat),
    A(f64),
}

impl Val {
    pub fn f64(self) -> f64 {
        match self {
            Val::X(r) => r.f64(),
            Val::A(x) => x,
        }
    }
    pub fn exact(self) -> Option<Rat> {
        match self {
            Val::X(r) => Some(r),
            Val::A(_) => None,
        }
    }
    pub fn lift2(a: Val, b: Val, e: impl Fn(Rat, Rat) -> Option<Rat>, f: impl Fn(f64, f64) -> f64) -> Val {
        if let (Val::X(x), Val::X(y)) = (a, b) {
            if let Some(r) = e(x, y) {
                return Val::X(r);
            }
        }
        Val::A(f(a.f64(), b.f64()))
    }
    pub fn text(self) -> String {
        match self {
            Val::X(r) => r.text(),
            Val::A(x) => format!("~{:?}", x),
        }
    }
    pub fn parse(s: &str) -> Option<Val> {
        if let Some(t) = s.strip_prefix('~') {
            t.parse().ok().map(Val::A)
        } else {
            Rat::parse(s).map(Val::X)
        }
    }
}
