//! Exact rationals with a small-integer fast path.
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Q {
    S(i64, i64),
    B(Box<BigRational>),
}

fn gcd(mut a: i128, mut b: i128) -> i128 {
    if a < 0 {
        a = -a;
    }
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

impl Q {
    pub const ZERO: Q = Q::S(0, 1);
    pub const ONE: Q = Q::S(1, 1);
    pub fn int(n: i64) -> Q {
        Q::S(n, 1)
    }
    pub fn new(n: i64, d: i64) -> Q {
        Self::mk(n as i128, d as i128)
    }
    fn mk(n: i128, d: i128) -> Q {
        let (n, d) = if d < 0 { (-n, -d) } else { (n, d) };
        let g = gcd(n, d);
        let (n, d) = if g > 1 { (n / g, d / g) } else { (n, d) };
        if n > i64::MIN as i128 && n <= i64::MAX as i128 && d <= i64::MAX as i128 {
            Q::S(n as i64, d as i64)
        } else {
            Q::B(Box::new(BigRational::new_raw(BigInt::from(n), BigInt::from(d))))
        }
    }
    pub fn big(&self) -> BigRational {
        match self {
            Q::S(n, d) => BigRational::new_raw(BigInt::from(*n), BigInt::from(*d)),
            Q::B(b) => (**b).clone(),
        }
    }
    pub fn from_big(b: BigRational) -> Q {
        if let (Some(n), Some(d)) = (b.numer().to_i64(), b.denom().to_i64()) {
            if n != i64::MIN {
                return Q::S(n, d);
            }
        }
        Q::B(Box::new(b))
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, Q::S(0, _))
    }
    pub fn is_one(&self) -> bool {
        matches!(self, Q::S(1, 1))
    }
    pub fn sign(&self) -> i32 {
        match self {
            Q::S(n, _) => n.signum() as i32,
            Q::B(b) => {
                if b.is_zero() {
                    0
                } else if b.is_positive() {
                    1
                } else {
                    -1
                }
            }
        }
    }
    pub fn is_int(&self) -> bool {
        match self {
            Q::S(_, d) => *d == 1,
            Q::B(b) => b.denom().is_one(),
        }
    }
    pub fn to_i64(&self) -> Option<i64> {
        match self {
            Q::S(n, 1) => Some(*n),
            _ => None,
        }
    }
    pub fn neg(&self) -> Q {
        match self {
            Q::S(n, d) => Q::S(-*n, *d),
            Q::B(b) => Q::from_big(-(**b).clone()),
        }
    }
    pub fn add(&self, o: &Q) -> Q {
        if let (Q::S(a, b), Q::S(c, d)) = (self, o) {
            if *b == 1 && *d == 1 {
                return Self::mk(*a as i128 + *c as i128, 1);
            }
            let (a, b, c, d) = (*a as i128, *b as i128, *c as i128, *d as i128);
            if let (Some(x), Some(y)) = (a.checked_mul(d), c.checked_mul(b)) {
                if let (Some(s), Some(p)) = (x.checked_add(y), b.checked_mul(d)) {
                    return Self::mk(s, p);
                }
            }
        }
        Q::from_big(self.big() + o.big())
    }
    pub fn sub(&self, o: &Q) -> Q {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Q) -> Q {
        if let (Q::S(a, b), Q::S(c, d)) = (self, o) {
            return Self::mk(*a as i128 * *c as i128, *b as i128 * *d as i128);
        }
        Q::from_big(self.big() * o.big())
    }
    pub fn inv(&self) -> Q {
        match self {
            Q::S(n, d) => Self::mk(*d as i128, *n as i128),
            Q::B(b) => Q::from_big(b.recip()),
        }
    }
    pub fn div(&self, o: &Q) -> Q {
        self.mul(&o.inv())
    }
    pub fn abs(&self) -> Q {
        if self.sign() < 0 { self.neg() } else { self.clone() }
    }
    pub fn cmp(&self, o: &Q) -> Ordering {
        match self.sub(o).sign() {
            0 => Ordering::Equal,
            1 => Ordering::Greater,
            _ => Ordering::Less,
        }
    }
    pub fn from_f64(v: f64) -> Q {
        if v == v.trunc() && v.abs() < 9e15 {
            return Q::S(v as i64, 1);
        }
        Q::from_big(BigRational::from_float(v).expect("finite"))
    }
    pub fn to_f64(&self) -> f64 {
        match self {
            Q::S(n, d) => *n as f64 / *d as f64,
            Q::B(b) => {
                let (n, d) = (b.numer(), b.denom());
                let (nb, db) = (n.bits() as i64, d.bits() as i64);
                // scale so the quotient has ~ 64+ bits
                let sh = 66 - (nb - db);
                let q = if sh >= 0 { (n << sh as u64) / d } else { n / (d << (-sh) as u64) };
                let f = q.to_f64().unwrap_or(f64::NAN);
                // f * 2^-sh with care for range
                let mut r = f;
                let mut s = -sh;
                while s > 1000 {
                    r *= 2f64.powi(1000);
                    s -= 1000;
                }
                while s < -1000 {
                    r *= 2f64.powi(-1000);
                    s += 1000;
                }
                r * 2f64.powi(s as i32)
            }
        }
    }
    pub fn pow(&self, e: u32) -> Q {
        let mut r = Q::ONE;
        for _ in 0..e {
            r = r.mul(self);
        }
        r
    }
    pub fn floor(&self) -> Q {
        Q::from_big(self.big().floor())
    }
    /// Exact square root if it is rational.
    pub fn sqrt_exact(&self) -> Option<Q> {
        if self.sign() < 0 {
            return None;
        }
        let b = self.big();
        let (n, d) = (b.numer().sqrt(), b.denom().sqrt());
        if &(&n * &n) == b.numer() && &(&d * &d) == b.denom() {
            Some(Q::from_big(BigRational::new(n, d)))
        } else {
            None
        }
    }
    pub fn cbrt_exact(&self) -> Option<Q> {
        let b = self.big();
        let (n, d) = (b.numer().cbrt(), b.denom().cbrt());
        if &(&n * &n * &n) == b.numer() && &(&d * &d * &d) == b.denom() {
            Some(Q::from_big(BigRational::new(n, d)))
        } else {
            None
        }
    }
    /// Simplest rational within relative distance `tol` (continued fractions).
    pub fn snap(v: f64) -> Q {
        let exact = Q::from_f64(v);
        let (mut h0, mut h1, mut k0, mut k1) = (0i128, 1i128, 1i128, 0i128);
        let mut x = v;
        for _ in 0..24 {
            let a = x.floor();
            if a.abs() > 1e12 {
                break;
            }
            let ai = a as i128;
            let h2 = ai * h1 + h0;
            let k2 = ai * k1 + k0;
            if k2 > 2_000_000 {
                break;
            }
            h0 = h1;
            h1 = h2;
            k0 = k1;
            k1 = k2;
            let approx = h1 as f64 / k1 as f64;
            if approx == v || (approx - v).abs() <= v.abs() * 2.3e-16 {
                return Self::mk(h1, k1);
            }
            if x == a {
                break;
            }
            x = 1.0 / (x - a);
        }
        exact
    }
    pub fn smt(&self) -> String {
        let b = self.big();
        let n = b.numer().abs();
        let body = if b.denom().is_one() {
            format!("{}.0", n)
        } else {
            format!("(/ {}.0 {}.0)", n, b.denom())
        };
        if self.sign() < 0 { format!("(- {})", body) } else { body }
    }
}
